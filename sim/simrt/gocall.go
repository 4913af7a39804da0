package simrt

import (
	"fmt"
	"reflect"
)

// GoCall starts fn(args...) as a simulated thread, arguments are evaluated already.
func GoCall(name string, fn any, args ...any) { goCall(name, false, fn, args) }

// GoCallSlice starts fn(args..., last...).
func GoCallSlice(name string, fn any, args ...any) { goCall(name, true, fn, args) }

func goCall(name string, slice bool, fn any, args []any) {
	f := reflect.ValueOf(fn)
	ft := f.Type()
	in := make([]reflect.Value, len(args))

	for i, a := range args {
		var pt reflect.Type

		switch {
		case ft.IsVariadic() && i >= ft.NumIn()-1 && !slice:
			pt = ft.In(ft.NumIn() - 1).Elem()
		default:
			pt = ft.In(i)
		}

		if a == nil {
			in[i] = reflect.Zero(pt)

			continue
		}

		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}

		in[i] = v
	}

	Go(name, func() {
		if slice {
			f.CallSlice(in)
		} else {
			f.Call(in)
		}
	})
	YOp()
}

// Println is builtin println.
func Println(args ...any) {
	s := fmt.Sprintln(args...)
	Printed(s)
}

// Print is builtin print.
func Print(args ...any) {
	s := ""
	for _, a := range args {
		s += fmt.Sprint(a)
	}

	Printed(s)
}
