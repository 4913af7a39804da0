// Package fmt prints to the simulated standard output.
package fmt

import (
	rfmt "fmt"

	sos "github.com/vearutop/flatjsonl/verifsim/shim/os"
)

func Print(a ...any) (int, error)            { return rfmt.Fprint(sos.Stdout, a...) }
func Println(a ...any) (int, error)          { return rfmt.Fprintln(sos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return rfmt.Fprintf(sos.Stdout, f, a...) }
