package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"slices"
	"unsafe"
)

type mapWin struct {
	p     uintptr
	tid   int
	write bool
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return *(*uintptr)(unsafe.Pointer(&m))
}

// access opens a window in which a conflicting access by another thread is the
// data race that the Go runtime reports as "concurrent map read and map write".
func access(p uintptr, write bool) {
	if w == nil || p == 0 {
		return
	}

	if dead {
		runtime.Goexit()
	}

	for _, x := range w.wins {
		if x.p == p && x.tid != w.cur.id && (x.write || write) {
			if x.write && write {
				Fatal("concurrent map writes")
			}

			Fatal("concurrent map read and map write")
		}
	}

	step++

	if step < nextAt {
		return
	}

	id := w.cur.id
	w.wins = append(w.wins, mapWin{p: p, tid: id, write: write})

	slow(-4)

	for i, x := range w.wins {
		if x.p == p && x.tid == id && x.write == write {
			w.wins = append(w.wins[:i], w.wins[i+1:]...)

			break
		}
	}
}

// MR announces a read access to a map.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	access(mapPtr[M, K, V](m), false)

	return m
}

// MW announces a write access to a map.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	access(mapPtr[M, K, V](m), true)

	return m
}

// RangeMap iterates a map in an order decided by the simulator.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		access(mapPtr[M, K, V](m), false)

		for _, k := range mapKeys[M, K, V](m) {
			v, ok := m[k]
			if !ok {
				continue
			}

			if !yield(k, v) {
				return
			}

			access(mapPtr[M, K, V](m), false)
		}
	}
}

// MapKeys iterates keys, MapValues values (package maps).
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap[M, K, V](m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues iterates values.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap[M, K, V](m) {
			if !yield(v) {
				return
			}
		}
	}
}

func mapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}

	if len(keys) < 2 {
		return keys
	}

	slices.SortFunc(keys, func(a, b K) int { return compareAny(a, b) })

	if w != nil && w.P.MapShuffle {
		for i := len(keys) - 1; i > 0; i-- {
			j := w.env.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}

	return keys
}

// HashSeed is the hash seed of a new map of a dependency. It decides the order of its elements, so it
// is a part of the run when maps are iterated in any order.
func HashSeed() uint64 {
	if w == nil || !w.P.MapShuffle {
		return 12345
	}

	w.hashes++
	r := NewRand(w.P.Seed, 0xa54+w.hashes)

	return r.Next()
}

func compareAny(a, b any) int {
	switch x := a.(type) {
	case string:
		return cmp.Compare(x, b.(string)) //nolint
	case int:
		return cmp.Compare(x, b.(int)) //nolint
	case int64:
		return cmp.Compare(x, b.(int64)) //nolint
	case uint64:
		return cmp.Compare(x, b.(uint64)) //nolint
	case fmt.Stringer:
		if y, ok := b.(fmt.Stringer); ok {
			return cmp.Compare(x.String(), y.String())
		}
	}

	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch {
		case va.CanInt():
			return cmp.Compare(va.Int(), vb.Int())
		case va.CanUint():
			return cmp.Compare(va.Uint(), vb.Uint())
		case va.CanFloat():
			return cmp.Compare(va.Float(), vb.Float())
		case va.Kind() == reflect.String:
			return cmp.Compare(va.String(), vb.String())
		}
	}

	return cmp.Compare(fmt.Sprintf("%v", a), fmt.Sprintf("%v", b))
}
