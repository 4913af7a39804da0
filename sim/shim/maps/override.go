// Package maps iterates in an order decided by the simulator.
package maps

import (
	"iter"
	rmaps "maps"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] { return simrt.MapKeys[Map, K, V](m) }
func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return simrt.MapValues[Map, K, V](m)
}
func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return simrt.RangeMap[Map, K, V](m)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return rmaps.Clone(simrt.MR[M, K, V](m)) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	rmaps.Copy(simrt.MW[M1, K, V](dst), simrt.MR[M2, K, V](src))
}
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return rmaps.Equal(m1, m2) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	rmaps.DeleteFunc(simrt.MW[M, K, V](m), del)
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return rmaps.Collect(seq) }
func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) {
	rmaps.Insert(simrt.MW[Map, K, V](m), seq)
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return rmaps.EqualFunc(m1, m2, eq)
}
