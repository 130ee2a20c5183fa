// Package maps replaces the standard package inside the transformed code: the
// same functions, enumerating in the order the environment chooses.
package maps

import (
	"iter"
	rm "maps"

	"verif.local/sim/simrt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range simrt.Entries(m) {
			if e.Live() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}
func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range simrt.Entries(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}
func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range simrt.Entries(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}
func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) { rm.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V             { return rm.Collect(seq) }
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool            { return rm.Equal(m1, m2) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return rm.EqualFunc(m1, m2, eq)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                         { return rm.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2)   { rm.Copy(dst, src) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) { rm.DeleteFunc(m, del) }
