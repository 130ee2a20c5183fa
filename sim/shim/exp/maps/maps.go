// Package maps replaces golang.org/x/exp/maps inside the transformed code.
package maps

import (
	rm "maps"

	"verif.local/sim/simrt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	r := make([]K, 0, len(m))
	for _, e := range simrt.Entries(m) {
		r = append(r, e.K)
	}
	return r
}
func Values[M ~map[K]V, K comparable, V any](m M) []V {
	r := make([]V, 0, len(m))
	for _, e := range simrt.Entries(m) {
		r = append(r, e.V())
	}
	return r
}
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return rm.Equal(m1, m2) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return rm.EqualFunc(m1, m2, eq)
}
func Clear[M ~map[K]V, K comparable, V any](m M)                           { clear(m) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                         { return rm.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2)   { rm.Copy(dst, src) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) { rm.DeleteFunc(m, del) }
