// Package maps replaces the iteration parts of maps with simulator order.
package maps

import (
	"iter"
	gm "maps"
	"simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return simrt.RangeMap(m) }

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V])   { gm.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V           { return gm.Collect(seq) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool            { return gm.Equal(a, b) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                       { return gm.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) { gm.Copy(dst, src) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return gm.EqualFunc(a, b, eq)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) { gm.DeleteFunc(m, del) }
