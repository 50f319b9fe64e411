//go:build go1.24

// Package maps is the standard package with an iteration order drawn by the simulator.
package maps

import (
	"iter"
	real "maps"

	"github.com/crimist/trakx/zz/rt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it, k, v := rt.MapIter3(m); it.Next(&k, &v); {
			if !yield(k, v) {
				return
			}
		}
	}
}
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it, k, _ := rt.MapIter3(m); it.Next(&k, nil); {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it, _, v := rt.MapIter3(m); it.Next(nil, &v); {
			if !yield(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return real.Clone(rt.MR(m)) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	real.Copy(rt.MW(dst), rt.MR(src))
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for it, k, v := rt.MapIter3(m); it.Next(&k, &v); {
		if del(k, v) {
			delete(rt.MW(m), k)
		}
	}
}
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool {
	return real.Equal(rt.MR(m1), rt.MR(m2))
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return real.EqualFunc(rt.MR(m1), rt.MR(m2), eq)
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return real.Collect(seq) }
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	real.Insert(rt.MW(m), seq)
}
