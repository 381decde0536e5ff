// Package vmap visits maps in an order that is a choice.
package vmap

import (
	"fmt"
	"iter"
	"sort"

	"verif.local/shim/vctx"
)

type key[K comparable] struct {
	k K
	s string
}

func order[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	c := vctx.Get()
	if c == nil || c.X.Map == nil || len(keys) < 2 {
		return keys
	}
	ks := make([]key[K], len(keys))
	for i, k := range keys {
		ks[i] = key[K]{k, fmt.Sprint(k)}
	}
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	names := func() []string {
		l := make([]string, len(ks))
		for i := range ks {
			l[i] = ks[i].s
		}
		return l
	}
	out := make([]K, 0, len(keys))
	for _, i := range c.X.Map(len(keys), names) {
		out = append(out, ks[i].k)
	}
	return out
}

// It visits a map.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	K    K
	V    V
}

// Iter is the start of range m.
func Iter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	return &It[K, V]{m: m, keys: order(m)}
}

// Next goes to the next element that is still there.
func (i *It[K, V]) Next() bool {
	for len(i.keys) > 0 {
		i.K = i.keys[0]
		i.keys = i.keys[1:]
		if v, ok := i.m[i.K]; ok {
			i.V = v
			return true
		}
	}
	return false
}

// Keys is maps.Keys of x/exp.
func Keys[M ~map[K]V, K comparable, V any](m M) []K { return order(m) }

// Values is maps.Values of x/exp.
func Values[M ~map[K]V, K comparable, V any](m M) []V {
	r := make([]V, 0, len(m))
	for _, k := range order(m) {
		r = append(r, m[k])
	}
	return r
}

// SeqKeys is maps.Keys.
func SeqKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for i := Iter(m); i.Next(); {
			if !yield(i.K) {
				return
			}
		}
	}
}

// SeqValues is maps.Values.
func SeqValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for i := Iter(m); i.Next(); {
			if !yield(i.V) {
				return
			}
		}
	}
}

// SeqAll is maps.All.
func SeqAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for i := Iter(m); i.Next(); {
			if !yield(i.K, i.V) {
				return
			}
		}
	}
}
