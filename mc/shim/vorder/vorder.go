// Package vorder replaces the iteration over maps in instrumented copies of
// the code under check: the order is decided by a hook.
package vorder

import (
	"fmt"
	"iter"
	"sort"
)

// Order, if set, returns a permutation of 0..n-1 for a map that is about to be
// visited. It is called with the natural order of the keys being ascending.
var Order func(n int) []int

// It is the state of an iteration.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	at   int
	key  K
	val  V
}

// New starts an iteration.
func New[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 {
		return it
	}
	sortKeys(it.keys)
	if Order != nil {
		perm := Order(len(it.keys))
		sorted := it.keys
		it.keys = make([]K, len(sorted))
		for i, p := range perm {
			it.keys[i] = sorted[p]
		}
	}
	return it
}

func sortKeys[K comparable](keys []K) {
	switch l := any(keys).(type) {
	case []string:
		sort.Strings(l)
	case []rune:
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	case []uint64:
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	case [][2]uint64:
		sort.Slice(l, func(i, j int) bool {
			return l[i][0] < l[j][0] || l[i][0] == l[j][0] && l[i][1] < l[j][1]
		})
	default:
		text := make(map[K]string, len(keys))
		for _, k := range keys {
			text[k] = fmt.Sprintf("%020v", k)
		}
		sort.Slice(keys, func(i, j int) bool { return text[keys[i]] < text[keys[j]] })
	}
}

// Next moves to the next entry; entries removed in the meantime are skipped.
func (it *It[K, V]) Next() bool {
	for it.at < len(it.keys) {
		it.key = it.keys[it.at]
		it.at++
		v, found := it.m[it.key]
		if found {
			it.val = v
			return true
		}
	}
	return false
}

func (it *It[K, V]) Key() K { return it.key }
func (it *It[K, V]) Val() V { return it.val }

// Keys, Values and All replace the functions of package maps.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := New(m); it.Next(); {
			if !yield(it.key) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := New(m); it.Next(); {
			if !yield(it.val) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := New(m); it.Next(); {
			if !yield(it.key, it.val) {
				return
			}
		}
	}
}
