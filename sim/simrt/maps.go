package simrt

import (
	"fmt"
	"sort"
)

// Keys returns the keys of a map in an order the simulator decides.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	type kv struct {
		s string
		k K
	}
	Hide()
	defer Unhide()
	list := make([]kv, 0, len(m))
	for k := range m {
		list = append(list, kv{fmt.Sprintf("%#v", k), k})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].s < list[j].s })
	r := NewRng(mapRand(), "map")
	for i := len(list) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		list[i], list[j] = list[j], list[i]
	}
	res := make([]K, len(list))
	for i := range list {
		res[i] = list[i].k
	}
	return res
}

// MapIter iterates over a map in an order the simulator decides.
type MapIter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
	v    V
}

// Iter starts an iteration.
func Iter[M ~map[K]V, K comparable, V any](m M) *MapIter[M, K, V] {
	return &MapIter[M, K, V]{m: m, keys: Keys(m), i: -1}
}

// Next goes to the next entry still there.
func (it *MapIter[M, K, V]) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if v, ok := it.m[it.keys[it.i]]; ok {
			it.v = v
			return true
		}
	}
	return false
}

// K and V are the current entry.
func (it *MapIter[M, K, V]) K() K { return it.keys[it.i] }
func (it *MapIter[M, K, V]) V() V { return it.v }
