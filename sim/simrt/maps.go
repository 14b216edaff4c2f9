package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapEntry is one step of a range over a map.
type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
}

//go:noinline
func (e MapEntry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

//go:noinline
func (e MapEntry[K, V]) V() V { return e.m[e.K] }

// MapEntries replaces the order in which a map is ranged over by one the
// simulator decides.
//
//go:noinline
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[K, V] {
	ret := make([]MapEntry[K, V], 0, len(m))
	for k := range m {
		ret = append(ret, MapEntry[K, V]{k, m})
	}
	if len(ret) > 1 {
		order(len(ret), func(i int) any { return ret[i].K }, func(p []int) {
			out := make([]MapEntry[K, V], len(ret))
			for i, x := range p {
				out[i] = ret[x]
			}
			ret = out
		})
	}
	return ret
}

//go:noinline
func order(n int, key func(int) any, apply func([]int)) {
	switch reflect.TypeOf(key(0)).Kind() {
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan:
		return // no order that is the same in another process
	}
	type kv struct {
		s string
		i int
	}
	ks := make([]kv, n)
	for i := range ks {
		k := key(i)
		switch x := k.(type) {
		case string:
			ks[i] = kv{x, i}
		case int:
			ks[i] = kv{fmt.Sprintf("%021d", x), i}
		default:
			ks[i] = kv{fmt.Sprint(k), i}
		}
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a].s < ks[b].s })
	p := make([]int, n)
	mode, rng := mapOrder()
	switch mode {
	case 1:
		for i := range p {
			p[i] = ks[n-1-i].i
		}
	case 2:
		for i, j := range rng.Perm(n) {
			p[i] = ks[j].i
		}
	default:
		for i := range p {
			p[i] = ks[i].i
		}
	}
	apply(p)
}

// Order is the order in which n things that have none are gone through.
//
//go:noinline
func Order(n int) []int {
	p := make([]int, n)
	mode, rng := mapOrder()
	if mode == 2 {
		return rng.Perm(n)
	}
	for i := range p {
		p[i] = i
		if mode == 1 {
			p[i] = n - 1 - i
		}
	}
	return p
}
