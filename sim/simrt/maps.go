package simrt

import (
	"fmt"
	"iter"
	"sort"
)

// MapKeys lists the keys of m in an order that is a function of the seed
// alone: sorted, or permuted by the simulator (Go leaves the order open).
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			strs[i] = fmt.Sprintf("%#v", k)
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		keys = out
	}
	if s := active; s != nil && s.cfg.MapRandom && !s.killing {
		n := len(keys)
		r := s.cfg.Env.Intn(n)
		if r > 0 {
			s.mapDraws++
			keys = append(append([]K{}, keys[r:]...), keys[:r]...)
		}
	}
	return keys
}

// RangeMap iterates a map in simulator order; entries deleted during the
// iteration are not produced.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
