package simrt

import (
	"fmt"
	"iter"
	"sort"
)

// MapSeq replaces the map in a range clause of the library: same keys, an order the simulator chose.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			switch ks := any(keys).(type) {
			case []string:
				sort.Strings(ks)
			case []int:
				sort.Ints(ks)
			default:
				strs := make([]string, len(keys))
				for i, k := range keys {
					strs[i] = fmt.Sprintf("%v", k)
				}
				sort.Sort(&byStr[K]{keys, strs})
			}
			seed := mapSeed()
			switch mapMode() {
			case 1:
				for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			case 2:
				for i := len(keys) - 1; i > 0; i-- {
					seed = seed*6364136223846793005 + 1442695040888963407
					j := int((seed >> 33) % uint64(i+1))
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue // deleted during the iteration
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}
