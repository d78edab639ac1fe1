package main

// rng is the only source of choice of a scenario.
type rng struct{ s uint64 }

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// n is uniform in [0,k).
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u64() % uint64(k))
}

// in is uniform in [a,b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability k percent.
func (r *rng) p(k int) bool { return r.n(100) < k }

// small is geometric-ish from 0.
func (r *rng) small(max int) int {
	k := 0
	for k < max && r.n(3) != 0 {
		k++
	}
	return k
}

// pick draws an index with the given weights.
func (r *rng) pick(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	if t == 0 {
		return 0
	}
	x := r.n(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

func mix(a, b uint64) uint64 {
	r := rng{a ^ (b * 0xD1342543DE82EF95)}
	r.u64()
	return r.u64()
}
