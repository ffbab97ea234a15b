package main

import "math/bits"

// RNG is a splitmix64/xoshiro style generator. Every choice of a run is drawn
// from generators derived from the run seed, so one seed is one execution.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Fork derives an independent generator.
func (r *RNG) Fork(label string) *RNG {
	h := uint64(14695981039346656037)
	for i := 0; i < len(label); i++ {
		h ^= uint64(label[i])
		h *= 1099511628211
	}
	return &RNG{s: bits.RotateLeft64(r.s, 17) ^ h}
}

func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *RNG) U64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.U64() % n
}

// Range returns a value in [lo, hi].
func (r *RNG) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

func (r *RNG) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Log draws a value with a roughly uniform logarithm in [1, max].
func (r *RNG) Log(max uint64) uint64 {
	if max <= 1 {
		return max
	}
	b := bits.Len64(max)
	k := r.Intn(b) + 1
	var v uint64
	if k == 64 {
		v = r.U64()
	} else {
		v = r.U64n(1<<uint(k)) | 1<<uint(k-1)
	}
	if v > max {
		v = 1 + v%max
	}
	if v == 0 {
		v = 1
	}
	return v
}

func pick[T any](r *RNG, xs []T) T { return xs[r.Intn(len(xs))] }

func pickW(r *RNG, ws []int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	if t == 0 {
		return 0
	}
	x := r.Intn(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}
