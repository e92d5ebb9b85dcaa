package simrt

// Rng is splitmix64: small, fast and the same on every platform.
type Rng struct{ s uint64 }

// NewRng returns a generator; equal seeds give equal sequences.
func NewRng(seed uint64) *Rng { r := &Rng{seed}; r.Uint64(); return r }

// Uint64 returns the next value.
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// P is true with probability p.
func (r *Rng) P(p float64) bool { return float64(r.Uint64()>>11)/float64(1<<53) < p }

// Float is in [0,1).
func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / float64(1<<53) }

// Perm returns a permutation.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Fork derives an independent generator.
func (r *Rng) Fork() *Rng { return NewRng(r.Uint64()) }

// Mix hashes a sequence of values to a seed.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h ^= v
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
