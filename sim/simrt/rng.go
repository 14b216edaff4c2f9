package simrt

// RNG is splitmix64: the only source of randomness of the simulator.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func Mix(a ...uint64) uint64 {
	h := uint64(0x51_7c_c1_b7_27_22_0a_95)
	for _, x := range a {
		h ^= x
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
	}
	return h
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n); 0 if n<=0.
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo,hi].
func (r *RNG) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *RNG) P(p float64) bool { return r.F() < p }

// Geo draws a number >=1 with the given mean.
func (r *RNG) Geo(mean int) int {
	if mean <= 1 {
		return 1
	}
	n := 1
	p := 1 / float64(mean)
	for n < mean*12 && !r.P(p) {
		n++
	}
	return n
}

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *RNG) Pick(s []string) string { return s[r.N(len(s))] }

// Pick2 picks a number.
func (r *RNG) Pick2(l []int) int { return l[r.N(len(l))] }

func (r *RNG) PickRune(l []rune) rune { return l[r.N(len(l))] }
