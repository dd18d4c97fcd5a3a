package simrt

// Rng is splitmix64: one integer decides everything.
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed and stream name.
func NewRng(seed uint64, stream string) *Rng {
	h := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 0x100000001B3
	}
	r := &Rng{s: h}
	r.U64()
	return r
}

//go:norace
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rng) Chance(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// Pick draws one of the strings.
func (r *Rng) Pick(xs ...string) string { return xs[r.Intn(len(xs))] }
