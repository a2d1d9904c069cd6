package main

// Rng is a splitmix64 generator: one integer decides everything drawn from it.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// hashSeed derives an independent stream from a seed and labels.
func hashSeed(seed uint64, parts ...uint64) uint64 {
	h := mix(seed + 0x9e3779b97f4a7c15)
	for _, p := range parts {
		h = mix(h ^ mix(p+0x9e3779b97f4a7c15))
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N draws from [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R draws from [lo,hi].
func (r *Rng) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func (r *Rng) Fork() *Rng { return NewRng(r.U64()) }
