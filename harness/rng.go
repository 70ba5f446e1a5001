package main

// Rng is a splitmix64 generator: every case is determined by (seed, property,
// index) alone, independent of scheduling.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRng(seed uint64, salt string, idx int) *Rng {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for _, c := range []byte(salt) {
		h = mix(h ^ uint64(c)*0x100000001b3)
	}
	h = mix(h + uint64(idx)*0x9e3779b97f4a7c15)
	return &Rng{h}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }
func (r *Rng) Bool() bool         { return r.U64()&1 == 1 }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.Intn(100) < p }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func pick[T any](r *Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

func shuffled[T any](r *Rng, xs []T) []T {
	out := make([]T, len(xs))
	for i, p := range r.Perm(len(xs)) {
		out[i] = xs[p]
	}
	return out
}

func (r *Rng) Subset(n, pct int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if r.P(pct) {
			out = append(out, i)
		}
	}
	return out
}
