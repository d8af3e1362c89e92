package simrt

// Rand is splitmix64: one integer decides everything that follows from it.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func Mix(a ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range a {
		h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h = mix64(h)
	}
	return h
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

//go:norace
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// Intn returns a number in [0, n); n <= 0 gives 0.
//
//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [a, b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

func (r *Rand) Chance(p float64) bool { return float64(r.Uint64()>>11)/(1<<53) < p }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func (r *Rand) Bytes(b []byte) {
	for i := range b {
		b[i] = byte(r.Uint64())
	}
}

// Fork returns an independent stream named by label.
func (r *Rand) Fork(label string) *Rand { return NewRand(Mix(r.s, HashString(label))) }
