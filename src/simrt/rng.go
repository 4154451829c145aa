package simrt

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

func (r *Rng) Chance(p float64) bool { return r.Float() < p }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Read fills b (never fails).
func (r *Rng) Read(b []byte) (int, error) {
	var w uint64
	for i := range b {
		if i%8 == 0 {
			w = r.Uint64()
		}
		b[i] = byte(w)
		w >>= 8
	}
	return len(b), nil
}

// HashString is FNV-1a followed by a finaliser.
func HashString(seed uint64, s string) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9E3779B97F4A7C15
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return Mix(h, uint64(len(s)))
}

// Mix combines two words.
func Mix(h, v uint64) uint64 {
	h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
	h ^= h >> 30
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 27
	h *= 0x94D049BB133111EB
	return h ^ (h >> 31)
}
