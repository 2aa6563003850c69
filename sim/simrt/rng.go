package simrt

// Mix is the splitmix64 finaliser.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// HashStr hashes a string (FNV-1a, finalised).
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return Mix(h)
}

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{Mix(seed ^ 0x5bd1e995)} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Chance(p float64) bool { return r.Float() < p }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bytes fills b.
func (r *Rand) Bytes(b []byte) {
	for i := range b {
		if i%8 == 0 {
			x := r.U64()
			for j := i; j < len(b) && j < i+8; j++ {
				b[j] = byte(x)
				x >>= 8
			}
		}
	}
}

// Read makes Rand an io.Reader.
func (r *Rand) Read(b []byte) (int, error) { r.Bytes(b); return len(b), nil }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
