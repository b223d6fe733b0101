package sim

// Stream is a splitmix64-seeded xoshiro256** generator. Every choice a run
// makes comes from one of a handful of these, all derived from one seed.
type Stream struct{ s [4]uint64 }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewStream derives a stream from a seed and a purpose label.
func NewStream(seed uint64, label string) *Stream {
	x := seed
	for i := 0; i < len(label); i++ {
		x = (x ^ uint64(label[i])) * 0x100000001b3
		splitmix(&x)
	}
	st := &Stream{}
	for i := range st.s {
		st.s[i] = splitmix(&x)
	}
	return st
}

func rotl(x uint64, k uint) uint64 { return (x << k) | (x >> (64 - k)) }

func (r *Stream) Uint64() uint64 {
	s := &r.s
	res := rotl(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rotl(s[3], 45)
	return res
}

// Intn returns a number in [0,n); 0 when n <= 0.
func (r *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Stream) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

func (r *Stream) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// P reports true with probability p.
func (r *Stream) P(p float64) bool { return r.Float64() < p }

// Pick returns one of the weights' indices with proportional probability.
func (r *Stream) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	if t <= 0 {
		return 0
	}
	x := r.Intn(t)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

func (r *Stream) State() [4]uint64     { return r.s }
func (r *Stream) SetState(s [4]uint64) { r.s = s }
