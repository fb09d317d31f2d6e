package main

// Src is the single source of randomness of a case: a recorded sequence of
// bounded choices. 0 is always the simplest choice, so lowering or deleting
// choices shrinks the case.
type Src struct {
	rec    []uint64
	replay []uint64
	isRep  bool
	pos    int
	state  uint64
	parent *Src // draws come from here and are recorded here too
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func NewSrc(seed uint64, prop string, index int) *Src {
	return &Src{state: mix(mix(seed) ^ hashStr(prop) ^ mix(uint64(index)*0x9e3779b97f4a7c15+77))}
}

// tee makes a source that draws from s and keeps a record of its own draws.
func (s *Src) tee() *Src { return &Src{parent: s} }

func ReplaySrc(ch []uint64) *Src { return &Src{replay: ch, isRep: true} }

func (s *Src) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws from [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.parent != nil {
		v = uint64(s.parent.N(n))
	} else if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % uint64(n)
		}
		s.pos++
	} else {
		v = s.next() % uint64(n)
	}
	s.rec = append(s.rec, v)
	return int(v)
}

// Int draws from [lo,hi], lo being simplest.
// Wide ranges favour the numbers of the dictionary now and then.
func (s *Src) Int(lo, hi int) int { return lo + s.size(hi-lo, lo) }

// size draws n from [0,max], sometimes such that base+n is a number of the dictionary.
func (s *Src) size(max, base int) int {
	if max < 64 {
		return s.N(max + 1)
	}
	d := theDict().between(base, base+max)
	extra := 0
	if len(d) > 0 {
		extra = (max+1)/12 + 1
	}
	v := s.N(max + 1 + extra)
	if v <= max {
		return v
	}
	return d[(v-max-1)%len(d)] - base
}

// Len draws a length from [0,max].
func (s *Src) Len(max int) int { return s.size(max, 0) }

// P is true with pct percent probability; false is simplest.
func (s *Src) P(pct int) bool { return s.N(100) >= 100-pct }

// Bool is a fair coin.
func (s *Src) Bool() bool { return s.N(2) == 1 }

// Small draws from [0,max] favouring small values.
func (s *Src) Small(max int) int {
	if max <= 0 {
		return 0
	}
	switch s.N(4) {
	case 0:
		return s.N(min(max, 2) + 1)
	case 1:
		return s.N(min(max, 6) + 1)
	case 2:
		return s.N(min(max, 20) + 1)
	}
	return s.Len(max)
}

// W picks an index by weights.
func (s *Src) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := s.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func pick[T any](s *Src, xs ...T) T { return xs[s.N(len(xs))] }

// Perm draws a permutation of n (identity is simplest).
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Raw draws n arbitrary bytes one choice per byte.
func (s *Src) Raw(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.N(256))
	}
	return b
}

// Expand makes n bytes from one drawn seed (cheap for long data).
func (s *Src) Expand(n int, alphabet []byte) []byte {
	x := uint64(s.N(1 << 30))
	b := make([]byte, n)
	for i := range b {
		x = mix(x)
		if alphabet == nil {
			b[i] = byte(x)
		} else {
			b[i] = alphabet[x%uint64(len(alphabet))]
		}
	}
	return b
}

// Data draws bytes of a varied character with length up to max.
func (s *Src) Data(max int) []byte {
	switch s.W(4, 2, 3, 2, 2) {
	case 0: // short, arbitrary
		return s.Raw(s.Small(min(max, 40)))
	case 1: // text like
		n := s.Small(min(max, 60))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + s.N(95))
		}
		return b
	case 2: // long random
		return s.Expand(s.Len(max), nil)
	case 3: // long, few symbols
		k := s.Int(1, 4)
		return s.Expand(s.Len(max), s.Raw(k))
	}
	// repetitive blocks
	var b []byte
	n := s.Len(max)
	for len(b) < n {
		if s.Bool() {
			c := byte(s.N(256))
			for k := s.Int(1, 300); k > 0; k-- {
				b = append(b, c)
			}
		} else {
			b = append(b, s.Raw(s.Int(1, 20))...)
		}
	}
	return b[:n]
}
