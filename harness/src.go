package main

// Deterministic choice source. Every random decision of a case is drawn from
// one Src, seeded from (seed, property, case index), or read from the bytes of
// a coverage-guided fuzzing engine.

type Src struct {
	state uint64
	data  []byte
	pos   int
	fuzz  bool
}

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func newSrc(seed uint64, prop string, idx int64) *Src {
	h := uint64(1469598103934665603)
	for i := 0; i < len(prop); i++ {
		h = (h ^ uint64(prop[i])) * 1099511628211
	}
	return &Src{state: mix64(seed*0x9e3779b97f4a7c15+1) ^ mix64(h) ^ mix64(uint64(idx)*0xd1342543de82ef95+7)}
}

func fuzzSrc(data []byte) *Src { return &Src{data: data, fuzz: true} }

func (s *Src) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix64(s.state)
}

func (s *Src) byteAt() uint64 {
	if s.pos >= len(s.data) {
		return 0
	}
	b := s.data[s.pos]
	s.pos++
	return uint64(b)
}

// N returns a value in [0, n). n <= 1 gives 0.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	if s.fuzz {
		v := s.byteAt()
		if n > 256 {
			v = v<<8 | s.byteAt()
		}
		if n > 65536 {
			v = v<<16 | s.byteAt()<<8 | s.byteAt()
		}
		return int(v % uint64(n))
	}
	return int(s.next() % uint64(n))
}

// R returns a value in [lo, hi].
func (s *Src) R(lo, hi int) int { return lo + s.N(hi-lo+1) }

// One reports true once in n times (never when the fuzz bytes are exhausted).
func (s *Src) One(n int) bool { return s.N(n) == n-1 }

func (s *Src) Bool() bool { return s.N(2) == 1 }

func pick[T any](s *Src, xs []T) T { return xs[s.N(len(xs))] }
