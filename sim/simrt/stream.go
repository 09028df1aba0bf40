//go:build go1.21

package simrt

// Stream is a source of choices. Every decision of a simulated run is drawn from one
// of three streams (workload, faults, schedule). Choices are recorded, and may be
// replayed. Zero always is the simplest choice, so that recorded choices can be
// minimised by truncating and by replacing values with smaller ones.
type Stream struct {
	state  uint64
	replay []uint32 // choices to replay, if any
	fixed  bool     // replaying: zeros after end of replay
	pos    int
	rec    []uint32
}

// NewStream creates a stream of pseudo-random choices.
func NewStream(seed uint64) *Stream {
	return &Stream{state: seed}
}

// ReplayStream creates a stream of recorded choices, followed by zeros.
func ReplayStream(choices []uint32) *Stream {
	return &Stream{replay: choices, fixed: true}
}

// Mix is a finalizer of splitmix64.
//
//go:norace
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *Stream) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Exhausted is true if a replayed stream has run out of choices.
//
//go:norace
func (s *Stream) Exhausted() bool {
	return s.fixed && s.pos >= len(s.replay)
}

// Intn draws a choice from 0…n-1.
//
//go:norace
func (s *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v >= uint32(n) {
				v = v % uint32(n)
			}
		}
	} else {
		v = uint32((s.next() >> 32) % uint64(n))
	}
	s.pos++
	if len(s.rec) < cap(s.rec) {
		s.rec = s.rec[:len(s.rec)+1]
		s.rec[len(s.rec)-1] = v
	} else {
		s.grow(v)
	}
	return int(v)
}

//go:norace
func (s *Stream) grow(v uint32) {
	n := make([]uint32, len(s.rec)+1, 2*len(s.rec)+64)
	for i := range s.rec {
		n[i] = s.rec[i]
	}
	n[len(n)-1] = v
	s.rec = n
}

// Bool draws true with probability 1/n.
//
//go:norace
func (s *Stream) OneIn(n int) bool {
	return s.Intn(n) == n-1 && n > 1
}

// Recorded returns all choices drawn up to now, without trailing zeros.
//
//go:norace
func (s *Stream) Recorded() []uint32 {
	r := s.rec
	for len(r) > 0 && r[len(r)-1] == 0 {
		r = r[:len(r)-1]
	}
	return r
}
