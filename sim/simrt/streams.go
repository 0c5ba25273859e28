// Package simrt is the deterministic simulator's run-time: choice streams, a cooperative scheduler
// that decides every interleaving, and the state shared by the shim packages (sync, os, ...).
//
// One run is a pure function of three choice streams: W (the workload), F (the faults) and S (the
// schedule).  In search mode the streams are filled from a PRNG seeded with one integer and
// recorded; in replay mode they are read back, and every draw past the end of a recorded stream
// yields 0, which always means "the simplest choice" (no fault, no preemption, smallest size).
package simrt

// Rng is splitmix64.
type Rng struct{ s uint64 }

//go:norace
func (r *Rng) Seed(x uint64) { r.s = x }

//go:norace
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

const streamCap = 1 << 19

// Stream is one recorded stream of choices.
type Stream struct {
	rng       Rng
	rec       [streamCap]uint32
	n         int
	overflow  bool
	replaying bool
	replay    []uint32
}

// W, F and S are the workload, fault and schedule streams of the current run.
var W, F, S Stream

//go:norace
func (s *Stream) reset(seed uint64, replaying bool, replay []uint32) {
	s.rng.Seed(seed)
	s.n = 0
	s.overflow = false
	s.replaying = replaying
	s.replay = replay
}

// next returns the next recorded choice in replay mode; record appends one in either mode.
//
//go:norace
func (s *Stream) next() uint32 {
	if s.n < len(s.replay) {
		return s.replay[s.n]
	}
	return 0
}

//go:norace
func (s *Stream) record(v uint32) {
	if s.n < streamCap {
		s.rec[s.n] = v
	} else {
		s.overflow = true
	}
	s.n++
}

// Draw returns a choice in [0, n), uniform in search mode.
//
//go:norace
func (s *Stream) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replaying {
		v = s.next() % uint32(n)
	} else {
		v = uint32(s.rng.Next() % uint64(n))
	}
	s.record(v)
	return int(v)
}

// Chance returns true with probability num/den.
//
//go:norace
func (s *Stream) Chance(num, den int) bool {
	var v uint32
	if s.replaying {
		if s.next() != 0 {
			v = 1
		}
	} else if num > 0 && int(s.rng.Next()%uint64(den)) < num {
		v = 1
	}
	s.record(v)
	return v == 1
}

// Put records a choice computed by the caller in search mode (from raw random bits r) and returns
// it; in replay mode it returns the recorded choice.
//
//go:norace
func (s *Stream) Put(v uint32) uint32 {
	if s.replaying {
		v = s.next()
	}
	s.record(v)
	return v
}

// Recorded returns a copy of the choices made so far.
func (s *Stream) Recorded() []uint32 {
	n := s.n
	if n > streamCap {
		n = streamCap
	}
	// Trailing zeros are implied.
	for n > 0 && s.rec[n-1] == 0 {
		n--
	}
	out := make([]uint32, n)
	copy(out, s.rec[:n])
	return out
}

// Overflowed reports that the stream no longer fits its record: the run replays from its seed only.
func (s *Stream) Overflowed() bool { return s.overflow }

// Range draws from [lo, hi].
func (s *Stream) Range(lo, hi int) int { return lo + s.Draw(hi-lo+1) }

// Bool draws a fair coin.
func (s *Stream) Bool() bool { return s.Draw(2) == 1 }

// Unit draws a float in [0,1) with 2^20 grid points.
func (s *Stream) Unit() float64 { return float64(s.Draw(1<<20)) / (1 << 20) }
