// Package simrand stands in for math/rand: the top-level functions draw from the simulator, and
// sources yield in the middle of their state update, where the real generator has none of the
// locking that would make concurrent use safe.
package simrand

import (
	"math/rand"
	"unsafe"

	"verif.local/simrt"
)

// source has the same stream as the real source of the same seed. Its position is updated by an
// interruptible read-modify-write, as the real one's is.
type source struct {
	real rand.Source64
	buf  []uint64
	pos  int
}

// NewSource mirrors rand.NewSource.
func NewSource(seed int64) rand.Source {
	return &source{real: rand.NewSource(seed).(rand.Source64)}
}

func (s *source) Seed(seed int64) {
	s.real.Seed(seed)
	s.buf, s.pos = nil, 0
}

func (s *source) Uint64() uint64 {
	p := s.pos
	simrt.Yield()
	for len(s.buf) <= p {
		s.buf = append(s.buf, s.real.Uint64())
	}
	v := s.buf[p]
	if Mode == 3 {
		v = 0
	}
	s.pos = p + 1
	if s.pos > 4096 && s.pos == len(s.buf) {
		s.buf, s.pos = s.buf[:0], 0
	}
	return v
}

func (s *source) Int63() int64 { return int64(s.Uint64() &^ (1 << 63)) }

// Mode says how the unseeded global generator behaves in this run.
//
//	0: uniform draws;  1: one stream per goroutine, restarted by Seed (so that what a goroutine
//	draws does not depend on the schedule);  2: adversarial: mostly extreme values;  3: every draw,
//	from seeded sources too, is the lowest value.
var Mode int

var global struct {
	rng   simrt.Rng
	epoch uint64
	lock  byte
}

//go:norace
func next() uint64 {
	if !simrt.Active() {
		return global.rng.Next()
	}
	if Mode == 3 {
		return 0
	}
	g := simrt.Cur()
	if Mode == 1 {
		if !g.HasRng {
			g.HasRng = true
			g.Rng.Seed(uint64(g.ID())*77777 + 5)
		}
		return g.Rng.Next()
	}
	if e := simrt.Epoch(); global.epoch != e {
		global.epoch = e
		global.rng.Seed(uint64(simrt.F.Draw(1 << 30)))
	}
	v := global.rng.Next()
	if Mode == 2 {
		switch v >> 61 {
		case 0, 1, 2:
			return 0
		case 3, 4:
			return ^uint64(0)
		}
		return global.rng.Next()
	}
	return v
}

// The global generator is safe for concurrent use in the real package.
type gsrc struct{}

func (gsrc) Uint64() uint64 {
	simrt.SyncPoint()
	simrt.RaceAcquire(unsafe.Pointer(&global.lock))
	v := next()
	simrt.RaceRelease(unsafe.Pointer(&global.lock))
	return v
}
func (s gsrc) Int63() int64 { return int64(s.Uint64() >> 1) }
func (gsrc) Seed(int64)     {}

//go:norace
func seed(x int64) {
	if !simrt.Active() {
		global.rng.Seed(uint64(x))
		return
	}
	if Mode == 1 {
		g := simrt.Cur()
		g.HasRng = true
		g.Rng.Seed(uint64(x))
		return
	}
	if e := simrt.Epoch(); global.epoch != e {
		global.epoch = e
	}
	global.rng.Seed(uint64(x) ^ uint64(simrt.F.Draw(1<<30)))
}

func r() *rand.Rand { return rand.New(gsrc{}) }

func Seed(x int64)                       { seed(x) }
func Int63() int64                       { return r().Int63() }
func Uint32() uint32                     { return r().Uint32() }
func Uint64() uint64                     { return r().Uint64() }
func Int31() int32                       { return r().Int31() }
func Int() int                           { return r().Int() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Intn(n int) int                     { return r().Intn(n) }
func Float64() float64                   { return r().Float64() }
func Float32() float32                   { return r().Float32() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
func NormFloat64() float64               { return r().NormFloat64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func Read(p []byte) (n int, err error)   { return r().Read(p) }
