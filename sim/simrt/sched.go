package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

const maxG = 512

const (
	gFree = iota
	gRunnable
	gBlocked // waiting on key
	gRunning
	gDone
)

// G is one simulated goroutine.
type G struct {
	id     int
	wake   chan struct{}
	state  int
	key    unsafe.Pointer
	prio   uint64
	asleep bool
	until  time.Time
	unw    bool // unwinding after an abort
	goid   uint64
	Data   unsafe.Pointer // shim-private, per-goroutine
	Rng    Rng
	HasRng bool
}

// Policy of a run's scheduler.
type Policy struct {
	Mode     int // 0 random walk, 1 priorities with change points (PCT), 2 run to block
	MeanFuel int // mean statements between preemptions (mode 0)
	SyncNum  int // chance (of 16) to reschedule at a synchronisation operation (mode 0)
	Changes  int // number of priority change points (mode 1)
	Span     int // statements over which change points are spread (mode 1)
	MapMode  int // 0 sorted, 1 permuted map iteration
	MaxSteps int64
}

// Outcome classes of a run, besides what the oracle says.
type Crash struct {
	Kind  string // "panic", "deadlock", "steps"
	Msg   string
	Stack string
}

var (
	active      bool
	aborting    bool
	cur         *G
	gs          [maxG]*G
	ng          int
	live        int
	fuel        int64
	fuelSet     int64
	stepBase    int64
	pol         Policy
	polRng      Rng
	mapSeed     uint64
	mapCtr      uint64
	crash       *Crash
	mainDone    bool
	np          int // no-preempt depth (harness critical sections)
	epoch       uint64
	seqNo       int64
	switches    int64
	preempts    int64
	trHash      uint64
	maxLive     int
	maxRunnable int
	clock0      time.Time
	nativeMu    sync.Mutex

	// Native is set by instrumented code that contains operations which block outside the
	// scheduler (channels, timers); goroutine identity is then checked at every slow point.
	Native bool
)

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Epoch identifies the current run.
//
//go:norace
func Epoch() uint64 { return epoch }

// Aborting reports that the run is being torn down.
//
//go:norace
func Aborting() bool { return aborting }

// Seq returns a fresh global event number.
//
//go:norace
func Seq() int64 { seqNo++; return seqNo }

// Cur returns the running simulated goroutine.
//
//go:norace
func Cur() *G { return cur }

// ID is the goroutine's spawn-order number; 0 is the workload's main goroutine.
//
//go:norace
func (g *G) ID() int { return g.id }

//go:norace
func hash(x uint64) {
	trHash = (trHash ^ x) * 0x100000001b3
	trHash ^= trHash >> 29
}

// Mark folds an observable event into the run's trace hash.
//
//go:norace
func Mark(x uint64) { hash(x + 0x51) }

// Yield is inserted before every statement of the code under test.
//
//go:norace
func Yield() {
	fuel--
	if fuel < 0 {
		slow(false)
	}
}

// SyncPoint is a scheduling decision point in a synchronisation operation.
//
//go:norace
func SyncPoint() {
	if active {
		slow(true)
	}
}

//go:norace
func newFuel() {
	if aborting {
		setFuel(0)
		return
	}
	var v uint32
	if S.replaying {
		v = S.Put(0)
	} else {
		switch pol.Mode {
		case 0:
			m := uint64(pol.MeanFuel)
			if m < 1 {
				m = 1
			}
			// Roughly geometric: the minimum of a few uniform draws keeps short bursts common.
			a, b := polRng.Next()%(4*m), polRng.Next()%(4*m)
			if b < a {
				a = b
			}
			v = uint32(a) + 1
		case 1:
			if pol.Changes > 0 {
				pol.Changes--
				v = uint32(polRng.Next()%uint64(pol.Span)) + 1
			}
		}
		v = S.Put(v)
	}
	if v == 0 {
		setFuel(1 << 40)
	} else {
		setFuel(int64(v))
	}
}

//go:norace
func setFuel(n int64) {
	left := pol.MaxSteps - stepBase
	if left < 0 {
		left = 0
	}
	if n > left {
		n = left
	}
	fuel, fuelSet = n, n
}

// Steps is the number of statements executed so far in this run.
//
//go:norace
func Steps() int64 { return stepBase + (fuelSet - fuel) }

// slow is reached when the fuel is out (a preemption point) or at a synchronisation operation.
//
//go:norace
func slow(sync bool) {
	if !active {
		fuel = 1 << 40
		fuelSet = fuel
		return
	}
	if Native {
		resync()
	}
	g := cur
	if g == nil {
		return
	}
	if aborting {
		if g.unw {
			fuel = 1 << 20
			fuelSet = fuel
			return
		}
		g.unw = true
		fuel = 1 << 20
		fuelSet = fuel
		runtime.Goexit()
	}
	expired := fuel < 0
	if expired {
		stepBase += fuelSet
		if stepBase >= pol.MaxSteps {
			fail("steps", "no completion within the step budget", "")
			g.unw = true
			runtime.Goexit()
		}
	}
	if np > 0 {
		if expired {
			setFuel(64)
		}
		return
	}
	if expired {
		if pol.Mode == 1 && !S.replaying {
			g.prio = polRng.Next() >> 33 // below every initial priority
		}
		newFuel()
	} else if !S.replaying && pol.Mode == 0 && int(polRng.Next()&15) >= pol.SyncNum {
		// stay; still record the decision so that replay is aligned
		if runnableOthers() > 0 {
			S.Put(0)
		}
		return
	}
	g.state = gRunnable
	n := pick(g)
	g.state = gRunning
	if n == g {
		return
	}
	preempts++
	handoff(g, n, gRunnable)
}

//go:norace
func runnableOthers() int {
	c := 0
	for i := 0; i < ng; i++ {
		if gs[i].state == gRunnable {
			c++
		}
	}
	return c
}

// pick chooses the next goroutine among the runnable ones; me (may be nil) comes first in the
// choice order if it is runnable.
//
//go:norace
func pick(me *G) *G {
	var cand [maxG]*G
	n := 0
	if me != nil && me.state == gRunnable {
		cand[0] = me
		n = 1
	}
	for i := 0; i < ng; i++ {
		if gs[i] != me && gs[i].state == gRunnable {
			cand[n] = gs[i]
			n++
		}
	}
	if n > maxRunnable {
		maxRunnable = n
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return cand[0]
	}
	var v uint32
	if !S.replaying {
		switch pol.Mode {
		case 0:
			v = uint32(polRng.Next() % uint64(n))
		case 1:
			for i := 1; i < n; i++ {
				if cand[i].prio > cand[v].prio {
					v = uint32(i)
				}
			}
		default:
			if me == nil || me.state != gRunnable {
				v = uint32(polRng.Next() % uint64(n))
			}
		}
	}
	v = S.Put(v) % uint32(n)
	return cand[v]
}

//go:norace
func handoff(g, n *G, st int) {
	switches++
	hash(uint64(n.id)<<8 | uint64(st))
	hash(uint64(Steps()))
	if g != nil {
		g.state = st
	}
	n.state = gRunning
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	if g != nil {
		<-g.wake
	}
	raceEnable()
	afterWake(g)
}

//go:norace
func afterWake(g *G) {
	if g == nil {
		return
	}
	cur = g
	g.state = gRunning
	if aborting && !g.unw {
		g.unw = true
		fuel, fuelSet = 1<<20, 1<<20
		runtime.Goexit()
	}
}

// Block parks the running goroutine until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer) {
	g := cur
	if aborting {
		if !g.unw {
			g.unw = true
			runtime.Goexit()
		}
		return
	}
	g.key = key
	g.state = gBlocked
	n := pick(nil)
	if n == nil {
		// Nobody can run: the root goroutine notices (synctest.Wait) and decides.
		cur = nil
		raceDisable()
		<-g.wake
		raceEnable()
		afterWake(g)
		return
	}
	handoff(g, n, gBlocked)
}

// Sleep lets simulated time pass: the caller goes on when nobody else can run any more before d is
// over.
func Sleep(d time.Duration) {
	if !Active() {
		time.Sleep(d)
		return
	}
	SyncPoint()
	sleep(d)
}

//go:norace
func sleep(d time.Duration) {
	cur.until, cur.asleep = time.Now().Add(d), true
	Block(unsafe.Pointer(cur))
}

//go:norace
func sleeper() *G {
	var first *G
	for i := 0; i < ng; i++ {
		if g := gs[i]; g.asleep && g.state == gBlocked && (first == nil || g.until.Before(first.until)) {
			first = g
		}
	}
	return first
}

// Wake makes every goroutine blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	for i := 0; i < ng; i++ {
		if gs[i].state == gBlocked && gs[i].key == key {
			gs[i].state = gRunnable
			gs[i].key = nil
		}
	}
}

// WakeG makes one blocked goroutine runnable.
//
//go:norace
func WakeG(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		g.key = nil
	}
}

//go:norace
func fail(kind, msg, stack string) {
	if crash == nil {
		crash = &Crash{kind, msg, stack}
	}
	aborting = true
	fuel, fuelSet = 0, 0
}

//go:norace
func newG() *G {
	if ng >= maxG {
		panic("simrt: too many goroutines")
	}
	g := gs[ng]
	g.id = ng
	ng++
	live++
	if live > maxLive {
		maxLive = live
	}
	g.state = gRunnable
	g.unw = false
	g.asleep = false
	g.key = nil
	g.HasRng = false
	g.Data = nil
	if !S.replaying {
		g.prio = polRng.Next() | 1<<63
	}
	return g
}

// Go replaces the go statement.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	if Aborting() {
		return
	}
	g := spawn()
	go gmain(g, f)
	SyncPoint()
}

//go:norace
func spawn() *G { return newG() }

func gmain(g *G, f func()) {
	gstart(g)
	defer gexit(g)
	defer func() {
		if r := recover(); r != nil {
			gpanic(g, r, string(debug.Stack()))
		}
	}()
	f()
}

//go:norace
func gstart(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
	if Native {
		g.goid = goid()
	}
	afterWake(g)
}

//go:norace
func gpanic(g *G, r interface{}, stack string) {
	fail("panic", fmt.Sprint(r), stack)
}

//go:norace
func gexit(g *G) {
	if Native {
		resync()
	}
	g.state = gDone
	live--
	if g.id == 0 {
		mainDone = true
	}
	if aborting {
		cur = nil
		return
	}
	n := pick(nil)
	if n == nil {
		cur = nil
		return
	}
	switches++
	hash(uint64(n.id)<<8 | gDone)
	n.state = gRunning
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// NoPreempt runs f without preemption (harness bookkeeping only).
//
//go:norace
func NoPreempt(f func()) {
	np++
	f()
	np--
}

// resync parks the caller if it is running without holding the baton: it was woken by an operation
// the scheduler does not own (a channel, a timer).
//
//go:norace
func resync() {
	if !active {
		return
	}
	id := goid()
	if cur != nil && cur.goid == id {
		return
	}
	var me *G
	for i := 0; i < ng; i++ {
		if gs[i].goid == id && gs[i].state != gDone {
			me = gs[i]
			break
		}
	}
	if me == nil {
		return
	}
	raceDisable()
	nativeMu.Lock()
	me.state = gRunnable
	nativeMu.Unlock()
	<-me.wake
	raceEnable()
	afterWake(me)
}

// Resync is inserted after every operation that may block outside the scheduler.
//
//go:norace
func Resync() {
	if active && Native {
		resync()
	}
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

var onReset []func()

// OnReset registers a function that puts a package's variables back to their initial values.
func OnReset(f func()) { onReset = append(onReset, f) }

// Stats of a finished run.
type Stats struct {
	Steps, Switches, Preempts int64
	MaxLive, MaxRunnable      int
	Hash                      uint64
	SimTime                   time.Duration
	Stuck                     int // goroutines that could not be unwound
}

// Setup prepares a run. Called outside the bubble.
func Setup(seed uint64, p Policy, replay bool, w, f, s []uint32) {
	var r Rng
	r.Seed(seed)
	W.reset(r.Next(), replay, w)
	F.reset(r.Next(), replay, f)
	S.reset(r.Next(), replay, s)
	polRng.Seed(r.Next())
	mapSeed = r.Next()
	if p.MapMode == 0 {
		mapSeed = 0
	}
	mapCtr = 0
	pol = p
	epoch++
}

// Run executes main as goroutine 0 inside the current synctest bubble and drives the run to its
// end. It returns the crash, if any.
func Run(main func()) (*Crash, Stats) {
	for i := range gs {
		gs[i] = &G{wake: make(chan struct{}, 1)}
	}
	ng, live, maxLive, maxRunnable = 0, 0, 0, 0
	crash, mainDone, aborting, np = nil, false, false, 0
	offers = nil
	seqNo, switches, preempts, trHash, stepBase = 0, 0, 0, 14695981039346656037, 0
	for _, f := range onReset {
		f()
	}
	clock0 = time.Now()
	active = true
	fuel, fuelSet = 0, 0
	newFuel()
	g := newG()
	go gmain(g, main)
	root(g)
	st := Stats{Steps: Steps(), Switches: switches, Preempts: preempts, MaxLive: maxLive,
		MaxRunnable: maxRunnable, Hash: trHash, SimTime: time.Since(clock0)}
	st.Stuck = drain()
	active = false
	fuel, fuelSet = 1<<40, 1<<40
	return crash, st
}

//go:norace
func root(first *G) {
	raceDisable()
	defer raceEnable()
	first.state = gRunning
	cur = first
	first.wake <- struct{}{}
	idle, polls, polled := 0, 0, int64(-1)
	for {
		synctest.Wait()
		// Every simulated goroutine is parked, blocked or finished.
		if aborting || (mainDone && live == 0) {
			return
		}
		nativeMu.Lock()
		n := pick(nil)
		nativeMu.Unlock()
		if n != nil {
			idle = 0
			n.state = gRunning
			cur = n
			n.wake <- struct{}{}
			continue
		}
		if g := sleeper(); g != nil {
			// Nobody can run before the first sleeper wakes up: simulated time passes.
			if d := time.Until(g.until); d > 0 {
				time.Sleep(d)
			}
			g.asleep = false
			WakeG(g)
			continue
		}
		if mainDone {
			// The workload returned but goroutines it started are still blocked.
			// Workers that wait for more work on a channel are nobody's loss.
			if crash == nil && !idleWorkers() {
				crash = &Crash{"leak", blockedSummary(), ""}
			}
			aborting = true
			return
		}
		if offers != nil {
			// A channel may be changed from outside the simulation when time passes.
			if polled != Steps() {
				polls, polled = 0, Steps()
			}
			if polls < 40 {
				polls++
				time.Sleep(time.Duration(1) << uint(polls) * time.Millisecond)
				pollChans()
				continue
			}
		}
		if Native && idle < 40 {
			// Let simulated time pass: a sleeping goroutine may become runnable.
			idle++
			time.Sleep(time.Duration(1) << uint(idle) * time.Millisecond)
			continue
		}
		fail("deadlock", blockedSummary(), "")
		return
	}
}

// idleWorkers reports that every goroutine left waits on a channel.
//
//go:norace
func idleWorkers() bool {
	for i := 0; i < ng; i++ {
		if gs[i].state == gDone {
			continue
		}
		waits := false
		for o := offers; o != nil; o = o.next {
			waits = waits || o.p.g == gs[i]
		}
		if !waits {
			return false
		}
	}
	return true
}

//go:norace
func blockedSummary() string {
	b, r := 0, 0
	for i := 0; i < ng; i++ {
		switch gs[i].state {
		case gBlocked:
			b++
		case gRunning:
			r++
		}
	}
	return fmt.Sprintf("%d goroutines blocked, %d blocked outside the scheduler, none can run", b, r)
}

// drain unwinds what is left after an abort.
//
//go:norace
func drain() int {
	raceDisable()
	defer raceEnable()
	stuck := 0
	if live > 0 {
		aborting = true
	}
	for i := 0; i < ng; i++ {
		g := gs[i]
		if g.state == gDone {
			continue
		}
		cur = g
		select {
		case g.wake <- struct{}{}:
		default:
		}
		synctest.Wait()
		if g.state != gDone {
			stuck++
		}
	}
	return stuck
}

// Stop ends the run: the oracle has seen enough. The calling goroutine does not return.
//
//go:norace
func Stop() {
	aborting = true
	fuel, fuelSet = 0, 0
	if cur != nil {
		cur.unw = true
	}
	runtime.Goexit()
}
