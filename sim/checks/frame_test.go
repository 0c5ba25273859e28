// Package zzverif is the driver: it runs workloads against the instrumented code under the
// simulator, checks them against reference models, and shrinks what fails. It is copied into the
// instrumented tree and built there.
package zzverif

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/simrt"
	"verif.local/simrt/simos"
	"verif.local/simrt/simrand"
	"verif.local/simrt/simruntime"
)

// Check is one property's workload and oracle.
type Check struct {
	ID   string
	Span int // typical number of statements in a run; change points are spread over it
	Cap  int64
	Run  func(c *Ctx)
	// Sequential workloads have no concurrency: the scheduler policy is fixed.
	Sequential bool
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is one run's view of the harness.
type Ctx struct {
	viol       *Violation
	Nontrivial bool
	cover      map[string]int64
	info       []string
	trace      bool
	loud       func() bool // says whether a panic of any goroutine counts as a report of the fault
}

// Violation is what the oracle saw.
type Violation struct {
	Class  string
	Detail string
}

// W and F are the workload and fault streams.
var W, F = &simrt.W, &simrt.F

// Fail records a violation and ends the run.
func (c *Ctx) Fail(class, format string, a ...interface{}) {
	if c.viol == nil && !simrt.Aborting() {
		c.viol = &Violation{class, fmt.Sprintf(format, a...)}
	}
	simrt.Stop()
}

// quiet says that the harness must not touch its own shared state here: the race detector would
// report the harness, and a lock would hide the races of the code under test.
func quiet() bool { return simrt.RaceEnabled && simrt.Active() && simrt.Cur().ID() != 0 }

// Cover counts something the run reached.
func (c *Ctx) Cover(k string) { c.CoverN(k, 1) }

// CoverN adds to a count.
func (c *Ctx) CoverN(k string, n int) {
	if n != 0 && !quiet() {
		c.cover[k] += int64(n)
	}
}

// Note adds a line to the trace of a replayed run.
func (c *Ctx) Note(format string, a ...interface{}) {
	if c.trace && !quiet() && len(c.info) < 400 {
		c.info = append(c.info, fmt.Sprintf(format, a...))
	}
}

// Input is everything a run depends on.
type Input struct {
	Prop    string
	Seed    uint64
	Policy  simrt.Policy
	Replay  bool // streams given; otherwise they are derived from the seed
	W, F, S []uint32
}

// Result of a run.
type Result struct {
	Viol       *Violation
	Stats      simrt.Stats
	Nontrivial bool
	Key        uint64
	W, F, S    []uint32
	Overflow   bool
	Cover      map[string]int64
	Trace      []string
}

var raceLog string

func raceText(from int64) string {
	b, err := os.ReadFile(raceLog)
	if err != nil || int64(len(b)) < from {
		return ""
	}
	return string(b[from:])
}

// raceSummary extracts the two conflicting accesses of a race report.
func raceSummary(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous write") || strings.HasPrefix(l, "Previous read") {
			for j := i + 1; j+1 < len(lines); j += 2 {
				fn := strings.TrimSpace(lines[j])
				if fn == "" {
					break
				}
				if strings.Contains(fn, "/gospn/") && !strings.Contains(fn, "/zzverif") || strings.Contains(fn, "gospn/zzverif") {
					out = append(out, strings.Fields(l)[0]+" "+strings.Fields(l)[1]+" in "+fn)
					break
				}
			}
			if len(out) >= 2 {
				break
			}
		}
	}
	return strings.Join(out, " / ")
}

func safely(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return
}

// execute runs one simulated run.
func execute(t *testing.T, in Input, trace bool) Result {
	ck := checks[in.Prop]
	c := &Ctx{cover: map[string]int64{}, trace: trace}
	var crash *simrt.Crash
	var st simrt.Stats
	races := simrt.RaceErrors()
	var logAt int64
	if simrt.RaceEnabled {
		if fi, err := os.Stat(raceLog); err == nil {
			logAt = fi.Size()
		}
	}
	simrt.Setup(in.Seed, in.Policy, in.Replay, in.W, in.F, in.S)
	bubble := func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			simos.Reset()
			simrand.Mode = 0
			simruntime.CPUs = 4
			netReset()
			tick.Set(0)
			crash, st = simrt.Run(func() { ck.Run(c) })
		})
	}
	if simrt.RaceEnabled {
		// The testing package fails the test in which a race is reported; keep it to a subtest.
		t.Run("r", bubble)
	} else {
		bubble(t)
	}
	r := Result{Stats: st, Nontrivial: c.Nontrivial, Cover: c.cover, Trace: c.info}
	r.W, r.F, r.S = W.Recorded(), F.Recorded(), simrt.S.Recorded()
	r.Overflow = W.Overflowed() || F.Overflowed() || simrt.S.Overflowed()
	h := fnv.New64a()
	put := func(x uint64) { var b [8]byte; binary.LittleEndian.PutUint64(b[:], x); h.Write(b[:]) }
	put(st.Hash)
	for _, s := range [][]uint32{r.W, r.F} {
		put(uint64(len(s)))
		for _, v := range s {
			put(uint64(v))
		}
	}
	r.Key = h.Sum64()
	switch {
	case c.viol != nil:
		r.Viol = c.viol
	case crash != nil && crash.Kind == "panic" && c.loud != nil && c.loud():
		c.Cover("runs ended by a panic that reports the fault")
		r.Cover = c.cover
	case crash != nil:
		d := crash.Msg
		if crash.Kind == "panic" {
			d += " at " + where(crash.Stack)
		}
		r.Viol = &Violation{crash.Kind, d}
		if trace && crash.Stack != "" {
			r.Trace = append(r.Trace, strings.Split(crash.Stack, "\n")...)
		}
	case simrt.RaceErrors() > races:
		txt := raceText(logAt)
		r.Viol = &Violation{"data race", raceSummary(txt)}
		if trace {
			r.Trace = append(r.Trace, strings.Split(txt, "\n")...)
		}
	}
	return r
}

// where finds the first frame of the code under test in a stack.
func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "gospn/") && strings.Contains(l, "(") && !strings.Contains(l, "gospn/zzverif") && !strings.HasPrefix(l, "/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// policyFor draws a scheduler policy.
func policyFor(ck *Check, seed uint64, deep bool) simrt.Policy {
	var r simrt.Rng
	r.Seed(seed ^ 0xabcdef)
	p := simrt.Policy{MaxSteps: ck.Cap}
	if p.MaxSteps == 0 {
		p.MaxSteps = 4000000
	}
	if r.Next()%4 != 0 {
		p.MapMode = 1
	}
	if ck.Sequential {
		p.Mode = 2
		return p
	}
	span := ck.Span
	if span == 0 {
		span = 400
	}
	switch k := r.Next() % 10; {
	case k < 6:
		p.Mode = 0
		fuels := []int{2, 4, 10, 30, 100, 400}
		p.MeanFuel = fuels[r.Next()%uint64(len(fuels))]
		p.SyncNum = []int{2, 6, 16}[r.Next()%3]
	case k < 9:
		p.Mode = 1
		p.Changes = 1 + int(r.Next()%4)
		p.Span = span
		if r.Next()%2 == 0 {
			p.Span = span/8 + 1
		}
	default:
		p.Mode = 2
	}
	return p
}

func runSeed(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	return h.Sum64()
}

// Job is what the parent asks of a worker process.
type Job struct {
	Prop     string
	Mode     string // "search", "replay", "hash"
	Seed     uint64
	Start    int
	Stride   int
	Count    int
	Seconds  float64 // stop searching after this long (0: run Count runs)
	Shrink   float64 // seconds to spend on shrinking
	Deep     bool
	Input    *Input
	Progress string
	Out      string
	RaceLog  string
	Known    []string // violation classes+details that are listed as known findings
}

// Found is a violation with its minimised input.
type Found struct {
	Violation
	Index    int
	Original Input
	Min      Input
	Shrinks  int
	Trace    []string
}

// Report is a worker's answer.
type Report struct {
	Runs, Nontrivial          int
	Steps, Switches, Preempts int64
	SimNS                     int64
	LongestRun                int64 // in steps
	MaxLive, MaxRunnable      int
	Keys                      []uint64 // distinct nontrivial runs
	Schedules                 []uint64 // distinct interleavings
	Cover                     map[string]int64
	Samples                   []string
	Found                     *Found
	KnownHits                 map[string]int
	Hash                      uint64 // over all results, for the determinism check
	Wall                      float64
	Overflow                  int
	Stuck                     int
}

func TestWorker(t *testing.T) {
	path := os.Getenv("VSIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	raceLog = fmt.Sprintf("%s.%d", j.RaceLog, os.Getpid())
	debug.SetGCPercent(400)
	if checks[j.Prop] == nil {
		t.Fatalf("no such check %q", j.Prop)
	}
	var rep *Report
	switch j.Mode {
	case "search":
		rep = search(t, j)
	case "replay":
		rep = replay(t, j)
	default:
		t.Fatalf("bad mode %q", j.Mode)
	}
	o, err := json.Marshal(rep)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(j.Out+".tmp", o, 0666); err != nil {
		t.Fatal(err)
	}
	if err := os.Rename(j.Out+".tmp", j.Out); err != nil {
		t.Fatal(err)
	}
}

func mix(h, x uint64) uint64 {
	h = (h ^ x) * 0x100000001b3
	return h ^ h>>31
}

func viol2(v *Violation) uint64 {
	if v == nil {
		return 1
	}
	h := fnv.New64a()
	h.Write([]byte(v.Class))
	return h.Sum64()
}

func search(t *testing.T, j Job) *Report {
	ck := checks[j.Prop]
	rep := &Report{Cover: map[string]int64{}, KnownHits: map[string]int{}}
	keys := map[uint64]bool{}
	scheds := map[uint64]bool{}
	var pf *os.File
	if j.Progress != "" {
		pf, _ = os.Create(j.Progress)
	}
	t0 := time.Now()
	for n := 0; n < j.Count || j.Seconds > 0; n++ {
		if j.Seconds > 0 && time.Since(t0).Seconds() > j.Seconds {
			break
		}
		i := j.Start + n*j.Stride
		seed := runSeed(j.Seed, j.Prop, i)
		in := Input{Prop: j.Prop, Seed: seed, Policy: policyFor(ck, seed, j.Deep)}
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
			pf.WriteAt(b[:], 0)
		}
		r := execute(t, in, false)
		rep.Runs++
		rep.Steps += r.Stats.Steps
		if r.Stats.Steps > rep.LongestRun {
			rep.LongestRun = r.Stats.Steps
		}
		rep.Switches += r.Stats.Switches
		rep.Preempts += r.Stats.Preempts
		rep.SimNS += int64(r.Stats.SimTime)
		if r.Stats.MaxLive > rep.MaxLive {
			rep.MaxLive = r.Stats.MaxLive
		}
		if r.Stats.MaxRunnable > rep.MaxRunnable {
			rep.MaxRunnable = r.Stats.MaxRunnable
		}
		rep.Stuck += r.Stats.Stuck
		for k, v := range r.Cover {
			rep.Cover[k] += v
		}
		if r.Overflow {
			rep.Overflow++
		}
		scheds[r.Stats.Hash] = true
		if r.Nontrivial {
			rep.Nontrivial++
			keys[r.Key] = true
		}
		rep.Hash = mix(rep.Hash, r.Key)
		rep.Hash = mix(rep.Hash, viol2(r.Viol))
		if len(rep.Samples) < 3 && r.Nontrivial && n%7 == 0 && len(r.W) > 0 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d seed %d: policy %+v, %d steps, %d switches, workload choices %v, fault choices %v",
				i, seed, in.Policy, r.Stats.Steps, r.Stats.Switches, head(r.W), head(r.F)))
		}
		if r.Viol != nil {
			if k := known(j.Known, *r.Viol); k != "" {
				rep.KnownHits[k]++
				continue
			}
			f := &Found{Violation: *r.Viol, Index: i, Original: in, Min: in}
			// In case shrinking does not come back.
			if o, err := json.Marshal(&Report{Runs: rep.Runs, Found: f}); err == nil && j.Out != "" {
				os.WriteFile(j.Out+".pre", o, 0666)
			}
			f.Min, f.Shrinks = shrink(t, in, r, j.Shrink)
			fr := execute(t, f.Min, true)
			if fr.Viol != nil {
				f.Violation = *fr.Viol
				f.Trace = fr.Trace
			}
			rep.Found = f
			break
		}
	}
	rep.Keys = keysOf(keys)
	rep.Schedules = keysOf(scheds)
	rep.Wall = time.Since(t0).Seconds()
	return rep
}

// known finds the listed finding that describes a violation.
func known(list []string, v Violation) string {
	for _, k := range list {
		if k != "" && strings.Contains(v.Class+": "+v.Detail, k) {
			return k
		}
	}
	return ""
}

func head(v []uint32) []uint32 {
	if len(v) > 24 {
		v = v[:24]
	}
	return v
}

func keysOf(m map[uint64]bool) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func replay(t *testing.T, j Job) *Report {
	r := execute(t, *j.Input, true)
	rep := &Report{Runs: 1, Cover: r.Cover, Steps: r.Stats.Steps, Hash: r.Key}
	if r.Viol != nil {
		rep.Found = &Found{Violation: *r.Viol, Min: *j.Input, Trace: r.Trace}
	}
	return rep
}

// shrink minimises a failing run's choice streams, keeping the class of the violation.
func shrink(t *testing.T, in Input, r Result, seconds float64) (Input, int) {
	deadline := time.Now().Add(time.Duration(seconds * float64(time.Second)))
	if r.Overflow {
		return in, 0
	}
	best := in
	best.Replay = true
	best.W, best.F, best.S = r.W, r.F, r.S
	class := r.Viol.Class
	execs, accepted := 0, 0
	try := func(c Input) bool {
		if time.Now().After(deadline) {
			return false
		}
		execs++
		q := execute(t, c, false)
		if q.Viol == nil || q.Viol.Class != class || q.Overflow {
			return false
		}
		// What was actually drawn is the canonical form.
		c.W, c.F, c.S = trim(c.W, q.W), trim(c.F, q.F), trim(c.S, q.S)
		best = c
		accepted++
		return true
	}
	if !try(best) {
		// Not reproducible from its streams: fall back to the seed.
		return in, 0
	}
	pick := func(k int, c *Input) *[]uint32 {
		switch k {
		case 0:
			return &c.S
		case 1:
			return &c.F
		}
		return &c.W
	}
	for round := 0; round < 6; round++ {
		before := accepted
		for k := 0; k < 3; k++ {
			c := best
			if len(*pick(k, &c)) > 0 {
				*pick(k, &c) = nil
				try(c)
			}
			if best.Policy.MapMode != 0 {
				c = best
				c.Policy.MapMode = 0
				try(c)
			}
			// Delete or zero chunks.
			for size := len(*pick(k, &best)); size >= 1; size /= 2 {
				for at := 0; at < len(*pick(k, &best)); {
					if time.Now().After(deadline) {
						return best, execs
					}
					v := *pick(k, &best)
					end := at + size
					if end > len(v) {
						end = len(v)
					}
					c := best
					n := append(append([]uint32(nil), v[:at]...), v[end:]...)
					*pick(k, &c) = n
					if try(c) {
						continue
					}
					zero := true
					for _, x := range v[at:end] {
						zero = zero && x == 0
					}
					if !zero {
						n = append([]uint32(nil), v...)
						for i := at; i < end; i++ {
							n[i] = 0
						}
						c = best
						*pick(k, &c) = n
						try(c)
					}
					at = end
				}
			}
			// Lower single values.
			if len(*pick(k, &best)) < 400 {
				for at := 0; at < len(*pick(k, &best)); at++ {
					for step := 0; step < 8; step++ {
						v := *pick(k, &best)
						if at >= len(v) || v[at] <= 1 {
							break
						}
						n := append([]uint32(nil), v...)
						n[at] = v[at] / 2
						c := best
						*pick(k, &c) = n
						if !try(c) {
							n = append([]uint32(nil), v...)
							n[at]--
							c = best
							*pick(k, &c) = n
							if !try(c) {
								break
							}
						}
					}
				}
			}
		}
		if accepted == before {
			break
		}
	}
	return best, execs
}

// trim shortens given choices to what was drawn.
func trim(given, drawn []uint32) []uint32 {
	if len(drawn) < len(given) {
		return drawn
	}
	for len(given) > 0 && given[len(given)-1] == 0 {
		given = given[:len(given)-1]
	}
	return given
}

func TestList(t *testing.T) {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Println("CHECKS", strings.Join(ids, " "), runtime.Version())
}
