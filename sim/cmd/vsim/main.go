// Command vsim decides properties of the code in /repo by seeded simulation.
//
//	vsim check PROPERTY quick|thorough
//	vsim replay FILE
//	vsim determinism [PROPERTY...]
//
// Exit status: 0 the property held on everything explored, 1 violation, 2 no answer.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/vsim/simbuild"
)

type policy struct {
	Mode, MeanFuel, SyncNum, Changes, Span, MapMode int
	MaxSteps                                        int64
}

type input struct {
	Prop    string
	Seed    uint64
	Policy  policy
	Replay  bool
	W, F, S []uint32
}

type job struct {
	Prop     string
	Mode     string
	Seed     uint64
	Start    int
	Stride   int
	Count    int
	Seconds  float64
	Shrink   float64
	Idle     float64
	Deep     bool
	Input    *input
	Progress string
	Out      string
	RaceLog  string
	Known    []string
}

type found struct {
	Class, Detail string
	Index         int
	Original, Min input
	Shrinks       int
	Trace         []string
}

type report struct {
	Runs, Nontrivial          int
	Steps, Switches, Preempts int64
	LongestRun                int64
	SimNS                     int64
	MaxLive, MaxRunnable      int
	Keys, Schedules           []uint64
	Cover                     map[string]int64
	Samples                   []string
	Found                     *found
	KnownHits                 map[string]int
	Hash                      uint64
	Wall                      float64
	Overflow, Stuck           int
}

// replayFile is what a violation is reported with.
type replayFile struct {
	Property string   `json:"property"`
	Engine   string   `json:"engine"`
	Class    string   `json:"violation"`
	Detail   string   `json:"detail"`
	Seed     int64    `json:"verif_seed"`
	Run      int      `json:"run"`
	Input    input    `json:"input"`
	Original input    `json:"original"`
	Shrinks  int      `json:"shrink_executions"`
	How      string   `json:"how_to_replay"`
	Trace    []string `json:"trace"`
}

var (
	repo    = env("VSIM_REPO", "/repo")
	verif   = env("VSIM_VERIF", "/verif")
	scratch string
	debugOn = os.Getenv("VSIM_DEBUG") != ""
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func cleanup() {
	if scratch != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

func quit(code int) {
	cleanup()
	os.Exit(code)
}

func give(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: no answer: "+format+"\n", a...)
	quit(2)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY quick|thorough | replay FILE | determinism [PROPERTY...]")
		os.Exit(2)
	}
	var err error
	scratch, err = os.MkdirTemp("", "vsim-")
	if err != nil {
		give("%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sig; quit(2) }()
	switch os.Args[1] {
	case "setup":
		for _, race := range []bool{false, true} {
			makeBuild(race)
		}
		quit(0)
	case "check":
		if len(os.Args) != 4 || props[os.Args[2]] == nil {
			give("unknown property")
		}
		check(os.Args[2], os.Args[3])
	case "replay":
		replay(os.Args[2])
	case "determinism":
		determinism(os.Args[2:])
	default:
		give("unknown command %q", os.Args[1])
	}
}

func logf(format string, a ...interface{}) { fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...) }

func makeBuild(race bool) *simbuild.Build {
	b, err := simbuild.Make(repo, filepath.Join(verif, "sim"), scratch, race, logf)
	if err != nil {
		give("the simulator's build of %s failed: %v", repo, err)
	}
	return b
}

var jobNo struct {
	sync.Mutex
	n int
}

var errHung = errors.New("no progress: the worker was stopped")

// idle is how long a worker may go without finishing a run.
func (j job) idle() float64 {
	if j.Idle > 0 {
		return j.Idle
	}
	return 120 + j.Shrink*1.5
}

// run executes one job in a worker process.
func run(bin string, j job, gomaxprocs int) (*report, int, string, error) {
	jobNo.Lock()
	jobNo.n++
	n := jobNo.n
	jobNo.Unlock()
	base := filepath.Join(scratch, fmt.Sprintf("job%d", n))
	j.Progress, j.Out, j.RaceLog = base+".progress", base+".out", base+".race"
	b, _ := json.Marshal(j)
	if err := os.WriteFile(base+".json", b, 0666); err != nil {
		return nil, 0, "", err
	}
	c := exec.Command(bin, "-test.run=^TestWorker$", "-test.timeout=0")
	c.Dir = scratch
	c.Env = []string{"VSIM_JOB=" + base + ".json", "GOMAXPROCS=" + strconv.Itoa(gomaxprocs), "HOME=/nonexistent", "PATH=/usr/bin:/bin",
		"GOMEMLIMIT=3GiB", "GOTRACEBACK=all", "TMPDIR=" + scratch,
		"GORACE=halt_on_error=0 log_path=" + j.RaceLog + " suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0"}
	var out bytes.Buffer
	lim := &limited{b: &out, n: 1 << 20}
	c.Stdout, c.Stderr = nil, lim
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return nil, 0, "", err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	last, since := int64(-1), time.Now()
	var err error
	hung := false
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-time.After(2 * time.Second):
			p := progress(j.Progress)
			if p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > time.Duration(j.idle()*float64(time.Second)) {
				hung = true
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	p := int(progress(j.Progress)) - 1
	rb, e2 := os.ReadFile(j.Out)
	if e2 != nil {
		rb, e2 = os.ReadFile(j.Out + ".pre")
	}
	if hung && e2 != nil {
		return nil, p, "", errHung
	}
	if e2 != nil {
		if err == nil {
			err = e2
		}
		return nil, p, out.String(), err
	}
	var r report
	if e := json.Unmarshal(rb, &r); e != nil {
		return nil, p, out.String(), e
	}
	if !debugOn {
		os.Remove(j.Out)
	}
	return &r, p, "", nil
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func progress(path string) int64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return 0
	}
	return int64(binary.LittleEndian.Uint64(b))
}

type engineStats struct {
	name     string
	runs     int
	nontriv  int
	steps    int64
	switches int64
	preempts int64
	simNS    int64
	wall     float64
	maxLive  int
	longest  int64
	maxRun   int
	overflow int
	stuck    int
}

// one worker's assignment
type lane struct {
	engine string
	bin    string
	j      job
}

func check(id, tier string) {
	p := props[id]
	if os.Getenv("VSIM_RACE") == "0" { // for quick looks only
		q := *p
		q.race = false
		p = &q
	}
	t0 := time.Now()
	b := makeBuild(p.race)
	buildS := time.Since(t0).Seconds()
	known := knownFindings(id)
	var knownMatch []string
	for _, k := range known {
		knownMatch = append(knownMatch, k.Match)
	}
	cores := runtime.NumCPU()
	if cores > 8 {
		cores = 8
	}
	if cores < 2 {
		cores = 2
	}
	var lanes []lane
	mk := func(engine, bin string, lanesN, runs int, seconds float64, base uint64) {
		for i := 0; i < lanesN; i++ {
			j := job{Prop: id, Mode: "search", Seed: base, Start: i, Stride: lanesN, Count: (runs + lanesN - 1 - i) / lanesN, Shrink: 25, Known: knownMatch}
			if seconds > 0 {
				j.Count, j.Seconds, j.Deep, j.Shrink = 0, seconds, true, 90
			}
			lanes = append(lanes, lane{engine, bin, j})
		}
	}
	sd := uint64(seed())
	runs, raceRuns, secs := p.quick, p.quickRace, 0.0
	if tier == "thorough" {
		secs = p.thorough
		if secs == 0 {
			secs = 600
		}
		sd += 1 << 32 // a different part of the seed space
	}
	if v := os.Getenv("VSIM_RUNS"); v != "" {
		runs, _ = strconv.Atoi(v)
		raceRuns = runs / 2
	}
	if v := os.Getenv("VSIM_PART"); v != "" {
		n, _ := strconv.Atoi(v)
		runs, raceRuns = runs/n, raceRuns/n
	}
	if p.race {
		n := cores / 2
		mk("plain", b.Plain, cores-n, runs, secs, sd)
		mk("race", b.Race, n, raceRuns, secs, sd+1<<40)
	} else {
		mk("plain", b.Plain, cores, runs, secs, sd)
	}
	// The determinism probe: the first runs again, in another process with another GOMAXPROCS.
	probe := make(chan string, 1)
	go func() {
		j := job{Prop: id, Mode: "search", Seed: sd, Start: 0, Stride: 1, Count: 40, Shrink: 0, Known: knownMatch}
		r1, _, _, e1 := run(b.Plain, j, 1)
		r2, _, _, e2 := run(b.Plain, j, 4)
		switch {
		case e1 != nil || e2 != nil:
			probe <- "not available"
		case r1.Found != nil || r2.Found != nil:
			probe <- "not available (a violation ended it)"
		case r1.Hash == r2.Hash:
			probe <- fmt.Sprintf("identical: %d runs twice, two processes, GOMAXPROCS 1 and 4, same hash %016x", r1.Runs, r1.Hash)
		default:
			probe <- "DIFFERENT: the simulation is not deterministic on this tree"
		}
	}()
	type res struct {
		l    lane
		r    *report
		last int
		out  string
		err  error
	}
	results := make([]res, len(lanes))
	var wg sync.WaitGroup
	for i := range lanes {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r, last, out, err := run(lanes[i].bin, lanes[i].j, 1)
			results[i] = res{lanes[i], r, last, out, err}
		}(i)
	}
	wg.Wait()
	det := <-probe

	// Gather.
	st := map[string]*engineStats{}
	keys := map[uint64]bool{}
	scheds := map[uint64]bool{}
	cover := map[string]int64{}
	knownHits := map[string]int{}
	var samples []string
	var fnd *found
	var fndEngine string
	var fndBin string
	evals := 0
	for _, r := range results {
		e := st[r.l.engine]
		if e == nil {
			e = &engineStats{name: r.l.engine}
			st[r.l.engine] = e
		}
		if r.err != nil {
			if errors.Is(r.err, errHung) {
				f := hangs(r.l, r.last)
				if f == nil {
					give("a run made no progress for minutes (engine %s, run %d)", r.l.engine, r.last)
				}
				if fnd == nil {
					fnd, fndEngine, fndBin = f, r.l.engine, r.l.bin
				}
				continue
			}
			// The worker process died: is it the run, or the sandbox?
			if f := died(r.l, r.last, r.out); f != nil {
				if fnd == nil {
					fnd, fndEngine, fndBin = f, r.l.engine, r.l.bin
				}
				continue
			}
			give("a worker failed (engine %s, run %d): %v\n%s", r.l.engine, r.last, r.err, tail(r.out, 3000))
		}
		q := r.r
		evals += q.Runs
		e.runs += q.Runs
		e.nontriv += q.Nontrivial
		e.steps += q.Steps
		if q.LongestRun > e.longest {
			e.longest = q.LongestRun
		}
		e.switches += q.Switches
		e.preempts += q.Preempts
		e.simNS += q.SimNS
		e.overflow += q.Overflow
		e.stuck += q.Stuck
		if q.Wall > e.wall {
			e.wall = q.Wall
		}
		if q.MaxLive > e.maxLive {
			e.maxLive = q.MaxLive
		}
		if q.MaxRunnable > e.maxRun {
			e.maxRun = q.MaxRunnable
		}
		for _, k := range q.Keys {
			keys[k] = true
		}
		for _, k := range q.Schedules {
			scheds[k] = true
		}
		for k, v := range q.Cover {
			cover[k] += v
		}
		for k, v := range q.KnownHits {
			knownHits[k] += v
		}
		if len(samples) < 3 && len(q.Samples) > 0 {
			samples = append(samples, r.l.engine+" "+q.Samples[0])
		}
		if q.Found != nil && (fnd == nil || fndEngine == "race" && r.l.engine == "plain") {
			fnd, fndEngine, fndBin = q.Found, r.l.engine, r.l.bin
		}
	}
	violations := 0
	replayPath := ""
	unconfirmed := ""
	if fnd != nil {
		rf := replayFile{Property: id, Engine: fndEngine, Class: fnd.Class, Detail: fnd.Detail, Seed: seed(), Run: fnd.Index,
			Input: fnd.Min, Original: fnd.Original, Shrinks: fnd.Shrinks, Trace: fnd.Trace,
			How: "bash /verif/run.sh replay <this file>"}
		ok := confirm(fndBin, &rf)
		if !ok && fnd.Min.Replay {
			rf.Input = fnd.Original
			ok = confirm(fndBin, &rf)
		}
		if !ok {
			unconfirmed = fmt.Sprintf("%s: %s (engine %s, run %d) did not reproduce in a fresh process", fnd.Class, fnd.Detail, fndEngine, fnd.Index)
		} else {
			violations = 1
			dir := filepath.Join(verif, "replays")
			os.MkdirAll(dir, 0777)
			replayPath = filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, fndEngine, fnd.Index))
			o, _ := json.MarshalIndent(rf, "", " ")
			if err := os.WriteFile(replayPath, append(o, '\n'), 0666); err != nil {
				logf("cannot write %s: %v", replayPath, err)
			}
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(id, tier, p, b.Level, st, evals, keys, scheds, cover, samples, det, violations, fnd, wall, buildS, knownHits)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
	}
	if unconfirmed != "" {
		give("%s", unconfirmed)
	}
	if violations > 0 {
		fmt.Printf("%s: %s\n", fnd.Class, fnd.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		quit(1)
	}
	fmt.Printf("property=%s tier=%s held: %d runs (%d distinct non-trivial), %d distinct interleavings, %.1f s, determinism %s\n", id, tier, evals, len(keys), len(scheds), wall, det)
	quit(0)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// died decides whether a run kills its process, by running it alone in a fresh one, twice.
func died(l lane, index int, out string) *found {
	if index < 0 {
		return nil
	}
	j := l.j
	j.Start, j.Stride, j.Count, j.Seconds = index, 1, 1, 0
	for k := 0; k < 2; k++ {
		_, _, o, err := run(l.bin, j, 1)
		if err == nil || errors.Is(err, errHung) {
			return nil
		}
		if strings.Contains(o, "signal: killed") || !strings.Contains(o, "fatal error") && !strings.Contains(o, "panic") {
			return nil
		}
		out = o
	}
	msg := "the process dies"
	for _, ln := range strings.Split(out, "\n") {
		if strings.HasPrefix(ln, "fatal error:") || strings.HasPrefix(ln, "panic:") || strings.HasPrefix(ln, "runtime: goroutine stack exceeds") {
			msg = ln
			break
		}
	}
	return &found{Class: "process died", Detail: msg, Index: index, Original: input{Prop: l.j.Prop}, Min: input{Prop: l.j.Prop}}
}

// hangs reports a run that never ends, not even alone in a fresh process: code that loops without
// reaching a scheduling point.
func hangs(l lane, index int) *found {
	if index < 0 {
		return nil
	}
	j := l.j
	j.Start, j.Stride, j.Count, j.Seconds, j.Idle = index, 1, 1, 0, 60
	if _, _, _, err := run(l.bin, j, 1); !errors.Is(err, errHung) {
		return nil
	}
	return &found{Class: "no progress", Detail: "the run never ends", Index: index, Original: input{Prop: l.j.Prop}, Min: input{Prop: l.j.Prop}}
}

// confirm replays a violation in a fresh process.
func confirm(bin string, rf *replayFile) bool {
	if rf.Class == "process died" || rf.Class == "no progress" {
		return true // established by two fresh processes
	}
	in := rf.Input
	r, _, _, err := run(bin, job{Prop: rf.Property, Mode: "replay", Input: &in}, 1)
	if err != nil || r.Found == nil || r.Found.Class != rf.Class {
		return false
	}
	rf.Detail = r.Found.Detail
	rf.Trace = r.Found.Trace
	return true
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		give("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		give("%s: %v", path, err)
	}
	bd := makeBuild(rf.Engine == "race")
	bin := bd.Plain
	if rf.Engine == "race" {
		bin = bd.Race
	}
	if rf.Class == "process died" || rf.Class == "no progress" {
		l := lane{rf.Engine, bin, job{Prop: rf.Property, Mode: "search", Seed: uint64(rf.Seed)}}
		f := (*found)(nil)
		if rf.Class == "no progress" {
			f = hangs(l, rf.Run)
		} else {
			f = died(l, rf.Run, "")
		}
		if f != nil {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", f.Class, f.Detail, rf.Property, path)
			quit(1)
		}
		fmt.Printf("property=%s: the replayed run does not violate it on this tree\n", rf.Property)
		quit(0)
	}
	in := rf.Input
	r, _, out, err := run(bin, job{Prop: rf.Property, Mode: "replay", Input: &in}, 1)
	if err != nil {
		give("%v\n%s", err, tail(out, 3000))
	}
	if r.Found == nil {
		fmt.Printf("property=%s: the replayed run does not violate it on this tree\n", rf.Property)
		quit(0)
	}
	for _, l := range r.Found.Trace {
		fmt.Println("  " + l)
	}
	same := "same violation as recorded"
	if r.Found.Class != rf.Class || r.Found.Detail != rf.Detail {
		same = "a different violation than recorded: " + rf.Class + ": " + rf.Detail
	}
	fmt.Printf("%s: %s (%s)\n", r.Found.Class, r.Found.Detail, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	quit(1)
}

func determinism(ids []string) {
	if len(ids) == 0 {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	seeds := 20
	if v := os.Getenv("VSIM_SEEDS"); v != "" {
		seeds, _ = strconv.Atoi(v)
	}
	b := makeBuild(true)
	bad := 0
	type cfg struct {
		bin   string
		procs int
	}
	for _, id := range ids {
		cfgs := []cfg{{b.Plain, 1}, {b.Plain, 4}, {b.Plain, 8}}
		if props[id].race {
			cfgs = append(cfgs, cfg{b.Race, 2})
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		hs := make([]map[string]bool, seeds)
		runs, procs := 0, 0
		for k := range hs {
			hs[k] = map[string]bool{}
			for _, c := range cfgs {
				wg.Add(1)
				sem <- struct{}{}
				go func(k int, c cfg) {
					defer func() { <-sem; wg.Done() }()
					r, _, out, err := run(c.bin, job{Prop: id, Mode: "search", Seed: uint64(seed() + int64(k)), Stride: 1, Count: 60}, c.procs)
					if err != nil {
						give("%s: %v\n%s", id, err, tail(out, 2000))
					}
					h := fmt.Sprintf("%016x/%d", r.Hash, r.Runs)
					if r.Found != nil {
						h += " (" + r.Found.Class + ": " + r.Found.Detail + ")"
					}
					mu.Lock()
					hs[k][h] = true
					runs += r.Runs
					procs++
					mu.Unlock()
				}(k, c)
			}
		}
		wg.Wait()
		differ := 0
		for k, m := range hs {
			if len(m) != 1 {
				differ++
				fmt.Printf("%s seed %d: %v\n", id, seed()+int64(k), m)
			}
		}
		bad += differ
		fmt.Printf("%s: %d seeds, %d processes, %d runs, %d seeds that differ\n", id, seeds, procs, runs, differ)
	}
	if bad > 0 {
		quit(1)
	}
	quit(0)
}

type finding struct{ Match, What string }

// knownFindings reads the committed list. Lines: "finding: property=ID match=<text> :: <what fails>".
// Lines that start with "fixed:" suppress nothing.
func knownFindings(id string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " match="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		m, w, ok := strings.Cut(strings.TrimPrefix(l, pre), " :: ")
		if ok {
			out = append(out, finding{m, w})
		}
	}
	return out
}

func writeEvidence(id, tier string, p *prop, level string, st map[string]*engineStats, evals int, keys, scheds map[uint64]bool,
	cover map[string]int64, samples []string, det string, violations int, fnd *found, wall, buildS float64, knownHits map[string]int) {
	faults := map[string]int64{}
	reach := map[string]int64{}
	for k, v := range cover {
		if strings.HasPrefix(k, "fault: ") {
			faults[strings.TrimPrefix(k, "fault: ")] = v
		} else {
			reach[k] = v
		}
	}
	engines := map[string]interface{}{}
	var steps, switches, preempts, simNS int64
	searchWall := 0.0
	for n, e := range st {
		engines[n] = map[string]interface{}{"runs": e.runs, "nontrivial_runs": e.nontriv, "statements": e.steps, "context_switches": e.switches,
			"preemptions": e.preempts, "longest_run_statements": e.longest, "max_goroutines": e.maxLive, "max_runnable": e.maxRun, "search_wall_s": round(e.wall), "stream_overflows": e.overflow, "unwound_late": e.stuck}
		steps += e.steps
		switches += e.switches
		preempts += e.preempts
		simNS += e.simNS
		if e.wall > searchWall {
			searchWall = e.wall
		}
	}
	perHour := 0.0
	if searchWall > 0 {
		perHour = float64(evals) / searchWall * 3600
	}
	if len(samples) == 0 {
		samples = []string{"no non-trivial run completed before the violation"}
	}
	if faults == nil || len(faults) == 0 {
		faults = map[string]int64{"none: this property's adversary is the scheduler": 0}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed(), "level": "exploration", "wall_s": round(wall), "violations": violations,
		"assumptions": append(append([]string{}, commonAssumptions...), p.assume...),
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": p.rule, "samples": samples,
			"distinct_interleavings":  len(scheds),
			"interleaving_measure":    "hash of the sequence of (goroutine switched to, reason, statement count) of a run",
			"simulated_statements":    steps,
			"simulated_clock_s":       float64(simNS) / 1e9,
			"context_switches":        switches,
			"preemptions":             preempts,
			"runs_and_seeds_per_hour": int64(perHour),
			"faults_injected":         faults,
			"reached":                 reach,
			"engines":                 engines,
			"determinism":             det,
			"instrumentation":         level,
			"build_s":                 round(buildS),
			"components_real":         p.real,
			"components_stubbed":      p.stub,
			"known_finding_hits":      knownHits,
		},
	}
	if fnd != nil {
		ev["violation"] = fnd.Class + ": " + fnd.Detail
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0777)
	o, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(o, '\n'), 0666); err != nil {
		logf("evidence: %v", err)
	}
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }
