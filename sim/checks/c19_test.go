package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/RenatoGeh/gospn/sys"
	"verif.local/simrt"
	"verif.local/simrt/simos"
)

// C19: log messages go, each once and whole, to the log file in force, whoever prints them at the
// same time; changing the log file fails without losing the one in force.
func init() {
	register(&Check{ID: "C19", Span: 1200, Cap: 2000000, Run: runC19})
}

func runC19(c *Ctx) {
	defer func() {
		sys.Verbose = false
		sys.SetLogFile("")
	}()
	files := []string{"/work/a.log", "/work/b.log", "/work/no/such.log"}
	if W.Chance(1, 2) {
		simos.Put(files[0], []byte("an older log\n"))
	}
	simos.Plan(drawFaults(1, 6, simos.EIO), 0, false)
	simos.Restrict(func(op, path string) bool { return op == "open" || op == "create" })
	simos.Capture(true)
	want := map[string][]string{"": nil}
	cur := "" // the file in force; "" is standard output
	n := 0
	rounds := 1 + W.Draw(4)
	for r := 0; r < rounds; r++ {
		if W.Chance(2, 3) {
			f := files[W.Draw(3)]
			if W.Chance(1, 5) {
				f = ""
			}
			before := sys.LogFile()
			k := simos.Fired()
			h, err := sys.SetLogFile(f)
			hit := simos.Fired() != k
			c.Note("round %d: log to %q: %v", r, f, err)
			switch {
			case f == "":
				if err != nil {
					c.Fail("log file refused", "standard output is refused: %v", err)
				}
				cur = ""
			case err != nil:
				if !hit && f != files[2] {
					c.Fail("log file refused", "%s is refused with no fault about: %v", f, err)
				}
				if sys.LogFile() != before {
					c.Fail("log file lost", "setting the log file to %s failed, yet the log file changed", f)
				}
				c.Cover("log files refused")
			default:
				if hit || f == files[2] {
					c.Fail("log file not set", "setting the log file to %s gave no error", f)
				}
				if sys.LogFile() != h {
					c.Fail("log file not set", "the log file is not the one set")
				}
				cur, want[f] = f, nil
			}
		}
		sys.Verbose = W.Chance(4, 5)
		nc := 1 + W.Draw(3)
		per := make([][]string, nc)
		kinds := make([]int, nc)
		for i := range per {
			kinds[i] = W.Draw(5)
			for k := 1 + W.Draw(4); k > 0; k-- {
				n++
				pad := W.Draw(4) * 20
				if W.Chance(1, 40) {
					pad = W.Draw(6000)
				}
				per[i] = append(per[i], fmt.Sprintf("message %d from %d%s", n, i, strings.Repeat([]string{".", "%d"}[W.Draw(2)], pad)))
			}
		}
		pause := time.Duration(W.Draw(4)*W.Draw(1000)) * []time.Duration{time.Millisecond, time.Microsecond, 1}[W.Draw(3)]
		if W.Chance(1, 3) {
			sys.StartTimer()
			simrt.Sleep(pause)
			if d := sys.StopTimer(); d != pause {
				c.Fail("wrong time", "the timer gives %v after %v", d, pause)
			}
			if W.Chance(1, 2) {
				simrt.Sleep(pause)
				if d := sys.StopTimer(); d != 2*pause {
					c.Fail("wrong time", "the timer gives %v at a second look after %v", d, 2*pause)
				}
			}
		}
		clients(nc, func(i int) {
			for _, m := range per[i] {
				switch kinds[i] {
				case 0:
					sys.Println(m)
				case 1:
					sys.Printf(strings.Replace(m, "%", "%%", -1) + "\n")
				case 2:
					sys.Printf("%s\n", m)
				case 3:
					sys.Printf("%s%s\n", m[:4], m[4:])
				case 4:
					t := time.Now()
					simrt.Sleep(pause)
					sys.MeasureTime(t, m)
				}
			}
		})
		if sys.Verbose {
			for i := range per {
				for _, m := range per[i] {
					if kinds[i] == 4 {
						m = fmt.Sprintf("%s took %s.", m, pause)
					}
					want[cur] = append(want[cur], m)
				}
			}
			if nc > 1 {
				c.Nontrivial = true
			}
		}
	}
	c.faultCounts()
	simos.Plan(nil, 0, false)
	for _, f := range append(files[:2:2], "") {
		w, set := want[f]
		b, _ := simos.Get(f)
		if f == "" {
			b = []byte(simos.Captured())
		}
		if !set {
			continue
		}
		got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(b) == 0 {
			got = nil
		}
		// Each printer's messages stay in order.
		last := map[string]int{}
		for _, g := range got {
			var m, from int
			if k, _ := fmt.Sscanf(g, "message %d from %d", &m, &from); k == 2 {
				if key := fmt.Sprint(from); last[key] > m {
					c.Fail("messages out of order", "%s holds %q", f, b)
				} else {
					last[key] = m
				}
			}
		}
		sort.Strings(got)
		sort.Strings(w)
		if strings.Join(got, "\n") != strings.Join(w, "\n") {
			c.Fail("messages lost or mixed", "%s holds %q instead of %q", f, got, w)
		}
		c.CoverN("messages", len(w))
	}
}
