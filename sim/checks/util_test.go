package zzverif

import (
	"math"

	"verif.local/simrt"
	"verif.local/simrt/simos"
	"verif.local/simrt/simsync"
)

// Cell is a harness counter: invisible to the race detector, never preempted.
type Cell struct{ v int64 }

//go:norace
func (c *Cell) Add(d int64) int64 { c.v += d; return c.v }

//go:norace
func (c *Cell) Get() int64 { return c.v }

//go:norace
func (c *Cell) Set(v int64) { c.v = v }

// Cells is a fixed array of counters.
type Cells struct{ v [1024]int64 }

//go:norace
func (c *Cells) Add(i int, d int64) int64 { c.v[i] += d; return c.v[i] }

//go:norace
func (c *Cells) Get(i int) int64 { return c.v[i] }

// work executes n statements' worth of scheduling points.
func work(n int) {
	for i := 0; i < n; i++ {
		simrt.Yield()
	}
}

// clients runs n concurrent clients and waits for all of them.
func clients(n int, f func(i int)) {
	var wg simsync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		simrt.Go(func() {
			defer wg.Done()
			f(i)
		})
	}
	wg.Wait()
}

func near(a, b, tol float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	d := math.Abs(a - b)
	return d <= tol || d <= tol*math.Max(math.Abs(a), math.Abs(b))
}

// process runs f as a simulated process: it may die at any disk operation. Reports whether f
// returned, and the panic it ended with, if any.
func process(f func()) (returned bool, panicked interface{}) {
	var wg simsync.WaitGroup
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				panicked = r
			}
		}()
		f()
		returned = true
	})
	wg.Wait()
	return
}

// faultCounts adds the faults that fired to the run's coverage.
func (c *Ctx) faultCounts() {
	k := simos.Fired()
	for _, x := range []struct {
		n string
		v int
	}{
		{"open error", k.ErrOpen}, {"read error", k.ErrRead}, {"write error", k.ErrWrite},
		{"short write (disk full)", k.ShortWrite}, {"close error", k.ErrClose}, {"fsync error", k.ErrSync},
		{"rename error", k.ErrRename}, {"metadata error", k.ErrMeta}, {"process crash", k.Crash},
		{"torn write", k.TornWrite}, {"short read", k.ShortRead}, {"directory order", k.DirOrder},
		{"power loss", k.PowerLoss}, {"lost write", k.LostWrite},
	} {
		c.CoverN("fault: "+x.n, x.v)
	}
}

// drawFaults draws up to n faults of the given kinds among the first span disk operations.
func drawFaults(n, span int, kinds ...int) []simos.Fault {
	var out []simos.Fault
	for i := 0; i < n; i++ {
		at := F.Draw(span + 1)
		if at == 0 {
			continue
		}
		out = append(out, simos.Fault{At: at, Kind: kinds[F.Draw(len(kinds))], Arg: F.Draw(1000)})
	}
	return out
}

// strays says which files a call left behind: new ones other than those named. A call whose clean-up
// itself met a fault may leave some.
func strays(before []string, meta simos.Counts, ok ...string) []string {
	if simos.Fired().ErrMeta != meta.ErrMeta || simos.Frozen() {
		return nil
	}
	old := map[string]bool{}
	for _, f := range before {
		old[f] = true
	}
	for _, f := range ok {
		old[f] = true
	}
	var out []string
	for _, f := range simos.Files("/") {
		if !old[f] {
			out = append(out, f)
		}
	}
	return out
}
