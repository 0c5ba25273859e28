package zzverif

import (
	"fmt"
	"math/rand"

	"github.com/RenatoGeh/gospn/sys"
)

// C06: the process-wide generator. Whatever the interleaving of draws and reseeds, what the callers
// saw is what some sequential order of their calls gives, each seed's values being those of the
// standard generator with that seed.
func init() {
	register(&Check{ID: "C06", Span: 200, Cap: 300000, Run: runC06})
}

type rngOp struct {
	kind int // 0 Intn, 1 Float64, 2 NormFloat64, 3 RandomComb, 4 RefreshRandom, 5 Seed, 6 Intn with a bad bound
	a, b int
	m    int
	seed int64
	// observed
	i    int
	f    float64
	comb [][2]int
	gen  *rand.Rand
	s    int64
}

func (o *rngOp) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("int(%d)=%d", o.a, o.i)
	case 1:
		return fmt.Sprintf("float=%v", o.f)
	case 2:
		return fmt.Sprintf("normal=%v", o.f)
	case 3:
		return fmt.Sprintf("comb(%d,%d,%d)=%v", o.a, o.b, o.m, o.comb)
	case 4:
		return fmt.Sprintf("reseed(%d)", o.seed)
	case 5:
		return fmt.Sprintf("seed()=%d", o.s)
	}
	return "int(bad bound)"
}

func runC06(c *Ctx) {
	if W.Chance(1, 3) {
		sys.RefreshRandom(int64(W.Draw(1000)))
	}
	start := sys.Seed()
	nc := 2 + W.Draw(3)
	plan := make([][]*rngOp, nc)
	total, refreshes := 0, 0
	for i := range plan {
		for k := 1 + W.Draw(3); k > 0 && total < 9; k-- {
			o := &rngOp{kind: []int{0, 0, 1, 2, 3, 4, 4, 5, 6}[W.Draw(9)]}
			o.a = []int{1 << 30, 7, 1000, 2, 1, 1 << 40, 3 << 60, 1<<31 - 1}[W.Draw(8)]
			if o.kind == 3 {
				o.a, o.b = 1+W.Draw(3), 1+W.Draw(3)
				if W.Chance(1, 30) {
					o.a, o.b = 1+W.Draw(24), 1+W.Draw(24)
				}
				o.m = W.Draw(o.a*o.b + 1)
			}
			if o.kind == 4 {
				refreshes++
				o.seed = []int64{1, 2, 42, -7, start}[W.Draw(5)]
			}
			plan[i] = append(plan[i], o)
			total++
		}
	}
	stamps := make([][]lop, nc)
	clients(nc, func(i int) {
		for _, o := range plan[i] {
			inv := tick.Add(1)
			switch o.kind {
			case 0:
				o.i = sys.RandIntn(o.a)
			case 1:
				o.f = sys.RandFloat64()
			case 2:
				o.f = sys.RandNormFloat64()
			case 3:
				o.comb = sys.RandomComb(o.a, o.b, o.m)
			case 4:
				o.gen = sys.RefreshRandom(o.seed)
			case 5:
				o.s = sys.Seed()
			case 6:
				func() {
					defer func() { recover() }()
					sys.RandIntn(0)
				}()
			}
			stamps[i] = append(stamps[i], lop{inv: inv, ret: tick.Add(1)})
		}
	})
	var ops []lop
	var h []*rngOp
	for i := range plan {
		for k, o := range plan[i] {
			l := stamps[i][k]
			l.what = o.String()
			ops = append(ops, l)
			h = append(h, o)
			c.Note("client %d [%d,%d] %s", i, l.inv, l.ret, l.what)
		}
	}
	for _, o := range h {
		if o.kind == 3 {
			seen := map[[2]int]bool{}
			for _, p := range o.comb {
				if p[0] < 0 || p[0] >= o.a || p[1] < 0 || p[1] >= o.b || seen[p] {
					c.Fail("bad combination", "%s: not %d distinct pairs of the grid", o, o.m)
				}
				seen[p] = true
			}
			if len(o.comb) != o.m {
				c.Fail("bad combination", "%s: not %d distinct pairs of the grid", o, o.m)
			}
		}
	}
	// Probe the generators that reseeding handed out, once, after all callers are done.
	gens := map[int]int64{}
	byGen := map[*rand.Rand]bool{}
	for k, o := range h {
		if o.kind == 4 {
			if o.gen == nil || byGen[o.gen] {
				c.Fail("shared generator", "two reseeding calls returned the same generator: %v", whats(ops))
			}
			byGen[o.gen] = true
			gens[k] = o.gen.Int63()
		}
	}
	endSeed := sys.Seed()
	// The model: replay an order on standard generators.
	type sim struct {
		gens map[int]*rand.Rand
		cur  *rand.Rand
		seed int64
	}
	play := func(order []int) (m sim, ok bool) {
		m = sim{map[int]*rand.Rand{}, rand.New(rand.NewSource(start)), start}
		for _, k := range order {
			o := h[k]
			ok = true
			switch o.kind {
			case 0:
				ok = m.cur.Intn(o.a) == o.i
			case 1:
				ok = m.cur.Float64() == o.f
			case 2:
				ok = m.cur.NormFloat64() == o.f
			case 3:
				p := m.cur.Perm(o.a * o.b)
				for j := 0; j < o.m; j++ {
					ok = ok && o.comb[j] == [2]int{p[j] / o.b, p[j] % o.b}
				}
			case 4:
				m.cur = rand.New(rand.NewSource(o.seed))
				m.gens[k] = m.cur
				m.seed = o.seed
			case 5:
				ok = o.s == m.seed
			}
			if !ok {
				return
			}
		}
		return m, true
	}
	good := linearizable(ops, func(order []int) bool { _, ok := play(order); return ok }, func(order []int) bool {
		m, _ := play(order)
		for k, g := range m.gens {
			if g.Int63() != gens[k] {
				return false
			}
		}
		return m.seed == endSeed
	})
	if !good {
		c.Fail("not sequential", "no order of these calls explains what they returned (initial seed %d): %v", start, whats(ops))
	}
	c.Nontrivial = total > 2
	c.CoverN("generator calls", total)
	c.CoverN("reseeds", refreshes)
}

func whats(ops []lop) []string {
	var out []string
	for _, o := range ops {
		out = append(out, o.what)
	}
	return out
}
