package zzverif

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
)

// C26: leaves. Whoever else makes leaves and draws from the generator at the same time, a leaf is
// the distribution of what it was made from, and its most probable value is one of the most frequent.
func init() {
	register(&Check{ID: "C26", Span: 1500, Cap: 3000000, Run: runC26})
}

type leafPlan struct {
	kind   int
	id     int
	counts []int
	esc    []int
	g      int
}

var c26names = []string{"NewMultinomial", "NewCountingMultinomial", "NewScopedCountingMultinomial", "NewEmptyMultinomial",
	"NewGaussian", "NewGaussianMode", "NewGaussianFit", "NewGaussianRaw", "MuSigma", "PartitionQuantiles", "NewIndicator"}

func runC26(c *Ctx) {
	sys.RefreshRandom(int64(W.Draw(1 << 16)))
	if W.Chance(1, 40) {
		leafTies(c)
		return
	}
	nc := 1 + W.Draw(3)
	var pool [][]int
	for i := 0; i < 2; i++ {
		n := 1 + W.Draw(5)
		if W.Chance(1, 25) {
			n = 6 + W.Draw(30)
		}
		counts := make([]int, n)
		total := 0
		for j := range counts {
			counts[j] = W.Draw(5)
			total += counts[j]
		}
		if total == 0 {
			counts[W.Draw(n)] = 1 + W.Draw(3)
		}
		pool = append(pool, counts)
	}
	// Counts of a large dataset: frequencies that are close to each other, and many values.
	large := make([]int, 1+W.Draw(5))
	size := []int{20000, 1000000, 1000000000}[W.Draw(3)]
	for j := range large {
		large[j] = size + W.Draw(3)
	}
	if W.Chance(1, 10) {
		large = make([]int, 2+W.Draw(300))
		for j := range large {
			large[j] = 1 + W.Draw(9)
		}
	}
	pool = append(pool, large)
	plan := make([][]leafPlan, nc)
	for i := range plan {
		for k := 1 + W.Draw(4); k > 0; k-- {
			p := leafPlan{kind: W.Draw(len(c26names)), id: W.Draw(5), counts: pool[W.Draw(2)], g: 1 + W.Draw(4)}
			if W.Chance(1, 6) && p.kind != 7 && p.kind != 9 {
				p.counts = large
			}
			p.esc = []int{p.id, p.id + 1 + W.Draw(3)}
			plan[i] = append(plan[i], p)
			c.Note("%s %+v", c26names[p.kind], p)
		}
	}
	before := fmt.Sprint(pool)
	clients(nc, func(i int) {
		for _, p := range plan[i] {
			p.check(c)
		}
	})
	if after := fmt.Sprint(pool); after != before {
		c.Fail("counts changed", "the counts were %s and are now %s", before, after)
	}
	c.Nontrivial = true
}

// moments are the mean and deviation of values given as counts.
func moments(counts []int) (mu, sd float64, total int) {
	for _, n := range counts {
		total += n
	}
	for v, n := range counts {
		mu += float64(v*n) / float64(total)
	}
	for v, n := range counts {
		sd += float64(n) * (float64(v) - mu) * (float64(v) - mu)
	}
	return mu, math.Sqrt(sd / float64(total)), total
}

func (p leafPlan) check(c *Ctx) {
	name := c26names[p.kind]
	bad := func(format string, a ...interface{}) {
		c.Fail("wrong leaf", "%s of variable %d and counts %v %s", name, p.id, p.counts, fmt.Sprintf(format, a...))
	}
	mu, sd, total := moments(p.counts)
	c.Cover(name)
	multi := func(m *spn.Multinomial, want []float64, sc []int) {
		if fmt.Sprint(m.Sc()) != fmt.Sprint(sc) {
			bad("has the scope %v", m.Sc())
		}
		pr := m.Pr()
		if len(pr) != len(want) {
			bad("has probabilities %v, not %v", pr, want)
		}
		best := 0.0
		e1, e2 := 0.0, 0.0
		for i := range want {
			if !near(pr[i], want[i], 1e-12) {
				bad("has probabilities %v, not %v", pr, want)
			}
			best = math.Max(best, want[i])
			e1 += want[i] * float64(i)
			ev := spn.VarSet{p.id: i}
			if x := m.Value(ev); !near(x, math.Log(want[i]), 1e-9) {
				bad("has value %v at %d", x, i)
			}
			if x := m.Max(ev); !near(x, math.Log(want[i]), 1e-9) {
				bad("has maximum %v given %d", x, i)
			}
			if s, x := m.ArgMax(ev); !near(x, math.Log(want[i]), 1e-9) || len(s) != 1 || s[p.id] != i {
				bad("is explained by %v with %v given %d", s, x, i)
			}
		}
		for i := range want {
			e2 += want[i] * (float64(i) - e1) * (float64(i) - e1)
		}
		none := spn.VarSet{p.id + 100: 0}
		if x := m.Value(none); x != 0 {
			bad("has value %v with nothing observed", x)
		}
		if x := m.Max(none); !near(x, math.Log(best), 1e-9) {
			bad("has maximum %v, not %v", x, math.Log(best))
		}
		s, x := m.ArgMax(none)
		v, ok := s[p.id]
		if !ok || len(s) != 1 || v < 0 || v >= len(want) || !near(want[v], best, 1e-12) || !near(x, math.Log(best), 1e-9) {
			bad("is explained by %v with %v; the most probable values have %v", s, x, best)
		}
		a, b := m.MuSigma()
		if !near(a, e1, 1e-9) || !near(m.Mean(), e1, 1e-9) || !near(b, math.Sqrt(e2), 1e-7) || !near(m.StdDev(), math.Sqrt(e2), 1e-7) {
			bad("has mean %v, %v and deviation %v, %v, not %v and %v", a, m.Mean(), b, m.StdDev(), e1, math.Sqrt(e2))
		}
	}
	gauss := func(g *spn.Gaussian, mu, sd float64) {
		a, b := g.Params()
		if !near(a, mu, 1e-9) || !near(b, sd, 1e-7) {
			bad("has mean %v and deviation %v, not %v and %v", a, b, mu, sd)
		}
		if fmt.Sprint(g.Sc()) != fmt.Sprint([]int{p.id}) {
			bad("has the scope %v", g.Sc())
		}
		if b == 0 {
			return
		}
		for v := range p.counts {
			want, ev := normLog(float64(v), a, b), spn.VarSet{p.id: v}
			if x := g.Value(ev); !near(x, want, 1e-7) {
				bad("has value %v at %d, not %v", x, v, want)
			}
			if x := g.Max(ev); !near(x, want, 1e-7) {
				bad("has maximum %v given %d, not %v", x, v, want)
			}
			if s, x := g.ArgMax(ev); !near(x, want, 1e-7) || len(s) != 1 || s[p.id] != v {
				bad("is explained by %v with %v given %d", s, x, v)
			}
		}
		if x := g.Value(spn.VarSet{}); x != 0 {
			bad("has value %v with nothing observed", x)
		}
		if x := g.Max(spn.VarSet{}); !near(x, normLog(a, a, b), 1e-7) {
			bad("has maximum %v", x)
		}
		if s, x := g.ArgMax(spn.VarSet{}); s[p.id] != int(math.Round(a)) || !near(x, normLog(a, a, b), 1e-7) {
			bad("is explained by %v with %v", s, x)
		}
	}
	k := len(p.counts)
	want := make([]float64, k)
	for i, n := range p.counts {
		want[i] = float64(n+1) / float64(total+k)
	}
	switch name {
	case "NewMultinomial":
		for i, n := range p.counts {
			want[i] = float64(n) / float64(total)
		}
		multi(spn.NewMultinomial(p.id, append([]float64{}, want...)), want, []int{p.id})
	case "NewCountingMultinomial":
		multi(spn.NewCountingMultinomial(p.id, p.counts), want, []int{p.id})
	case "NewScopedCountingMultinomial":
		multi(spn.NewScopedCountingMultinomial(p.id, p.esc, p.counts), want, p.esc)
	case "NewEmptyMultinomial":
		for i := range want {
			want[i] = 1 / float64(k)
		}
		multi(spn.NewEmptyMultinomial(p.id, k), want, []int{p.id})
	case "NewIndicator":
		l := spn.NewIndicator(p.id, p.g)
		if fmt.Sprint(l.Sc()) != fmt.Sprint([]int{p.id}) {
			bad("has the scope %v", l.Sc())
		}
		for v := 0; v < 6; v++ {
			x := math.Inf(-1)
			if v == p.g {
				x = 0
			}
			ev := spn.VarSet{p.id: v}
			if l.Value(ev) != x || l.Max(ev) != x {
				bad("(value %d) has value %v and maximum %v given %d", p.g, l.Value(ev), l.Max(ev), v)
			}
			if s, y := l.ArgMax(ev); y != x || x == 0 && (len(s) != 1 || s[p.id] != v) {
				bad("(value %d) is explained by %v with %v given %d", p.g, s, y, v)
			}
		}
		none := spn.VarSet{p.id + 100: 0}
		if l.Value(none) != 0 || l.Max(none) != 0 {
			bad("(value %d) has value %v and maximum %v with nothing observed", p.g, l.Value(none), l.Max(none))
		}
		if s, y := l.ArgMax(none); y != 0 || len(s) != 1 || s[p.id] != p.g {
			bad("(value %d) is explained by %v with %v", p.g, s, y)
		}
	case "NewGaussian":
		gauss(spn.NewGaussian(p.id, p.counts), mu, sd)
	case "NewGaussianMode":
		g := spn.NewGaussianMode(p.id, p.counts)
		a, _ := g.Params()
		most := 0
		for _, n := range p.counts {
			if n > most {
				most = n
			}
		}
		if m := int(a); float64(m) != a || m < 0 || m >= k || p.counts[m] != most {
			bad("is centred on %v, not on a most frequent value", a)
		}
		gauss(g, a, sd)
	case "NewGaussianFit":
		w := make([]float64, k)
		for i, n := range p.counts {
			w[i] = float64(n)
		}
		gauss(spn.NewGaussianFit(p.id, w), mu, sd)
	case "NewGaussianRaw":
		var xs []float64
		for v, n := range p.counts {
			for ; n > 0; n-- {
				xs = append(xs, float64(v))
			}
		}
		gauss(spn.NewGaussianRaw(p.id, xs), mu, sd)
	case "MuSigma":
		a, b := utils.MuSigma(p.counts)
		if !near(a, mu, 1e-9) || !near(utils.Mean(p.counts), mu, 1e-9) || !near(b, sd, 1e-7) || !near(utils.StdDev(p.counts), sd, 1e-7) {
			bad("gives mean %v, %v and deviation %v, %v, not %v and %v", a, utils.Mean(p.counts), b, utils.StdDev(p.counts), mu, sd)
		}
	case "PartitionQuantiles":
		var D spn.Dataset
		for i := range p.counts {
			for j := 0; j <= p.counts[i]; j++ {
				D = append(D, map[int]int{p.id: (i * j) % 7, p.id + 1: 9})
			}
		}
		x := learn.ExtractInstance(p.id, D)
		for i := range D {
			if len(x) != len(D) || x[i] != D[i][p.id] {
				bad("gets the column %v of %v", x, D)
			}
		}
		got, want := utils.PartitionQuantiles(x, p.g), refQuantiles(x, p.g)
		if len(got) != len(want) {
			bad("gives %v for %v in %d parts, not %v", got, x, p.g, want)
		}
		n := 0.0
		for i := range got {
			if !near(got[i][0], want[i][0], 1e-9) || !near(got[i][1], want[i][1], 1e-7) {
				bad("gives %v for %v in %d parts, not %v", got, x, p.g, want)
			}
			n += got[i][2]
		}
		if n != float64(len(x)) {
			bad("gives %v for %v in %d parts: not every value is in one", got, x, p.g)
		}
	}
}

// leafTies: every one of the most probable values must be the answer some time.
func leafTies(c *Ctx) {
	k := 2 + W.Draw(3)
	if W.Chance(1, 3) {
		k = 5 + W.Draw(5)
	}
	counts := make([]int, k+1)
	dist := make([]float64, k+1)
	for i := range counts {
		counts[i] = 2
		dist[i] = 1 / float64(k)
	}
	low := W.Draw(k + 1)
	counts[low], dist[low] = 1, 0
	c.Note("ties of %d values, all but %d", k, low)
	for _, name := range []string{"NewMultinomial", "NewCountingMultinomial"} {
		seen := map[int]int{}
		tries := 60 * k
		for i := 0; i < tries; i++ {
			var m *spn.Multinomial
			if name == "NewMultinomial" {
				m = spn.NewMultinomial(0, append([]float64{}, dist...))
			} else {
				m = spn.NewCountingMultinomial(0, counts)
			}
			s, _ := m.ArgMax(spn.VarSet{})
			seen[s[0]]++
		}
		if len(seen) != k || seen[low] > 0 {
			c.Fail("ties not at random", "of %d leaves made by %s with %d equally probable values, the most probable values are %v", tries, name, k, seen)
		}
	}
	c.Cover("ties of leaves")
	c.Nontrivial = true
}
