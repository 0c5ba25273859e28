package zzverif

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/spn"
	"verif.local/simrt"
	"verif.local/simrt/simrand"
	"verif.local/simrt/simruntime"
)

// C03: concurrent structure learning. Whatever the schedule, every row and every independent group
// of variables ends up in the network exactly once, and the network is the sequential one.
func init() {
	register(&Check{ID: "C03", Span: 4000, Cap: 80000000, Run: runC03})
}

// genData draws a dataset with some dependent columns, and its scope.
func genData(maxVars, maxRows int, large bool) ([]map[int]int, map[int]*learn.Variable, []int) {
	nv := 1 + W.Draw(maxVars)
	cats := 2
	if large {
		nv, cats = 1+W.Draw(12), 2+W.Draw(7)
		maxRows *= 3
	}
	var ids []int
	sc := map[int]*learn.Variable{}
	gap := W.Chance(1, 2)
	card := make([]int, nv)
	for i := 0; i < nv; i++ {
		id := i
		if gap {
			id = i*2 + 1
		}
		ids = append(ids, id)
		card[i] = 2 + W.Draw(cats)
		if W.Chance(1, 12) {
			card[i] = 1 // a variable that says nothing
		}
		sc[id] = &learn.Variable{Varid: id, Categories: card[i], Name: fmt.Sprintf("v%d", id)}
	}
	rows := 1 + W.Draw(maxRows)
	copies := make([]int, nv) // column i is a noisy copy of column copies[i], or fresh if itself
	for i := range copies {
		copies[i] = i
		if i > 0 && W.Chance(1, 2) {
			copies[i] = W.Draw(i)
		}
	}
	D := make([]map[int]int, rows)
	for r := range D {
		D[r] = map[int]int{}
		for i, id := range ids {
			v := W.Draw(card[i])
			if c := copies[i]; c != i && !W.Chance(1, 10) {
				v = D[r][ids[c]] % card[i]
			}
			D[r][id] = v
		}
	}
	return D, sc, ids
}

func runC03(c *Ctx) {
	large := W.Chance(1, 30)
	D, sc, ids := genData(5, 24, large)
	if W.Chance(1, 3) && len(D) > 1 { // well separated groups of rows
		for r := range D {
			if r%2 == 1 {
				for _, id := range ids {
					D[r][id] = sc[id].Categories - 1
				}
			}
		}
	}
	simruntime.CPUs = 1 + W.Draw(4)
	k := []int{0, -1, 1, 2, 2, 3, 4}[W.Draw(7)]
	pval := []float64{0.0001, 0.05, 0.5, 0.9, 0.999}[W.Draw(5)]
	eps := []float64{0.5, 1, 2, 4}[W.Draw(4)]
	mp := 1 + W.Draw(3)
	g := 0
	if W.Chance(1, 3) {
		g = 1 + W.Draw(3)
	}
	if large && W.Chance(1, 2) {
		k = 5 + W.Draw(8)
	}
	procs := []int{2, 3, 4, 0, -1, 1}[W.Draw(6)]
	twin := W.Chance(1, 2)
	if twin {
		// Compare with the sequential learner: both draw the same random numbers.
		simrt.SortMaps()
		simrand.Mode = 1
	}
	before := make([]map[int]int, len(D))
	for i := range D {
		before[i] = copyInt(D[i])
	}
	scBefore := scopeString(sc)
	c.Note("rows %v scope %s k %d pval %v eps %v mp %d g %d procs %d twin %v", D, scBefore, k, pval, eps, mp, g, procs, twin)
	conc := func() spn.SPN {
		if g > 0 {
			return gens.LearnGaussConcurrent(sc, D, k, pval, eps, mp, g, procs)
		}
		return gens.LearnConcurrent(sc, D, k, pval, eps, mp, procs)
	}
	nc := 1
	if W.Chance(1, 4) {
		nc = 2 // two learners share the rows and the scope
	}
	nets := make([]spn.SPN, nc)
	clients(nc, func(i int) { nets[i] = conc() })
	for _, s := range nets {
		checkLearned(c, s, ids, true)
		if g == 0 {
			checkRows(c, s, before, sc, ids)
		} else {
			checkGauss(c, s, before, ids, g)
		}
	}
	checkSplit(c, nets, before, sc, ids, pval)
	if twin {
		if want, ok := refLearn(before, sc, ids, k, pval, eps, mp, g); ok {
			for _, s := range nets {
				if got := canon(s); got != want {
					c.Fail("not the network of the data", "learning gave %s, the data say %s", got, want)
				}
			}
			c.Cover("compared with the model of learning")
		}
		var seq spn.SPN
		if g > 0 {
			seq = gens.LearnGauss(sc, D, k, pval, eps, mp, g)
		} else {
			seq = gens.Learn(sc, D, k, pval, eps, mp)
		}
		want := canon(seq)
		for _, s := range nets {
			if got := canon(s); got != want {
				c.Fail("not the sequential network", "concurrent learning gave %s, sequential learning %s", got, want)
			}
		}
	}
	for i := range D {
		if !sameMap(D[i], before[i]) {
			c.Fail("dataset changed", "learning changed row %v to %v", before[i], D[i])
		}
	}
	if s := scopeString(sc); s != scBefore {
		c.Fail("scope changed", "learning changed the scope from %s to %s", scBefore, s)
	}
	c.Nontrivial = len(nets[0].Ch()) > 1
	c.Cover("learned a " + nets[0].Type())
	if twin {
		c.Cover("compared with the sequential learner")
	}
}

// checkSplit verifies the first step of learning, which depends on nothing but the data: variables
// that fall into independent groups make a product of the groups.
func checkSplit(c *Ctx, nets []spn.SPN, D []map[int]int, sc map[int]*learn.Variable, ids []int, pval float64) {
	gr, ok := groups(D, sc, ids, pval)
	if !ok || len(ids) == 1 {
		return
	}
	for _, s := range nets {
		if len(gr) == 1 {
			continue
		}
		memo := map[spn.SPN]map[int]bool{}
		var want, got []string
		for _, g := range gr {
			want = append(want, fmt.Sprint(g))
		}
		if s.Type() == "product" {
			for _, ch := range s.Ch() {
				var g []int
				for v := range scopeOf(ch, memo) {
					g = append(g, v)
				}
				sort.Ints(g)
				got = append(got, fmt.Sprint(g))
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			c.Fail("wrong groups of variables", "the independent groups of variables are %v; learning split them into %v", want, got)
		}
		c.Cover("split into independent groups")
	}
}

func scopeString(sc map[int]*learn.Variable) string {
	var k []int
	for v := range sc {
		k = append(k, v)
	}
	sort.Ints(k)
	s := ""
	for _, v := range k {
		s += fmt.Sprintf("%d:%+v ", v, *sc[v])
	}
	return s
}

// scopeOf computes a node's scope from its leaves, independently of the repository.
func scopeOf(s spn.SPN, memo map[spn.SPN]map[int]bool) map[int]bool {
	if m, ok := memo[s]; ok {
		return m
	}
	m := map[int]bool{}
	if len(s.Ch()) == 0 {
		if s.Type() == "leaf" {
			for _, v := range s.Sc() {
				m[v] = true
			}
		}
	}
	for _, ch := range s.Ch() {
		for v := range scopeOf(ch, memo) {
			m[v] = true
		}
	}
	memo[s] = m
	return m
}

func sameSet(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// checkLearned verifies that a learned network is a distribution over exactly the given variables:
// complete, decomposable, every sum's weights non-negative and summing to one, every leaf normal.
func checkLearned(c *Ctx, s spn.SPN, ids []int, normal bool) {
	memo := map[spn.SPN]map[int]bool{}
	want := map[int]bool{}
	for _, v := range ids {
		want[v] = true
	}
	if got := scopeOf(s, memo); !sameSet(got, want) {
		c.Fail("wrong scope", "the learned network is over %v, the dataset over %v", got, want)
	}
	seen := map[spn.SPN]bool{}
	var rec func(s spn.SPN)
	rec = func(s spn.SPN) {
		if seen[s] {
			return
		}
		seen[s] = true
		ch := s.Ch()
		switch s.Type() {
		case "sum":
			w := s.(*spn.Sum).Weights()
			if len(w) != len(ch) {
				c.Fail("weights do not match children", "a sum has %d children and %d weights", len(ch), len(w))
			}
			if len(ch) == 0 {
				c.Fail("empty node", "a learned sum has no children")
			}
			t := 0.0
			for i, x := range w {
				if x < 0 || math.IsNaN(x) || math.IsInf(x, 0) {
					c.Fail("bad weight", "a learned sum has weights %v", w)
				}
				t += x
				if !sameSet(scopeOf(ch[i], memo), scopeOf(s, memo)) {
					c.Fail("incomplete sum", "a learned sum over %v has a child over %v", scopeOf(s, memo), scopeOf(ch[i], memo))
				}
			}
			if normal && !near(t, 1, 1e-6) {
				c.Fail("weights not normalised", "a learned sum's weights %v add up to %v", w, t)
			}
		case "product":
			if len(ch) == 0 {
				c.Fail("empty node", "a learned product has no children")
			}
			u := map[int]bool{}
			for _, x := range ch {
				for v := range scopeOf(x, memo) {
					if u[v] {
						c.Fail("undecomposable product", "variable %d is in the scope of two children of a learned product", v)
					}
					u[v] = true
				}
			}
		case "leaf":
			switch l := s.(type) {
			case *spn.Multinomial:
				t := 0.0
				for _, p := range l.Pr() {
					if !(p >= 0) {
						c.Fail("bad leaf", "a learned leaf has probabilities %v", l.Pr())
					}
					t += p
				}
				if !near(t, 1, 1e-6) {
					c.Fail("bad leaf", "a learned leaf's probabilities %v add up to %v", l.Pr(), t)
				}
			case *spn.Gaussian:
				mu, sd := l.Params()
				if !(sd >= 0) || math.IsInf(sd, 0) || math.IsNaN(mu) || math.IsInf(mu, 0) {
					c.Fail("bad leaf", "a learned gaussian has mean %v and deviation %v", mu, sd)
				}
			}
		}
		for _, x := range ch {
			rec(x)
		}
	}
	rec(s)
}

// checkRows verifies conservation: weights say how many rows went each way; the counts that the
// leaves were made from add up to the dataset's, for every variable.
func checkRows(c *Ctx, s spn.SPN, D []map[int]int, sc map[int]*learn.Variable, ids []int) {
	total := map[int][]float64{}
	want := map[int][]float64{}
	for _, v := range ids {
		total[v] = make([]float64, sc[v].Categories)
		want[v] = make([]float64, sc[v].Categories)
		for _, r := range D {
			want[v][r[v]]++
		}
	}
	var rec func(s spn.SPN, n float64)
	rec = func(s spn.SPN, n float64) {
		switch s.Type() {
		case "sum":
			for i, x := range s.Ch() {
				rec(x, n*s.(*spn.Sum).Weights()[i])
			}
		case "product":
			for _, x := range s.Ch() {
				rec(x, n)
			}
		default:
			m, ok := s.(*spn.Multinomial)
			if !ok {
				c.Fail("bad leaf", "learning discrete leaves gave a leaf that is no distribution of counts: %T", s)
				return
			}
			pr := m.Pr()
			v := m.Sc()[0]
			if len(pr) != len(total[v]) {
				c.Fail("bad leaf", "a leaf of variable %d has %d values, the variable %d", v, len(pr), len(total[v]))
			}
			for i, p := range pr {
				// Laplace smoothing: p = (count+1)/(n+categories).
				x := p*(n+float64(len(pr))) - 1
				if x < -1e-6 || math.Abs(x-math.Round(x)) > 1e-6 {
					c.Fail("rows lost", "a leaf of variable %d that %v rows reach has probabilities %v: not counts of that many rows", v, n, pr)
				}
				total[v][i] += x
			}
		}
	}
	rec(s, float64(len(D)))
	for _, v := range ids {
		for i := range want[v] {
			if !near(want[v][i], total[v][i], 1e-5) {
				c.Fail("rows lost", "the leaves of variable %d were made from counts %v, the dataset has %v", v, total[v], want[v])
			}
		}
	}
}

// checkGauss is checkRows for gaussian leaves: they are fitted to values of their own column and,
// where a variable's instances are not split up among several gaussians, their means and
// deviations add up to the column's sum and sum of squares.
func checkGauss(c *Ctx, s spn.SPN, D []map[int]int, ids []int, g int) {
	lo, hi := map[int]float64{}, map[int]float64{}
	sum, sq := map[int]float64{}, map[int]float64{}
	for _, v := range ids {
		lo[v], hi[v] = math.Inf(1), math.Inf(-1)
		for _, r := range D {
			x := float64(r[v])
			lo[v], hi[v] = math.Min(lo[v], x), math.Max(hi[v], x)
			sum[v] += x
			sq[v] += x * x
		}
	}
	reach, gs, gq, slack := map[int]float64{}, map[int]float64{}, map[int]float64{}, map[int]float64{}
	var rec func(s spn.SPN, n float64)
	rec = func(s spn.SPN, n float64) {
		ch := s.Ch()
		switch s.Type() {
		case "sum":
			w := s.(*spn.Sum).Weights()
			mix := true
			for _, x := range ch {
				_, ok := x.(*spn.Gaussian)
				mix = mix && ok
			}
			if mix && (len(ch) > g || math.Abs(n-math.Round(n)) > 1e-6 || n < 1-1e-6) {
				c.Fail("rows lost", "%v instances reach a mixture of %d gaussians (asked for %d)", n, len(ch), g)
			}
			for i, x := range ch {
				rec(x, n*w[i])
			}
		case "product":
			for _, x := range ch {
				rec(x, n)
			}
		default:
			l, ok := s.(*spn.Gaussian)
			if !ok {
				c.Fail("bad leaf", "learning gaussian leaves gave a %T", s)
				return
			}
			v := l.Sc()[0]
			mu, sd := l.Params()
			if mu < lo[v]-1e-9 || mu > hi[v]+1e-9 || !(sd > 0) || sd > math.Max(0.5, (hi[v]-lo[v])/2)+1e-9 {
				c.Fail("rows lost", "a gaussian of variable %d has mean %v and deviation %v; the column's values are from %v to %v", v, mu, sd, lo[v], hi[v])
			}
			reach[v] += n
			gs[v] += n * mu
			gq[v] += n * (mu*mu + sd*sd)
			if near(sd, 0.5, 1e-9) {
				slack[v] += n * 0.25 // the deviation given to values that are all the same
			}
		}
	}
	rec(s, float64(len(D)))
	for _, v := range ids {
		if !near(reach[v], float64(len(D)), 1e-6) {
			c.Fail("rows lost", "%v of %d instances reach the gaussians of variable %d", reach[v], len(D), v)
		}
		if g == 1 && (!near(gs[v], sum[v], 1e-5) || gq[v] < sq[v]-1e-5 || gq[v]-slack[v] > sq[v]+1e-5) {
			c.Fail("rows lost", "the gaussians of variable %d stand for instances with sum %v and squares %v, the dataset has %v and %v", v, gs[v], gq[v], sum[v], sq[v])
		}
	}
}

// canon is a network's structure and numbers, without the order of children.
func canon(s spn.SPN) string {
	var parts []string
	switch s.Type() {
	case "sum":
		for i, x := range s.Ch() {
			parts = append(parts, num(s.(*spn.Sum).Weights()[i])+"*"+canon(x))
		}
		sort.Strings(parts)
		return "(" + strings.Join(parts, "+") + ")"
	case "product":
		for _, x := range s.Ch() {
			parts = append(parts, canon(x))
		}
		sort.Strings(parts)
		return "[" + strings.Join(parts, " ") + "]"
	}
	switch l := s.(type) {
	case *spn.Multinomial:
		return fmt.Sprintf("x%d~%s", l.Sc()[0], nums(l.Pr()))
	case *spn.Gaussian:
		mu, sd := l.Params()
		return fmt.Sprintf("x%d~N(%s,%s)", l.Sc()[0], num(mu), num(sd))
	}
	return fmt.Sprintf("%s%v", s.Type(), s.Sc())
}
