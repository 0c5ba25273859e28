package zzverif

import (
	"fmt"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/dennis"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/learn/poon"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"verif.local/simrt/simrand"
)

// C17: whatever the random choices and the order of maps, the structure learners return a network
// that is a distribution over exactly the dataset's variables, and leave the dataset alone.
func init() {
	register(&Check{ID: "C17", Span: 4000, Cap: 60000000, Run: runC17})
}

func runC17(c *Ctx) {
	sys.RefreshRandom(int64(W.Draw(1 << 20)))
	switch W.Draw(4) {
	case 0, 1:
		c17dennis(c)
	case 2:
		c17poon(c)
	case 3:
		c17gens(c)
	}
}

// pixels draws rows complete over variables 0..n-1: some columns constant, some copies of others.
func pixels(n, rows, max int) ([]map[int]int, map[int]*learn.Variable) {
	kind := make([]int, n)
	for i := range kind {
		kind[i] = W.Draw(4) // 0, 1: fresh; 2: constant; 3: copy of an earlier one
	}
	if W.Chance(1, 10) {
		for i := range kind {
			kind[i] = 2
		}
	}
	D := make([]map[int]int, rows)
	for r := range D {
		D[r] = map[int]int{}
		for v := 0; v < n; v++ {
			switch {
			case kind[v] == 2:
				D[r][v] = max / 2
			case kind[v] == 3 && v > 0:
				D[r][v] = D[r][v-1]
			default:
				D[r][v] = W.Draw(max)
			}
		}
	}
	sc := map[int]*learn.Variable{}
	for v := 0; v < n; v++ {
		sc[v] = &learn.Variable{Varid: v, Categories: max, Name: fmt.Sprintf("X%d", v)}
	}
	return D, sc
}

func varsOf(sc map[int]*learn.Variable) []int {
	var out []int
	for v := 0; v <= 64; v++ {
		if sc[v] != nil {
			out = append(out, v)
		}
	}
	return out
}

// proper evaluates the network: every row of the data is possible, and with nothing observed the
// probability is one.
func proper(c *Ctx, s spn.SPN, D []map[int]int, what string) {
	st := spn.NewStorer()
	value := func(e spn.VarSet) float64 {
		_, tk := spn.StoreInference(s, e, -1, st)
		v, _ := st.Single(tk, s)
		return v
	}
	if v := value(spn.VarSet{}); !near(v, 0, 1e-6) {
		c.Fail("not a distribution", "%s: with nothing observed the log-probability is %v", what, v)
	}
	for _, r := range D {
		if v := value(r); !(v > -1e18) {
			c.Fail("impossible row", "%s: the network gives the row %v of its own dataset log-probability %v", what, r, v)
		}
	}
}

func c17dennis(c *Ctx) {
	n, rows := 2+W.Draw(4), 1+W.Draw(8)
	D, sc := pixels(n, rows, 2+W.Draw(6))
	k := []int{1, 1, 2, 3, 0}[W.Draw(5)]
	if k > rows {
		k = rows
	}
	m, g := 1+W.Draw(3), 1+W.Draw(3)
	t := []float64{0.95, 0.5, 0.2, 0}[W.Draw(4)]
	before, scBefore := fmt.Sprint(D), scopeString(sc)
	what := fmt.Sprintf("dennis k %d m %d g %d t %v rows %s", k, m, g, t, before)
	c.Note("%s", what)
	nc := 1
	if W.Chance(1, 4) {
		nc = 2
	}
	weights := W.Chance(1, 6)
	nets := make([]spn.SPN, nc)
	clients(nc, func(i int) {
		if weights {
			p := parameters.New(true, false, 0.01, parameters.HardGD, 0.1, 1, 0, 0.01, 1)
			nets[i] = dennis.LearnGD(D, sc, k, m, g, t, p, i)
		} else {
			nets[i] = dennis.Structure(D, sc, k, m, g, t)
		}
	})
	if now := fmt.Sprint(D); now != before {
		c.Fail("dataset changed", "learning changed the dataset from %s to %s", before, now)
	}
	if s := scopeString(sc); s != scBefore {
		c.Fail("scope changed", "learning changed the scope from %s to %s", scBefore, s)
	}
	for _, s := range nets {
		checkLearned(c, s, varsOf(sc), true)
		proper(c, s, D, what)
		c.Nontrivial = c.Nontrivial || len(s.Ch()) > 1
	}
	c.Cover("dennis")
}

func c17poon(c *Ctx) {
	r := 1 + W.Draw(2)
	sys.Width, sys.Height = r*(1+W.Draw(2)), r*(1+W.Draw(2))
	if sys.Width*sys.Height == 1 {
		sys.Width = 2
	}
	sys.Max = 2 + W.Draw(6)
	rows := 1 + W.Draw(6)
	n := sys.Width * sys.Height
	D, sc := pixels(n, rows, sys.Max)
	m, g := 1+W.Draw(3), 1+W.Draw(3)
	before := fmt.Sprint(D)
	what := fmt.Sprintf("poon %dx%d m %d g %d r %d rows %s", sys.Width, sys.Height, m, g, r, before)
	c.Note("%s", what)
	var s spn.SPN
	if W.Chance(1, 4) {
		if W.Chance(1, 3) {
			s = poon.BindedGD(m, g, r, 0.1, 0.01)(sc, D)
		} else {
			s = poon.LearnGD(D, m, g, r, 0.1, 0.01)
		}
	} else {
		if W.Chance(1, 6) {
			s = poon.Test(D, D[0], m, g, r)
		} else {
			s = poon.Structure(D, m, g, r)
		}
		checkLearned(c, s, varsOf(sc), false)
		spn.NormalizeSPN(s)
	}
	if now := fmt.Sprint(D); now != before {
		c.Fail("dataset changed", "learning changed the dataset from %s to %s", before, now)
	}
	checkLearned(c, s, varsOf(sc), true)
	proper(c, s, D, what)
	c.Nontrivial = rows > 1 && n > 2
	c.Cover("poon")
}

func c17gens(c *Ctx) {
	D, sc, ids := genData(4, 16, W.Chance(1, 30))
	k := []int{0, 1, 2, 3}[W.Draw(4)]
	pval := []float64{0.0001, 0.05, 0.5, 0.9, 0.999}[W.Draw(5)]
	mp := 1 + W.Draw(3)
	g := 0
	if W.Chance(1, 2) {
		g = 1 + W.Draw(3)
	}
	before, scBefore := fmt.Sprint(D), scopeString(sc)
	what := fmt.Sprintf("gens k %d pval %v mp %d g %d rows %s", k, pval, mp, g, before)
	c.Note("%s", what)
	if W.Chance(1, 4) {
		simrand.Mode = 1
	}
	var s spn.SPN
	switch {
	case g > 0:
		s = gens.LearnGauss(sc, D, k, pval, 1, mp, g)
	case W.Chance(1, 2):
		s = gens.Binded(k, pval, 1, mp)(sc, D)
	default:
		s = gens.Learn(sc, D, k, pval, 1, mp)
	}
	if now := fmt.Sprint(D); now != before {
		c.Fail("dataset changed", "learning changed the dataset from %s to %s", before, now)
	}
	if now := scopeString(sc); now != scBefore {
		c.Fail("scope changed", "learning changed the scope from %s to %s", scBefore, now)
	}
	checkLearned(c, s, ids, true)
	proper(c, s, D, what)
	if g == 0 {
		checkRows(c, s, D, sc, ids)
	} else {
		checkGauss(c, s, D, ids, g)
	}
	c.Nontrivial = len(s.Ch()) > 1
	c.Cover("gens")
}
