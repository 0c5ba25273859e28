package zzverif

import (
	"math"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/score"
	"verif.local/simrt/simruntime"
)

// C02: classification scores. However the rows are spread over jobs, each is counted once with the
// class that the network makes most probable.
func init() {
	register(&Check{ID: "C02", Span: 3000, Cap: 100000000, Run: runC02})
}

func runC02(c *Ctx) {
	large := W.Chance(1, 25)
	vars, card := 3, 3
	if large {
		vars, card = 2, 14
	}
	r := genNet(netOpts{vars: vars, card: card, depth: 2, gauss: W.Chance(1, 4), zeros: W.Chance(1, 5), spread: W.Chance(1, 2)})
	root := r.build()[r.root()]
	simruntime.CPUs = 1 + W.Draw(6)
	cv := W.Draw(len(r.ids))
	class := &learn.Variable{Varid: r.ids[cv], Categories: r.card[cv], Name: "class"}
	rows := []int{0, 1, 2, 3, 5, 9, 10, 11, 12, 13, 23}[W.Draw(11)]
	if large && W.Chance(1, 2) {
		rows = 24 + W.Draw(60)
	}
	distinct := !W.Chance(1, 3) // every row expects a different label: predictions can be told apart
	D := make([]map[int]int, rows)
	L := make([]int, rows)
	for i := range D {
		D[i] = r.evidence(W.Chance(2, 3))
		if W.Chance(1, 4) {
			delete(D[i], class.Varid)
		} else if W.Chance(1, 2) {
			D[i][class.Varid] = W.Draw(class.Categories)
		}
		L[i] = W.Draw(class.Categories)
		if distinct {
			L[i] = i
		}
	}
	before := make([]map[int]int, rows)
	for i := range D {
		before[i] = copyInt(D[i])
	}
	// What each row may be classified as; more than one class only if they are as good as each other.
	soft := make([][]int, rows)
	hard := make([][]int, rows)
	for i := range D {
		soft[i], hard[i] = r.best(D[i], cv, false), r.best(D[i], cv, true)
	}
	ambiguous := func(a [][]int) bool {
		for _, x := range a {
			if len(x) != 1 {
				return true
			}
		}
		return false
	}
	nc := 1
	if W.Chance(1, 2) {
		nc = 2
	}
	mode := make([]int, nc)
	jobs := make([]int, nc)
	for i := range mode {
		mode[i] = []int{0, 0, 0, 1, 2}[W.Draw(5)] // concurrent, sequential, MAP
		if mode[i] == 2 && r.hasGauss() {
			mode[i] = 1 // a Gaussian's mode need not be a class
		}
		jobs[i] = []int{0, -1, 1, 2, 3, 4, 5, rows, rows + 1}[W.Draw(9)]
		if large && W.Chance(1, 2) {
			jobs[i] = 6 + W.Draw(40)
		}
	}
	base := score.NewScore()
	nb := W.Draw(6)
	if large && W.Chance(1, 2) {
		nb = 30 + W.Draw(100)
	}
	for i := 0; i < nb; i++ {
		base.Register(W.Draw(class.Categories), W.Draw(class.Categories))
	}
	nd := rows
	if class.Categories > nd {
		nd = class.Categories
	}
	bm := base.ConfusionMatrix(nd)
	c.Note("net %s class x%d data %v labels %v modes %v jobs %v cpus %d", r, class.Varid, D, L, mode, jobs, simruntime.CPUs)
	S := make([]*score.S, nc)
	A := make([]*score.S, nc)
	merge := W.Chance(1, 2)
	clients(nc, func(i int) {
		s := score.NewScore()
		switch mode[i] {
		case 0:
			s.EvaluatePosteriorConc(D, L, root, class, jobs[i])
		case 1:
			s.EvaluatePosterior(D, L, root, class)
		case 2:
			s.Evaluate(D, L, root, class)
		}
		S[i] = s
		A[i] = score.Add(base, s)
	})
	ok := func(x int, in []int) bool {
		for _, y := range in {
			if x == y {
				return true
			}
		}
		return false
	}
	for i, s := range S {
		name := []string{"concurrent evaluation", "sequential evaluation", "MAP evaluation"}[mode[i]]
		want := soft
		if mode[i] == 2 {
			want = hard
		}
		if s.Total() != rows || s.Hits()+s.Misses() != rows {
			c.Fail("rows miscounted", "%s of %d rows with %d jobs counted %d: %d hits, %d misses", name, rows, jobs[i], s.Total(), s.Hits(), s.Misses())
		}
		m := s.ConfusionMatrix(nd)
		diag := 0
		for k := range m {
			diag += m[k][k]
		}
		if diag != s.Hits() {
			c.Fail("rows miscounted", "%s has %d hits, its confusion matrix %d", name, s.Hits(), diag)
		}
		if distinct {
			for k := range D {
				n := 0
				for j, x := range m[k] {
					n += x
					if x > 0 && !ok(j, want[k]) {
						c.Fail("wrong class", "%s with %d jobs classified row %v as %d, the most probable is %v; net %s", name, jobs[i], before[k], j, want[k], r)
					}
				}
				if n != 1 {
					c.Fail("rows miscounted", "%s with %d jobs registered row %d of %d %d times", name, jobs[i], k, rows, n)
				}
			}
		} else if !ambiguous(want) {
			ref := make([][]int, nd)
			for k := range ref {
				ref[k] = make([]int, nd)
			}
			for k := range D {
				ref[L[k]][want[k][0]]++
			}
			if !sameMatrix(m, ref, nil) {
				c.Fail("wrong class", "%s with %d jobs gave the confusion matrix %v, the rows give %v", name, jobs[i], m, ref)
			}
		}
		// Sums of scores.
		a := A[i]
		if a.Total() != nb+rows || a.Hits() != base.Hits()+s.Hits() || a.Misses() != base.Misses()+s.Misses() {
			c.Fail("sum of scores", "adding scores of %d and %d rows gave %d", nb, rows, a.Total())
		}
		if !sameMatrix(a.ConfusionMatrix(nd), bm, m) {
			c.Fail("sum of scores", "the sum of scores %v and %v is %v", bm, m, a.ConfusionMatrix(nd))
		}
	}
	if !sameMatrix(base.ConfusionMatrix(nd), bm, nil) || base.Total() != nb {
		c.Fail("sum of scores", "adding scores changed one of them")
	}
	if merge {
		t, h := S[0].Total(), S[0].Hits()
		m := S[0].ConfusionMatrix(nd)
		S[0].Merge(base)
		if S[0].Total() != t+nb || S[0].Hits() != h+base.Hits() || S[0].Misses() != t+nb-S[0].Hits() || !sameMatrix(S[0].ConfusionMatrix(nd), bm, m) {
			c.Fail("sum of scores", "merging a score lost or invented rows")
		}
		if !sameMatrix(base.ConfusionMatrix(nd), bm, nil) {
			c.Fail("sum of scores", "merging a score changed it")
		}
	}
	// A sum is a score of its own: what is registered in one afterwards is not in another.
	into := score.NewScore()
	into.Merge(base)
	group := []*score.S{base, into, score.Add(base, score.NewScore()), score.Add(score.NewScore(), base)}
	models := make([][][]int, len(group))
	for k := range models {
		models[k] = base.ConfusionMatrix(nd)
	}
	for k := 0; k < 6; k++ {
		g, p, e := W.Draw(len(group)), W.Draw(nd), W.Draw(nd)
		if W.Chance(1, 8) {
			group[g].Clear()
			for i := range models[g] {
				models[g][i] = make([]int, nd)
			}
		}
		group[g].Register(p, e)
		models[g][e][p]++
	}
	for k, s := range group {
		if !sameMatrix(s.ConfusionMatrix(nd), models[k], nil) {
			c.Fail("sum of scores", "scores that are sums of each other are not independent: %v instead of %v", s.ConfusionMatrix(nd), models[k])
		}
	}
	last := S[nc-1]
	last.Clear()
	if last.Total() != 0 || last.Hits() != 0 || last.Misses() != 0 || !sameMatrix(last.ConfusionMatrix(1), [][]int{{0}}, nil) {
		c.Fail("sum of scores", "a cleared score counts %d rows, %d hits, %d misses", last.Total(), last.Hits(), last.Misses())
	}
	for i := range D {
		if !sameMap(D[i], before[i]) {
			c.Fail("dataset changed", "evaluation changed row %v to %v", before[i], D[i])
		}
	}
	c.Nontrivial = rows > 1
	c.CoverN("rows scored", rows*nc)
	if mode[0] == 0 {
		c.Cover("concurrent evaluations")
	}
}

// best lists the classes of the best value given a row's other variables.
func (r *rnet) best(row map[int]int, cv int, max bool) []int {
	e := copyInt(row)
	var v []float64
	m := math.Inf(-1)
	for j := 0; j < r.card[cv]; j++ {
		e[r.ids[cv]] = j
		x := r.eval(e, max)[r.root()]
		v = append(v, x)
		m = math.Max(m, x)
	}
	var out []int
	for j, x := range v {
		if math.IsInf(m, -1) || near(x, m, 1e-9) {
			out = append(out, j)
		}
	}
	return out
}

// sameMatrix: a == b + c.
func sameMatrix(a, b, c [][]int) bool {
	for i := range a {
		for j := range a[i] {
			x := b[i][j]
			if c != nil {
				x += c[i][j]
			}
			if a[i][j] != x {
				return false
			}
		}
	}
	return true
}
