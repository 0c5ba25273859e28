package zzverif

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"verif.local/simrt/simrand"
)

// C16: whatever the random numbers say when several explanations are equally good, and whoever else
// draws from the generator meanwhile, the explanation returned is one of the best; and each of the
// best children of a sum can come out.
func init() {
	register(&Check{ID: "C16", Span: 1500, Cap: 4000000, Run: runC16})
}

func runC16(c *Ctx) {
	vars := 1 + W.Draw(4)
	if W.Chance(1, 15) {
		vars = 12
	}
	r := genNet(netOpts{lone: W.Chance(1, 4), vars: vars, close: W.Chance(1, 5), card: 3, depth: 1 + W.Draw(3), zeros: W.Chance(1, 6), spread: W.Chance(1, 2), gauss: W.Chance(1, 4), tiny: W.Chance(1, 6)})
	if W.Chance(2, 3) { // many ties: make weights and probabilities equal
		for k := range r.n {
			for i := range r.n[k].w {
				r.n[k].w[i] = 1 / float64(len(r.n[k].w))
			}
			for i := range r.n[k].pr {
				r.n[k].pr[i] = 1 / float64(len(r.n[k].pr))
			}
		}
	}
	if W.Chance(1, 4) {
		simrand.Mode = 3
	}
	sys.RefreshRandom(int64(W.Draw(1 << 20)))
	nodes := r.build()
	root := nodes[r.root()]
	nc := 1 + W.Draw(3)
	type op struct {
		kind, n int
		ev      map[int]int
	}
	plan := make([][]op, nc)
	for i := range plan {
		for k := 1 + W.Draw(3); k > 0; k-- {
			plan[i] = append(plan[i], op{W.Draw(5), 1 + W.Draw(6), r.odd(r.evidence(W.Chance(1, 6)))})
		}
	}
	c.Note("network %s", r)
	ties := make([]int, nc)
	clients(nc, func(i int) {
		st := spn.NewStorer()
		for _, o := range plan[i] {
			ref := r.eval(o.ev, true)
			best := ref[r.root()]
			for k := 0; k < o.n; k++ {
				switch o.kind {
				case 0, 1:
					_, tk, m := spn.StoreMAP(root, o.ev, -1, st)
					if v, ok := st.Single(tk, root); !ok || !near(v, best, 1e-9) {
						c.Fail("wrong value", "the best explanation of %v is worth %v, not %v; net %s", o.ev, best, v, r)
					}
					if !math.IsInf(best, -1) {
						r.checkMAP(c, "stored MAP", o.ev, m)
					}
				case 2:
					m, v := root.ArgMax(o.ev)
					if !near(v, best, 1e-9) {
						c.Fail("wrong value", "the best explanation of %v is worth %v, not %v; net %s", o.ev, best, v, r)
					}
					if !math.IsInf(best, -1) {
						r.checkMAP(c, "argmax", o.ev, m)
					}
				case 4:
					if !math.IsInf(best, -1) {
						r.checkTrace(c, nodes, o.ev, ref, spn.TraceMAP(root, o.ev))
					}
				case 3:
					sys.RandFloat64() // somebody else draws
				}
			}
			for k, n := range r.n {
				if n.kind == 's' {
					z := 0
					for j, x := range n.ch {
						if near(math.Log(n.w[j])+ref[x], ref[k], 0) {
							z++
						}
					}
					if z > 1 {
						ties[i]++
					}
				}
			}
		}
	})
	n := 0
	for _, x := range ties {
		n += x
	}
	c.CoverN("sums with ties", n)
	if W.Chance(1, 8) {
		simrand.Mode = 0
		fairness(c)
	}
	c.Nontrivial = n > 0
}

// checkTrace verifies that from the root on, the child that P names for a sum is one of its best.
func (r *rnet) checkTrace(c *Ctx, nodes []spn.SPN, ev map[int]int, ref []float64, P map[spn.SPN]int) {
	var walk func(k int)
	walk = func(k int) {
		n := r.n[k]
		switch n.kind {
		case 's':
			i, ok := P[nodes[k]]
			if !ok || i < 0 || i >= len(n.ch) {
				c.Fail("wrong trace", "the MAP trace says nothing about sum %d, which is on it; evidence %v, net %s", k, ev, r)
			}
			if v := math.Log(n.w[i]) + ref[n.ch[i]]; !near(v, ref[k], 1e-9) {
				c.Fail("wrong trace", "the MAP trace takes child %d of sum %d, worth %v; the best is worth %v; evidence %v, net %s", i, k, v, ref[k], ev, r)
			}
			walk(n.ch[i])
		case 'p':
			for _, x := range n.ch {
				walk(x)
			}
		}
	}
	walk(r.root())
}

// fairness: a sum over children that are equally good must take each of them some time.
func fairness(c *Ctx) {
	k := 2 + W.Draw(2)
	if W.Chance(1, 10) {
		k = 4 + W.Draw(5)
	}
	s := spn.NewSum()
	for i := 0; i < k; i++ {
		p := make([]float64, k)
		p[i] = 1
		s.AddChildW(spn.NewMultinomial(0, p), 1/float64(k))
	}
	sys.RefreshRandom(int64(W.Draw(1 << 20)))
	seen := make([]int, k)
	st := spn.NewStorer()
	tries := 60 * k
	trace := W.Chance(1, 3)
	for i := 0; i < tries; i++ {
		var m map[int]int
		if trace {
			m = map[int]int{0: spn.TraceMAP(s, spn.VarSet{})[s]}
		} else {
			_, _, m = spn.StoreMAP(s, spn.VarSet{}, -1, st)
		}
		if m[0] < 0 || m[0] >= k {
			c.Fail("MAP out of range", "the only variable is %d", m[0])
		}
		seen[m[0]]++
	}
	for i := range seen {
		if seen[i] == 0 {
			c.Fail("biased tie", "in %d queries the %d equally good explanations came out %v times", tries, k, seen)
		}
	}
	c.Cover(fmt.Sprintf("fairness of %d-way ties", k))
}
