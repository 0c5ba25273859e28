package zzverif

import (
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

// C08: queries on a shared network by concurrent callers each get the answer they would get alone,
// which is the answer the network's definition gives.
func init() {
	register(&Check{ID: "C08", Span: 1500, Cap: 3000000, Run: runC08})
}

func runC08(c *Ctx) {
	vars := 4
	if W.Chance(1, 15) {
		vars = 12
	}
	r := genNet(netOpts{lone: W.Chance(1, 4), vars: vars, card: 3, depth: 3, close: W.Chance(1, 6), gauss: W.Chance(1, 3), zeros: W.Chance(1, 4), spread: W.Chance(1, 2), tiny: W.Chance(1, 5)})
	nodes := r.build()
	root := nodes[r.root()]
	nc := 2 + W.Draw(3)
	type op struct {
		kind    int
		ev      map[int]int
		y, v, z int
		hist    []storeOp
	}
	plan := make([][]op, nc)
	shared := r.evidence(false)
	for i := range plan {
		for k := 1 + W.Draw(3); k > 0; k-- {
			o := op{kind: W.Draw(21), ev: r.odd(r.evidence(false)), z: W.Draw(12)}
			if W.Chance(1, 3) {
				o.ev = shared
			}
			y := W.Draw(len(r.ids))
			o.y, o.v = r.ids[y], W.Draw(r.card[y])
			if o.kind == 20 {
				o.hist = genStoreOps(len(nodes))
			}
			plan[i] = append(plan[i], o)
		}
	}
	c.Note("network %s", r)
	wild, complete, decomposable, shape := wildNet()
	c.Note("second network %s", shape)
	clients(nc, func(i int) {
		st := spn.NewStorer()
		for _, o := range plan[i] {
			before := copyInt(o.ev)
			val := func() float64 { return r.eval(o.ev, false)[r.root()] }
			want := func(what string, got, exp float64) {
				if !near(got, exp, 1e-9) {
					c.Fail("wrong answer", "%s given %v returned %v, the network defines %v; net %s", what, o.ev, got, exp, r)
				}
			}
			switch o.kind {
			case 0:
				want("value", root.Value(o.ev), val())
			case 1:
				want("inference", spn.Inference(root, o.ev), val())
			case 2:
				e := copyInt(o.ev)
				e[o.y] = o.v
				want(fmt.Sprintf("inference with x%d=%d", o.y, o.v), spn.InferenceY(root, o.ev, o.y, o.v), r.eval(e, false)[r.root()])
			case 3:
				_, tk := spn.StoreInference(root, o.ev, -1, st)
				ref := r.eval(o.ev, false)
				for k, n := range nodes {
					got, ok := st.Single(tk, n)
					if !ok {
						c.Fail("wrong answer", "stored inference has no value for node %d; net %s", k, r)
					}
					want(fmt.Sprintf("stored value of node %d", k), got, ref[k])
				}
			case 4:
				_, tk, m := spn.StoreMAP(root, o.ev, -1, st)
				ref := r.eval(o.ev, true)
				for k, n := range nodes {
					got, _ := st.Single(tk, n)
					want(fmt.Sprintf("stored max value of node %d", k), got, ref[k])
				}
				if !math.IsInf(ref[r.root()], -1) {
					r.checkMAP(c, "stored MAP", o.ev, m)
				}
			case 5:
				want("max", root.Max(o.ev), r.eval(o.ev, true)[r.root()])
			case 6:
				ref := r.eval(o.ev, true)[r.root()]
				m, v := root.ArgMax(o.ev)
				want("argmax value", v, ref)
				if !math.IsInf(ref, -1) {
					r.checkMAP(c, "argmax", o.ev, m)
				}
			case 7:
				k := o.v % len(nodes)
				got := append([]int(nil), nodes[len(nodes)-1-k].Sc()...)
				sort.Ints(got)
				exp := scopeIDs(r, r.n[len(nodes)-1-k].scope)
				if fmt.Sprint(got) != fmt.Sprint(exp) {
					c.Fail("wrong answer", "scope of node %d is %v, the network defines %v; net %s", len(nodes)-1-k, got, exp, r)
				}
			case 8:
				if h := root.Height(); h != r.height() {
					c.Fail("wrong answer", "height %d, the longest path has %d edges; net %s", h, r.height(), r)
				}
			case 9:
				s := spn.Unmarshal(spn.Marshal(root))
				if ref := val(); !near(s.Value(o.ev), ref, 1e-9) {
					c.Fail("wrong answer", "a marshalled copy given %v has value %v, the network %v; net %s", o.ev, s.Value(o.ev), ref, r)
				}
			case 10:
				var q common.Collection = &common.Queue{}
				down := o.z >= 6
				if down {
					q = &common.Stack{} // parents first
				}
				switch o.z % 6 {
				case 0:
					spn.TopSortTarjan(root, q)
				case 1:
					spn.TopSortTarjanRec(root, q)
				case 2:
					spn.TopSortDFS(root, q)
				case 3:
					spn.PostOrder(root, q)
				case 4:
					k := 0
					spn.TopSortTarjanFunc(root, q, func(s spn.SPN) bool { k++; return true })
					if k != len(nodes) {
						c.Fail("wrong answer", "the function is called for %d of %d nodes; net %s", k, len(nodes), r)
					}
				case 5:
					if !down { // none given: a queue
						switch o.v + 3*(o.y%2) {
						case 0:
							q = spn.TopSortTarjan(root, nil)
						case 1:
							q = spn.TopSortTarjanRec(root, nil)
						case 2:
							q = spn.TopSortDFS(root, nil)
						case 3:
							q = spn.PostOrder(root, nil)
						default:
							q = spn.TopSortTarjanFunc(root, nil, func(spn.SPN) bool { return true })
						}
					} else {
						spn.TopSortDFS(root, q)
					}
				}
				var order []spn.SPN
				for !q.Empty() {
					order = append(order, q.Take().(spn.SPN))
				}
				if down {
					for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
						order[i], order[j] = order[j], order[i]
					}
				}
				pos := map[spn.SPN]int{}
				for _, s := range order {
					if _, dup := pos[s]; dup {
						c.Fail("wrong answer", "a node appears twice in the dependency order; net %s", r)
					}
					pos[s] = len(pos)
				}
				for k, n := range nodes {
					pk, ok := pos[n]
					if !ok {
						c.Fail("wrong answer", "node %d is missing from the dependency order; net %s", k, r)
					}
					for _, ch := range r.n[k].ch {
						if pos[nodes[ch]] >= pk {
							c.Fail("wrong answer", "node %d comes before its child %d in the dependency order; net %s", k, ch, r)
						}
					}
				}
			}
			switch o.kind {
			case 11:
				if h := spn.ComputeHeight(root); h != r.height() {
					c.Fail("wrong answer", "computed height %d, the longest path has %d edges; net %s", h, r.height(), r)
				}
			case 12:
				ref := r.eval(o.ev, true)
				P := spn.TraceMAP(root, o.ev)
				if math.IsInf(ref[r.root()], -1) {
					break
				}
				r.checkTrace(c, nodes, o.ev, ref, P)
				r.checkHard(c, nodes, o.ev, ref, st)
			case 13, 14:
				_, itk := spn.StoreInference(root, o.ev, -1, st)
				var col common.Collection
				if o.v == 1 {
					col = &common.Stack{}
				}
				_, dtk := learn.DeriveSPN(root, st, -1, itk, col)
				ref := r.eval(o.ev, false)
				d := r.derive(ref)
				for k, n := range nodes {
					got, ok := st.Single(dtk, n)
					if !ok {
						c.Fail("wrong answer", "there is no derivative of node %d; net %s", k, r)
					}
					want(fmt.Sprintf("derivative of node %d", k), got, d[k])
				}
				if o.kind == 14 {
					_, wtk := learn.DeriveWeights(root, st, -1, dtk, itk, col)
					times := 1
					if o.z%3 == 0 {
						// In batches derivatives add up.
						times = 1 + o.z%2
						_, wtk = learn.DeriveWeightsBatch(root, st, -1, dtk, itk, col)
						for i := 1; i < times; i++ {
							learn.DeriveWeightsBatch(root, st, wtk, dtk, itk, col)
						}
					}
					t, _ := st.Table(wtk)
					for k, n := range nodes {
						for i := range r.n[k].w {
							got, ok := t.Entry(n, i)
							if !ok {
								c.Fail("wrong answer", "there is no derivative of weight %d of node %d; net %s", i, k, r)
							}
							want(fmt.Sprintf("derivative of weight %d of node %d", i, k), got, d[k]+ref[r.n[k].ch[i]]+math.Log(float64(times)))
						}
					}
				}
			case 15:
				a, b, l := spn.CountNodes(root)
				x := [3]int{}
				for _, n := range r.n {
					switch n.kind {
					case 's':
						x[0]++
					case 'p':
						x[1]++
					default:
						x[2]++
					}
				}
				if [3]int{a, b, l} != x {
					c.Fail("wrong answer", "counted %d sums, %d products and %d leaves, the network has %v; net %s", a, b, l, x, r)
				}
			case 16:
				if got := spn.Complete(wild); got != complete {
					c.Fail("wrong answer", "asked whether it is complete, a network answers %v: %s", got, shape)
				}
				c.Cover(fmt.Sprintf("asked whether a network is complete: %v", complete))
			case 17:
				if got := spn.Decomposable(wild); got != decomposable {
					c.Fail("wrong answer", "asked whether it is decomposable, a network answers %v: %s", got, shape)
				}
				c.Cover(fmt.Sprintf("asked whether a network is decomposable: %v", decomposable))
			case 18:
				// A search meets every node once, but for what is only below a skipped one.
				skip := nodes[o.z%len(nodes)]
				seen := map[spn.SPN]int{}
				visit := func(s spn.SPN) int {
					seen[s]++
					if s == skip && o.v == 1 {
						return -1
					}
					return 0
				}
				if o.z%2 == 0 {
					spn.BreadthFirst(root, visit)
				} else {
					spn.DepthFirst(root, visit)
				}
				reach := map[spn.SPN]bool{}
				var walk func(k int)
				walk = func(k int) {
					if reach[nodes[k]] {
						return
					}
					reach[nodes[k]] = true
					if nodes[k] == skip && o.v == 1 {
						return
					}
					for _, x := range r.n[k].ch {
						walk(x)
					}
				}
				walk(r.root())
				for k, n := range nodes {
					if want := map[bool]int{true: 1}[reach[n]]; seen[n] != want {
						c.Fail("wrong answer", "a search meets node %d %d times, not %d; net %s", k, seen[n], want, r)
					}
				}
			case 19:
				// Tickets are independent: what is stored under one does not show under another, and
				// a ticket used again holds the new values.
				_, t1 := spn.StoreInference(root, o.ev, -1, st)
				_, t2 := spn.StoreInference(root, shared, -1, st)
				if t1 < 0 || t2 < 0 {
					break
				}
				ref1, ref2 := r.eval(o.ev, false), r.eval(shared, false)
				one, two := true, true
				switch o.z % 6 {
				case 0:
					st.Delete(t1)
					one = false
				case 1:
					st.Reset(t1)
					one = false
				case 2:
					st.ResetTickets(t1, t2)
					one, two = false, false
				case 3:
					if _, t := spn.StoreInference(root, shared, t1, st); t != t1 {
						c.Fail("wrong answer", "ticket %d was given, %d used", t1, t)
					}
					ref1 = ref2
				case 4:
					spn.StoreMAP(root, o.ev, t1, st)
					ref1 = r.eval(o.ev, true)
				case 5:
					st.ResetTickets(t2, t1)
					spn.StoreInference(root, o.ev, t1, st)
					spn.StoreInference(root, shared, t2, st)
				}
				for k, n := range nodes {
					v1, ok1 := st.Single(t1, n)
					v2, ok2 := st.Single(t2, n)
					if ok1 != one || ok2 != two || st.Exists(t1, n, 0) != one || st.Exists(t2, n, 0) != two || st.ExistsSPN(t1, n) != one {
						c.Fail("wrong answer", "values of node %d are stored under the first of two tickets: %v, the second: %v (step %d); net %s", k, ok1, ok2, o.z%6, r)
					}
					if one {
						want(fmt.Sprintf("value of node %d under the first ticket, step %d,", k, o.z%6), v1, ref1[k])
					}
					if two && !near(v2, ref2[k], 1e-9) {
						c.Fail("wrong answer", "value of node %d under the second ticket given %v is %v, the network defines %v; net %s", k, shared, v2, ref2[k], r)
					}
				}
			}
			if o.kind == 20 {
				checkStoreOps(c, o.hist, nodes)
			}
			if !sameMap(before, o.ev) {
				c.Fail("evidence changed", "a query changed its evidence from %v to %v", before, o.ev)
			}
		}
	})
	c.CoverN("queries", nc)
	if len(r.n) > 3 {
		c.Nontrivial = true
	}
	for _, n := range r.n {
		for _, x := range n.ch {
			if len(r.n[x].ch) > 0 {
				c.Cover("nets with inner structure")
				return
			}
		}
	}
}

// wildNet builds a network that need not be complete or decomposable, and says whether it is.
func wildNet() (root spn.SPN, complete, decomposable bool, shape string) {
	type node struct {
		s    spn.SPN
		kind byte
		ch   []int
		sc   map[int]bool
	}
	var ns []node
	nv := 1 + W.Draw(3)
	for i := 0; i < nv+W.Draw(3); i++ {
		v := i % nv
		ns = append(ns, node{s: spn.NewMultinomial(v, []float64{0.25, 0.75}), sc: map[int]bool{v: true}})
	}
	careful := W.Chance(2, 3) // mostly valid
	for k := 1 + W.Draw(6); k > 0; k-- {
		n := node{kind: "sp"[W.Draw(2)], sc: map[int]bool{}}
		if n.kind == 's' {
			n.s = spn.NewSum()
		} else {
			n.s = spn.NewProduct()
		}
		for j := 1 + W.Draw(3); j > 0; j-- {
			i := W.Draw(len(ns))
			if W.Chance(1, 2) {
				i = len(ns) - 1
			}
			x := ns[i]
			bad := len(n.ch) > 0 && !sameSet(n.sc, x.sc)
			if n.kind == 'p' {
				bad = false
				for v := range x.sc {
					bad = bad || n.sc[v]
				}
			}
			if bad && careful && !W.Chance(1, 16) {
				continue
			}
			n.ch = append(n.ch, i)
			for v := range x.sc {
				n.sc[v] = true
			}
			if z, ok := n.s.(*spn.Sum); ok {
				z.AddChildW(x.s, 0.5)
			} else {
				n.s.AddChild(x.s)
			}
		}
		ns = append(ns, n)
	}
	complete, decomposable = true, true
	seen := map[int]bool{}
	var walk func(k int)
	walk = func(k int) {
		n := ns[k]
		if seen[k] {
			return
		}
		seen[k] = true
		shape += fmt.Sprintf("%d:%c%v%v ", k, n.kind, n.ch, len(n.sc))
		total := 0
		for _, x := range n.ch {
			total += len(ns[x].sc)
			if n.kind == 's' && !sameSet(n.sc, ns[x].sc) {
				complete = false
			}
			walk(x)
		}
		if n.kind == 'p' && total != len(n.sc) {
			decomposable = false
		}
	}
	walk(len(ns) - 1)
	return ns[len(ns)-1].s, complete, decomposable, shape
}

// derive computes the derivative of the root by each node, from the nodes' values.
func (r *rnet) derive(val []float64) []float64 {
	d := make([]float64, len(r.n))
	for k := range d {
		d[k] = math.Inf(-1)
	}
	d[r.root()] = 0
	add := func(k int, x float64) {
		switch a, b := math.Max(d[k], x), math.Min(d[k], x); {
		case math.IsInf(b, -1):
			d[k] = a
		default:
			d[k] = a + math.Log1p(math.Exp(b-a))
		}
	}
	for k := len(r.n) - 1; k >= 0; k-- {
		n := r.n[k]
		for i, x := range n.ch {
			switch n.kind {
			case 's':
				add(x, math.Log(n.w[i])+d[k])
			case 'p':
				t := d[k]
				for j, y := range n.ch {
					if j != i {
						t += val[y]
					}
				}
				add(x, t)
			}
		}
	}
	return d
}

// checkHard verifies hard derivatives: from the root on, one best child of every sum is counted once
// per call, and nothing else is.
func (r *rnet) checkHard(c *Ctx, nodes []spn.SPN, ev map[int]int, ref []float64, st *spn.Storer) {
	tk := learn.DeriveHard(nodes[r.root()], st, -1, ev)
	t, ok := st.Table(tk)
	if !ok {
		c.Fail("wrong answer", "hard derivatives of %v are stored nowhere; net %s", ev, r)
	}
	on := map[int]bool{}
	var walk func(k int)
	walk = func(k int) {
		n := r.n[k]
		switch {
		case on[k]:
		case n.kind == 's':
			on[k] = true
			m, _ := t.Value(nodes[k])
			if len(m) != 1 {
				c.Fail("wrong answer", "hard derivatives of sum %d, which is on every best path, are %v; evidence %v, net %s", k, m, ev, r)
			}
			for i, x := range m {
				if i < 0 || i >= len(n.ch) || x != 1 || !near(math.Log(n.w[i])+ref[n.ch[i]], ref[k], 1e-9) {
					c.Fail("wrong answer", "hard derivatives of sum %d are %v, the best is worth %v; evidence %v, net %s", k, m, ref[k], ev, r)
				}
				walk(n.ch[i])
			}
		case n.kind == 'p':
			for _, x := range n.ch {
				walk(x)
			}
		}
	}
	walk(r.root())
	for k := range nodes {
		if m, _ := t.Value(nodes[k]); len(m) > 0 && !on[k] {
			c.Fail("wrong answer", "node %d has hard derivatives %v but is on no best path; evidence %v, net %s", k, m, ev, r)
		}
	}
}
