package zzverif

import (
	"fmt"

	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
)

// C07: parameter bindings. Every history of concurrent binds, unbinds, look-ups and reads of a
// node's parameters is explained by some sequential order of them.
func init() {
	register(&Check{ID: "C07", Span: 150, Cap: 300000, Run: runC07})
}

type bindOp struct {
	kind int // 0 Parameters, 1 Bind, 2 Unbind, 3 Exists, 4 Retrieve
	node int
	p    *parameters.P // bound or returned
	ok   bool
}

func runC07(c *Ctx) {
	mk := []func() spn.SPN{
		func() spn.SPN { return spn.NewSum() },
		func() spn.SPN { return spn.NewProduct() },
		func() spn.SPN { return spn.NewIndicator(0, 1) },
		func() spn.SPN { return spn.NewMultinomial(0, []float64{0.5, 0.5}) },
		func() spn.SPN { return spn.NewGaussianParams(0, 0, 1) },
	}
	nn := 1 + W.Draw(3)
	nodes := make([]spn.SPN, nn)
	kinds := make([]int, nn)
	for i := range nodes {
		kinds[i] = W.Draw(len(mk))
		nodes[i] = mk[kinds[i]]()
	}
	// Other nodes, bound long before, stay bound.
	var others []spn.SPN
	var theirs []*parameters.P
	if W.Chance(1, 60) {
		for i := 20 + W.Draw(180); i > 0; i-- {
			n, p := mk[W.Draw(len(mk))](), parameters.Default()
			parameters.Bind(n, p)
			others, theirs = append(others, n), append(theirs, p)
		}
		c.Cover("many bound nodes")
	}
	nc := 2 + W.Draw(3)
	plan := make([][]*bindOp, nc)
	names := map[*parameters.P]string{nil: "none"}
	mine := map[*parameters.P]bool{}
	total := 0
	for i := range plan {
		for k := 1 + W.Draw(4); k > 0 && total < 12; k-- {
			o := &bindOp{kind: []int{0, 0, 1, 2, 3, 4}[W.Draw(6)], node: W.Draw(nn)}
			if o.kind == 1 {
				switch W.Draw(4) {
				case 0: // equal to what others bind, but not the same object
					o.p = parameters.New(true, false, 1, 0, 0.1, 1, 0, 0, 1)
				case 1:
					o.p = parameters.Default()
				default:
					o.p = parameters.New(true, false, float64(i), 0, 0.1, 1, total, 0, k)
				}
				mine[o.p] = true
				names[o.p] = fmt.Sprintf("P%d", total)
			}
			plan[i] = append(plan[i], o)
			total++
		}
	}
	stamps := make([][]lop, nc)
	clients(nc, func(i int) {
		for _, o := range plan[i] {
			n := nodes[o.node]
			inv := tick.Add(1)
			switch o.kind {
			case 0:
				o.p = n.Parameters()
			case 1:
				parameters.Bind(n, o.p)
			case 2:
				parameters.Unbind(n)
			case 3:
				o.ok = parameters.Exists(n)
			case 4:
				o.p, o.ok = parameters.Retrieve(n)
			}
			stamps[i] = append(stamps[i], lop{inv: inv, ret: tick.Add(1)})
		}
	})
	// What is bound when everything is quiet.
	end := make([]*bindOp, nn)
	for i := range end {
		end[i] = &bindOp{kind: 4, node: i}
		end[i].p, end[i].ok = parameters.Retrieve(nodes[i])
	}
	// The documented default.
	def := parameters.P{Normalize: true, SmoothSum: 0.01, LearningType: parameters.SoftGD, Eta: 0.1, Epsilon: 1, Lambda: 0.01, Iterations: 4}
	name := func(p *parameters.P) string {
		if names[p] == "" {
			names[p] = fmt.Sprintf("D%d", len(names))
		}
		return names[p]
	}
	for n := range nodes {
		var ops []lop
		var h []*bindOp
		for i := range plan {
			for k, o := range plan[i] {
				if o.node == n {
					ops = append(ops, stamps[i][k])
					h = append(h, o)
				}
			}
		}
		t := tick.Add(2)
		ops = append(ops, lop{inv: t, ret: t + 1})
		h = append(h, end[n])
		for k, o := range h {
			ops[k].what = fmt.Sprintf("[%d,%d] %s %s %v", ops[k].inv, ops[k].ret, []string{"parameters", "bind", "unbind", "exists", "retrieve"}[o.kind], name(o.p), o.ok)
			c.Note("node %d: %s", n, ops[k].what)
			if o.kind == 0 && !mine[o.p] && (o.p == nil || *o.p != def) {
				c.Fail("wrong parameters", "a node with nothing bound has parameters %+v, the default is %+v", o.p, def)
			}
			if o.kind == 1 && o.p != nil && (o.p.BatchSize < 0 || o.p.BatchSize > 12) {
				c.Fail("wrong parameters", "bound parameters were modified: %+v", *o.p)
			}
		}
		good := linearizable(ops, func(order []int) bool {
			var cur *parameters.P
			old := map[*parameters.P]bool{}
			for _, k := range order {
				o := h[k]
				switch o.kind {
				case 0:
					if cur == nil {
						if mine[o.p] || old[o.p] {
							return false // a default is a new object
						}
						cur = o.p
						old[cur] = true
					}
					if o.p != cur {
						return false
					}
				case 1:
					cur = o.p
				case 2:
					cur = nil
				case 3:
					if o.ok != (cur != nil) {
						return false
					}
				case 4:
					if o.ok != (cur != nil) || o.p != cur {
						return false
					}
				}
			}
			return true
		}, nil)
		if !good {
			c.Fail("not sequential", "no order of these calls on one node (a %s) explains what they returned: %v", nodes[n].Type(), whats(ops))
		}
	}
	for i, n := range others {
		if p, ok := parameters.Retrieve(n); !ok || p != theirs[i] || !parameters.Exists(n) {
			c.Fail("binding lost", "one of %d nodes bound before lost its parameters: %v %v", len(others), p, ok)
		}
		parameters.Unbind(n)
	}
	c.Nontrivial = total > 2
	c.CoverN("parameter calls", total)
}
