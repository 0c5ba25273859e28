package zzverif

import (
	"fmt"

	"github.com/RenatoGeh/gospn/spn"
)

// Histories of operations on one goroutine's storer, against a plain model of its tables.

type storeOp struct {
	kind, t, u, node, pos int
	x                     float64
}

func genStoreOps(nodes int) []storeOp {
	h := make([]storeOp, 3+W.Draw(20))
	for i := range h {
		h[i] = storeOp{W.Draw(14), W.Draw(5), W.Draw(5), W.Draw(minInt(nodes, 4)), W.Draw(3) - 1, float64(W.Draw(9)) - 4}
	}
	return h
}

func checkStoreOps(c *Ctx, h []storeOp, nodes []spn.SPN) {
	st := spn.NewStorer()
	model := map[int]map[int]map[int]float64{} // ticket, node, position
	var given []int                            // tickets, since the last purge
	var done []string
	bad := func(format string, a ...interface{}) {
		c.Fail("wrong answer", "after %v: %s", done, fmt.Sprintf(format, a...))
	}
	for _, o := range h {
		n := nodes[o.node]
		pick := func(i int) int {
			if i < len(given) {
				return given[i]
			}
			return 1000 + i // a ticket never given
		}
		k := pick(o.t)
		t, live := model[k]
		put := func(l int, x float64) {
			if live {
				if t[o.node] == nil {
					t[o.node] = map[int]float64{}
				}
				t[o.node][l] = x
			}
		}
		switch o.kind {
		case 0, 1:
			k = st.NewTicket()
			done = append(done, fmt.Sprintf("ticket %d", k))
			for _, g := range given {
				if g == k {
					bad("ticket %d was given twice", k)
				}
			}
			given = append(given, k)
			model[k] = map[int]map[int]float64{}
		case 2, 3:
			done = append(done, fmt.Sprintf("store %v at (%d, node %d, %d)", o.x, k, o.node, o.pos))
			if ok := st.Store(k, n, o.pos, o.x); ok != live {
				bad("storing says %v, the ticket exists: %v", ok, live)
			}
			put(o.pos, o.x)
		case 4:
			done = append(done, fmt.Sprintf("store %v at (%d, node %d)", o.x, k, o.node))
			if ok := st.StoreSingle(k, n, o.x); ok != live {
				bad("storing says %v, the ticket exists: %v", ok, live)
			}
			put(0, o.x)
		case 5:
			if tab, ok := st.Table(k); ok != live {
				bad("ticket %d exists: %v", k, ok)
			} else if ok {
				done = append(done, fmt.Sprintf("store %v in the table of %d at (node %d, %d)", o.x, k, o.node, o.pos))
				tab.Store(n, o.pos, o.x)
				put(o.pos, o.x)
			}
		case 6:
			if live {
				done = append(done, fmt.Sprintf("delete %d", k))
				st.Delete(k)
				delete(model, k)
			}
		case 7:
			if live {
				done = append(done, fmt.Sprintf("reset %d", k))
				if q := st.Reset(k); q != k {
					bad("resetting ticket %d gives ticket %d", k, q)
				}
				model[k] = map[int]map[int]float64{}
			}
		case 8:
			u := pick(o.u)
			if _, ok := model[u]; ok && live {
				done = append(done, fmt.Sprintf("reset %d and %d", k, u))
				K := []int{k, u}
				if o.pos == 0 { // all of them
					for _, g := range given {
						if _, ok := model[g]; ok && g != k && g != u {
							K = append(K, g)
							done = append(done, fmt.Sprintf("and %d", g))
						}
					}
				}
				st.ResetTickets(K...)
				for _, g := range K {
					model[g] = map[int]map[int]float64{}
				}
			}
		case 9:
			if o.u == 0 {
				done = append(done, "purge")
				st.Purge()
				for _, g := range given {
					if _, ok := st.Table(g); ok {
						bad("ticket %d exists", g)
					}
				}
				model, given = map[int]map[int]map[int]float64{}, nil
			}
		case 10: // another storer is another matter
			z := spn.NewStorer()
			z.Store(z.NewTicket(), n, o.pos, o.x)
		}
		// Everything is as the model says.
		for i := 0; i < 5; i++ {
			k := pick(i)
			t, live := model[k]
			tab, ok := st.Table(k)
			if ok != live {
				bad("ticket %d exists: %v", k, ok)
			}
			for j := 0; j < minInt(len(nodes), 4); j++ {
				n := nodes[j]
				row, has := t[j]
				vals, ok := st.Value(k, n)
				if ok != has || st.ExistsSPN(k, n) != has || len(vals) != len(row) || live && tab.ExistsSPN(n) != has {
					bad("ticket %d, node %d holds %v %v, not %v", k, j, vals, ok, row)
				}
				for l := -1; l < 3; l++ {
					x, in := row[l]
					v, ok := st.Entry(k, n, l)
					if v != x || ok != in || st.Exists(k, n, l) != in {
						bad("ticket %d, node %d, position %d holds %v %v, not %v %v", k, j, l, v, ok, x, in)
					}
					if w, ok := tab.Entry(n, l); live && (w != x || ok != in || tab.Exists(n, l) != in) {
						bad("the table of ticket %d, node %d, position %d holds %v %v, not %v %v", k, j, l, w, ok, x, in)
					}
				}
				if v, ok := st.Single(k, n); v != row[0] || ok != st.Exists(k, n, 0) {
					bad("ticket %d, node %d holds %v %v, not %v", k, j, v, ok, row[0])
				}
			}
		}
	}
	c.Cover("histories of a storer")
}
