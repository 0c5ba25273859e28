package zzverif

import (
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
	"verif.local/simrt/simos"
)

// C11: loading a network gives the saved network or an error, whatever became of the file's tail
// and whatever the disk answers; with nothing wrong it gives the network.
func init() {
	register(&Check{ID: "C11", Span: 800, Cap: 3000000, Run: runC11})
}

func runC11(c *Ctx) {
	r := genNet(netOpts{lone: W.Chance(1, 4), vars: 3, card: 3, depth: 1 + W.Draw(3), gauss: W.Chance(1, 3), spread: W.Chance(1, 2)})
	nodes := r.build()
	whole := spn.Marshal(nodes[len(nodes)-1])
	c.Note("network %s, %d bytes", r, len(whole))
	loads := 1 + W.Draw(2)
	cut := make([]int, loads)
	paths := []string{"a.spn", "b.spn"}
	damaged := make([]bool, loads)
	for i := range cut {
		cut[i] = len(whole)
		switch F.Draw(6) {
		case 1:
			cut[i] = F.Draw(len(whole))
		case 2: // near the end, where the edges are
			cut[i] = len(whole) - 1 - F.Draw(1+len(whole)/8)
		case 3: // near the start
			cut[i] = F.Draw(8)
		case 4:
			cut[i] = -1 // no file
		}
		if cut[i] >= 0 {
			simos.Put(paths[i], whole[:cut[i]])
		}
		damaged[i] = cut[i] != len(whole)
	}
	simos.Plan(drawFaults(1, 5, simos.EIO, simos.Partial), []int{0, 0, 500}[F.Draw(3)], false)
	clients(loads, func(i int) {
		s, err := io.LoadSPN(paths[i])
		k := simos.Fired()
		faulty := k.ErrOpen+k.ErrRead+k.ErrMeta > 0
		c.Note("load of the first %d bytes: network %v, error %v", cut[i], s != nil, err)
		switch {
		case err != nil && !damaged[i] && !faulty:
			c.Fail("load failed", "loading an undamaged file with no fault about failed: %v", err)
		case err == nil:
			if d := r.differs(s); d != "" {
				c.Fail("silent damage", "loading the first %d of %d bytes (disk faults: %v) succeeded with a different network: %s; saved %s", cut[i], len(whole), faulty, d, r)
			}
			c.Cover("loads that succeeded")
		default:
			c.Cover("loads that failed")
		}
		if damaged[i] {
			c.Cover("fault: file cut off or missing")
		}
	})
	c.faultCounts()
	c.Nontrivial = true
}
