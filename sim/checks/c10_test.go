package zzverif

import (
	"fmt"

	"github.com/RenatoGeh/gospn/io"
	"verif.local/simrt/simos"
)

// C10: a save that reports success can be loaded back as the same network; a save that fails, or
// during which the process dies or power is lost, leaves the file either as it was or holding the
// whole new network; a reader never sees anything else.
func init() {
	register(&Check{ID: "C10", Span: 1500, Cap: 40000000, Run: runC10})
}

// states a file may be in: indices of networks, or -1 for no file.
type fileStates map[int]bool

func (s fileStates) String() string {
	o := ""
	for i := -1; i < 64; i++ {
		if s[i] {
			o += fmt.Sprintf("%d ", i)
		}
	}
	return o
}

func runC10(c *Ctx) {
	paths := []string{"model.spn", "dir/model.spn"}[:1+W.Draw(2)]
	simos.MkAll("dir")
	may, ever := map[string]fileStates{}, map[string]fileStates{}
	for _, p := range paths {
		may[p], ever[p] = fileStates{-1: true}, fileStates{-1: true}
	}
	var nets []*rnet
	fresh := func() int {
		o := netOpts{lone: W.Chance(1, 4), vars: 3, card: 3, depth: 2 + W.Draw(2), gauss: W.Chance(1, 3), spread: W.Chance(1, 2)}
		if W.Chance(1, 60) {
			o = netOpts{vars: 1, card: 280, depth: 1} // some kilobytes
		}
		nets = append(nets, genNet(o))
		return len(nets) - 1
	}
	// observe loads p with no fault about and says which of the allowed networks it is.
	observe := func(p, when string, allowed fileStates) int {
		if b, ok := simos.Get(p); !ok {
			if !allowed[-1] {
				c.Fail("file lost", "%s: %s does not exist (allowed: network %s)", when, p, allowed)
			}
			_ = b
			return -1
		}
		s, err := io.LoadSPN(p)
		if err != nil {
			c.Fail("file damaged", "%s: loading %s says %v (allowed: network %s)", when, p, err, allowed)
		}
		why := ""
		for i := range nets {
			if allowed[i] {
				d := nets[i].differs(s)
				if d == "" {
					return i
				}
				why += fmt.Sprintf("; not network %d: %s", i, d)
			}
		}
		c.Fail("file damaged", "%s: %s holds none of the networks it may hold%s", when, p, why)
		return -1
	}
	kinds := []int{simos.EIO, simos.Partial, simos.CloseErr}
	phases := 1 + W.Draw(4)
	for ph := 0; ph < phases; ph++ {
		p := paths[W.Draw(len(paths))]
		switch k := W.Draw(5); k {
		case 0, 1: // one save, faults allowed
			n := fresh()
			ever[p][n] = true
			s := nets[n].build()
			if k == 1 {
				simos.Plan(drawFaults(2, 10, kinds...), 0, false)
			}
			was, meta, open := simos.Files("/"), simos.Fired(), simos.OpenFiles()
			err := io.SaveSPN(p, s[len(s)-1])
			if x := simos.OpenFiles(); x != open {
				c.Fail("file left open", "saving to %s (error %v) left %d files open", p, err, x-open)
			}
			if x := strays(was, meta, "/work/"+p); len(x) > 0 {
				c.Fail("stray file", "saving to %s (error %v) left %v behind", p, err, x)
			}
			simos.Plan(nil, 0, false)
			c.Note("save network %d (%s) to %s: %v", n, nets[n], p, err)
			if err == nil {
				may[p] = fileStates{n: true}
				c.Cover("saves acknowledged")
			} else {
				may[p][n] = true
				c.Cover("saves refused")
			}
			got := observe(p, fmt.Sprintf("after save %d (error %v)", ph, err), may[p])
			may[p] = fileStates{got: true}
		case 2, 3: // the process dies during a save
			n := fresh()
			ever[p][n] = true
			s := nets[n].build()
			simos.Plan(drawFaults(1, 9, simos.CrashHere), 0, false)
			done, _ := process(func() {
				err := io.SaveSPN(p, s[len(s)-1])
				c.Note("save network %d to %s: %v", n, p, err)
				if err != nil {
					c.Fail("save failed", "saving to %s failed with no fault about: %v", p, err)
				}
			})
			lost := false
			if simos.Frozen() {
				c.Cover("crashes during a save")
				may[p][n] = true
			} else if done {
				may[p] = fileStates{n: true}
			}
			// Power may fail too, at the crash or later.
			if W.Chance(1, 2) {
				simos.PowerLoss()
				lost = true
			}
			simos.Restart()
			for _, q := range paths {
				if lost {
					// An earlier acknowledged save may be undone, but never to half a file.
					for x := range ever[q] {
						may[q][x] = true
					}
				}
				got := observe(q, fmt.Sprintf("after crash %d", ph), may[q])
				may[q] = fileStates{got: true}
			}
		case 4: // concurrent saves and loads
			ns := 1 + W.Draw(2)
			dst := make([]string, ns)
			id := make([]int, ns)
			for i := range dst {
				dst[i] = paths[W.Draw(len(paths))]
				id[i] = fresh()
				ever[dst[i]][id[i]] = true
			}
			during := map[string]fileStates{}
			for _, q := range paths {
				during[q] = fileStates{}
				for x := range may[q] {
					during[q][x] = true
				}
			}
			saved := map[string]bool{}
			for i := range dst {
				during[dst[i]][id[i]] = true
				saved[dst[i]] = true
			}
			clients(ns+1, func(i int) {
				if i == ns {
					q := dst[0]
					if _, ok := simos.Get(q); ok {
						observe(q, "during concurrent saves", during[q])
						c.Cover("loads during saves")
					}
					return
				}
				s := nets[id[i]].build()
				if err := io.SaveSPN(dst[i], s[len(s)-1]); err != nil {
					c.Fail("save failed", "saving to %s failed with no fault about: %v", dst[i], err)
				}
			})
			for _, q := range paths {
				if saved[q] {
					for x := range may[q] {
						delete(during[q], x)
					}
				}
				may[q] = fileStates{observe(q, "after concurrent saves", during[q]): true}
			}
		}
	}
	c.faultCounts()
	c.CoverN("networks saved", len(nets))
	c.Nontrivial = len(nets) > 0
}
