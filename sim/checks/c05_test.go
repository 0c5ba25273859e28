package zzverif

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/app"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"verif.local/simrt"
	"verif.local/simrt/simos"
	"verif.local/simrt/simruntime"
)

// C05: image completion and classification jobs. Every instance is completed once, from a network
// that was learned without it, into files of its own, whatever the number of jobs and the schedule.
func init() {
	register(&Check{ID: "C05", Span: 4000, Cap: 120000000, Run: runC05})
}

// picture reads a P3 file: its pixels without the red separator, and where those were.
func picture(text string) (w, h int, px [][3]int, red []int, ok bool) {
	f := strings.Fields(text)
	if len(f) < 4 || f[0] != "P3" {
		return
	}
	v, good := fields(strings.Join(f[1:], " "))
	if !good || (len(v)-3)%3 != 0 {
		return
	}
	w, h = v[0], v[1]
	max := v[2]
	v = v[3:]
	for i := 0; i+2 < len(v); i += 3 {
		if p := [3]int{v[i], v[i+1], v[i+2]}; p == [3]int{max, 0, 0} {
			red = append(red, i/3)
		} else {
			px = append(px, p)
		}
	}
	ok = len(px)+len(red) == w*h
	return
}

// missing says whether pixel p is in the half that typ asks to complete.
func missing(typ io.CmplType, p, w, h int) bool {
	switch typ {
	case io.Top:
		return p < w*(h/2)
	case io.Bottom:
		return p >= w*(h/2)
	case io.Left:
		return p%w < w/2
	}
	return p%w >= w/2
}

// completed compares a picture file with the instance it shows. The completion is want, where known.
func completed(name string, row map[int]int, typ io.CmplType, w, h, max int, want func(p int) int, may func(p, x int) bool) string {
	b, ok := simos.Get(name)
	if !ok {
		return "there is no file " + name
	}
	pw, ph, px, red, ok := picture(string(b))
	if !ok || len(px) != w*h || pw*ph != w*h+len(red) {
		return fmt.Sprintf("file %s is not a picture of %dx%d and a separator: %q", name, w, h, b)
	}
	for _, p := range red {
		if top := typ == io.Top || typ == io.Bottom; top && p/pw != h/2 || !top && p%pw != w/2 {
			return fmt.Sprintf("file %s: the line is not between the halves of a %dx%d picture completed at the %s: %q", name, w, h, typ, b)
		}
	}
	for p, v := range px {
		if missing(typ, p, w, h) {
			u := v[1]
			if v[0] != 0 || v[2] != 0 || u < 0 || u >= max || want != nil && u != want(p) {
				x := -1
				if want != nil {
					x = want(p)
				}
				return fmt.Sprintf("file %s: pixel %d is %v, completed with %d", name, p, v, x)
			}
			if may != nil && !may(p, u) {
				return fmt.Sprintf("file %s: pixel %d is completed with %d, which is not between the other instances' values", name, p, u)
			}
		} else if v != [3]int{row[p], row[p], row[p]} {
			return fmt.Sprintf("file %s: pixel %d is %v, %d in the original", name, p, v, row[p])
		}
	}
	return ""
}

// peaked builds a network over n variables: a product of leaves, each with its own best value.
func peaked(n, max int, best func(v int) int, cards func(v int) int) spn.SPN {
	s := spn.NewProduct()
	for v := 0; v < n; v++ {
		k := cards(v)
		pr := make([]float64, k)
		for i := range pr {
			pr[i] = 0.5 / float64(k)
		}
		pr[best(v)%k] += 0.5
		s.AddChild(spn.NewMultinomial(v, pr))
	}
	if n == 1 {
		return s.Ch()[0]
	}
	return s
}

// overlap records which goroutines are at work on image jobs at the same time. A job is at work from
// its learning, or the first operation on its pictures, to the last one by the same goroutine.
type overlap struct {
	now   int64
	n     int
	spans [512]jobSpan
}

type jobSpan struct {
	g           *simrt.G
	id          int // -1: not known yet
	first, last int64
}

//go:norace
func (o *overlap) add(id int) {
	if o.now++; o.n < len(o.spans) {
		s := &o.spans[o.n]
		s.g, s.id, s.first, s.last = simrt.Cur(), id, o.now, o.now
		o.n++
	}
}

//go:norace
func (o *overlap) learn() { o.add(-1) }

var jobNumber = regexp.MustCompile(`cmpl_(?:(\d+)-[A-Z]+|[A-Z]+_(\d+))\.pgm$`)

//go:norace
func (o *overlap) draw(path string) {
	m := jobNumber.FindStringSubmatch(path)
	if m == nil {
		return
	}
	id, _ := strconv.Atoi(m[1] + m[2])
	o.touch(id)
}

// touch says that the current goroutine is at work on job id.
//
//go:norace
func (o *overlap) touch(id int) {
	g := simrt.Cur()
	for i := o.n - 1; i >= 0; i-- {
		if s := &o.spans[i]; s.g == g {
			if s.id < 0 {
				s.id = id
			}
			if s.id == id {
				o.now++
				s.last = o.now
				return
			}
			break
		}
	}
	o.add(id)
}

func (o *overlap) judge(c *Ctx, limit int) {
	simos.Restrict(nil)
	for _, s := range o.spans[:o.n] {
		at := map[*simrt.G]bool{}
		for _, u := range o.spans[:o.n] {
			if u.first <= s.first && s.first <= u.last {
				at[u.g] = true
			}
		}
		if len(at) > limit {
			c.Fail("too many jobs", "%d jobs were at work at once, at most %d may be", len(at), limit)
		}
		if len(at) > 1 {
			c.Cover("jobs at work at the same time")
		}
	}
}

func runC05(c *Ctx) {
	w, h, max := 1+W.Draw(3), 1+W.Draw(3), 2+W.Draw(6)
	if W.Chance(1, 60) {
		w, h = 2+W.Draw(4), 2+W.Draw(4)
	}
	if w*h < 2 || W.Chance(1, 3) {
		w, h, max = 2, 1, 2
	}
	sys.Width, sys.Height, sys.Max = w, h, max
	sys.RefreshRandom(int64(W.Draw(1 << 20)))
	n, rows, nl := w*h, 2+W.Draw(6), 1+W.Draw(3)
	large := W.Chance(1, 40)
	if large {
		rows = 6 + W.Draw(16)
	}
	t := &table{}
	for i := 0; i < n; i++ {
		t.cards = append(t.cards, max)
	}
	t.cards = append(t.cards, nl)
	for i := 0; i < rows; i++ {
		r := make([]int, n+1)
		for j := range r {
			r[j] = W.Draw(t.cards[j])
		}
		t.rows = append(t.rows, r)
	}
	simos.Put("in.data", t.text(" ", false, true))
	simruntime.CPUs = 1 + W.Draw(4)
	conc := []int{2, 3, 0, -1, 1, 5}[W.Draw(6)]
	if large {
		conc = 4 + W.Draw(20)
	}
	// What a network learned from train completes variable v with.
	best := func(train []map[int]int, v int) int {
		x := v
		for _, r := range train {
			x += r[v] + 1
		}
		return x % max
	}
	limit := conc
	if limit <= 0 {
		limit = simruntime.CPUs
	}
	kind := W.Draw(7)
	c.Note("kind %d, %dx%d, rows %v, %d jobs on %d processors", kind, w, h, t.rows, conc, simruntime.CPUs)
	switch kind {
	case 0, 1, 2:
		var running, most Cell
		var o overlap
		effort := []int{4, 30, 200}[W.Draw(3)]
		lf := func(sc map[int]*learn.Variable, train spn.Dataset) spn.SPN {
			if k := running.Add(1); k > most.Get() {
				most.Set(k)
			}
			o.learn()
			work(effort)
			s := peaked(n, max, func(v int) int { return best(train, v) }, func(v int) int { return sc[v].Categories })
			running.Add(-1)
			return s
		}
		simos.Capture(true)
		if W.Chance(1, 3) {
			simos.Plan(drawFaults(1+W.Draw(3), rows*12, simos.EIO, simos.Partial, simos.CloseErr), 0, false)
			c.loud = func() bool { return simos.Fired() != simos.Counts{} }
		}
		simos.Restrict(func(op, path string) bool {
			o.draw(path)
			return strings.Contains(path, "cmpl_")
		})
		app.ImgCompletion(lf, "in.data", conc)
		hit := simos.Fired() != simos.Counts{}
		c.faultCounts()
		simos.Plan(nil, 0, false)
		told := simos.Captured()
		for i, r := range t.rows {
			var train []map[int]int
			for j, q := range t.rows {
				if j != i && q[n] != r[n] {
					train = append(train, rowMap(q, n))
				}
			}
			for _, typ := range io.Orientations {
				name := fmt.Sprintf("cmpl_%d-%s.pgm", i, typ)
				if hit && strings.Contains(told, name) {
					c.Cover("pictures reported as not written")
					continue
				}
				if why := completed(name, rowMap(r, n), typ, w, h, max, func(p int) int { return best(train, p) }, nil); why != "" {
					c.Fail("wrong completion", "%s; rows %v, %d jobs", why, t.rows, conc)
				}
			}
		}
		if int(most.Get()) > limit {
			c.Fail("too many jobs", "%d jobs ran at once, %d were asked for", most.Get(), limit)
		}
		o.judge(c, limit)
		if most.Get() > 1 {
			c.Cover("completions with jobs at the same time")
		}
		c.Nontrivial = rows > 1
	case 3, 5:
		m, g := 1+W.Draw(2), 1+W.Draw(2)
		// The networks' leaves are gaussians about means of the training values.
		between := func(i int) func(p, x int) bool {
			return func(p, x int) bool {
				lo, hi := max, -1
				for j, r := range t.rows {
					if j != i {
						if r[p] < lo {
							lo = r[p]
						}
						if r[p] > hi {
							hi = r[p]
						}
					}
				}
				return lo <= x && x <= hi
			}
		}
		if kind == 3 {
			var o overlap
			simos.Restrict(func(op, path string) bool {
				o.draw(path)
				return false
			})
			app.ImgTestParallel("in.data", m, g, 1, 0.1, 1, conc)
			simos.Restrict(nil)
			o.judge(c, limit)
		} else {
			app.ImgTest("in.data", m, g, 1, 0.1, 1)
			for i, r := range t.rows {
				for _, typ := range io.Quadrants {
					if x := completed(fmt.Sprintf("cmpl_%s_%d.pgm", typ, i), rowMap(r, n), typ, w, h, max, nil, between(i)); x != "" {
						c.Fail("wrong completion", "%s; rows %v, one after another", x, t.rows)
					}
				}
			}
		}
		// The instances are shuffled: every instance has to be one job's.
		left := map[string]int{}
		for _, r := range t.rows {
			left[fmt.Sprint(r[:n])]++
		}
		for id := range t.rows {
			cand := ""
			why := ""
			for i, r := range t.rows {
				why = ""
				for _, typ := range io.Quadrants {
					if x := completed(fmt.Sprintf("cmpl_%s_%d.pgm", typ, id), rowMap(r, n), typ, w, h, max, nil, between(i)); x != "" {
						why = x
						break
					}
				}
				if why == "" {
					cand = fmt.Sprint(r[:n])
					break
				}
			}
			if cand == "" {
				c.Fail("wrong completion", "the pictures of job %d show none of the instances (%s); rows %v, %d jobs", id, why, t.rows, conc)
			}
			if left[cand]--; left[cand] < 0 {
				c.Fail("instance completed twice", "instance %s is in too many pictures; rows %v", cand, t.rows)
			}
		}
		c.Cover("completions with learned structures")
		c.Nontrivial = true
	case 4, 6:
		p := []float64{0.5, 0.7, 0.25, 0.99}[W.Draw(4)]
		seed := int64(W.Draw(50)) - 1
		const name = "data/set/compiled/all.data"
		simos.MkAll("data/set/compiled")
		simos.Put(name, t.text(" ", false, true))
		test := int((1 - p) * float64(rows))
		var all []string
		for _, r := range t.rows {
			all = append(all, rowString(rowMap(r, n+1), n+1))
		}
		// Every training gives the least and the greatest number of right answers (they differ by ties).
		low, high, sets := 0, 0, 0
		var seen []string
		lf := func(sc map[int]*learn.Variable, train spn.Dataset) spn.SPN {
			seen = nil
			left := map[string]int{}
			for _, s := range all {
				left[s]++
			}
			for _, r := range train {
				s := rowString(r, n+1)
				seen = append(seen, s)
				if left[s]--; left[s] < 0 {
					c.Fail("wrong training set", "%s was trained on too often; rows %v, trained on %v", s, all, seen)
				}
			}
			if len(seen)+test != rows {
				c.Fail("instances lost", "of %d instances %d were trained on (proportion %v)", rows, len(seen), p)
			}
			g := &judge{n: n, max: max, nl: nl, best: func(v int) int { return best(train, v) }}
			for i, s := range all {
				if left[s] > 0 {
					left[s]--
					is, may := g.class(t.rows[i])
					if is {
						low++
					}
					if may {
						high++
					}
				}
			}
			sets++
			return g.net()
		}
		good, total, times := 0, 0, 1
		if kind == 4 {
			good, total = app.ImgClassify(lf, name, p, seed)
		} else {
			times = 1 + W.Draw(3)
			simos.Capture(true)
			app.ImgBatchClassify(lf, "set", p, seed, -1, times)
			text := simos.Captured()
			if i := strings.LastIndex(text, "Correct classifications: "); i >= 0 {
				fmt.Sscanf(text[i:], "Correct classifications: %d/%d", &good, &total)
			} else {
				c.Fail("no result", "the classification printed no result: %q", text)
			}
			c.Cover("batches of classifications")
		}
		if sets != times || total != times*test {
			c.Fail("instances lost", "%d times %d of %d instances were to be tested (proportion %v): %d networks were learned and %d instances tested", times, test, rows, p, sets, total)
		}
		if good < low || good > high {
			c.Fail("wrong count", "%d of %d test instances were counted as right; it should be %d to %d; rows %v, trained on (the last time) %v", good, total, low, high, all, seen)
		}
		c.Cover("classifications")
		c.Nontrivial = total > 0
	}
	if k := simos.OpenFiles(); k != 0 {
		c.Fail("file left open", "%d files still open", k)
	}
}

// judge is a classifier: one component per class, each with its own favourite values.
type judge struct {
	n, max, nl int
	best       func(v int) int
}

func (g *judge) pixel(k, v, x int) float64 {
	p := 0.5 / float64(g.max)
	if x == (g.best(v)+k*(v+1))%g.max {
		p += 0.5
	}
	return p
}

func (g *judge) label(k, l int) float64 {
	if g.nl == 1 {
		return 1
	}
	if k == l {
		return 0.7
	}
	return 0.3 / float64(g.nl-1)
}

func (g *judge) weight(k int) float64 {
	return float64(k+3) / float64(g.nl*(g.nl-1)/2+3*g.nl)
}

func (g *judge) net() spn.SPN {
	s := spn.NewSum()
	for k := 0; k < g.nl; k++ {
		p := spn.NewProduct()
		for v := 0; v < g.n; v++ {
			pr := make([]float64, g.max)
			for x := range pr {
				pr[x] = g.pixel(k, v, x)
			}
			p.AddChild(spn.NewMultinomial(v, pr))
		}
		pr := make([]float64, g.nl)
		for l := range pr {
			pr[l] = g.label(k, l)
		}
		p.AddChild(spn.NewMultinomial(g.n, pr))
		s.AddChildW(p, g.weight(k))
	}
	return s
}

// class says whether the class of an instance is the most probable one, and whether it may be.
func (g *judge) class(row []int) (is, may bool) {
	pr := make([]float64, g.nl)
	for k := 0; k < g.nl; k++ {
		p := g.weight(k)
		for v := 0; v < g.n; v++ {
			p *= g.pixel(k, v, row[v])
		}
		for l := range pr {
			pr[l] += p * g.label(k, l)
		}
	}
	own := pr[row[g.n]]
	is, may = true, true
	for l, p := range pr {
		if l != row[g.n] {
			is = is && own > p*(1+1e-9)
			may = may && own > p*(1-1e-9)
		}
	}
	return
}

func rowMap(r []int, n int) map[int]int {
	m := map[int]int{}
	for i := 0; i < n; i++ {
		m[i] = r[i]
	}
	return m
}

func rowString(r map[int]int, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += fmt.Sprint(r[i], " ")
	}
	return s
}
