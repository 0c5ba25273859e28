package zzverif

import (
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/spn"
)

// The reference model of a network: a list of nodes in which children come before parents, and an
// evaluator that shares no code with the repository.

type rnode struct {
	kind  byte // 's' sum, 'p' product, 'i' indicator, 'm' multinomial, 'g' gaussian
	ch    []int
	w     []float64
	v     int // variable
	val   int
	pr    []float64
	mu    float64
	sigma float64
	scope []int
}

type rnet struct {
	n    []rnode
	card []int
	ids  []int // variable identifiers
}

type netOpts struct {
	vars, card, depth int
	gauss             bool
	zeros             bool // allow zero weights and probabilities
	spread            bool // identifiers are not 0..n-1
	tiny              bool // allow weights and probabilities that are almost zero
	close             bool // allow weights that are almost equal
	lone              bool // allow indicators anywhere a leaf may be
}

type netGen struct {
	*rnet
	o    netOpts
	pool map[string][]int
}

func scopeKey(s []int) string { return fmt.Sprint(s) }

func (g *netGen) add(n rnode) int {
	g.n = append(g.n, n)
	k := len(g.n) - 1
	g.pool[scopeKey(n.scope)] = append(g.pool[scopeKey(n.scope)], k)
	return k
}

// weights are small integers, normalised: ties are common.
func (g *netGen) weights(k int) []float64 {
	w := make([]float64, k)
	s := 0.0
	for i := range w {
		x := 1 + W.Draw(4)
		if W.Chance(1, 8) {
			x = 1 + W.Draw(1000)
		}
		w[i] = float64(x)
		if g.o.close && W.Chance(1, 2) {
			w[i] += float64(1+W.Draw(9)) * 1e-7
		}
		if g.o.tiny && W.Chance(1, 10) {
			w[i] = math.Pow(10, -float64(5+W.Draw(60)))
		}
		if g.o.zeros && W.Chance(1, 12) && s > 0 {
			w[i] = 0
		}
		s += w[i]
	}
	for i := range w {
		w[i] /= s
	}
	return w
}

func (g *netGen) leaf(v int) int {
	sc := []int{v}
	if g.o.lone && W.Chance(1, 5) {
		return g.add(rnode{kind: 'i', v: v, val: W.Draw(g.card[v]), scope: sc})
	}
	k := W.Draw(3)
	if k == 2 && !g.o.gauss {
		k = 0
	}
	switch k {
	case 1: // a sum of indicators
		ws := g.weights(g.card[v])
		var ch []int
		for i := range ws {
			ch = append(ch, g.add(rnode{kind: 'i', v: v, val: i, scope: sc}))
		}
		return g.add(rnode{kind: 's', ch: ch, w: ws, scope: sc})
	case 2:
		if W.Chance(1, 5) {
			// A point mass: what a constant variable is learned as.
			return g.add(rnode{kind: 'g', v: v, mu: float64(W.Draw(g.card[v])), scope: sc})
		}
		if W.Chance(1, 6) {
			return g.add(rnode{kind: 'g', v: v, mu: -float64(1+W.Draw(9)) / 4, sigma: 0.25 + float64(W.Draw(8))/8, scope: sc})
		}
		if g.o.tiny && W.Chance(1, 3) {
			// Far away: densities whose logarithms are in the thousands.
			return g.add(rnode{kind: 'g', v: v, mu: float64(5 + W.Draw(60)), sigma: 0.5 + float64(W.Draw(8))/8, scope: sc})
		}
		if W.Chance(1, 4) { // no short binary fractions
			return g.add(rnode{kind: 'g', v: v, mu: float64(W.Draw(20)) / 9, sigma: float64(1+W.Draw(12)) / 11, scope: sc})
		}
		return g.add(rnode{kind: 'g', v: v, mu: float64(W.Draw(9)) / 4, sigma: 0.25 + float64(W.Draw(8))/8, scope: sc})
	}
	return g.add(rnode{kind: 'm', v: v, pr: g.weights(g.card[v]), scope: sc})
}

func (g *netGen) gen(sc []int, d int) int {
	if p := g.pool[scopeKey(sc)]; len(p) > 0 && W.Chance(1, 3) {
		// Share an existing node: this is what makes the network a graph, with edges that skip levels.
		k := p[W.Draw(len(p))]
		if g.n[k].kind != 'i' {
			return k
		}
	}
	if len(sc) == 1 && (d <= 0 || W.Chance(1, 2)) {
		return g.leaf(sc[0])
	}
	if len(sc) > 1 && (d <= 0 || W.Chance(1, 2)) {
		var a, b []int
		for {
			a, b = nil, nil
			for _, v := range sc {
				if W.Draw(2) == 0 {
					a = append(a, v)
				} else {
					b = append(b, v)
				}
			}
			if len(a) == 0 {
				a, b = b, a
			}
			if len(b) == 0 {
				b = a[len(a)-1:]
				a = a[:len(a)-1]
			}
			break
		}
		parts := [][]int{a, b}
		if len(a) > 1 && W.Chance(1, 3) {
			parts = [][]int{a[:1], a[1:], b}
		}
		if len(sc) > 3 && W.Chance(1, 5) {
			parts = nil
			for i := range sc {
				parts = append(parts, sc[i:i+1])
			}
		}
		var ch []int
		for _, p := range parts {
			ch = append(ch, g.gen(p, d-1))
		}
		return g.add(rnode{kind: 'p', ch: ch, scope: sc})
	}
	k := 1 + W.Draw(3)
	if d <= 1 && W.Chance(1, 60) {
		k = 4 + W.Draw(9) // a wide one
	}
	var ch []int
	for i := 0; i < k; i++ {
		ch = append(ch, g.gen(sc, d-1))
	}
	return g.add(rnode{kind: 's', ch: ch, w: g.weights(len(ch)), scope: sc})
}

// genNet draws a complete and decomposable network, at times a single leaf. Its root is the last node.
func genNet(o netOpts) *rnet {
	r := &rnet{}
	g := &netGen{r, o, map[string][]int{}}
	nv := 1 + W.Draw(o.vars)
	var sc []int
	for i := 0; i < nv; i++ {
		r.card = append(r.card, 2+W.Draw(o.card-1))
		sc = append(sc, i)
		id := i
		if o.spread && i > 0 {
			id = r.ids[i-1] + 1 + W.Draw(3)
			if W.Chance(1, 12) {
				id += W.Draw(100000)
			}
		}
		r.ids = append(r.ids, id)
	}
	root := g.gen(sc, o.depth)
	k := r.n[root].kind
	alone := len(r.n) == 1 && (k == 'g' || k == 'm' || k == 'i') && W.Chance(1, 2) // a leaf is a network too
	if !alone && (k != 's' && k != 'p' || root != len(r.n)-1) {
		g.add(rnode{kind: 's', ch: []int{root}, w: []float64{1}, scope: sc})
	}
	// Keep only what the root reaches.
	live := make([]bool, len(r.n))
	live[len(r.n)-1] = true
	for i := len(r.n) - 1; i >= 0; i-- {
		if live[i] {
			for _, c := range r.n[i].ch {
				live[c] = true
			}
		}
	}
	at := make([]int, len(r.n))
	var out []rnode
	for i, n := range r.n {
		if !live[i] {
			continue
		}
		m := n
		m.ch = nil
		for _, c := range n.ch {
			m.ch = append(m.ch, at[c])
		}
		at[i] = len(out)
		out = append(out, m)
	}
	r.n = out
	return r
}

// build makes the real network.
func (r *rnet) build() []spn.SPN {
	out := make([]spn.SPN, len(r.n))
	for i, n := range r.n {
		switch n.kind {
		case 's':
			s := spn.NewSum()
			for k, c := range n.ch {
				s.AddChildW(out[c], n.w[k])
			}
			out[i] = s
		case 'p':
			p := spn.NewProduct()
			for _, c := range n.ch {
				p.AddChild(out[c])
			}
			out[i] = p
		case 'i':
			out[i] = spn.NewIndicator(r.ids[n.v], n.val)
		case 'm':
			out[i] = spn.NewMultinomial(r.ids[n.v], append([]float64(nil), n.pr...))
		case 'g':
			out[i] = spn.NewGaussianParams(r.ids[n.v], n.mu, n.sigma)
		}
	}
	return out
}

func lse(v []float64) float64 {
	m := math.Inf(-1)
	for _, x := range v {
		m = math.Max(m, x)
	}
	if math.IsInf(m, -1) {
		return m
	}
	s := 0.0
	for _, x := range v {
		s += math.Exp(x - m)
	}
	return m + math.Log(s)
}

func normLog(x, mu, sd float64) float64 {
	z := (x - mu) / sd
	return -z*z/2 - math.Log(sd) - math.Log(2*math.Pi)/2
}

// eval gives every node's log-value; with max, sums take the maximum and unset leaves their mode.
func (r *rnet) eval(ev map[int]int, max bool) []float64 { return r.evalWith(ev, max, nil) }

// evalWith is eval; free, if given, gives the values of the gaussian leaves it knows.
func (r *rnet) evalWith(ev map[int]int, max bool, free func(v, x int, mu, sigma float64) (float64, bool)) []float64 {
	v := make([]float64, len(r.n))
	for i, n := range r.n {
		switch n.kind {
		case 's':
			t := make([]float64, len(n.ch))
			for k, c := range n.ch {
				t[k] = v[c] + math.Log(n.w[k])
			}
			if max {
				m := math.Inf(-1)
				for _, x := range t {
					m = math.Max(m, x)
				}
				v[i] = m
			} else {
				v[i] = lse(t)
			}
		case 'p':
			for _, c := range n.ch {
				v[i] += v[c]
			}
		default:
			x, ok := ev[r.ids[n.v]]
			switch n.kind {
			case 'i':
				if ok && x != n.val {
					v[i] = math.Inf(-1)
				}
			case 'm':
				if ok && (x < 0 || x >= len(n.pr)) {
					v[i] = math.Inf(-1)
				} else if ok {
					v[i] = math.Log(n.pr[x])
				} else if max {
					m := 0.0
					for _, p := range n.pr {
						m = math.Max(m, p)
					}
					v[i] = math.Log(m)
				}
			case 'g':
				if free != nil && ok {
					if y, ok := free(r.ids[n.v], x, n.mu, n.sigma); ok {
						v[i] = y
						break
					}
				}
				if n.sigma == 0 {
					if ok && x != int(n.mu) {
						v[i] = math.Inf(-1)
					}
				} else if ok {
					v[i] = normLog(float64(x), n.mu, n.sigma)
				} else if max {
					v[i] = normLog(n.mu, n.mu, n.sigma)
				}
			}
		}
	}
	return v
}

func (r *rnet) gaussVar(v int) bool {
	for _, n := range r.n {
		if n.kind == 'g' && n.v == v {
			return true
		}
	}
	return false
}

func (r *rnet) root() int { return len(r.n) - 1 }

// evidence draws a partial assignment; full sets every variable.
func (r *rnet) evidence(full bool) map[int]int {
	e := map[int]int{}
	for i, id := range r.ids {
		if full || W.Draw(3) != 0 {
			e[id] = W.Draw(r.card[i])
		}
	}
	return e
}

// odd is evidence that rarely gives a variable a value outside its categories.
func (r *rnet) odd(e map[int]int) map[int]int {
	if W.Chance(1, 30) {
		i := W.Draw(len(r.ids))
		if _, ok := e[r.ids[i]]; ok {
			e[r.ids[i]] = []int{-1, r.card[i], r.card[i] + 7}[W.Draw(3)]
		}
	}
	return e
}

func (r *rnet) hasGauss() bool {
	for _, n := range r.n {
		if n.kind == 'g' {
			return true
		}
	}
	return false
}

// height is the number of edges of the longest path.
func (r *rnet) height() int {
	h := make([]int, len(r.n))
	for i, n := range r.n {
		for _, c := range n.ch {
			if h[c]+1 > h[i] {
				h[i] = h[c] + 1
			}
		}
	}
	return h[r.root()]
}

func (r *rnet) String() string {
	s := ""
	for i, n := range r.n {
		switch n.kind {
		case 's':
			s += fmt.Sprintf("%d=sum%v%.3g ", i, n.ch, n.w)
		case 'p':
			s += fmt.Sprintf("%d=prod%v ", i, n.ch)
		case 'i':
			s += fmt.Sprintf("%d=[x%d=%d] ", i, r.ids[n.v], n.val)
		case 'm':
			s += fmt.Sprintf("%d=x%d~%.3g ", i, r.ids[n.v], n.pr)
		case 'g':
			s += fmt.Sprintf("%d=x%d~N(%.3g,%.3g) ", i, r.ids[n.v], n.mu, n.sigma)
		}
	}
	return s
}

// checkMAP verifies a MAP state: it agrees with the evidence, covers every variable, and no state
// has a larger max-product value.
func (r *rnet) checkMAP(c *Ctx, what string, ev, m map[int]int) {
	for k, x := range ev {
		for _, id := range r.ids {
			if id == k && m[k] != x {
				c.Fail("MAP contradicts evidence", "%s: variable %d is %d in the evidence and %d in the returned state; net %s", what, k, x, m[k], r)
			}
		}
	}
	for _, id := range r.ids {
		if _, ok := m[id]; !ok {
			c.Fail("MAP incomplete", "%s: the returned state %v says nothing about variable %d; evidence %v, net %s", what, m, id, ev, r)
		}
	}
	for i, id := range r.ids {
		if r.gaussVar(i) {
			continue
		}
		if m[id] < 0 || m[id] >= r.card[i] {
			c.Fail("MAP out of range", "%s: variable %d set to %d", what, id, m[id])
		}
	}
	// A gaussian's best value is its mean, told as the nearest whole number.
	free := func(v, x int, mu, sigma float64) (float64, bool) {
		if _, ok := ev[v]; ok {
			return 0, false
		}
		if sigma == 0 {
			if x == int(mu) {
				return 0, true
			}
		} else if math.Abs(float64(x)-mu) < 0.5+1e-9 {
			return normLog(mu, mu, sigma), true
		}
		return math.Inf(-1), true
	}
	got := r.evalWith(m, true, free)[r.root()]
	best := r.eval(ev, true)[r.root()]
	if !near(best, got, 1e-9) {
		c.Fail("MAP not maximal", "%s: state %v has max-product value %v, the maximum given %v is %v; net %s", what, m, got, ev, best, r)
	}
}

func scopeIDs(r *rnet, sc []int) []int {
	var o []int
	for _, v := range sc {
		o = append(o, r.ids[v])
	}
	sort.Ints(o)
	return o
}

func copyInt(m map[int]int) map[int]int {
	o := make(map[int]int, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func sameMap(a, b map[int]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// probes lists assignments, full and partial, that tell networks over these variables apart.
func (r *rnet) probes() []map[int]int {
	out := []map[int]int{{}}
	for i, id := range r.ids {
		for v := 0; v < r.card[i]; v++ {
			out = append(out, map[int]int{id: v})
		}
	}
	total := 1
	for _, k := range r.card {
		total *= k
	}
	step := 1
	if total > 27 {
		step = total/27 | 1
	}
	for x := 0; x < total; x += step {
		e, y := map[int]int{}, x
		for i, id := range r.ids {
			e[id] = y % r.card[i]
			y /= r.card[i]
		}
		out = append(out, e)
	}
	return out
}

// differs says how a real network differs from this one ("" if it does not).
func (r *rnet) differs(s spn.SPN) string {
	if s == nil {
		return "no network"
	}
	seen := map[spn.SPN]bool{s: true}
	todo := []spn.SPN{s}
	edges, refEdges := 0, 0
	for len(todo) > 0 && len(seen) <= 10*len(r.n) {
		n := todo[0]
		todo = todo[1:]
		for _, ch := range n.Ch() {
			edges++
			if !seen[ch] {
				seen[ch] = true
				todo = append(todo, ch)
			}
		}
	}
	for _, n := range r.n {
		refEdges += len(n.ch)
	}
	if len(seen) != len(r.n) || edges != refEdges {
		return fmt.Sprintf("%d nodes and %d edges instead of %d and %d", len(seen), edges, len(r.n), refEdges)
	}
	var ws, refWs []float64
	for n := range seen {
		switch x := n.(type) {
		case *spn.Sum:
			ws = append(ws, x.Weights()...)
		case *spn.Gaussian:
			mu, sd := x.Params()
			ws = append(ws, mu, sd)
		}
	}
	for _, n := range r.n {
		refWs = append(refWs, n.w...)
		if n.kind == 'g' {
			refWs = append(refWs, n.mu, n.sigma)
		}
	}
	sort.Float64s(ws)
	sort.Float64s(refWs)
	if fmt.Sprint(ws) != fmt.Sprint(refWs) {
		return fmt.Sprintf("weights and gaussians %v instead of %v", ws, refWs)
	}
	for _, e := range r.probes() {
		if got, want := s.Value(e), r.eval(e, false)[r.root()]; !near(got, want, 1e-9) {
			return fmt.Sprintf("value %v instead of %v given %v", got, want, e)
		}
		if got, want := s.Max(e), r.eval(e, true)[r.root()]; !near(got, want, 1e-9) {
			return fmt.Sprintf("max %v instead of %v given %v", got, want, e)
		}
	}
	got := append([]int(nil), s.Sc()...)
	sort.Ints(got)
	if want := scopeIDs(r, r.n[r.root()].scope); fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("scope %v instead of %v", got, want)
	}
	return ""
}

// perturb makes weights and probabilities differ a little from each other, so that no two choices
// are equally good, and leaves no evidence impossible.
func (r *rnet) perturb() {
	x := 0.0
	bump := func(w []float64) {
		s := 0.0
		for i := range w {
			x = math.Mod(x+0.6180339887498949, 1)
			w[i] *= 1 + x/50
			s += w[i]
		}
		for i := range w {
			w[i] /= s
		}
	}
	for k := range r.n {
		if r.n[k].kind == 'g' && r.n[k].sigma == 0 {
			r.n[k].sigma = 0.3
		}
		bump(r.n[k].w)
		bump(r.n[k].pr)
	}
}
