package zzverif

import (
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"verif.local/simrt/simrand"
)

// C09: networks whose weights are learned at the same time, from the same dataset and with the same
// parameters, end up with the weights that learning each alone gives; weights stay a distribution,
// and nothing but weights changes.
func init() {
	register(&Check{ID: "C09", Span: 4000, Cap: 30000000, Run: runC09})
}

func runC09(c *Ctx) {
	lowest := !W.Chance(1, 4)
	if lowest {
		simrand.Mode = 3
	}
	nc := 2
	if W.Chance(1, 3) {
		nc = 3
	}
	card := 3
	nets := make([]*rnet, nc)
	bases := 0
	for i := range nets {
		if i > 0 && W.Chance(1, 3) {
			nets[i] = nets[W.Draw(i)] // the same network, built again
			continue
		}
		bases++
		nets[i] = genNet(netOpts{vars: 3, card: card, depth: 1 + W.Draw(2), gauss: W.Chance(1, 4)})
		nets[i].perturb()
	}
	// One dataset for all: instances may lack variables, the labels among them.
	rows, batch := 1+W.Draw(5), W.Draw(4)
	if W.Chance(1, 10) {
		rows = 6 + W.Draw(8)
		batch = []int{4, 5, 8, rows, rows + 3}[W.Draw(5)]
	}
	D := make(spn.Dataset, rows)
	for i := range D {
		D[i] = spn.VarSet{}
		for v := 0; v < 3; v++ {
			if !W.Chance(1, 8) {
				D[i][v] = W.Draw(2)
			}
		}
	}
	var Y []*learn.Variable
	for v := 0; v < 2; v++ {
		if W.Chance(1, 2) {
			Y = append(Y, &learn.Variable{Varid: v, Categories: 2 + W.Draw(2)})
		}
	}
	lt := []int{parameters.SoftGD, parameters.HardGD}
	shared := parameters.New(true, false, 0.01, lt[W.Draw(2)], 0.1, 1, batch, 0.01*float64(W.Draw(2)), 1+W.Draw(2))
	ps := make([]*parameters.P, nc)
	mode := make([]int, nc)
	for i := range ps {
		mode[i] = W.Draw(2) // 0 generative, 1 discriminative
		if W.Chance(1, 2) {
			ps[i] = shared
			continue
		}
		ps[i] = parameters.New(mode[i] == 1 || !W.Chance(1, 4), false, 0.01, lt[W.Draw(2)], 0.05*float64(1+W.Draw(3)), 1, W.Draw(4), 0.01*float64(W.Draw(2)), 1+W.Draw(2))
		if ps[i].LearningType == parameters.HardGD && W.Chance(1, 2) {
			ps[i].Eta, ps[i].Iterations = 0.5, 3
		}
		if mode[i] == 1 && ps[i].LearningType == parameters.SoftGD && W.Chance(1, 4) {
			ps[i].Normalize, ps[i].Eta = false, 0.01 // small steps: without normalisation weights may turn negative
		}
	}
	for i := range ps {
		if ps[i] != shared && ps[i].Normalize && W.Chance(1, 8) {
			ps[i].Eta = []float64{1, 3, 20}[W.Draw(3)] // steps that turn all of a sum's weights negative
		}
	}
	unbound := W.Chance(1, 6) // default parameters
	train := func(i int, nodes []spn.SPN) {
		root := nodes[len(nodes)-1]
		if !unbound {
			parameters.Bind(root, ps[i])
		}
		if mode[i] == 0 {
			learn.Generative(root, D)
		} else {
			learn.Discriminative(root, D, Y)
		}
		parameters.Unbind(root)
	}
	weights := func(nodes []spn.SPN) [][]float64 {
		var out [][]float64
		for _, n := range nodes {
			if s, ok := n.(*spn.Sum); ok {
				out = append(out, append([]float64(nil), s.Weights()...))
			}
		}
		return out
	}
	same := func(a, b [][]float64) bool {
		for k := range a {
			for i := range a[k] {
				if !near(a[k][i], b[k][i], 1e-9) {
					return false
				}
			}
		}
		return true
	}
	for i := range nets {
		c.Note("learner %d: mode %d parameters %+v network %s", i, mode[i], *ps[i], nets[i])
	}
	c.Note("data %v labels %d", D, len(Y))
	before := fmt.Sprint(D)
	pbefore := make([]parameters.P, nc)
	for i := range ps {
		pbefore[i] = *ps[i]
	}
	built := make([][]spn.SPN, nc)
	for i := range nets {
		built[i] = nets[i].build()
	}
	clients(nc, func(i int) { train(i, built[i]) })
	if now := fmt.Sprint(D); now != before {
		c.Fail("dataset changed", "learning weights changed the dataset from %s to %s", before, now)
	}
	for i := range ps {
		if *ps[i] != pbefore[i] {
			c.Fail("parameters changed", "learning changed its parameters from %+v to %+v", pbefore[i], *ps[i])
		}
	}
	changed := false
	for i := range nets {
		got := weights(built[i])
		norm := ps[i].Normalize || unbound
		for _, w := range got {
			t := 0.0
			for _, x := range w {
				if norm && !(x >= 0 && x <= 1+1e-9) {
					c.Fail("bad weight", "learner %d (mode %d, %+v) left weights %v", i, mode[i], pbefore[i], w)
				}
				t += x
			}
			if norm && !near(t, 1, 1e-6) {
				c.Fail("not normalised", "learner %d (mode %d, %+v) left weights %v", i, mode[i], pbefore[i], w)
			}
		}
		// Only weights may change.
		var j int
		for k, n := range nets[i].n {
			ch := built[i][k].Ch()
			if len(ch) != len(n.ch) {
				c.Fail("structure changed", "node %d of %s has %d children after learning", k, nets[i], len(ch))
			}
			for z, x := range n.ch {
				if ch[z] != built[i][x] {
					c.Fail("structure changed", "child %d of node %d of %s is another node after learning", z, k, nets[i])
				}
			}
			switch n.kind {
			case 'm':
				if fmt.Sprint(built[i][k].(*spn.Multinomial).Pr()) != fmt.Sprint(n.pr) {
					c.Fail("leaf changed", "leaf %d of %s changed to %v", k, nets[i], built[i][k].(*spn.Multinomial).Pr())
				}
			case 'g':
				if mu, sd := built[i][k].(*spn.Gaussian).Params(); !near(mu, n.mu, 0) || !near(sd, n.sigma, 0) {
					c.Fail("leaf changed", "leaf %d of %s changed to %v, %v", k, nets[i], mu, sd)
				}
			case 's':
				for z := range n.w {
					changed = changed || got[j][z] != n.w[z]
				}
				j++
			}
		}
		if !lowest {
			continue // ties in hard inference are broken at random
		}
		p := pbefore[i]
		if unbound {
			p = *parameters.Default()
		}
		ref, ok, tiny := nets[i].refTrain(D, Y, mode[i] == 1, p, func(x float64) float64 { return x })
		// Where rounding alone decides the weights there is nothing to compare.
		stable := !tiny
		for k := 0; k < 3; k++ {
			z := uint64(k)
			shaken, _, _ := nets[i].refTrain(D, Y, mode[i] == 1, p, func(x float64) float64 {
				z = z*6364136223846793005 + 1442695040888963407
				return x * (1 + 1e-12*(float64(z>>40)/float64(1<<23)-1))
			})
			stable = stable && same(ref, shaken)
		}
		if !stable {
			c.Cover("weights decided by rounding")
			continue
		}
		if ok {
			if !same(got, ref) {
				c.Fail("wrong weights", "learner %d (mode %d, %+v) got weights %v; the updates by definition give %v; network %s, data %s", i, mode[i], p, got, ref, nets[i], before)
			}
			c.Cover("compared with the updates' definition")
		}
		b := nets[i].build()
		train(i, b)
		alone := weights(b)
		if !same(got, alone) {
			c.Fail("learners interfere", "learner %d (mode %d, %+v) got weights %v; alone it gets %v; network %s, data %s", i, mode[i], pbefore[i], got, alone, nets[i], before)
		}
		c.Cover("compared with learning alone")
	}
	if changed {
		c.Cover("weights changed")
	}
	c.Nontrivial = changed
	normalised(c, nets[0])
}

// normalised: weights that learning without normalisation can leave, negative ones among them, are a
// distribution in the same order after NormalizeSPN.
func normalised(c *Ctx, r *rnet) {
	nodes := r.build()
	want := make([][]float64, len(nodes))
	for k, n := range nodes {
		s, ok := n.(*spn.Sum)
		if !ok {
			continue
		}
		w := s.Weights()
		low, t := 0.0, 0.0
		for i := range w {
			w[i] = float64(1+W.Draw(8)) / 4
			if W.Chance(1, 4) {
				w[i] = -w[i]
			}
			if W.Chance(1, 8) {
				w[i] = 0
			}
			low = math.Min(low, w[i])
		}
		want[k] = make([]float64, len(w))
		for i := range w {
			want[k][i] = w[i] - low
			t += want[k][i]
		}
		if t == 0 { // all were alike, and negative or zero
			for i := range w {
				want[k][i], t = 1, float64(len(w))
			}
		}
		for i := range w {
			want[k][i] /= t
		}
		c.Note("weights %v", w)
	}
	spn.NormalizeSPN(nodes[len(nodes)-1])
	for k, n := range nodes {
		if s, ok := n.(*spn.Sum); ok {
			for i, x := range s.Weights() {
				if !near(x, want[k][i], 1e-9) {
					c.Fail("bad weight", "NormalizeSPN left the weights %v, not %v", s.Weights(), want[k])
				}
			}
		}
	}
}

// refTrain is gradient descent by its definition: every instance counts once in every iteration, at
// the weights in force when its batch starts. It gives up (false) at choices too close to call.
func (r *rnet) refTrain(D spn.Dataset, Y []*learn.Variable, disc bool, p parameters.P, noise func(float64) float64) (_ [][]float64, ok, tiny bool) {
	q := &rnet{n: append([]rnode(nil), r.n...), card: r.card, ids: r.ids}
	for k := range q.n {
		q.n[k].w = append([]float64(nil), q.n[k].w...)
	}
	reach := make([]bool, len(q.n))
	reach[q.root()] = true
	for k := q.root(); k >= 0; k-- {
		if reach[k] {
			for _, x := range q.n[k].ch {
				reach[x] = true
			}
		}
	}
	hard := p.LearningType == parameters.HardGD
	ok = true
	// soft adds the derivative by every weight, in units of 1 or of the root's value.
	soft := func(e map[int]int, by map[int][]float64, unit bool, sign float64) {
		val := q.eval(e, false)
		d := q.derive(val)
		u := 0.0
		if unit {
			u = val[q.root()]
		}
		for k, n := range q.n {
			if n.kind == 's' && reach[k] {
				if by[k] == nil {
					by[k] = make([]float64, len(n.w))
				}
				for i, x := range n.ch {
					by[k][i] += sign * noise(math.Exp(val[x]+d[k]-u))
				}
			}
		}
	}
	// follow counts the weights on the most probable explanation's tree.
	follow := func(e map[int]int, by map[int][]float64, sign float64) {
		val := q.eval(e, true)
		on := make([]bool, len(q.n))
		on[q.root()] = true
		for k := q.root(); k >= 0; k-- {
			n := q.n[k]
			if !on[k] {
				continue
			}
			if n.kind == 'p' {
				for _, x := range n.ch {
					on[x] = true
				}
			}
			if n.kind != 's' {
				continue
			}
			m, b := math.Inf(-1), -1
			for i, x := range n.ch {
				if t := math.Log(n.w[i]) + val[x]; t > m {
					m, b = t, i
				}
			}
			for i, x := range n.ch {
				if t := math.Log(n.w[i]) + val[x]; i != b && near(t, m, 1e-5) {
					ok = false
				}
			}
			if b < 0 {
				ok = false
				return
			}
			if by[k] == nil {
				by[k] = make([]float64, len(n.w))
			}
			by[k][b] += sign
			on[n.ch[b]] = true
		}
	}
	norm := func(w []float64) {
		m, t := 0.0, 0.0
		for _, x := range w {
			m = math.Min(m, x)
		}
		for i := range w {
			w[i] -= m
			t += w[i]
		}
		if t == 0 { // all alike
			for i := range w {
				w[i], t = 1, float64(len(w))
			}
		}
		for i := range w {
			w[i] /= t
		}
	}
	b := p.BatchSize
	if b <= 1 {
		b = 1
	}
	small := false // a weight is so small that rounding may decide whether an instance is possible
	apply := func(by map[int][]float64, touched map[int][]bool) {
		tiny = tiny || small && disc && !hard
		for k, d := range by {
			w := q.n[k].w
			for i := range w {
				switch {
				case hard && (!touched[k][i] || w[i] == 0 || disc && d[i] == 0):
				case hard:
					w[i] += p.Eta*d[i]/(w[i]*float64(b)) - 2*p.Lambda*w[i]
				case !disc && b == 1:
					w[i] += p.Eta * d[i]
				default:
					w[i] += p.Eta*d[i]/float64(b) - 2*p.Lambda*w[i]
				}
				w[i] = noise(w[i])
			}
			if p.Normalize {
				norm(w)
			}
			for _, x := range w {
				small = small || x < 1e-9
				ok = ok && (p.Normalize || x > 1e-9)
			}
		}
	}
	by, touched := map[int][]float64{}, map[int][]bool{}
	touch := func(d map[int][]float64) {
		for k, x := range d {
			if by[k] == nil {
				by[k], touched[k] = make([]float64, len(x)), make([]bool, len(x))
			}
			for i := range x {
				by[k][i] += x[i]
				touched[k][i] = touched[k][i] || x[i] != 0
			}
		}
	}
	n := 0
	flush := func() {
		apply(by, touched)
		by, touched, n = map[int][]float64{}, map[int][]bool{}, 0
	}
	for it := 0; it < p.Iterations; it++ {
		for _, I := range D {
			rest := copyInt(I)
			for _, y := range Y {
				delete(rest, y.Varid)
			}
			d := map[int][]float64{}
			switch {
			case hard:
				follow(I, d, 1)
				touch(d)
				if disc {
					d = map[int][]float64{}
					follow(rest, d, -1)
					touch(d)
				}
			case !disc:
				soft(I, d, false, 1)
				touch(d)
			default:
				if v := q.eval(I, false)[q.root()]; !math.IsInf(v, -1) {
					soft(I, d, true, 1)
					soft(rest, d, true, -1)
					touch(d)
				}
			}
			if n++; n == b {
				flush()
			}
		}
		if n > 0 && !disc {
			flush()
		}
	}
	if n > 0 {
		flush()
	}
	var out [][]float64
	for _, x := range q.n {
		if x.kind == 's' {
			out = append(out, x.w)
		}
	}
	return out, ok, tiny
}
