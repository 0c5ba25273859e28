package zzverif

import (
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"verif.local/simrt/simos"
	"verif.local/simrt/simrand"
)

// C15: whatever the random numbers, and whoever else uses the same rows, taking a dataset apart and
// putting it together again keeps every instance, its values and its label.
func init() {
	register(&Check{ID: "C15", Span: 2500, Cap: 4000000, Run: runC15})
}

func rowKey(r map[int]int) string {
	ks := make([]int, 0, len(r))
	for k := range r {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%d=%d ", k, r[k])
	}
	return s
}

// keys lists the instances with their labels (if any), in order.
func keys(d []map[int]int, l []int) []string {
	out := make([]string, len(d))
	for i, r := range d {
		out[i] = rowKey(r)
		if l != nil {
			if i < len(l) {
				out[i] += fmt.Sprintf("-> %d", l[i])
			} else {
				out[i] += "-> no label"
			}
		}
	}
	if l != nil && len(l) > len(d) {
		out = append(out, fmt.Sprintf("labels with no instance: %v", l[len(d):]))
	}
	return out
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameBag(a, b []string) bool {
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	return sameList(a, b)
}

// props15 draws proportions that add up to one.
func props15() []float64 {
	switch W.Draw(7) {
	case 6:
		k := 1 + W.Draw(99)
		return []float64{float64(k) / 100, float64(100-k) / 100}
	case 0:
		return []float64{1}
	case 1:
		return []float64{0.5, 0.5}
	case 2:
		return []float64{0.25, 0.75}
	case 3:
		return []float64{0.5, 0.25, 0.25}
	case 4:
		return []float64{0.7, 0.3}
	}
	return []float64{0.1, 0.2, 0.3, 0.4}
}

func runC15(c *Ctx) {
	simrand.Mode = []int{0, 2}[W.Draw(2)]
	n, nv, nc := W.Draw(15), 1+W.Draw(3), 1+W.Draw(3)
	even := W.Chance(1, 24) // enough instances for hundredths to come out even
	if even {
		n, nc = 50*(1+W.Draw(2)), 1+W.Draw(2)
	}
	D, L := make([]map[int]int, n), make([]int, n)
	for i := range D {
		D[i] = map[int]int{}
		for v := 0; v < nv; v++ {
			D[i][v] = W.Draw(3)
		}
		if !W.Chance(1, 5) {
			D[i][0] = i // most instances differ from all others
		}
		if even {
			L[i] = i % nc
		} else {
			L[i] = W.Draw(nc)
		}
	}
	before := keys(D, L)
	lv := &learn.Variable{Varid: nv, Categories: nc}
	scope := map[int]*learn.Variable{}
	for v := 0; v <= nv; v++ {
		scope[v] = &learn.Variable{Varid: v, Categories: 20}
	}
	k := 1 + W.Draw(3)
	type op struct{ kind, a, b int }
	plan := make([][]op, k)
	type pp struct{ p []float64 }
	var ps []pp
	for i := range plan {
		for m := 1 + W.Draw(4); m > 0; m-- {
			ps = append(ps, pp{props15()})
			plan[i] = append(plan[i], op{W.Draw(11), W.Draw(8), len(ps) - 1})
		}
	}
	clients(k, func(ci int) {
		d, l := D, L // shared until something makes a copy
		own := false
		for _, o := range plan[ci] {
			was := keys(d, l)
			m := len(d)
			p := ps[o.b]
			var outD [][]map[int]int
			var outL [][]int
			what := ""
			bag := true // the parts together are the instances
			switch o.kind {
			case 0:
				what = fmt.Sprintf("random partition %v", p.p)
				t := data.MergeLabel(d, l, lv)
				parts := data.Partition(t, p.p)
				if len(parts) != len(p.p) {
					c.Fail("parts", "%s gave %d parts", what, len(parts))
				}
				for i, x := range parts {
					if w := p.p[i] * float64(m); math.Abs(w-float64(len(x))) >= 1.0001 {
						c.Fail("sizes", "%s of %d instances: part %d has %d", what, m, i, len(x))
					}
					_, xd, xv, xl := data.ExtractLabels(scope, x)
					if xv != scope[nv] {
						c.Fail("label variable", "extracting labels gave the label variable %v instead of %v", xv, scope[nv])
					}
					outD, outL = append(outD, xd), append(outL, xl)
				}
			case 1:
				what = fmt.Sprintf("random partition by labels %v", p.p)
				outD, outL = data.PartitionByLabels(d, l, nc, p.p)
				if len(outD) != len(p.p) || len(outL) != len(p.p) {
					c.Fail("parts", "%s gave %d parts", what, len(outD))
				}
				cnt := make([]int, nc)
				for _, y := range l {
					cnt[y]++
				}
				for i, q := range p.p { // rounding down, at most, is allowed class by class
					got := make([]int, nc)
					for _, y := range outL[i] {
						if y >= 0 && y < nc {
							got[y]++
						}
					}
					for y, z := range cnt {
						if got[y] < int(math.Floor(float64(z)*q-1e-9)) || got[y] > int(math.Ceil(float64(z)*q+1e-9))+len(p.p)-1 {
							c.Fail("proportions", "%s of %v instances per label: part %d has %v", what, cnt, i, got)
						}
					}
				}
				exact := true
				for _, q := range p.p {
					for _, z := range cnt {
						exact = exact && near(float64(z)*q, math.Round(float64(z)*q), 1e-9)
					}
				}
				if exact {
					for i, q := range p.p {
						got := make([]int, nc)
						for _, y := range outL[i] {
							if y >= 0 && y < nc {
								got[y]++
							}
						}
						for y, z := range cnt {
							if float64(got[y]) != math.Round(float64(z)*q) {
								c.Fail("proportions", "%s of %v instances per label: part %d has %v", what, cnt, i, got)
							}
						}
					}
					c.Cover("exact partitions by labels")
				}
			case 2:
				what = "split by labels"
				for y, x := range data.Split(d, nc, l) {
					ly := make([]int, len(x))
					for i := range ly {
						ly[i] = y
					}
					outD, outL = append(outD, x), append(outL, ly)
				}
			case 3, 4:
				what = "copy"
				cd, cl := data.Copy(d, l)
				outD, outL = [][]map[int]int{cd}, [][]int{cl}
				if !sameList(keys(cd, cl), was) {
					c.Fail("copy", "copy gave %v of %v", keys(cd, cl), was)
				}
				if o.a == 0 {
					if nd, nl := data.Copy(d, nil); nl != nil || !sameList(keys(nd, nil), keys(d, nil)) {
						c.Fail("copy", "copying without labels gave %v of %v, labels %v", keys(nd, nil), keys(d, nil), nl)
					}
				}
				if o.kind == 4 {
					what = "shuffle"
					data.Shuffle(cd, cl)
				}
			case 5:
				what = "join"
				h := m / 2
				jd, jl := data.Join(d[:h], d[h:], l[:h], l[h:])
				outD, outL = [][]map[int]int{jd}, [][]int{jl}
				if o.a == 0 {
					if nd, nl := data.Join(d[:h], d[h:], nil, nil); nl != nil || !sameList(keys(nd, nil), keys(d, nil)) {
						c.Fail("join", "joining the halves without labels gave %v of %v, labels %v", keys(nd, nil), keys(d, nil), nl)
					}
				}
				if !sameList(keys(jd, jl), was) {
					c.Fail("join", "joining the halves gave %v instead of %v", keys(jd, jl), was)
				}
			case 6:
				y := o.a % nc
				what = fmt.Sprintf("taking label %d out", y)
				sd, sl, td, tl := data.SubtractLabel(d, l, y)
				outD, outL = [][]map[int]int{sd, td}, [][]int{sl, tl}
				for _, z := range sl {
					if z == y {
						c.Fail("subtract", "%s left one in", what)
					}
				}
				for _, z := range tl {
					if z != y {
						c.Fail("subtract", "%s took a %d", what, z)
					}
				}
			case 7:
				q := 1 + o.a
				what = fmt.Sprintf("division in %d", q)
				outD, outL = data.Divide(d, l, q)
				if len(outD) != len(outL) || len(outD) > q {
					c.Fail("parts", "%s gave %d and %d parts", what, len(outD), len(outL))
				}
				if m >= q {
					for i := range outD {
						if z := len(outD[i]); len(outD) != q || z < m/q || z > m/q+1 {
							c.Fail("sizes", "%s of %d instances gave a part of %d", what, m, z)
						}
					}
				}
			case 8:
				v := o.a % nv
				what = fmt.Sprintf("taking variable %d out", v)
				bag = false
				sd := data.SubtractVariable(d, scope[v])
				if len(sd) != m {
					c.Fail("subtract", "%s gave %d instances of %d", what, len(sd), m)
				}
				for i, r := range sd {
					if _, ok := r[v]; ok {
						c.Fail("subtract", "%s left it in", what)
					}
					r[v] = d[i][v]
				}
				if !sameList(keys(sd, l), was) {
					c.Fail("subtract", "%s gave %v of %v", what, keys(sd, l), was)
				}
			case 9:
				what, bag = "comparison", false
				e, f := data.Copy(d, l)
				if !data.Identical(d, e, l, f) {
					c.Fail("compare", "a copy is said to differ")
				}
				if m > 0 {
					i := o.a % m
					g, h := d, l
					switch {
					case o.a%4 == 0:
						e[i][nv-1]++
					case o.a%4 == 1:
						f[i]++
					case o.a%4 == 2 && o.a%8 < 4:
						delete(e[i], 0)
					case o.a%4 == 2: // as many values, of another variable
						g, h = data.Copy(d, l)
						g[i][0] = 0
						delete(e[i], 0)
						e[i][nv+7] = 0
					default:
						e, f = e[:m-1], f[:m-1]
					}
					if data.Identical(g, e, h, f) || data.Identical(e, g, f, h) {
						c.Fail("compare", "different datasets are said to be identical: %v and %v", was, keys(e, f))
					}
				}
			}
			if o.kind == 10 {
				what, bag = "conversion to a matrix", false
				matrices(c, d, o.a)
			}
			if bag {
				var all []string
				for i := range outD {
					all = append(all, keys(outD[i], outL[i])...)
				}
				if !sameBag(all, was) {
					c.Fail("instances", "%s of %v gave %v", what, was, all)
				}
			}
			// What came out is apart from what went in.
			for i := range outD {
				for j, r := range outD[i] {
					r[77] = 1
					outL[i][j] += 5
				}
			}
			if !sameList(keys(d, l), was) {
				c.Fail("shared storage", "writing to the result of a %s changed the dataset: %v to %v", what, was, keys(d, l))
			}
			for i := range outD {
				for j, r := range outD[i] {
					delete(r, 77)
					outL[i][j] -= 5
				}
			}
			c.Note("client %d: %s of %d instances", ci, what, m)
			c.Cover("operations")
			if bag && len(outD) > 0 {
				z := o.a % len(outD)
				d, l, own = outD[z], outL[z], true
			}
		}
		_ = own
	})
	if now := keys(D, L); !sameList(now, before) {
		c.Fail("dataset changed", "the dataset was %v and is %v", before, now)
	}
	if W.Chance(1, 2) {
		partitionedFile(c)
	}
	c.Nontrivial = n > 1
}

// partitionedFile checks the random partitioning of a data file, over a history of calls.
func partitionedFile(c *Ctx) {
	t := genTable(4, 12)
	simos.Put("p.data", t.text(" ", false, true))
	var want []string
	k := len(t.cards) - 1
	for _, r := range t.rows {
		m := map[int]int{}
		for j, x := range r[:k] {
			m[j] = x
		}
		want = append(want, rowKey(m)+fmt.Sprintf("-> %d", r[k]))
	}
	n := len(t.rows)
	first := map[string]string{}
	last := int64(-1)
	part := func(p float64, seed int64) string {
		sc, train, test, lab := io.ParsePartitionedData("p.data", p, seed)
		c.Note("partition of a file of %d with p=%v seed=%d: %d and %d", n, p, seed, len(train), len(test))
		c.Cover("file partitions")
		if len(sc) != len(t.cards) || len(test) != len(lab) || math.Abs(float64(len(test))-(1-p)*float64(n)) >= 1 {
			c.Fail("sizes", "partitioning %d instances with p=%v gave %d to train, %d to test and %d labels", n, p, len(train), len(test), len(lab))
		}
		_, trD, _, trL := data.ExtractLabels(sc, train)
		all := append(keys(trD, trL), keys(test, lab)...)
		if !sameBag(all, want) {
			c.Fail("instances", "partitioning %v with p=%v gave %v", want, p, all)
		}
		return fmt.Sprint(keys(trD, trL), keys(test, lab))
	}
	ps, seeds := []float64{0.5, 0.25, 0.75, 0.7, 1, 0}, []int64{1, 2, 0, -1}
	if W.Chance(1, 3) {
		// At the same time: with one seed, they share out the partitions it gives one after another.
		p, nc := ps[W.Draw(4)], 2+W.Draw(2)
		same := W.Chance(1, 2)
		k := make([]int, nc)
		sd := make([]int64, nc)
		for i := range k {
			k[i], sd[i] = 1+W.Draw(2), seeds[W.Draw(4)]
			if same {
				sd[i] = 1
			}
		}
		part(p, 2)
		got := make([][]string, nc)
		clients(nc, func(i int) {
			for j := 0; j < k[i]; j++ {
				got[i] = append(got[i], part(p, sd[i]))
			}
		})
		if same {
			part(p, 2)
			var all, want []string
			for i := range got {
				all = append(all, got[i]...)
				for range got[i] {
					want = append(want, part(p, 1))
				}
			}
			if !sameBag(all, want) {
				c.Fail("seed", "partitions made at the same time with seed 1 are %v; made one after another they are %v", all, want)
			}
		}
		c.Cover("file partitions at the same time")
		return
	}
	for m := 1 + W.Draw(5); m > 0; m-- {
		p, seed := ps[W.Draw(6)], seeds[W.Draw(4)]
		got := part(p, seed)
		if seed >= 0 && seed != last {
			id := fmt.Sprint(p, seed)
			if f, ok := first[id]; ok && f != got {
				c.Fail("seed", "seed %d gave another partition after another seed was used: %s, then %s", seed, f, got)
			}
			first[id] = got
		}
		if seed >= 0 {
			last = seed
		}
	}
}

// matrices: a dataset as a matrix, as columns, and back.
func matrices(c *Ctx, d []map[int]int, a int) {
	if len(d) == 0 {
		M, S := learn.DataToMatrix(d)
		F, T := learn.DataToMatrixF(d)
		if n := len(M) + len(S) + len(F) + len(T) + len(learn.CompleteDataToMatrix(d)) + len(learn.CompleteDataToMatrixF(d)) + len(learn.MatrixToData(nil)); n != 0 {
			c.Fail("matrix", "the matrices of an empty dataset are not empty")
		}
		return
	}
	for _, r := range d {
		if len(r) != len(d[0]) {
			return // not a consistent dataset
		}
		for v := range d[0] {
			if _, ok := r[v]; !ok {
				return
			}
		}
	}
	complete := true
	for v := range d[0] {
		complete = complete && v >= 0 && v < len(d[0])
	}
	if a%2 == 1 { // gaps between the variables
		e := make([]map[int]int, len(d))
		for i, r := range d {
			e[i] = map[int]int{}
			for v, x := range r {
				e[i][3*v+a] = x
			}
		}
		d, complete = e, false
	}
	was := keys(d, nil)
	n := len(d[0])
	read := func(what string, S map[int]int, at func(i, j int) (int, bool)) {
		back := make([]map[int]int, len(d))
		for i := range back {
			back[i] = map[int]int{}
			for j := 0; j < n; j++ {
				x, ok := at(i, j)
				if !ok {
					c.Fail("matrix", "%s of %v: row %d is not of %d values", what, was, i, n)
				}
				v := j
				if S != nil {
					if v, ok = S[j]; !ok {
						c.Fail("matrix", "%s of %v does not say which variable column %d is: %v", what, was, j, S)
					}
				}
				back[i][v] = x
			}
		}
		if !sameList(keys(back, nil), was) {
			c.Fail("matrix", "%s of %v holds %v", what, was, keys(back, nil))
		}
	}
	ints := func(M [][]int) func(i, j int) (int, bool) {
		return func(i, j int) (int, bool) {
			if len(M) != len(d) || len(M[i]) != n {
				return 0, false
			}
			return M[i][j], true
		}
	}
	floats := func(M [][]float64) func(i, j int) (int, bool) {
		return func(i, j int) (int, bool) {
			if len(M) != len(d) || len(M[i]) != n || M[i][j] != float64(int(M[i][j])) {
				return 0, false
			}
			return int(M[i][j]), true
		}
	}
	M, S := learn.DataToMatrix(d)
	read("the matrix", S, ints(M))
	F, T := learn.DataToMatrixF(d)
	read("the matrix of numbers", T, floats(F))
	if complete {
		M := learn.CompleteDataToMatrix(d)
		read("the plain matrix", nil, ints(M))
		read("the plain matrix of numbers", nil, floats(learn.CompleteDataToMatrixF(d)))
		if e := learn.MatrixToData(M); !sameList(keys(e, nil), was) {
			c.Fail("matrix", "the dataset of the matrix of %v is %v", was, keys(e, nil))
		}
		M[0][0]++
	}
	M[0][0]++
	sc := map[int]*learn.Variable{}
	for v := range d[0] {
		sc[v] = &learn.Variable{Varid: v, Categories: 20 + v, Name: fmt.Sprint("v", v)}
	}
	cols := learn.DataToVarData(d, sc)
	if len(cols) != n {
		c.Fail("matrix", "%v has %d columns, not %d", was, len(cols), n)
	}
	seen := map[int]bool{}
	for _, col := range cols {
		v := sc[col.Varid]
		if v == nil || seen[col.Varid] || col.Categories != v.Categories || len(col.Data) != len(d) {
			c.Fail("matrix", "a column of %v is of variable %d with %d categories and %d values", was, col.Varid, col.Categories, len(col.Data))
		}
		seen[col.Varid] = true
		x := learn.ExtractInstance(col.Varid, d)
		for i := range d {
			if col.Data[i] != d[i][col.Varid] || len(x) != len(d) || x[i] != d[i][col.Varid] {
				c.Fail("matrix", "the column of variable %d of %v is %v or %v", col.Varid, was, col.Data, x)
			}
		}
	}
	cp, rf := learn.CopyScope(sc), learn.ReflectScope(sc)
	if scopeString(cp) != scopeString(sc) || scopeString(rf) != scopeString(sc) {
		c.Fail("matrix", "the copy of the scope %s is %s or %s", scopeString(sc), scopeString(cp), scopeString(rf))
	}
	for v := range cp {
		if cp[v] == sc[v] {
			c.Fail("shared storage", "the copy of a scope holds the variables themselves")
		}
		delete(cp, v)
	}
	for v := range rf {
		delete(rf, v)
		break
	}
	if len(sc) != n {
		c.Fail("shared storage", "taking a variable out of the copy of a scope took it out of the scope")
	}
	if !sameList(keys(d, nil), was) {
		c.Fail("shared storage", "conversion changed the dataset %v to %v", was, keys(d, nil))
	}
	c.Cover("matrices")
}
