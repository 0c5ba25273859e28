package zzverif

import (
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
)

// C23: whatever the random starts and the order of maps, clustering ends and puts every instance in
// exactly one cluster, and the clusters are what each method says they are.
func init() {
	register(&Check{ID: "C23", Span: 3000, Cap: 30000000, Run: runC23})
}

var c23names = []string{"KMeans", "KMeansF", "KMeansI", "KMeansData", "KMeansFData", "KMeansDataI", "KMeansMuesli", "KMeansMuesliF",
	"OldKMeans", "OldKMeansF", "KMode", "KMedoid", "DBSCAN", "DBSCANData", "OPTICS", "KMode", "KMedoid", "KMode"}

// part is a clustering by row numbers, or by the rows themselves when the method gives no numbers.
type part struct {
	name   string
	rows   [][]int   // row numbers per cluster
	vals   [][][]int // and the values given for them
	byRow  bool
	noise  bool // the first cluster holds the instances of no cluster
	refuse interface{}
}

func runC23(c *Ctx) {
	sys.RefreshRandom(int64(W.Draw(1 << 20)))
	n, m := 1+W.Draw(12), 1+W.Draw(4)
	if W.Chance(1, 40) {
		n = 13 + W.Draw(60)
	}
	max := 1 + W.Draw(6)
	kinds := 1 + W.Draw(n)
	M := make([][]int, n)
	for i := range M {
		M[i] = make([]int, m)
		if i >= kinds && W.Chance(1, 2) {
			copy(M[i], M[W.Draw(kinds)])
			continue
		}
		for j := range M[i] {
			M[i][j] = W.Draw(max)
		}
	}
	off := W.Draw(3)
	D := make([]map[int]int, n)
	E := make([][]float64, n)
	for i := range M {
		D[i] = map[int]int{}
		E[i] = make([]float64, m)
		for j, v := range M[i] {
			D[i][off+2*j] = v
			E[i][j] = float64(v)
		}
	}
	before := fmt.Sprint(M, D, E)
	nc := 1 + W.Draw(2)
	names := make([]string, nc)
	ks := make([]int, nc)
	eps := make([]float64, nc)
	mp := make([]int, nc)
	out := make([]*part, nc)
	shift := W.Draw(5)
	for i := range names {
		names[i] = c23names[W.Draw(len(c23names))]
		ks[i] = 1 + W.Draw(minInt(n, 4))
		if n <= 12 && W.Chance(1, 12) {
			ks[i] = n + W.Draw(3)
		}
		eps[i] = []float64{0, 1, 1.5, 2, 3, 100}[W.Draw(6)]
		mp[i] = 1 + W.Draw(4)
		if n > 12 && W.Chance(1, 2) {
			mp[i] = 5 + W.Draw(20)
			ks[i] = 1 + W.Draw(minInt(n, 12))
		}
		c.Note("%s k %d eps %v mp %d rows %v", names[i], ks[i], eps[i], mp[i], M)
	}
	clients(nc, func(i int) {
		out[i] = c23call(names[i], ks[i], eps[i], mp[i], shift, off, M, D, E)
	})
	if now := fmt.Sprint(M, D, E); now != before {
		c.Fail("dataset changed", "clustering by %v changed the dataset from %s to %s", names, before, now)
	}
	for i, p := range out {
		what := fmt.Sprintf("%s of %v with k %d eps %v mp %d", names[i], M, ks[i], eps[i], mp[i])
		if p.refuse != nil {
			if ks[i] <= n {
				c.Fail("clustering panics", "%s panics: %v", what, p.refuse)
			}
			c.Cover("refused: more clusters than instances")
			continue
		}
		c23check(c, p, what, M, m, ks[i], eps[i], mp[i])
		c.Cover(names[i])
		c.Nontrivial = c.Nontrivial || len(p.rows) > 1
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c23call(name string, k int, eps float64, mp, shift, off int, M [][]int, D []map[int]int, E [][]float64) (p *part) {
	p = &part{name: name, byRow: true}
	defer func() {
		if r := recover(); r != nil && k > len(M) {
			p.refuse = r
		} else if r != nil {
			panic(r)
		}
	}()
	ids := map[int]int{}
	for i := range M {
		ids[i] = len(M) - 1 - i + shift
	}
	ints := func(C []map[int][]int, id func(int) int) {
		for _, g := range C {
			var rows []int
			for r := range g {
				rows = append(rows, r)
			}
			sort.Ints(rows)
			var vals [][]int
			for x, r := range rows {
				vals = append(vals, g[r])
				rows[x] = id(r)
			}
			p.rows = append(p.rows, rows)
			p.vals = append(p.vals, vals)
		}
	}
	floats := func(C []map[int][]float64, id func(int) int) {
		var I []map[int][]int
		for _, g := range C {
			h := map[int][]int{}
			for r, v := range g {
				for _, x := range v {
					if x != math.Trunc(x) {
						x = -1e6
					}
					h[r] = append(h[r], int(x))
				}
				if len(v) == 0 {
					h[r] = []int{}
				}
			}
			I = append(I, h)
		}
		ints(I, id)
	}
	data := func(C [][]map[int]int) {
		p.byRow = false
		for _, g := range C {
			var vals [][]int
			for _, d := range g {
				v := make([]int, 0, len(d))
				for j := 0; j < len(d); j++ {
					x, ok := d[off+2*j]
					if !ok {
						x = -1e6
					}
					v = append(v, x)
				}
				vals = append(vals, v)
			}
			p.vals = append(p.vals, vals)
		}
	}
	same := func(i int) int { return i }
	back := func(i int) int { return len(M) - 1 + shift - i }
	switch name {
	case "KMeans":
		ints(cluster.KMeans(k, M), same)
	case "KMeansF":
		floats(cluster.KMeansF(k, E, nil), same)
	case "KMeansI":
		G := cluster.KMeansI(k, E)
		if len(G) != len(M) {
			panic(fmt.Sprintf("%d assignments for %d instances", len(G), len(M)))
		}
		C := make([]map[int][]int, k)
		for i, g := range G {
			if C[g] == nil {
				C[g] = map[int][]int{}
			}
			C[g][i] = M[i]
		}
		ints(C, same)
	case "KMeansData":
		ints(cluster.KMeansData(k, D), same)
	case "KMeansFData":
		floats(cluster.KMeansFData(k, D), same)
	case "KMeansDataI":
		data(cluster.KMeansDataI(k, D))
	case "KMeansMuesli":
		ints(cluster.KMeansMuesli(k, M, ids), back)
	case "KMeansMuesliF":
		floats(cluster.KMeansMuesliF(k, E, ids), back)
	case "OldKMeans":
		ints(cluster.OldKMeans(k, M), same)
	case "OldKMeansF":
		floats(cluster.OldKMeansF(k, E, metrics.EuclideanF), same)
	case "KMode":
		ints(cluster.KMode(k, M), same)
	case "KMedoid":
		ints(cluster.KMedoid(k, M), same)
	case "DBSCAN":
		ints(cluster.DBSCAN(M, eps, mp), same)
	case "DBSCANData":
		data(cluster.DBSCANData(D, eps, mp))
	case "OPTICS":
		ints(cluster.OPTICS(M, eps, mp), same)
		p.noise = true
	}
	return
}

func c23check(c *Ctx, p *part, what string, M [][]int, m, k int, eps float64, mp int) {
	n := len(M)
	density := p.name == "DBSCAN" || p.name == "DBSCANData" || p.name == "OPTICS"
	if !density && len(p.vals) > k {
		c.Fail("too many clusters", "%s gives %d clusters", what, len(p.vals))
	}
	if !p.byRow {
		left := map[string]int{}
		for _, r := range M {
			left[fmt.Sprint(r)]++
		}
		for _, g := range p.vals {
			for _, v := range g {
				left[fmt.Sprint(v)]--
			}
		}
		for _, r := range p.flat(M) {
			if left[r] != 0 {
				c.Fail("instances lost or made up", "%s gives %v: %+d times the row %s", what, p.vals, -left[r], r)
			}
		}
	} else {
		seen := make([]int, n)
		for g, rows := range p.rows {
			for _, r := range rows {
				if r < 0 || r >= n {
					c.Fail("no such instance", "%s puts an instance %d in cluster %d", what, r, g)
				}
				seen[r]++
			}
		}
		for r, s := range seen {
			if s != 1 {
				c.Fail("instances lost or doubled", "%s puts instance %d in %d clusters: %v", what, r, s, p.rows)
			}
		}
		if p.name == "KMeansData" || p.name == "KMeansFData" {
			if !permuted(p, M, m) {
				c.Fail("wrong values", "%s gives the instances %v other values: %v", what, p.rows, p.vals)
			}
		} else {
			for g, rows := range p.rows {
				for x, r := range rows {
					if fmt.Sprint(p.vals[g][x]) != fmt.Sprint(M[r]) {
						c.Fail("wrong values", "%s gives instance %d the values %v", what, r, p.vals[g][x])
					}
				}
			}
		}
	}
	switch p.name {
	case "KMode", "OldKMeans":
		c23mode(c, p, what, M, m)
	case "OldKMeansF":
		c23mean(c, p, what, M, m)
	case "KMedoid":
		c23medoid(c, p, what, M)
	case "DBSCAN", "DBSCANData", "OPTICS":
		c23density(c, p, what, M, eps, mp)
	}
}

// flat lists the rows seen by either side, each once, in an order that does not depend on maps.
func (p *part) flat(M [][]int) []string {
	var out []string
	for _, r := range M {
		out = append(out, fmt.Sprint(r))
	}
	for _, g := range p.vals {
		for _, v := range g {
			out = append(out, fmt.Sprint(v))
		}
	}
	sort.Strings(out)
	return out
}

// permuted says whether the values are the instances' with the columns in some order.
func permuted(p *part, M [][]int, m int) bool {
	perm := make([]int, m)
	used := make([]bool, m)
	var try func(i int) bool
	try = func(i int) bool {
		if i == m {
			for g, rows := range p.rows {
				for x, r := range rows {
					if len(p.vals[g][x]) != m {
						return false
					}
					for j := range perm {
						if p.vals[g][x][j] != M[r][perm[j]] {
							return false
						}
					}
				}
			}
			return true
		}
		for j := 0; j < m; j++ {
			if !used[j] {
				used[j], perm[i] = true, j
				if try(i + 1) {
					return true
				}
				used[j] = false
			}
		}
		return false
	}
	return try(0)
}

// c23mode: no instance is nearer to another cluster's mode, whichever of the equally frequent values
// the modes are.
func c23mode(c *Ctx, p *part, what string, M [][]int, m int) {
	best := make([][]map[int]bool, len(p.rows))
	for g, rows := range p.rows {
		best[g] = make([]map[int]bool, m)
		for j := range best[g] {
			cnt, top := map[int]int{}, 0
			for _, r := range rows {
				cnt[M[r][j]]++
				if cnt[M[r][j]] > top {
					top = cnt[M[r][j]]
				}
			}
			best[g][j] = map[int]bool{}
			for v, x := range cnt {
				if x == top {
					best[g][j][v] = true
				}
			}
		}
	}
	for g, rows := range p.rows {
		for _, r := range rows {
			own := 0
			for j, v := range M[r] {
				if !best[g][j][v] {
					own++
				}
			}
			for h := range p.rows {
				if h == g || len(p.rows[h]) == 0 {
					continue
				}
				other := 0
				for j, v := range M[r] {
					if !best[h][j][v] || len(best[h][j]) > 1 {
						other++
					}
				}
				if own > other {
					c.Fail("not converged", "%s ends with instance %d in cluster %d, whose mode is at distance %d, though that of cluster %d is at %d: %v", what, r, g, own, h, other, p.rows)
				}
			}
		}
	}
}

// c23mean: no instance is nearer to another cluster's mean.
func c23mean(c *Ctx, p *part, what string, M [][]int, m int) {
	mean := make([][]float64, len(p.rows))
	for g, rows := range p.rows {
		mean[g] = make([]float64, m)
		for _, r := range rows {
			for j, v := range M[r] {
				mean[g][j] += float64(v) / float64(len(rows))
			}
		}
	}
	dist := func(r, g int) (s float64) {
		for j, v := range M[r] {
			d := float64(v) - mean[g][j]
			s += d * d
		}
		return s
	}
	for g, rows := range p.rows {
		for _, r := range rows {
			for h := range p.rows {
				if len(p.rows[h]) > 0 && dist(r, g) > dist(r, h)+1e-9 {
					c.Fail("not converged", "%s ends with instance %d in cluster %d though the mean of cluster %d is nearer: %v", what, r, g, h, p.rows)
				}
			}
		}
	}
}

// c23medoid: some member of each cluster can be its medoid, such that no instance is nearer to
// another's.
func c23medoid(c *Ctx, p *part, what string, M [][]int) {
	var groups [][]int
	total := 1
	for _, rows := range p.rows {
		if len(rows) > 0 {
			groups = append(groups, rows)
			total *= len(rows)
			if total > 3000 {
				return
			}
		}
	}
	ham := func(a, b int) (s int) {
		for j := range M[a] {
			if M[a][j] != M[b][j] {
				s++
			}
		}
		return
	}
	med := make([]int, len(groups))
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(groups) {
			for g, rows := range groups {
				for _, r := range rows {
					for h := range groups {
						if ham(r, med[g]) > ham(r, med[h]) {
							return false
						}
					}
				}
			}
			return true
		}
		for _, r := range groups[i] {
			med[i] = r
			if try(i + 1) {
				return true
			}
		}
		return false
	}
	if !try(0) {
		c.Fail("not converged", "%s gives %v, where for any choice of medoids some instance is nearer to another cluster's", what, p.rows)
	}
}

// c23density: an instance with at least mp others within eps is in the same cluster as ...
func c23density(c *Ctx, p *part, what string, M [][]int, eps float64, mp int) {
	n := len(M)
	close := func(a, b int) bool {
		s := 0
		for j := range M[a] {
			s += (M[a][j] - M[b][j]) * (M[a][j] - M[b][j])
		}
		return math.Sqrt(float64(s)) <= eps
	}
	core := make([]bool, n)
	for a := range M {
		x := 0
		for b := range M {
			if a != b && close(a, b) {
				x++
			}
		}
		core[a] = x >= mp
	}
	if !p.noise {
		// The clusters are the connected components of the pairs within eps one of which is a core.
		comp := make([]int, n)
		for i := range comp {
			comp[i] = i
		}
		for again := true; again; {
			again = false
			for a := range M {
				for b := range M {
					if core[a] && a != b && close(a, b) && comp[a] != comp[b] {
						lo := minInt(comp[a], comp[b])
						comp[a], comp[b], again = lo, lo, true
					}
				}
			}
		}
		want := map[int][]string{}
		var ref []string
		for i, x := range comp {
			want[x] = append(want[x], fmt.Sprint(M[i]))
		}
		for x := 0; x < n; x++ {
			if want[x] != nil {
				sort.Strings(want[x])
				ref = append(ref, fmt.Sprint(want[x]))
			}
		}
		var got []string
		for _, g := range p.vals {
			var s []string
			for _, v := range g {
				s = append(s, fmt.Sprint(v))
			}
			sort.Strings(s)
			got = append(got, fmt.Sprint(s))
		}
		sort.Strings(ref)
		sort.Strings(got)
		if fmt.Sprint(ref) != fmt.Sprint(got) {
			c.Fail("wrong clusters", "%s gives the clusters %v, not %v", what, got, ref)
		}
		return
	}
	in := make([]int, n)
	for g, rows := range p.rows {
		for _, r := range rows {
			in[r] = g
		}
	}
	for a := range M {
		if core[a] && in[a] == 0 {
			c.Fail("dense instance in no cluster", "%s takes instance %d, with %d others within reach, for noise: %v", what, a, mp, p.rows)
		}
		if !core[a] && in[a] != 0 {
			ok := false
			for b := range M {
				ok = ok || core[b] && in[b] == in[a] && close(a, b)
			}
			if !ok {
				c.Fail("far instance in a cluster", "%s puts instance %d in cluster %d, no dense instance of which is within reach: %v", what, a, in[a], p.rows)
			}
		}
		for b := range M {
			if core[a] && core[b] && close(a, b) && in[a] != in[b] {
				c.Fail("one cluster as two", "%s puts the dense instances %d and %d, within reach of each other, in clusters %d and %d: %v", what, a, b, in[a], in[b], p.rows)
			}
		}
	}
	// The dense instances of a cluster are linked through dense instances.
	for g := 1; g < len(p.rows); g++ {
		var cs []int
		for _, r := range p.rows[g] {
			if core[r] {
				cs = append(cs, r)
			}
		}
		if len(cs) == 0 {
			c.Fail("cluster with no dense instance", "%s gives a cluster %v with no dense instance", what, p.rows[g])
		}
		reach := map[int]bool{cs[0]: true}
		for again := true; again; {
			again = false
			for _, a := range cs {
				for _, b := range cs {
					if reach[a] && !reach[b] && close(a, b) {
						reach[b], again = true, true
					}
				}
			}
		}
		if len(reach) != len(cs) {
			c.Fail("two clusters as one", "%s puts dense instances that are not linked in cluster %v", what, p.rows[g])
		}
	}
}
