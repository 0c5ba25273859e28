package zzverif

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/utils/cluster"
)

// A small executable model of structure learning by clustering: who is independent of whom, and the
// network that follows. Clusters are the repository's own, judged by C23.

// chiTail is the probability that a chi-square variable with df degrees of freedom is above x.
func chiTail(x float64, df int) float64 {
	if x <= 0 {
		return 1
	}
	a := float64(df) / 2
	x /= 2
	lg, _ := math.Lgamma(a)
	if x < a+1 {
		sum, t := 1/a, 1/a
		for n := 1; n < 10000 && t > sum*1e-17; n++ {
			t *= x / (a + float64(n))
			sum += t
		}
		return 1 - sum*math.Exp(a*math.Log(x)-x-lg)
	}
	b := x + 1 - a
	c := 1 / 1e-300
	d := 1 / b
	h := d
	for i := 1; i < 10000; i++ {
		an := -float64(i) * (float64(i) - a)
		b += 2
		d = an*d + b
		if math.Abs(d) < 1e-300 {
			d = 1e-300
		}
		c = b + an/c
		if math.Abs(c) < 1e-300 {
			c = 1e-300
		}
		d = 1 / d
		h *= d * c
		if math.Abs(d*c-1) < 1e-16 {
			break
		}
	}
	return h * math.Exp(a*math.Log(x)-x-lg)
}

// gDependent is the G test of two columns: whether they are dependent, and whether that is too
// close to call.
func gDependent(x, y []int, p, q int, pval float64) (dep, close bool) {
	n := len(x)
	if n == 0 || p < 2 || q < 2 {
		return false, false
	}
	both := map[[2]int]float64{}
	mx, my := make([]float64, p), make([]float64, q)
	for i := range x {
		both[[2]int{x[i], y[i]}]++
		mx[x[i]]++
		my[y[i]]++
	}
	g := 0.0
	for a := 0; a < p; a++ {
		for b := 0; b < q; b++ {
			if o := both[[2]int{a, b}]; o > 0 {
				g += 2 * o * math.Log(o*float64(n)/(mx[a]*my[b]))
			}
		}
	}
	t := chiTail(g, (p-1)*(q-1))
	return t < pval, math.Abs(t-pval) < 1e-9
}

// linked groups n variables into the connected components of dependence.
func linked(n int, dep func(i, j int) bool) []int {
	comp := make([]int, n)
	for i := range comp {
		comp[i] = i
	}
	for again := true; again; {
		again = false
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if comp[i] != comp[j] && dep(i, j) {
					lo := minInt(comp[i], comp[j])
					comp[i], comp[j], again = lo, lo, true
				}
			}
		}
	}
	return comp
}

// groups are the independent groups of the variables ids in rows, in ascending order; ok is false
// when a test is too close to call.
func groups(rows []map[int]int, sc map[int]*learn.Variable, ids []int, pval float64) (out [][]int, ok bool) {
	cols := make([][]int, len(ids))
	for i, id := range ids {
		for _, r := range rows {
			cols[i] = append(cols[i], r[id])
		}
	}
	ok = true
	memo := map[[2]int]bool{}
	comp := linked(len(ids), func(i, j int) bool {
		if d, seen := memo[[2]int{i, j}]; seen {
			return d
		}
		d, close := gDependent(cols[i], cols[j], sc[ids[i]].Categories, sc[ids[j]].Categories, pval)
		if close {
			ok = false
		}
		memo[[2]int{i, j}] = d
		return d
	})
	for i := range ids {
		if comp[i] == i {
			var g []int
			for j := range ids {
				if comp[j] == i {
					g = append(g, ids[j])
				}
			}
			out = append(out, g)
		}
	}
	return
}

// refQuantiles gives the mean and deviation of every gaussian of a column split in order of the
// instances into g parts.
func refQuantiles(x []int, g int) (out [][2]float64) {
	l := 1
	if len(x)/g > 1 {
		l = int(math.Floor(float64(len(x))/float64(g) + 0.5))
	}
	for i := 0; i < g; i++ {
		lo, hi := i*l, (i+1)*l
		if i == g-1 || hi > len(x) {
			hi = len(x)
		}
		if lo >= hi {
			continue
		}
		n := float64(hi - lo)
		s, q := 0.0, 0.0
		for _, v := range x[lo:hi] {
			s += float64(v)
		}
		for _, v := range x[lo:hi] {
			q += (float64(v) - s/n) * (float64(v) - s/n)
		}
		sd := math.Sqrt(q / n)
		if sd == 0 {
			sd = 0.5
		}
		out = append(out, [2]float64{s / n, sd})
	}
	return
}

// refLeaf is the leaf of variable id learned from rows, as canon writes it.
func refLeaf(rows []map[int]int, v *learn.Variable, g int) string {
	if g <= 0 {
		pr := make([]float64, v.Categories)
		for _, r := range rows {
			pr[r[v.Varid]]++
		}
		for i := range pr {
			pr[i] = (pr[i] + 1) / float64(len(rows)+v.Categories)
		}
		return fmt.Sprintf("x%d~%s", v.Varid, nums(pr))
	}
	var x []int
	for _, r := range rows {
		x = append(x, r[v.Varid])
	}
	var parts []string
	q := refQuantiles(x, g)
	for _, p := range q {
		parts = append(parts, fmt.Sprintf("%s*x%d~N(%s,%s)", num(1/float64(len(q))), v.Varid, num(p[0]), num(p[1])))
	}
	sort.Strings(parts)
	return "(" + strings.Join(parts, "+") + ")"
}

// num writes a number so that rounding errors do not show.
func num(x float64) string {
	x = math.Round(x*1e7) / 1e7
	if x == 0 {
		x = 0
	}
	return fmt.Sprintf("%.7f", x)
}

func nums(xs []float64) string {
	s := "["
	for i, x := range xs {
		if i > 0 {
			s += " "
		}
		s += num(x)
	}
	return s + "]"
}

// refLearn is the network learned from rows, as canon writes it. ok is false where the model does
// not say.
func refLearn(rows []map[int]int, sc map[int]*learn.Variable, ids []int, k int, pval, eps float64, mp, g int) (string, bool) {
	if len(ids) == 1 {
		return refLeaf(rows, sc[ids[0]], g), true
	}
	gr, ok := groups(rows, sc, ids, pval)
	if !ok {
		return "", false
	}
	join := func(parts []string, op string) string {
		sort.Strings(parts)
		return strings.Join(parts, op)
	}
	var parts []string
	if len(gr) > 1 {
		for _, sub := range gr {
			s, ok := refLearn(restrict(rows, sub), sc, sub, k, pval, eps, mp, g)
			if !ok {
				return "", false
			}
			parts = append(parts, s)
		}
		return "[" + join(parts, " ") + "]", true
	}
	var cl [][]map[int]int
	if k > 0 && len(rows) >= k {
		cl = cluster.KMeansDataI(k, rows)
	} else if k <= 0 {
		cl = cluster.DBSCANData(rows, eps, mp)
	}
	if len(cl) <= 1 {
		for _, id := range ids {
			parts = append(parts, refLeaf(rows, sc[id], g))
		}
		return "[" + join(parts, " ") + "]", true
	}
	for _, rs := range cl {
		s, ok := refLearn(rs, sc, ids, k, pval, eps, mp, g)
		if !ok {
			return "", false
		}
		parts = append(parts, num(float64(len(rs))/float64(len(rows)))+"*"+s)
	}
	return "(" + join(parts, "+") + ")", true
}

func restrict(rows []map[int]int, ids []int) []map[int]int {
	out := make([]map[int]int, len(rows))
	for i, r := range rows {
		out[i] = map[int]int{}
		for _, id := range ids {
			out[i][id] = r[id]
		}
	}
	return out
}
