package zzverif

import (
	"fmt"
	"sort"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/indep"
)

// C25: independence graphs. Whoever else looks at the same data, the groups are the connected
// components of pairwise dependence.
func init() {
	register(&Check{ID: "C25", Span: 3000, Cap: 20000000, Run: runC25})
}

func runC25(c *Ctx) {
	nv := 1 + W.Draw(6)
	if W.Chance(1, 4) {
		nv = 7 + W.Draw(9)
	}
	rows := 1 + W.Draw(40)
	large := W.Chance(1, 40)
	if large {
		rows = 41 + W.Draw(300)
		nv = 1 + W.Draw(6)
	}
	order := make([]int, nv)
	for i := range order {
		order[i] = i
	}
	for i := nv - 1; i > 0; i-- {
		j := W.Draw(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	step := 1 + W.Draw(3)
	noise := []int{0, 1, 3}[W.Draw(3)]
	cols := make([][]int, nv)
	card := make([]int, nv)
	for _, i := range order {
		card[i] = 2 + W.Draw(3)
		if large && W.Chance(1, 2) {
			card[i] = 5 + W.Draw(80)
		}
		if W.Chance(1, 15) {
			card[i] = 1
		}
		from := -1
		if W.Chance(2, 3) {
			from = order[W.Draw(nv)]
		}
		for r := 0; r < rows; r++ {
			v := W.Draw(card[i])
			if from >= 0 && cols[from] != nil && from != i && !W.Chance(noise, 10) {
				v = cols[from][r] % card[i]
			}
			cols[i] = append(cols[i], v)
		}
	}
	pval := []float64{0.0001, 0.01, 0.05, 0.5, 0.9, 0.999}[W.Draw(6)]
	sys.Verbose = W.Chance(1, 8)
	defer func() { sys.Verbose = false }()
	sc := map[int]*learn.Variable{}
	D := make([]map[int]int, rows)
	for r := range D {
		D[r] = map[int]int{}
	}
	var ids []int
	for i := 0; i < nv; i++ {
		id := i*step + step - 1
		ids = append(ids, id)
		sc[id] = &learn.Variable{Varid: id, Categories: card[i], Name: fmt.Sprint("v", id)}
		for r := range D {
			D[r][id] = cols[i][r]
		}
	}
	gr, ok := groups(D, sc, ids, pval)
	if !ok {
		return
	}
	var want []string
	for _, g := range gr {
		want = append(want, fmt.Sprint(g))
	}
	sort.Strings(want)
	// The columns come in any order, made by the repository from rows or given as they are.
	var data []*utils.VarData
	if W.Chance(1, 2) {
		data = learn.DataToVarData(D, sc)
	} else {
		for _, i := range order {
			data = append(data, utils.NewVarData(ids[i], card[i], append([]int{}, cols[i]...)))
		}
	}
	text := func() string {
		s := ""
		for _, v := range data {
			s += fmt.Sprint(v.Varid, v.Categories, v.Data, ";")
		}
		return s
	}
	before := text()
	if len(data) != nv {
		c.Fail("variables lost", "%d variables make %d columns", nv, len(data))
	}
	for _, v := range data {
		i := (v.Varid - step + 1) / step
		if i < 0 || i >= nv || ids[i] != v.Varid || v.Categories != card[i] || fmt.Sprint(v.Data) != fmt.Sprint(cols[i]) {
			c.Fail("wrong column", "variable %d with %d values has the column %v", v.Varid, v.Categories, v.Data)
		}
	}
	n := 1 + W.Draw(3)
	got := make([]*indep.Graph, n)
	names := make([]string, n)
	for i := range names {
		names[i] = []string{"NewUFIndepGraph", "NewIndepGraph"}[W.Draw(2)]
	}
	c.Note("%s, significance %v, %v", before, pval, names)
	clients(n, func(i int) {
		if names[i] == "NewIndepGraph" {
			got[i] = indep.NewIndepGraph(data, pval)
		} else {
			got[i] = indep.NewUFIndepGraph(data, pval)
		}
	})
	for i, g := range got {
		var s []string
		for _, k := range g.Kset {
			k = append([]int{}, k...)
			sort.Ints(k)
			s = append(s, fmt.Sprint(k))
		}
		sort.Strings(s)
		if fmt.Sprint(s) != fmt.Sprint(want) {
			c.Fail("wrong groups of variables", "%s gives the groups %v; dependence links %v; data %s significance %v", names[i], s, want, before, pval)
		}
		c.Cover(names[i])
	}
	if after := text(); after != before {
		c.Fail("data changed", "the columns were %s and are now %s", before, after)
	}
	c.Nontrivial = nv > 1
	if len(gr) > 1 && len(gr) < nv {
		c.Cover("several groups, some of several variables")
	}
}
