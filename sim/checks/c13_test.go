package zzverif

import (
	"fmt"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"verif.local/simrt/simos"
)

// C13: reading a dataset or evidence file gives every instance and variable in the file or fails
// loudly, however the disk answers; it never gives part of the file, and never changes it.
func init() {
	register(&Check{ID: "C13", Span: 1500, Cap: 40000000, Run: runC13})
}

// arff is an ARFF file and what it means.
type arff struct {
	text   []byte
	name   string
	names  []string
	card   []int
	labels map[int]map[string]int
	rows   [][]int
}

func genArff() *arff {
	a := &arff{name: "rel" + fmt.Sprint(W.Draw(9)), labels: map[int]map[string]int{}}
	var b strings.Builder
	up := func(s string) string {
		if W.Chance(1, 2) {
			return strings.ToUpper(s)
		}
		return s
	}
	if W.Chance(1, 2) {
		b.WriteString("% a comment\n")
	}
	fmt.Fprintf(&b, "%s %s\n", up("@relation"), a.name)
	if W.Chance(1, 3) {
		b.WriteString("\n")
	}
	n := 1 + W.Draw(4)
	typ := make([]int, n)
	vals := [][]string{{"red", "green", "blue", "x1"}, {"re", "red", "reddish", "r"}, {"3", "2", "1", "0"}}[W.Draw(3)]
	some, m := len(vals), 1+W.Draw(6)
	if W.Chance(1, 25) {
		// Many values, many rows.
		vals = append([]string(nil), vals...)
		for i := 0; i < 30; i++ {
			vals = append(vals, fmt.Sprintf("value%d", i))
		}
		some, m = len(vals), 1+W.Draw(60)
	}
	for i := 0; i < n; i++ {
		nm := "attr" + fmt.Sprint(i)
		a.names = append(a.names, nm)
		typ[i] = W.Draw(3)
		k := 0
		switch typ[i] {
		case 0:
			fmt.Fprintf(&b, "%s %s %s\n", up("@attribute"), nm, up("numeric"))
		case 1:
			fmt.Fprintf(&b, "%s %s %s\n", up("@attribute"), nm, up("string"))
			a.labels[i] = map[string]int{}
		case 2:
			k = 2 + W.Draw(some-1)
			fmt.Fprintf(&b, "%s %s {%s}\n", up("@attribute"), nm, strings.Join(vals[:k], ", "))
			a.labels[i] = map[string]int{}
			for j := 0; j < k; j++ {
				a.labels[i][vals[j]] = j
			}
		}
		a.card = append(a.card, k)
		if W.Chance(1, 6) {
			b.WriteString("% another comment\n")
		}
	}
	fmt.Fprintf(&b, "%s\n", up("@data"))
	for i := 0; i < m; i++ {
		var row []int
		var toks []string
		for j := 0; j < n; j++ {
			switch typ[j] {
			case 0:
				x := W.Draw(13)
				row, toks = append(row, x), append(toks, fmt.Sprint(x))
				if x+1 > a.card[j] {
					a.card[j] = x + 1
				}
			case 1:
				s := vals[W.Draw(some)]
				x, ok := a.labels[j][s]
				if !ok {
					x = len(a.labels[j])
					a.labels[j][s] = x
					a.card[j]++
				}
				row, toks = append(row, x), append(toks, s)
			case 2:
				x := W.Draw(a.card[j])
				s := "other"
				if W.Chance(1, 20) {
					// Not listed: a value of its own.
					if k, ok := a.labels[j][s]; ok {
						x = k
					} else {
						x = a.card[j]
						a.labels[j][s] = x
						a.card[j]++
					}
				} else {
					for t, k := range a.labels[j] {
						if k == x {
							s = t
						}
					}
				}
				row, toks = append(row, x), append(toks, s)
			}
		}
		a.rows = append(a.rows, row)
		b.WriteString(strings.Join(toks, []string{",", ", ", ",\t", " ,"}[W.Draw(4)]))
		if i+1 < m || W.Chance(1, 2) {
			b.WriteString("\n")
		}
		if i+1 < m && W.Chance(1, 8) {
			b.WriteString("% a comment among the data\n")
		}
		if (i+1 < m || b.String()[b.Len()-1] == '\n') && W.Chance(1, 8) {
			b.WriteString([]string{"\n", " \n", "\t\n"}[W.Draw(3)])
		}
	}
	a.text = []byte(b.String())
	return a
}

func (a *arff) same(name string, sc map[int]*learn.Variable, d []map[int]int, lb map[int]map[string]int) string {
	if name != a.name {
		return fmt.Sprintf("relation %q instead of %q", name, a.name)
	}
	for i, nm := range a.names {
		if v := sc[i]; v != nil && v.Name != nm {
			return fmt.Sprintf("variable %d is called %q instead of %q", i, v.Name, nm)
		}
	}
	t := &table{a.card, a.rows}
	if w := t.same(sc, d, len(a.card)); w != "" {
		return w
	}
	if fmt.Sprint(lb) != fmt.Sprint(a.labels) {
		return fmt.Sprintf("labels %v instead of %v", lb, a.labels)
	}
	return ""
}

func runC13(c *Ctx) {
	type job struct {
		kind  int
		path  string
		text  []byte
		t     *table
		a     *arff
		heads []int
		long  bool
		bad   bool
	}
	n := 1 + W.Draw(3)
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{kind: W.Draw(5), path: fmt.Sprintf("f%d", i)}
		sep, tr, nl := []string{" ", ",", ", ", "  ", "\t", " ,"}[W.Draw(6)], W.Chance(1, 2), W.Chance(2, 3)
		rows, wide := 6, 5
		if W.Chance(1, 40) {
			wide = 3000 // an instance is one line, some kilobytes long
		}
		if W.Chance(1, 12) {
			rows = 300
		}
		switch j.kind {
		case 0, 4:
			j.t = genTable(wide, rows)
			j.text = j.t.text(sep, tr, nl)
		case 1:
			j.t = genTable(wide, rows)
			if len(j.t.cards) < 2 {
				j.t.cards = append(j.t.cards, 2)
				for k := range j.t.rows {
					j.t.rows[k] = append(j.t.rows[k], W.Draw(2))
				}
			}
			j.text = j.t.text(sep, tr, nl)
		case 2:
			j.t = genTable(wide, rows)
			s := "labels "
			j.heads = make([]int, W.Draw(4))
			s += fmt.Sprint(len(j.heads))
			for k := range j.heads {
				j.heads[k] = W.Draw(20)
				s += fmt.Sprintf(" %d", j.heads[k])
			}
			j.text = append([]byte(s+"\n"), j.t.text(sep, tr, nl)...)
		case 3:
			j.a = genArff()
			j.text = j.a.text
			if W.Chance(1, 12) {
				j.bad = true
				j.text = j.a.spoil()
			}
		}
		if j.kind < 3 && W.Chance(1, 12) {
			j.bad = true
			j.text = spoil(j.text, sep, len(j.t.rows))
		}
		if !j.bad && W.Chance(1, 60) && j.kind != 4 {
			// An overlong line: blanks inside a row.
			k := strings.LastIndexAny(strings.TrimRight(string(j.text), "\n, "), " ,\n")
			j.long = true
			j.text = append(append(append([]byte(nil), j.text[:k+1]...), []byte(strings.Repeat(" ", 70000))...), j.text[k+1:]...)
			if j.text[k] == '\n' || j.kind == 3 {
				// Leading blanks are not part of the format.
				j.text = append([]byte(nil), j.text[:k+1]...)
				j.text = append(j.text, []byte("% "+strings.Repeat("c", 70000)+"\n")...)
				if j.kind != 3 {
					j.long, j.kind = false, 4
				}
			}
		}
		simos.Put(j.path, j.text)
		jobs[i] = j
	}
	short := []int{0, 0, 300, 800}[F.Draw(4)]
	simos.Plan(drawFaults(1, 8, simos.EIO, simos.Partial), short, false)
	hit := func() bool {
		k := simos.Fired()
		return k.ErrOpen+k.ErrRead+k.ErrMeta > 0
	}
	clients(n, func(i int) {
		j := jobs[i]
		why := ""
		what := ""
		p, _ := safely(func() {
			switch j.kind {
			case 0:
				what = "data file"
				sc, d := io.ParseData(j.path)
				why = j.t.same(sc, d, len(j.t.cards))
			case 1:
				what = "data file with labels apart"
				sc, d, l := io.ParseDataNL(j.path)
				m := len(j.t.cards) - 1
				why = j.t.same(sc, d, m)
				for k, r := range j.t.rows {
					if why == "" && (k >= len(l) || l[k] != r[m]) || len(l) != len(j.t.rows) {
						why = fmt.Sprintf("labels %v", l)
					}
				}
			case 2:
				what = "evidence file"
				sc, d, l := io.ParseEvidence(j.path)
				why = j.t.same(sc, d, len(j.t.cards))
				if why == "" && fmt.Sprint(l) != fmt.Sprint(j.heads) {
					why = fmt.Sprintf("labels %v instead of %v", l, j.heads)
				}
			case 3:
				what = "ARFF file"
				nm, sc, d, l := io.ParseArff(j.path)
				why = j.a.same(nm, sc, d, l)
			case 4:
				what = "model file"
				io.ReadFromFile(j.path)
			}
		})
		c.Note("%s, %d bytes: panic %v, %q", what, len(j.text), p, why)
		if p == nil && j.bad {
			c.Fail("malformed file", "reading a %s in which a value is missing or not a number gave data; file %.300q", what, j.text)
		}
		if p != nil && !hit() && !j.long && !j.bad {
			c.Fail("read failed", "reading a %s of %d bytes failed with no fault about: %v", what, len(j.text), p)
		}
		if why != "" && !j.bad {
			c.Fail("silent loss", "reading a %s of %d bytes (disk fault: %v, overlong line: %v) gave %s; file %.300q", what, len(j.text), hit(), j.long, why, j.text)
		}
		if p != nil {
			c.Cover("reads that failed loudly")
		} else {
			c.Cover("reads that succeeded")
		}
		if j.long {
			c.Cover("overlong lines")
		}
		if got, ok := simos.Get(j.path); !ok || string(got) != string(j.text) {
			c.Fail("file changed", "reading a %s changed it", what)
		}
	})
	if n := simos.OpenFiles(); n != 0 {
		c.Fail("file left open", "%d files still open", n)
	}
	c.faultCounts()
	c.Nontrivial = true
}

// spoil takes a value out of one row, or puts one more in.
func (a *arff) spoil() []byte {
	lines := strings.Split(strings.TrimRight(string(a.text), " \t\n"), "\n")
	for {
		k := len(lines) - 1 - W.Draw(len(a.rows))
		l := strings.TrimSpace(lines[k])
		if l == "" || l[0] == '%' || l[0] == '@' {
			continue
		}
		if i := strings.LastIndexAny(l, " ,\t"); i > 0 && W.Chance(3, 4) {
			lines[k] = strings.TrimRight(l[:i], " ,\t")
		} else {
			lines[k] += ",0"
		}
		return []byte(strings.Join(lines, "\n") + "\n")
	}
}

// spoil makes one value of a data file something that is no number, or removes it.
func spoil(text []byte, sep string, rows int) []byte {
	lines := strings.Split(strings.TrimRight(string(text), "\n"), "\n")
	k := len(lines) - 1 - W.Draw(rows)
	toks := strings.FieldsFunc(lines[k], func(r rune) bool { return r == ' ' || r == ',' || r == '\t' })
	i := W.Draw(len(toks))
	if W.Chance(1, 2) {
		i = len(toks) - 1
	}
	switch W.Draw(4) {
	case 0:
		toks[i] = "x"
	case 1:
		toks[i] += ".5"
	case 2:
		toks[i] = "99999999999999999999"
	case 3:
		if len(toks) > 1 {
			toks = append(toks[:i:i], toks[i+1:]...)
			if W.Chance(1, 2) {
				toks = append(toks, "")
			}
		} else {
			toks[i] = "?"
		}
	}
	lines[k] = strings.Join(toks, sep)
	return []byte(strings.Join(lines, "\n") + "\n")
}
