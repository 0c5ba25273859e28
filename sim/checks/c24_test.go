package zzverif

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
	"verif.local/simrt/simos"
)

// C24: pictures and drawings hold every pixel, node and edge, or the failure is told.
func init() {
	register(&Check{ID: "C24", Span: 1500, Cap: 4000000, Run: runC24})
}

type drawing struct {
	kind        int
	name        string
	w, h, max   int
	state, rest map[int]int // the picture, or its given half and its completion
	typ         io.CmplType
	net         *rnet
	root        spn.SPN
	before      string
	panicked    interface{}
}

var c24kinds = []string{"VarSetToPBM", "VarSetToPGM", "VarSetToPPM", "ImgCmplToPPM", "ImgCmplToPGM", "DrawGraph", "DrawGraphTools", "PrintSPN"}

func (d *drawing) String() string {
	s := fmt.Sprintf("%s %s %dx%d max %d %s %s %s", c24kinds[d.kind], d.name, d.w, d.h, d.max, d.typ, mapString(d.state), mapString(d.rest))
	if d.net != nil {
		s += " of " + d.net.String()
	}
	return s
}

func mapString(m map[int]int) string {
	var k []int
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	var s []string
	for _, i := range k {
		s = append(s, fmt.Sprintf("%d:%d", i, m[i]))
	}
	return strings.Join(s, " ")
}

func runC24(c *Ctx) {
	nc := 1 + W.Draw(3)
	ds := make([]*drawing, nc)
	for i := range ds {
		d := &drawing{kind: W.Draw(8), name: fmt.Sprintf("/work/out%d.%s", i, []string{"pgm", "x.py", "dot"}[W.Draw(3)])}
		d.w, d.h = 1+W.Draw(6), 1+W.Draw(6)
		if W.Chance(1, 60) {
			d.w, d.h = 60+W.Draw(40), 20+W.Draw(40) // more than a write buffer
		}
		n := d.w * d.h
		switch d.kind {
		case 0, 1, 2:
			d.max = []int{1, 7, 255}[W.Draw(3)]
			d.state = map[int]int{}
			for p := 0; p < n; p++ {
				if d.kind == 0 {
					d.state[p] = W.Draw(2)
				} else {
					d.state[p] = W.Draw(d.max + 1)
				}
			}
		case 3, 4:
			d.max = []int{2, 8, 256, 1024}[W.Draw(4)]
			if d.kind == 3 {
				d.max = 2
			}
			d.typ = io.Orientations[W.Draw(4)]
			d.state, d.rest = map[int]int{}, map[int]int{}
			for p := 0; p < n; p++ {
				if !missing(d.typ, p, d.w, d.h) {
					d.state[p] = W.Draw(d.max)
					if W.Chance(1, 2) {
						d.rest[p] = W.Draw(d.max) // completions sometimes cover the given half too
					}
				} else {
					d.rest[p] = W.Draw(d.max)
				}
			}
		default:
			d.net = genNet(netOpts{vars: 3, card: 3, depth: 2, gauss: true, zeros: true, spread: true})
			nodes := d.net.build()
			d.root = nodes[len(nodes)-1]
			if W.Chance(1, 12) {
				// A network may be a single leaf.
				k := W.Draw(len(d.net.n))
				if x := d.net.n[k]; x.kind != 's' && x.kind != 'p' {
					d.net = &rnet{n: []rnode{x}, card: d.net.card, ids: d.net.ids}
					d.root = d.net.build()[0]
				}
			}
		}
		if W.Chance(1, 3) {
			simos.Put(d.name, []byte(strings.Repeat("an older file\n", 1+W.Draw(200))))
		}
		d.before = d.String()
		ds[i] = d
		c.Note("%s", d)
	}
	simos.Capture(true)
	faults := drawFaults(W.Draw(3), 6+2*nc, simos.EIO, simos.Partial, simos.CloseErr)
	if W.Chance(1, 4) {
		faults = append(faults, drawFaults(1, 200, simos.EIO, simos.Partial)...)
	}
	simos.Plan(faults, 0, false)
	clients(nc, func(i int) {
		d := ds[i]
		defer func() { d.panicked = recover() }()
		switch d.kind {
		case 0:
			io.VarSetToPBM(d.name, d.state, d.w, d.h)
		case 1:
			io.VarSetToPGM(d.name, d.state, d.w, d.h, d.max)
		case 2:
			io.VarSetToPPM(d.name, d.state, d.w, d.h, d.max)
		case 3:
			io.ImgCmplToPPM(d.name, d.state, d.rest, d.typ, d.w, d.h)
		case 4:
			io.ImgCmplToPGM(d.name, d.state, d.rest, d.typ, d.w, d.h, d.max)
		case 5:
			io.DrawGraph(d.name, d.root)
		case 6:
			io.DrawGraphTools(d.name, d.root)
		case 7:
			spn.PrintSPN(d.root, d.name)
		}
	})
	hit := simos.Fired() != simos.Counts{}
	c.faultCounts()
	simos.Plan(nil, 0, false)
	out := simos.Captured()
	for _, d := range ds {
		what := c24kinds[d.kind]
		if d.net == nil && d.String() != d.before {
			c.Fail("input changed", "%s changed its input from %s to %s", what, d.before, d)
		}
		if d.net != nil {
			if s := d.net.differs(d.root); s != "" {
				c.Fail("input changed", "%s changed the network: %s", what, s)
			}
		}
		told := d.panicked != nil || strings.Contains(out, d.name)
		if told && !hit {
			c.Fail("needless failure", "%s fails with no fault about: %v, and prints %q", d.before, d.panicked, out)
		}
		if told {
			c.Cover("failures told")
			continue
		}
		b, ok := simos.Get(d.name)
		if !ok {
			c.Fail("silent failure", "%s tells of no failure, yet there is no file", d.before)
		}
		if s := d.wrong(string(b)); s != "" {
			c.Fail("wrong or incomplete file", "%s tells of no failure, yet %s; the file holds %q", d.before, s, clip(string(b)))
		}
		c.Cover(what)
		c.Nontrivial = true
	}
	if n := simos.OpenFiles(); n != 0 {
		c.Fail("file left open", "%d files stay open", n)
	}
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// wrong compares the file with what it was to show.
func (d *drawing) wrong(text string) string {
	if d.net != nil {
		var got string
		var bad string
		switch d.kind {
		case 5:
			got, bad = readDot(text)
		case 6:
			got, bad = readTools(text, strings.TrimSuffix(d.name, d.name[strings.LastIndex(d.name, "."):])+".png")
		case 7:
			got, bad = readText(text)
		}
		if bad != "" {
			return bad
		}
		if want := d.net.signature(len(d.net.n)-1, d.kind == 7); got != want {
			return fmt.Sprintf("it shows %s instead of %s", got, want)
		}
		return ""
	}
	f := strings.Fields(text)
	magic := []string{"P1", "P2", "P3", "P3", "P3"}[d.kind]
	head := 4
	if d.kind == 0 {
		head = 3
	}
	if len(f) < head || f[0] != magic {
		return "it does not start as a " + magic + " picture"
	}
	body := f[head:]
	if d.kind == 0 {
		body = strings.Split(strings.Join(body, ""), "")
	}
	nums, ok := fields(strings.Join(f[1:head], " "))
	if !ok {
		return "its header is garbled"
	}
	w, h := nums[0], nums[1]
	var px []int
	for _, s := range body {
		v, err := strconv.Atoi(s)
		if err != nil {
			return fmt.Sprintf("%q is no pixel", s)
		}
		px = append(px, v)
	}
	switch d.kind {
	case 0, 1:
		if w != d.w || h != d.h {
			return fmt.Sprintf("it is %d by %d", w, h)
		}
		if d.kind == 1 && nums[2] != d.max {
			return fmt.Sprintf("its maximum is %d", nums[2])
		}
		if len(px) != w*h {
			return fmt.Sprintf("it has %d pixels", len(px))
		}
		for p, v := range px {
			if v != d.state[p] {
				return fmt.Sprintf("pixel %d is %d", p, v)
			}
		}
		return ""
	}
	if len(px) != 3*w*h {
		return fmt.Sprintf("it has %d values for %d by %d pixels", len(px), w, h)
	}
	if d.kind == 2 {
		if w != d.w || h != d.h || nums[2] != d.max {
			return fmt.Sprintf("it is %d by %d with maximum %d", w, h, nums[2])
		}
		for p := 0; p < w*h; p++ {
			if v := d.state[p]; px[3*p] != v || px[3*p+1] != v || px[3*p+2] != v {
				return fmt.Sprintf("pixel %d is %v", p, px[3*p:3*p+3])
			}
		}
		return ""
	}
	if want := map[int]int{3: 255, 4: d.max - 1}[d.kind]; nums[2] != want {
		return fmt.Sprintf("its maximum is %d, not %d", nums[2], want)
	}
	// A completion has one more line, red, between the halves.
	top := d.typ == io.Top || d.typ == io.Bottom
	if top && (w != d.w || h != d.h+1) || !top && (w != d.w+1 || h != d.h) {
		return fmt.Sprintf("it is %d by %d", w, h)
	}
	var rest []int // pixels other than the line's
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := px[3*(y*w+x) : 3*(y*w+x)+3]
			if top && y == d.h/2 || !top && x == d.w/2 {
				if p[0] != nums[2] || p[1] != 0 || p[2] != 0 {
					return fmt.Sprintf("the line between the halves is %v at %d,%d", p, x, y)
				}
				continue
			}
			rest = append(rest, p...)
		}
	}
	for p := 0; p < d.w*d.h; p++ {
		v, given := d.state[p]
		var want [3]int
		if !given {
			v = d.rest[p]
		}
		switch {
		case d.kind == 4 && given:
			want = [3]int{v, v, v}
		case d.kind == 4:
			want = [3]int{0, v, 0}
		case v != 1:
			want = [3]int{255, 255, 255}
		case given:
			want = [3]int{0, 0, 255}
		default:
			want = [3]int{0, 255, 0}
		}
		if got := [3]int{rest[3*p], rest[3*p+1], rest[3*p+2]}; got != want {
			return fmt.Sprintf("pixel %d is %v, not %v", p, got, want)
		}
	}
	return ""
}

// signature spells out the network below a node, as a tree.
func (r *rnet) signature(i int, text bool) string {
	n := r.n[i]
	switch n.kind {
	case 's', 'p':
		var ch []string
		for k, x := range n.ch {
			w := ""
			if n.kind == 's' {
				w = fmt.Sprintf("%.3f:", n.w[k])
				if text {
					w = fmt.Sprintf("%.5f:", n.w[k])
				}
			}
			ch = append(ch, w+r.signature(x, text))
		}
		sort.Strings(ch)
		return map[byte]string{'s': "sum", 'p': "product"}[n.kind] + "(" + strings.Join(ch, ", ") + ")"
	}
	if !text {
		return fmt.Sprintf("X%d", r.ids[n.v])
	}
	mu, sd := n.mu, n.sigma
	switch n.kind {
	case 'i':
		mu, sd = float64(n.val), 0
	case 'm':
		mu, sd = 0, 0
		for v, p := range n.pr {
			mu += p * float64(v)
		}
		for v, p := range n.pr {
			sd += p * (float64(v) - mu) * (float64(v) - mu)
		}
		sd = math.Sqrt(sd)
	}
	return fmt.Sprintf("%.5f %.5f", mu, sd)
}

// graphText is a drawing read back: nodes in order and edges.
type graphText struct {
	order []string
	label map[string]string
	ch    map[string][][2]string // label, node
	in    map[string]bool
}

func newGraphText() *graphText {
	return &graphText{label: map[string]string{}, ch: map[string][][2]string{}, in: map[string]bool{}}
}

func (g *graphText) node(name, label string) {
	if _, ok := g.label[name]; !ok {
		g.order = append(g.order, name)
	}
	g.label[name] = label
}

func (g *graphText) edge(a, b, w string) {
	g.ch[a] = append(g.ch[a], [2]string{w, b})
	g.in[b] = true
}

func (g *graphText) signature() (string, string) {
	root := ""
	for _, n := range g.order {
		if !g.in[n] {
			if root != "" {
				return "", "it has two roots"
			}
			root = n
		}
	}
	if root == "" {
		return "", "it has no root"
	}
	bad := ""
	var sig func(n string, d int) string
	sig = func(n string, d int) string {
		l, ok := g.label[n]
		if !ok || d > 100 {
			bad = fmt.Sprintf("an edge leads to %q", n)
			return ""
		}
		if l != "sum" && l != "product" {
			return l
		}
		var ch []string
		for _, e := range g.ch[n] {
			w := ""
			if e[0] != "" {
				w = e[0] + ":"
			}
			ch = append(ch, w+sig(e[1], d+1))
		}
		sort.Strings(ch)
		return l + "(" + strings.Join(ch, ", ") + ")"
	}
	s := sig(root, 0)
	return s, bad
}

var (
	dotSum   = regexp.MustCompile(`^(\w+) \[label="\+",shape=circle\];?$`)
	dotProd  = regexp.MustCompile(`^(\w+) \[label=<&times;>,shape=circle\];?$`)
	dotLeaf  = regexp.MustCompile(`^(\w+) \[label=<X<sub>(\d+)</sub>>,shape=circle\];?$`)
	dotEdge  = regexp.MustCompile(`^(\w+) -- (\w+)(?: \[label="([^"]*)"\])?;?$`)
	toolNode = regexp.MustCompile(`^(?:(\w+) = )?add_node\("([^"]*)", "([^"]*)"\)$`)
	toolEdge = regexp.MustCompile(`^add_edge(?:_nameless)?\((\w+), (\w+)(?:, "([^"]*)")?\)$`)
	textNode = regexp.MustCompile(`^([SPL]\d+) \[$`)
)

func readDot(text string) (string, string) {
	if !strings.HasPrefix(text, "graph {\n") || !strings.HasSuffix(strings.TrimSpace(text), "}") {
		return "", "it is not a whole graph"
	}
	body := strings.TrimSuffix(strings.TrimSpace(strings.TrimPrefix(text, "graph {\n")), "}")
	g := newGraphText()
	for _, l := range strings.Split(body, "\n") {
		l = strings.TrimSpace(l)
		if m := dotSum.FindStringSubmatch(l); m != nil {
			g.node(m[1], "sum")
		} else if m := dotProd.FindStringSubmatch(l); m != nil {
			g.node(m[1], "product")
		} else if m := dotLeaf.FindStringSubmatch(l); m != nil {
			g.node(m[1], "X"+m[2])
		} else if m := dotEdge.FindStringSubmatch(l); m != nil {
			g.edge(m[1], m[2], m[3])
		} else if l != "" {
			return "", fmt.Sprintf("%q means nothing", l)
		}
	}
	return g.signature()
}

func readTools(text, png string) (string, string) {
	if !strings.Contains(text, "\""+png+"\"") || !strings.HasSuffix(strings.TrimSpace(text), ")") || strings.Count(text, "graph_draw(") != 1 {
		return "", "it does not draw " + png
	}
	// What is used is defined or imported before.
	at := -1
	for _, d := range []string{"graph_tool.all import ", "g = Graph(", "vcolors = ", "vnames = ", "enames = "} {
		i := strings.Index(text, d)
		if i < 0 || i < at && strings.HasPrefix(d, "g ") {
			return "", fmt.Sprintf("there is no %q in its place", d)
		}
		at = i
	}
	for _, f := range []string{"add_node", "add_edge", "add_edge_nameless"} {
		use, def := strings.Index(strings.ReplaceAll(text, "g."+f+"(", ""), "\n"+f+"("), strings.Index(text, "def "+f+"(")
		if use < 0 {
			use = strings.Index(text, "= "+f+"(")
		}
		if use >= 0 && (def < 0 || def > use) {
			return "", "it does not define " + f
		}
	}
	g := newGraphText()
	for _, l := range strings.Split(text, "\n") {
		if m := toolNode.FindStringSubmatch(l); m != nil {
			if m[1] == "" {
				m[1] = "unnamed"
			}
			switch m[2] {
			case "+":
				g.node(m[1], "sum")
			case "*":
				g.node(m[1], "product")
			default:
				g.node(m[1], strings.Replace(m[2], "_", "", 1))
			}
		} else if m := toolEdge.FindStringSubmatch(l); m != nil {
			g.edge(m[1], m[2], m[3])
		} else if strings.HasPrefix(l, "add_") || strings.Contains(l, "= add_") {
			return "", fmt.Sprintf("%q is no call of the functions it defines", l)
		}
	}
	return g.signature()
}

func readText(text string) (string, string) {
	g := newGraphText()
	cur := ""
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if m := textNode.FindStringSubmatch(l); m != nil && cur == "" {
			cur = m[1]
			if _, twice := g.label[cur]; twice {
				return "", cur + " is there twice"
			}
			g.node(cur, map[byte]string{'S': "sum", 'P': "product", 'L': ""}[cur[0]])
		} else if l == "]" && cur != "" {
			cur = ""
		} else if strings.HasPrefix(l, "  ") && cur != "" {
			f := strings.Fields(l)
			switch {
			case cur[0] == 'L':
				g.node(cur, strings.Join(f, " "))
			case cur[0] == 'S' && len(f) == 2:
				g.edge(cur, f[0], f[1])
			case cur[0] == 'P' && len(f) == 1:
				g.edge(cur, f[0], "")
			default:
				return "", fmt.Sprintf("%q means nothing", l)
			}
		} else {
			return "", fmt.Sprintf("%q means nothing", l)
		}
	}
	if cur != "" {
		return "", "it is cut off"
	}
	return g.signature()
}
