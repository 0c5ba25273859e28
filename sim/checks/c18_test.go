package zzverif

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/score"
	"verif.local/simrt/simos"
	"verif.local/simrt/simruntime"
)

// C04: converting a folder of images concurrently writes every image's row once, whole and with its
// own label, or the conversion fails loudly.
// C18: so do the other converters, and a saved score is the score.
func init() {
	register(&Check{ID: "C04", Span: 3000, Cap: 6000000, Run: func(c *Ctx) { runConvert(c, 0) }})
	register(&Check{ID: "C18", Span: 1500, Cap: 6000000, Run: func(c *Ctx) {
		switch k := W.Draw(8); k {
		case 6:
			c18arff(c)
		case 7:
			c18score(c)
		default:
			runConvert(c, 1+k%5)
		}
	}})
}

// gallery is a folder of images, one subfolder per class.
type gallery struct {
	dir     string
	w, h, k int // width, height, largest value
	classes []string
	imgs    [][][]int         // class, image, pixels
	src     map[string]string // every source file
}

func genGallery(bitmap, flat bool, most int) *gallery {
	g := &gallery{dir: "/work/img", w: 1 + W.Draw(4), h: 1 + W.Draw(3), k: 1, src: map[string]string{}}
	if !bitmap {
		g.k = 1 + W.Draw(15)
		if W.Chance(1, 3) {
			g.k = 255
		}
		if W.Chance(1, 15) {
			g.k = 256 + W.Draw(65280)
		}
	}
	nc := 1 + W.Draw(3)
	if W.Chance(1, 40) {
		nc = 4 + W.Draw(5)
	}
	if W.Chance(1, 40) {
		g.w, g.h = 3+W.Draw(8), 3+W.Draw(6)
	}
	if flat {
		nc = 1
	}
	simos.MkAll(g.dir)
	total := 0
	for i := 0; i < nc; i++ {
		name := []string{"cat", "bird", "ant", "dog", "elk", "c", "fox", "zebra"}[i]
		d := g.dir + "/" + name
		if flat {
			d = g.dir
		}
		simos.MkAll(d)
		g.classes = append(g.classes, name)
		n := W.Draw(most)
		if i+1 == nc && total == 0 {
			n++
		}
		total += n
		var imgs [][]int
		for j := 0; j < n; j++ {
			px := make([]int, g.w*g.h)
			for z := range px {
				px[z] = W.Draw(g.k + 1)
			}
			imgs = append(imgs, px)
			p := fmt.Sprintf("%s/%s%d.img", d, name, j)
			g.src[p] = g.render(px, bitmap)
			simos.Put(p, []byte(g.src[p]))
		}
		g.imgs = append(g.imgs, imgs)
	}
	if !flat {
		for i := W.Draw(3); i > 0; i-- { // files that are not classes
			p := fmt.Sprintf("%s/%s", g.dir, []string{"README", "aaa.txt", "zzz"}[W.Draw(3)])
			g.src[p] = "not a class\n"
			simos.Put(p, []byte(g.src[p]))
		}
		if W.Chance(1, 2) { // an earlier conversion
			simos.MkAll(g.dir + "/compiled")
			simos.Put(g.dir+"/compiled/out.data", []byte(strings.Repeat("var 0 2\n0 1 0 1\n", 1+W.Draw(200))))
			g.src[g.dir+"/compiled/other.data"] = "var 0 2\n0\n"
			simos.Put(g.dir+"/compiled/other.data", []byte("var 0 2\n0\n"))
		}
	}
	return g
}

func (g *gallery) render(px []int, bitmap bool) string {
	var b strings.Builder
	if bitmap {
		fmt.Fprintf(&b, "P1\n%d %d\n", g.w, g.h)
	} else {
		fmt.Fprintf(&b, "P2\n%d %d\n%d\n", g.w, g.h, g.k)
	}
	sep := " "
	if bitmap && W.Chance(1, 2) {
		sep = ""
	} else if !bitmap && W.Chance(1, 3) {
		sep = []string{"  ", "\t"}[W.Draw(2)]
	}
	per := 1 + W.Draw(len(px)) // values on a line
	tail := W.Chance(1, 2)
	for i, x := range px {
		fmt.Fprint(&b, x)
		switch {
		case i+1 == len(px):
			if tail {
				b.WriteString(sep)
			}
			if !tail || W.Chance(1, 2) {
				b.WriteString("\n")
			}
		case (i+1)%per == 0:
			b.WriteString("\n")
		default:
			b.WriteString(sep)
		}
	}
	return b.String()
}

// damage spoils one image file. Unless it is to be refused, a reader may also make the right thing of it.
func (g *gallery) damage(bitmap bool) (what string, refused bool) {
	var names []string
	for p := range g.src {
		if strings.HasSuffix(p, ".img") {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	p := names[W.Draw(len(names))]
	head := 2
	if !bitmap {
		head = 3
	}
	l := strings.SplitN(g.src[p], "\n", head+1)
	body := strings.TrimRight(l[head], " \t\n")
	top := strings.Join(l[:head], "\n") + "\n"
	cut := func() string { // without the last pixel
		if bitmap {
			return body[:len(body)-1]
		}
		return body[:strings.LastIndexAny(body, " \t\n")+1]
	}
	refused = true
	switch W.Draw(7) {
	case 0:
		what, g.src[p] = "pixels are missing", top+cut()
	case 1:
		what, g.src[p] = "there is a pixel too many", top+body+" 0\n"
	case 2:
		what, g.src[p] = "a pixel is not a number", top+cut()+" x\n"
	case 3:
		what, g.src[p] = "a pixel is above the maximum", top+cut()+fmt.Sprintf(" %d\n", g.k+1)
	case 4:
		what, g.src[p] = "there is a comment", l[0]+"\n# a remark\n"+strings.Join(l[1:head], "\n")+"\n"+body+"\n"
		refused = false
	case 5:
		what, g.src[p] = "the file ends in its header", l[0]+"\n"
	default:
		what, g.src[p] = "the file is empty", ""
	}
	simos.Put(p, []byte(g.src[p]))
	return p + ": " + what, refused
}

// fields are the numbers on a line.
func fields(s string) ([]int, bool) {
	var out []int
	for _, t := range strings.Fields(s) {
		x, err := strconv.Atoi(t)
		if err != nil {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

// check compares a converted file with the gallery: "" if it holds exactly the images.
func (g *gallery) check(text string, kind int, class int) string {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	evidence := kind == 2 || kind == 5
	var starts []int
	if evidence {
		f := strings.Fields(lines[0])
		if len(f) < 2 || f[0] != "labels" {
			return fmt.Sprintf("first line %q", lines[0])
		}
		v, ok := fields(strings.Join(f[1:], " "))
		if !ok || v[0] != len(g.classes) || len(v) != 1+v[0] {
			return fmt.Sprintf("first line %q for %d classes", lines[0], len(g.classes))
		}
		starts = v[1:]
		lines = lines[1:]
	}
	n := g.w * g.h
	want := make([]int, n)
	for i := range want {
		want[i] = g.k + 1
	}
	if !evidence && kind != 4 {
		want = append(want, len(g.classes))
	}
	for i, k := range want {
		if i >= len(lines) || strings.TrimSpace(lines[i]) != fmt.Sprintf("var %d %d", i, k) {
			return fmt.Sprintf("variable %d is not declared with %d categories", i, k)
		}
	}
	lines = lines[len(want):]
	// Rows by label.
	var rows [][]int
	for _, l := range lines {
		v, ok := fields(l)
		if !ok {
			return fmt.Sprintf("row %q", l)
		}
		rows = append(rows, v)
	}
	byLabel := map[int][]string{}
	all := 0
	for i, v := range rows {
		lab := 0
		switch {
		case evidence:
			if len(v) != n {
				return fmt.Sprintf("row %v of a %dx%d image", v, g.w, g.h)
			}
			// The label whose start is the last at or before i; empty classes share their start.
			lab = -1
			for j, s := range starts {
				if s <= i {
					lab = j
				}
			}
		case kind == 4:
			if class > 0 {
				if len(v) != n+1 || v[n] != class {
					return fmt.Sprintf("row %v of a %dx%d image of class %d", v, g.w, g.h, class)
				}
				v = v[:n]
			} else if len(v) != n {
				return fmt.Sprintf("row %v of a %dx%d image", v, g.w, g.h)
			}
		default:
			if len(v) != n+1 {
				return fmt.Sprintf("row %v of a labelled %dx%d image", v, g.w, g.h)
			}
			lab = v[n]
			v = v[:n]
		}
		byLabel[lab] = append(byLabel[lab], fmt.Sprint(v))
		all++
	}
	var got, exp []string
	for l, r := range byLabel {
		if l < 0 || l >= len(g.classes) {
			return fmt.Sprintf("label %d of %d classes", l, len(g.classes))
		}
		sort.Strings(r)
		got = append(got, strings.Join(r, ";"))
	}
	for _, imgs := range g.imgs {
		var r []string
		for _, px := range imgs {
			r = append(r, fmt.Sprint(px))
		}
		if len(r) > 0 {
			sort.Strings(r)
			exp = append(exp, strings.Join(r, ";"))
		}
	}
	sort.Strings(got)
	sort.Strings(exp)
	if fmt.Sprint(got) != fmt.Sprint(exp) {
		return fmt.Sprintf("rows by label %v instead of %v", got, exp)
	}
	return ""
}

// sourcesIntact verifies that a conversion left its sources alone and nothing open.
func sourcesIntact(c *Ctx, src map[string]string) {
	for p, s := range src {
		if b, ok := simos.Get(p); !ok || string(b) != s {
			c.Fail("source changed", "the conversion changed %s from %q to %q (exists: %v)", p, s, b, ok)
		}
	}
	if n := simos.OpenFiles(); n != 0 {
		c.Fail("file left open", "%d files still open", n)
	}
}

func anyFault() bool {
	k := simos.Fired()
	return k.ErrOpen+k.ErrRead+k.ErrWrite+k.ShortWrite+k.ErrClose+k.ErrMeta+k.ErrSync+k.ErrRename+k.LostWrite > 0
}

var convNames = []string{"BufferedPGMFToData", "PGMFToData", "PGMFToEvidence", "PBMFToData", "PBMToData", "PBMFToEvidence"}

func runConvert(c *Ctx, kind int) {
	most := 3
	if kind == 0 {
		most = 5
	}
	g := genGallery(kind >= 3, kind == 4, most)
	class := W.Draw(3)
	simruntime.CPUs = 1 + W.Draw(3)
	if W.Chance(1, 30) {
		simruntime.CPUs = 4 + W.Draw(30)
	}
	short := []int{0, 0, 300, 800}[F.Draw(4)]
	faults := drawFaults(1, 40, simos.EIO, simos.Partial, simos.CloseErr)
	if F.Chance(1, 3) {
		faults = nil
	}
	simos.Plan(faults, short, F.Chance(1, 2))
	out := g.dir + "/compiled/out.data"
	c.Note("%s of %v, %dx%d, processors %d, faults %v", convNames[kind], g.imgs, g.w, g.h, simruntime.CPUs, faults)
	var o overlap
	damaged, refused := "", false
	if W.Chance(1, 10) {
		damaged, refused = g.damage(kind >= 3)
		c.Note("damaged: %s", damaged)
	}
	if kind == 0 {
		c.loud = func() bool { return damaged != "" || anyFault() } // a job that fails ends the program
		id := map[string]int{}
		for f := range g.src {
			id[f] = len(id)
		}
		simos.Restrict(func(op, path string) bool {
			if i, ok := id[path]; ok && (op == "open" || op == "read") {
				o.touch(i)
			}
			return true
		})
	}
	var w, h, max int
	p, stack := safely(func() {
		switch kind {
		case 0:
			w, h, max = io.BufferedPGMFToData(g.dir, "out.data")
		case 1:
			w, h, max = io.PGMFToData(g.dir, "out.data")
		case 2:
			w, h, max = io.PGMFToEvidence(g.dir, "out.data")
		case 3:
			io.PBMFToData(g.dir, "out.data")
		case 4:
			out = "/work/out.data"
			io.PBMToData(g.dir, out, class)
		case 5:
			io.PBMFToEvidence(g.dir, "out.data")
		}
	})
	hit := anyFault()
	c.faultCounts()
	if p != nil {
		if damaged != "" {
			c.Cover("damaged images refused")
		} else if !hit {
			c.Fail("conversion failed", "%s of %v failed with no fault about: %v\n%s", convNames[kind], g.imgs, p, stack)
		}
		c.Cover("conversions that failed loudly")
		if kind != 0 {
			sourcesIntact(c, g.src)
		}
		return
	}
	if refused {
		c.Fail("damaged image taken", "%s returned normally though an image is damaged: %s (%q)", convNames[kind], damaged, g.src[strings.SplitN(damaged, ":", 2)[0]])
	}
	c.Cover("conversions that succeeded")
	if kind == 0 {
		o.judge(c, simruntime.CPUs)
	}
	simos.Plan(nil, 0, false)
	if kind < 3 && (w != g.w || h != g.h || max != g.k) {
		c.Fail("wrong size", "%s of %dx%d images with values up to %d returned %d, %d, %d (disk fault: %v)", convNames[kind], g.w, g.h, g.k, w, h, max, hit)
	}
	text, _ := simos.Get(out)
	if why := g.check(string(text), kind, class); why != "" {
		c.Fail("silent loss", "%s (disk fault: %v) wrote %s; file %.400q, images %v", convNames[kind], hit, why, text, g.imgs)
	}
	sourcesIntact(c, g.src)
	// What was written can be read.
	n := 0
	for _, x := range g.imgs {
		n += len(x)
	}
	q, _ := safely(func() {
		m := 0
		switch kind {
		case 2, 5:
			_, d, _ := io.ParseEvidence(out)
			m = len(d)
		case 4:
			_, d := io.ParseData(out)
			m = len(d)
		default:
			_, d, l := io.ParseDataNL(out)
			m = len(d)
			if len(l) != m {
				c.Fail("unreadable result", "%s wrote %d rows and %d labels", convNames[kind], m, len(l))
			}
		}
		if m != n {
			c.Fail("unreadable result", "%s wrote %d images, read as %d", convNames[kind], n, m)
		}
	})
	if q != nil {
		c.Fail("unreadable result", "reading what %s wrote: %v; file %.300q", convNames[kind], q, text)
	}
	c.Nontrivial = n > 1
}

func c18arff(c *Ctx) {
	n := 1 + W.Draw(4)
	vals := [][]string{{"red", "green", "blue", "x1"}, {"re", "red", "reddish", "r"}, {"3", "2", "1", "0"}}[W.Draw(3)]
	var b strings.Builder
	up := func(s string) string {
		if W.Chance(1, 3) {
			return strings.ToUpper(s)
		}
		return s
	}
	gap := []string{",", ", ", ",\t", " , "}[W.Draw(4)]
	filler := func() {
		for W.Chance(1, 6) {
			b.WriteString([]string{"\n", "% a remark\n", " \n", "% one, two\n"}[W.Draw(4)])
		}
	}
	b.WriteString(up("@relation") + " r\n")
	filler()
	card := make([]int, n)
	for i := range card {
		card[i] = 1 + W.Draw(4)
		fmt.Fprintf(&b, "%s a%d%s{%s}\n", up("@attribute"), i, []string{" ", "\t"}[W.Draw(2)], strings.Join(vals[:card[i]], gap))
		filler()
	}
	b.WriteString(up("@data") + "\n")
	bad := W.Chance(1, 12)
	t := &table{cards: card}
	rows := 1 + W.Draw(5)
	for i := 0; i < rows; i++ {
		var r []int
		var s []string
		for j := range card {
			x := W.Draw(card[j])
			r, s = append(r, x), append(s, vals[x])
		}
		t.rows = append(t.rows, r)
		if bad && i+1 == rows {
			if z := W.Draw(len(s)); W.Chance(1, 2) {
				s[z] = "grey"
			} else if z > 0 {
				s = s[:z]
			} else {
				s = append(s, s[0])
			}
		}
		b.WriteString(strings.Join(s, gap))
		if i+1 < rows || W.Chance(1, 2) {
			b.WriteString("\n")
			filler()
		}
	}
	simos.MkAll("/work/arff")
	src := map[string]string{"/work/arff/in.arff": b.String()}
	simos.Put("/work/arff/in.arff", []byte(b.String()))
	if W.Chance(1, 2) {
		simos.MkAll("/work/arff/compiled")
		simos.Put("/work/arff/compiled/out.data", []byte(strings.Repeat("var 0 2\n0 1 0 1\n", 20)))
	}
	faults := drawFaults(1, 14, simos.EIO, simos.Partial, simos.CloseErr)
	simos.Plan(faults, []int{0, 0, 300, 800}[F.Draw(4)], false)
	p, stack := safely(func() { io.ARFFToData("/work/arff", "in.arff", "out.data") })
	hit := anyFault()
	c.faultCounts()
	sourcesIntact(c, src)
	c.Note("ARFFToData: faults %v, panic %v", faults, p)
	if p == nil && bad {
		c.Fail("malformed file", "ARFFToData took an undeclared value, or a value too few or too many: %.300q", b.String())
	}
	if p != nil {
		if !hit && !bad {
			c.Fail("conversion failed", "ARFFToData failed with no fault about: %v\n%s", p, stack)
		}
		c.Cover("conversions that failed loudly")
		return
	}
	simos.Plan(nil, 0, false)
	why := ""
	q, _ := safely(func() {
		sc, d := io.ParseData("/work/arff/compiled/out.data")
		why = t.same(sc, d, n)
	})
	if q != nil {
		why = fmt.Sprint(q)
	}
	if why != "" {
		text, _ := simos.Get("/work/arff/compiled/out.data")
		c.Fail("silent loss", "ARFFToData (disk fault: %v) wrote %s; file %.300q from %.300q", hit, why, text, b.String())
	}
	c.Cover("conversions that succeeded")
	c.Nontrivial = rows > 1
}

func c18score(c *Ctx) {
	s := score.NewScore()
	n := 1 + W.Draw(30)
	if W.Chance(1, 20) {
		n += W.Draw(2000)
	}
	wrong := map[[2]int]int{}
	for i := 0; i < n; i++ {
		got, exp := W.Draw(3), W.Draw(3)
		s.Register(got, exp)
		if got != exp {
			wrong[[2]int{exp, got}]++
		}
	}
	if W.Chance(1, 2) {
		simos.Put("/work/score", []byte(strings.Repeat("old\n", 1+W.Draw(400))))
	}
	faults := drawFaults(1, 5, simos.EIO, simos.Partial, simos.CloseErr)
	simos.Plan(faults, 0, false)
	want := s.String()
	for a := 0; a < 3; a++ { // every wrong prediction is told
		for b := 0; b < 3; b++ {
			if k := strings.Count(want, fmt.Sprintf("Expected %d, got %d.", a, b)); k != wrong[[2]int{a, b}] {
				c.Fail("score text", "the text of a score tells %d of %d predictions of %d for %d: %q", k, wrong[[2]int{a, b}], b, a, want)
			}
		}
	}
	miss := 0
	for _, k := range wrong {
		miss += k
	}
	for _, l := range []string{fmt.Sprintf("Hits: %d\n", n-miss), fmt.Sprintf("Misses: %d\n", miss), fmt.Sprintf("Total: %d\n", n), fmt.Sprintf("Accuracy: %.5f\n", float64(n-miss)/float64(n))} {
		if strings.Count(want, l) != 1 {
			c.Fail("score text", "the text of a score does not say %q: %q", l, want)
		}
	}
	p, stack := safely(func() { s.Save("/work/score") })
	hit := anyFault()
	c.faultCounts()
	c.Note("Save of %d results: faults %v, panic %v", n, faults, p)
	if k := simos.OpenFiles(); k != 0 {
		c.Fail("file left open", "%d files still open", k)
	}
	if s.String() != want {
		c.Fail("score changed", "saving a score changed it")
	}
	if p != nil {
		if !hit {
			c.Fail("save failed", "saving a score failed with no fault about: %v\n%s", p, stack)
		}
		c.Cover("saves that failed loudly")
		return
	}
	simos.Plan(nil, 0, false)
	if b, _ := simos.Get("/work/score"); strings.TrimSpace(string(b)) != strings.TrimSpace(want) {
		c.Fail("silent loss", "saving a score (disk fault: %v) left %q instead of %q", hit, b, want)
	}
	c.Cover("saves that succeeded")
	c.Nontrivial = true
}
