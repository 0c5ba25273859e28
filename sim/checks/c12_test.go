package zzverif

import (
	"fmt"
	"strings"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"verif.local/simrt/simos"
)

// C12: a download that reports success leaves exactly the served contents in the cache; whatever
// fails or dies leaves the cache without the file (or with its previous contents), so that no later
// call takes half a dataset for the dataset, and once the trouble is over the download works.
func init() {
	register(&Check{ID: "C12", Span: 800, Cap: 30000000, Run: runC12})
}

// table is a data file and what it means.
type table struct {
	cards []int
	rows  [][]int
}

func genTable(maxVars, maxRows int) *table {
	t := &table{}
	for i, n := 0, 1+W.Draw(maxVars); i < n; i++ {
		k := 2 + W.Draw(12)
		if W.Chance(1, 60) {
			k = 90 + W.Draw(2000)
		}
		t.cards = append(t.cards, k)
	}
	for i, n := 0, 1+W.Draw(maxRows); i < n; i++ {
		r := make([]int, len(t.cards))
		for j := range r {
			r[j] = W.Draw(t.cards[j])
		}
		t.rows = append(t.rows, r)
	}
	return t
}

func (t *table) text(sep string, trailing, newline bool) []byte {
	var b strings.Builder
	for i, k := range t.cards {
		fmt.Fprintf(&b, "var %d %d\n", i, k)
	}
	b.Write(t.body(sep, trailing, newline))
	return []byte(b.String())
}

func (t *table) body(sep string, trailing, newline bool) []byte {
	var b strings.Builder
	pad := W.Chance(1, 12)
	for i, r := range t.rows {
		for j, x := range r {
			if j > 0 {
				b.WriteString(sep)
			}
			if pad {
				fmt.Fprintf(&b, "%03d", x)
			} else {
				fmt.Fprint(&b, x)
			}
		}
		if trailing {
			b.WriteString(sep)
		}
		if newline || i+1 < len(t.rows) {
			b.WriteString("\n")
		}
	}
	return []byte(b.String())
}

// same says how a parsed dataset differs from the table's first n columns ("" if it does not).
func (t *table) same(sc map[int]*learn.Variable, d []map[int]int, n int) string {
	if len(sc) != n {
		return fmt.Sprintf("%d variables instead of %d", len(sc), n)
	}
	for i := 0; i < n; i++ {
		if v := sc[i]; v == nil || v.Varid != i || v.Categories != t.cards[i] {
			return fmt.Sprintf("variable %d is %+v instead of one with %d categories", i, v, t.cards[i])
		}
	}
	return t.sameRows(d, n)
}

func (t *table) sameRows(d []map[int]int, n int) string {
	if len(d) != len(t.rows) {
		return fmt.Sprintf("%d instances instead of %d", len(d), len(t.rows))
	}
	for i, r := range t.rows {
		if len(d[i]) != n {
			return fmt.Sprintf("instance %d is %v instead of %v", i, d[i], r[:n])
		}
		for j := 0; j < n; j++ {
			if x, ok := d[i][j]; !ok || x != r[j] {
				return fmt.Sprintf("instance %d is %v instead of %v", i, d[i], r[:n])
			}
		}
	}
	return ""
}

type dsFunc func() (map[int]*learn.Variable, []map[int]int)

var dsets = []struct {
	name, path, url string
	f               dsFunc
}{
	{"Caltech", "caltech", "caltech", data.Caltech}, {"Caltech4Bit", "caltech_4bit", "caltech_4bit", data.Caltech4Bit},
	{"Caltech3Bit", "caltech_3bit", "caltech_3bit", data.Caltech3Bit}, {"Digits", "digits", "digits", data.Digits},
	{"DigitsX", "digits_x", "digits_x", data.DigitsX}, {"Olivetti", "olivetti", "olivetti", data.Olivetti},
	{"OlivettiPadded", "olivetti_padded_u", "olivetti_padded_u", data.OlivettiPadded},
	{"Olivetti3Bit", "olivetti_3bit", "olivetti_3bit", data.Olivetti3Bit},
	{"OlivettiBig", "olivetti_big", "olivetti_big", data.OlivettiBig},
	{"OlivettiSmall", "olivetti_small", "olivetti_small", data.OlivettiSmall},
}

var mnists = []struct {
	name string
	b, n int
	f    func() (map[int]*learn.Variable, []map[int]int, []map[int]int)
}{
	{"MNIST1000", 256, 1000, data.MNIST1000}, {"MNIST2000", 256, 2000, data.MNIST2000},
	{"MNIST3Bits1000", 8, 1000, data.MNIST3Bits1000}, {"MNIST3Bits2000", 8, 2000, data.MNIST3Bits2000},
}

const upstream = "https://raw.githubusercontent.com/RenatoGeh/datasets/master/"

// served is what the simulated server holds per address and what it has handed out in whole.
type server struct {
	tab   map[string]*table
	body  map[string][]byte
	trial int // the fault of the next replies
	fired int
}

func (s *server) serve(url string) netReply {
	b, ok := s.body[url]
	if !ok {
		return netReply{status: 404, body: []byte("404: Not Found")}
	}
	r := netReply{status: 200, body: b, cut: -1, noLen: F.Chance(1, 3), short: F.Chance(1, 2)}
	if s.trial == 0 || F.Chance(1, 3) {
		return r
	}
	s.fired++
	switch s.trial {
	case 1:
		return netReply{refuse: true}
	case 2:
		st := []int{404, 500, 503, 403, 204, 206, 202, 300, 304}[F.Draw(9)]
		body := []byte("<html>var oops</html>\n")
		switch st {
		case 204, 304:
			body = nil
		case 206, 202:
			body = b[:F.Draw(len(b))]
		}
		return netReply{status: st, body: body, cut: -1}
	case 3:
		r.cut, r.cutErr = F.Draw(len(b)), F.Chance(1, 2)
	case 4: // cut at the end of a line
		k := F.Draw(len(b))
		for k > 0 && b[k-1] != '\n' {
			k--
		}
		r.cut, r.cutErr = k, F.Chance(1, 2)
	}
	return r
}

func runC12(c *Ctx) {
	srv := &server{tab: map[string]*table{}, body: map[string][]byte{}}
	publish := func(url string) *table {
		t := genTable(3, 5)
		if W.Chance(1, 60) {
			t = genTable(3, 8000)
		}
		sep := []string{" ", ",", ", "}[W.Draw(3)]
		if len(t.cards) > 1 && W.Chance(1, 200) {
			// A body of a megabyte and more.
			sep = strings.Repeat(" ", 1200000/len(t.rows)/(len(t.cards)-1)+1)
			if len(sep) > 30000 {
				sep = sep[:30000]
			}
		}
		srv.tab[url] = t
		srv.body[url] = t.text(sep, false, W.Chance(1, 2))
		return t
	}
	simNet.serve = srv.serve
	// have is what each cache file must hold; a file may also hold what alt says.
	have, ever := map[string][]byte{}, map[string][]string{}
	kinds := []int{simos.EIO, simos.Partial, simos.CloseErr}
	check := func(p, when string, before []byte, alt []byte) {
		got, ok := simos.Get(p)
		if !ok {
			if before != nil {
				c.Fail("file lost", "%s: %s is gone", when, p)
			}
			return
		}
		if before != nil && string(got) == string(before) || alt != nil && string(got) == string(alt) {
			have[p] = append([]byte(nil), got...)
			ever[p] = append(ever[p], string(got))
			return
		}
		c.Fail("cache poisoned", "%s: %s holds %q; before it held %q, and %q was to be downloaded", when, p, got, before, alt)
	}
	calls := 1 + W.Draw(4)
	for k := 0; k < calls; k++ {
		srv.trial, srv.fired = 0, 0
		mode := W.Draw(6) // 0: no fault; 1-3: network; 4: disk; 5: crash
		before := simos.Fired()
		faulted := func() bool {
			a := simos.Fired()
			return srv.fired > 0 || a.ErrOpen+a.ErrRead+a.ErrWrite+a.ShortWrite+a.ErrClose+a.ErrSync+a.ErrRename+a.ErrMeta+a.LostWrite >
				before.ErrOpen+before.ErrRead+before.ErrWrite+before.ShortWrite+before.ErrClose+before.ErrSync+before.ErrRename+before.ErrMeta+before.LostWrite
		}
		switch mode {
		case 1, 2, 3:
			srv.trial = 1 + F.Draw(4)
		case 4:
			simos.Plan(drawFaults(2, 12, kinds...), 0, false)
		case 5:
			simos.Plan(drawFaults(1, 12, simos.CrashHere), 0, false)
		}
		kind := W.Draw(4)
		was, asked := simos.Files("/"), len(simNet.requests)
		// clean: nothing but the cache files themselves comes into being.
		clean := func(when string, ok ...string) {
			if x := strays(was, before, ok...); len(x) > 0 {
				c.Fail("stray file", "%s left %v behind", when, x)
			}
		}
		// cached: what is in the cache is not asked for.
		cached := func(when string, old []byte, url string) {
			for _, u := range simNet.requests[asked:] {
				if old != nil && u == url {
					c.Fail("needless download", "%s asked for %s, which it had", when, url)
				}
			}
		}
		switch kind {
		case 0, 1: // a direct download
			dir, url := "/work/cache", "https://example.org/d/set.data"
			simos.MkAll(dir)
			dst, file := dir, dir+"/set.data"
			if W.Chance(1, 2) {
				dst, file = dir+"/other.data", dir+"/other.data"
			}
			if srv.tab[url] == nil || W.Chance(1, 2) {
				publish(url)
			}
			over := W.Chance(1, 3)
			body := append([]byte(nil), srv.body[url]...)
			old := have[file]
			n := 1
			if mode != 5 && W.Chance(1, 3) {
				n = 2
			}
			errs := make([]error, n)
			done, pan := process(func() {
				clients(n, func(i int) { errs[i] = io.DownloadFromURL(url, dst, over) })
			})
			when := fmt.Sprintf("call %d (download to %s, override %v, %d at once, errors %v)", k, dst, over, n, errs)
			c.Note("%s returned %v", when, done)
			if pan != nil {
				c.Fail("panic", "%s: %v", when, pan)
			}
			alt := body
			if old != nil && !over {
				alt = nil // nothing may be downloaded
			}
			check(file, when, old, alt)
			clean(when, file)
			if !over {
				cached(when, old, url)
			}
			if !simos.Frozen() {
				for i, e := range errs {
					if e != nil && !faulted() {
						c.Fail("download failed", "%s: download %d failed with no fault about: %v", when, i, e)
					}
					if e == nil && string(have[file]) != string(body) && !(old != nil && !over) {
						c.Fail("download incomplete", "%s: download %d reported success but %s holds %q instead of %q", when, i, file, have[file], body)
					}
				}
				if n := simos.OpenFiles(); n != 0 {
					c.Fail("file left open", "%s: %d files still open", when, n)
				}
				if simNet.bodies != simNet.closed {
					c.Fail("connection left open", "%s: %d response bodies never closed", when, simNet.bodies-simNet.closed)
				}
			}
		case 2: // a dataset
			d := dsets[W.Draw(len(dsets))]
			url := upstream + d.url + "/compiled/all.data"
			if srv.tab[url] == nil {
				publish(url)
			}
			file := "/work/.cache/data/" + d.path + ".data"
			old := have[file]
			var sc map[int]*learn.Variable
			var rows []map[int]int
			done, pan := process(func() { sc, rows = d.f() })
			when := fmt.Sprintf("call %d (dataset %s)", k, d.name)
			c.Note("%s returned %v, panic %v, %d rows", when, done, pan, len(rows))
			check(file, when, old, srv.body[url])
			clean(when, file)
			cached(when, old, url)
			if !simos.Frozen() {
				if pan != nil && (!faulted() || srv.trial > 0) {
					c.Fail("panic", "%s: %v", when, pan)
				}
				if done && (sc != nil || rows != nil) {
					if w := srv.tab[url].same(sc, rows, len(srv.tab[url].cards)); w != "" {
						c.Fail("wrong dataset", "%s: %s", when, w)
					}
				} else if !faulted() {
					c.Fail("download failed", "%s: no dataset, with no fault about", when)
				}
			}
		case 3: // a pair of datasets
			d := mnists[W.Draw(len(mnists))]
			ta, ra := fmt.Sprintf("test_%d_%d.data", d.b, d.n), fmt.Sprintf("train_%d_%d.data", d.b, d.n)
			ut, ur := upstream+"mnist/compiled/"+ta, upstream+"mnist/compiled/"+ra
			ft, fr := "/work/.cache/data/mnist_"+ta, "/work/.cache/data/mnist_"+ra
			if srv.tab[ut] == nil {
				publish(ut)
				publish(ur)
			}
			ot, or := have[ft], have[fr]
			var sc map[int]*learn.Variable
			var d1, d2 []map[int]int
			done, pan := process(func() { sc, d1, d2 = d.f() })
			when := fmt.Sprintf("call %d (datasets %s)", k, d.name)
			c.Note("%s returned %v, panic %v, %d and %d rows", when, done, pan, len(d1), len(d2))
			check(ft, when, ot, srv.body[ut])
			check(fr, when, or, srv.body[ur])
			clean(when, ft, fr)
			cached(when, ot, ut)
			cached(when, or, ur)
			if !simos.Frozen() {
				if pan != nil && (!faulted() || srv.trial > 0) {
					c.Fail("panic", "%s: %v", when, pan)
				}
				if done && (sc != nil || d1 != nil || d2 != nil) {
					if w := srv.tab[ut].same(sc, d1, len(srv.tab[ut].cards)); w != "" {
						c.Fail("wrong dataset", "%s: test set: %s", when, w)
					}
					if w := srv.tab[ur].sameRows(d2, len(srv.tab[ur].cards)); w != "" {
						c.Fail("wrong dataset", "%s: training set: %s", when, w)
					}
				} else if !faulted() {
					c.Fail("download failed", "%s: no dataset, with no fault about", when)
				}
			}
		}
		if simos.Frozen() {
			c.Cover("crashes during a download")
			if W.Chance(1, 2) {
				simos.PowerLoss()
				// A replacement may be undone and a new file gone, but nothing is half there.
				for f := range have {
					got, ok := simos.Get(f)
					if !ok {
						delete(have, f)
						continue
					}
					whole := false
					for _, e := range ever[f] {
						whole = whole || e == string(got)
					}
					if !whole {
						c.Fail("cache poisoned", "after a power loss %s holds %q, which was never served", f, got)
					}
					have[f] = append([]byte(nil), got...)
				}
			}
			simos.Restart()
		}
		c.CoverN("fault: network", srv.fired)
		simos.Plan(nil, 0, false)
	}
	c.faultCounts()
	c.Nontrivial = true
}
