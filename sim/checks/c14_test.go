package zzverif

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"verif.local/simrt/simos"
)

// C14: an npy reader hands out the array's rows in order, each once per pass, or an error; never
// rows that are not in the file.
func init() {
	register(&Check{ID: "C14", Span: 1500, Cap: 8000000, Run: runC14})
}

type npyFile struct {
	dtype string
	size  int
	sign  bool
	rows  [][]int
	cols  int
	head  int // header length
	bytes []byte
	many  int    // classes, if more than a few
	bad   string // why a reader must refuse it
}

func genNpy() *npyFile {
	f := &npyFile{}
	f.size = []int{1, 2, 4, 8}[W.Draw(4)]
	f.sign = W.Chance(1, 2)
	k := "u"
	if f.sign {
		k = "i"
	}
	big := f.size > 1 && W.Chance(1, 4)
	ord := "<"
	if f.size == 1 {
		ord = "|"
	}
	if big {
		ord = ">"
	}
	f.dtype = ord + k + fmt.Sprint(f.size)
	if !big {
		switch W.Draw(8) { // other names of the same type
		case 1:
			f.dtype = k + fmt.Sprint(f.size)
		case 2:
			f.dtype = "|" + k + fmt.Sprint(f.size)
		case 3:
			f.dtype = map[string]string{"u": "uint", "i": "int"}[k] + fmt.Sprint(8*f.size)
		case 4:
			f.dtype = "<" + k + fmt.Sprint(f.size)
		}
	}
	n := W.Draw(8)
	f.cols = 2 + W.Draw(3)
	classes := 1 + W.Draw(3)
	if W.Chance(1, 20) {
		classes, n = 4+W.Draw(9), n*4
		f.many = classes
	}
	large := false
	switch W.Draw(24) {
	case 1: // large, often with a number of elements or bytes that is a power of two
		large = true
		n, f.cols = 1<<uint(W.Draw(7)), 1<<uint(W.Draw(4))
		if W.Chance(1, 3) {
			n += W.Draw(5)
		}
	case 2:
		f.cols = 1 // labels only
	}
	for i := 0; i < n; i++ {
		r := make([]int, f.cols)
		for j := range r {
			r[j] = W.Draw(100)
			if f.size > 1 && W.Chance(1, 4) {
				r[j] = 128 + W.Draw(20000)
			}
			if f.sign && W.Chance(1, 6) {
				r[j] = -1 - W.Draw(100)
			}
			if !large && W.Chance(1, 16) {
				r[j] = f.extreme()
			}
		}
		r[f.cols-1] = W.Draw(classes)
		if W.Chance(1, 30) {
			r[f.cols-1] = 90
			if f.sign {
				r[f.cols-1] = -2
			}
			if W.Chance(1, 2) {
				r[f.cols-1] = f.extreme()
			}
		}
		f.rows = append(f.rows, r)
	}
	shape, fort := fmt.Sprintf("(%d, %d)", n, f.cols), "False"
	switch W.Draw(24) {
	case 1:
		shape, f.bad = fmt.Sprintf("(%d,)", n*f.cols), "one dimension"
	case 2:
		shape, f.bad = fmt.Sprintf("(%d, %d, 1)", n, f.cols), "three dimensions"
	case 3:
		f.dtype, f.bad = ord+"f"+fmt.Sprint(f.size), "not integers"
	case 4:
		fort, f.bad = "True", "columns first"
	}
	h := fmt.Sprintf("{'descr': '%s', 'fortran_order': %s, 'shape': %s, }", f.dtype, fort, shape)
	for (10+len(h)+1)%16 != 0 {
		h += " "
	}
	h += "\n"
	var b strings.Builder
	b.WriteString("\x93NUMPY\x01\x00")
	b.Write([]byte{byte(len(h)), byte(len(h) >> 8)})
	b.WriteString(h)
	f.head = b.Len()
	out := []byte(b.String())
	for _, r := range f.rows {
		for _, x := range r {
			var w [8]byte
			if big {
				binary.BigEndian.PutUint64(w[:], uint64(int64(x)))
				out = append(out, w[8-f.size:]...)
			} else {
				binary.LittleEndian.PutUint64(w[:], uint64(int64(x)))
				out = append(out, w[:f.size]...)
			}
		}
	}
	f.bytes = out
	return f
}

// extreme draws a value at the edge of what the type (or an int) can hold.
func (f *npyFile) extreme() int {
	bits := uint(8 * f.size)
	max := 1<<(bits-1) - 1
	if !f.sign && bits < 64 {
		max = 1<<bits - 1
	}
	switch k := W.Draw(4); {
	case k == 1 && f.sign:
		return -max - 1
	case k == 2 && f.size > 1:
		return 1 << (bits/2 - 1 + uint(W.Draw(2)))
	case k == 3 && f.size > 1:
		return 1<<(bits/2) + W.Draw(3)
	}
	return max
}

// block says how rows differ from those listed by idx ("" if they do not).
func (f *npyFile) block(d []map[int]int, l []int, idx []int) string {
	if len(d) != len(idx) || len(l) != len(idx) {
		return fmt.Sprintf("%d instances and %d labels instead of %d", len(d), len(l), len(idx))
	}
	for i, k := range idx {
		r := f.rows[k]
		for j := 0; j < f.cols-1; j++ {
			if x, ok := d[i][j]; !ok || x != r[j] || len(d[i]) != f.cols-1 {
				return fmt.Sprintf("instance %d is %v instead of %v", i, d[i], r)
			}
		}
		if l[i] != r[f.cols-1] {
			return fmt.Sprintf("label %d is %d instead of %d", i, l[i], r[f.cols-1])
		}
	}
	return ""
}

func runC14(c *Ctx) {
	nf := 1 + W.Draw(2)
	files := make([]*npyFile, nf)
	avail := make([]int, nf)
	cutHead := make([]bool, nf)
	for i := range files {
		f := genNpy()
		b := f.bytes
		avail[i] = len(f.rows)
		switch F.Draw(5) {
		case 1:
			if len(b) > f.head {
				k := f.head + F.Draw(len(b)-f.head)
				b = b[:k]
				avail[i] = (k - f.head) / (f.size * f.cols)
				c.Cover("fault: file cut off")
			}
		case 2:
			if F.Chance(1, 3) {
				b = b[:F.Draw(f.head)]
				cutHead[i] = true
				c.Cover("fault: file cut off")
			}
		}
		simos.Put(fmt.Sprintf("a%d.npy", i), b)
		files[i] = f
	}
	nc := 1 + W.Draw(2)
	type op struct{ kind, n, c int }
	plan := make([][]op, nc)
	for i := range plan {
		for k := 1 + W.Draw(4); k > 0; k-- {
			o := op{W.Draw(6), W.Draw(6), 1 + W.Draw(3)}
			if n := len(files[i%nf].rows); n > 8 && W.Chance(3, 4) {
				o.n = n >> uint(W.Draw(3))
			}
			if k := files[i%nf].many; k > 0 && W.Chance(3, 4) {
				o.c, o.n = k-W.Draw(2), W.Draw(2*k)
			}
			plan[i] = append(plan[i], o)
		}
	}
	simos.Plan(drawFaults(1, 30, simos.EIO, simos.Partial), []int{0, 0, 400}[F.Draw(3)], false)
	fired := func() int {
		k := simos.Fired()
		return k.ErrOpen + k.ErrRead + k.ErrMeta
	}
	clients(nc, func(i int) {
		f, path := files[i%nf], fmt.Sprintf("a%d.npy", i%nf)
		have := avail[i%nf]
		at := fired()
		var r *io.NpyReader
		var err error
		p, _ := safely(func() { r, err = io.NewNpyReader(path) })
		c.Note("open %s (%s, %d of %d rows, cut header %v): %v %v", path, f.dtype, have, len(f.rows), cutHead[i%nf], err, p)
		if p != nil {
			if !cutHead[i%nf] && fired() == at {
				c.Fail("panic", "opening %s panics: %v", path, p)
			}
			return
		}
		if err != nil {
			if f.bad == "" && !cutHead[i%nf] && fired() == at {
				c.Fail("open failed", "opening a sound array (%s) failed with no fault about: %v", f.dtype, err)
			}
			return
		}
		if f.bad != "" || cutHead[i%nf] {
			c.Fail("bad file accepted", "a file that is not a dataset (%s, cut header %v) was accepted", f.bad, cutHead[i%nf])
		}
		pos := 0 // -1: unknown, after an error
		for _, o := range plan[i] {
			at := fired()
			var d []map[int]int
			var l []int
			what := ""
			var idx []int // rows expected; ok: whether they can be had
			ok := true
			var read func()
			next := pos
			seq := func(n int) {
				for k := 0; k < n; k++ {
					idx = append(idx, next)
					next++
				}
				ok = next <= have && n <= len(f.rows)
			}
			if pos < 0 {
				next = 0
			}
			switch o.kind {
			case 0, 1:
				what = fmt.Sprintf("read of %d", o.n)
				seq(o.n)
				read = func() { d, l, err = r.Read(o.n) }
			case 2:
				what = "read of all"
				seq(len(f.rows))
				read = func() { d, l, err = r.ReadAll() }
			case 3, 4:
				what = fmt.Sprintf("balanced read of %d of %d classes", o.n, o.c)
				quota := make([]int, o.c)
				for k := 0; k < o.n; k++ {
					quota[k%o.c]++
				}
				for len(idx) < o.n && ok {
					if next >= have {
						ok = false
						break
					}
					y := f.rows[next][f.cols-1]
					if y < 0 || y >= o.c {
						ok = false
						break
					}
					if quota[y] > 0 {
						quota[y]--
						idx = append(idx, next)
					}
					next++
				}
				read = func() { d, l, err = r.ReadBalanced(o.n, o.c) }
			case 5:
				what = "reset"
				pan, _ := safely(func() { err = r.Reset() })
				if pan != nil {
					if fired() == at {
						c.Fail("panic", "reset of %s panics with no fault about: %v", path, pan)
					}
					c.Cover("loud failures")
					r.Close()
					return // the reader is of no more use
				}
				if err == nil {
					pos = 0
				} else {
					pos = -1
					if fired() == at {
						c.Fail("reset failed", "reset failed with no fault about: %v", err)
					}
				}
				c.Note("reset: %v", err)
				continue
			}
			if pan, _ := safely(read); pan != nil {
				if fired() == at && pos >= 0 { // after a failed reset there is nothing to read from
					c.Fail("panic", "%s at row %d of %d panics with no fault about: %v", what, pos, len(f.rows), pan)
				}
				c.Cover("loud failures")
				r.Close()
				return
			}
			c.Note("%s at row %d: %v %v %v", what, pos, d, l, err)
			if err == nil && pos >= 0 {
				if !ok {
					c.Fail("rows made up", "%s at row %d of %d (file cut to %d) succeeded: %v %v; the file has %v", what, pos, len(f.rows), have, d, l, f.rows)
				}
				if w := f.block(d, l, idx); w != "" {
					c.Fail("wrong rows", "%s at row %d of %s data: %s; the file has %v", what, pos, f.dtype, w, f.rows)
				}
				pos = next
				c.Cover("reads that succeeded")
			} else if err == nil {
				// After an error the position is not known, but what comes must be in the file.
				for k := range d {
					found := false
					for m := range f.rows {
						found = found || f.block(d[k:k+1], l[k:k+1], []int{m}) == ""
					}
					if !found {
						c.Fail("wrong rows", "%s after an error gave an instance that is not in the file: %v %v", what, d[k], l[k])
					}
				}
			} else {
				if pos >= 0 && ok && fired() == at {
					c.Fail("read failed", "%s at row %d of %d failed with no fault about: %v", what, pos, len(f.rows), err)
				}
				pos = -1
				c.Cover("reads that failed")
			}
		}
		r.Close()
	})
	if n := simos.OpenFiles(); n != 0 {
		panicked := false
		for i := range cutHead {
			panicked = panicked || cutHead[i]
		}
		if !panicked && fired() == 0 {
			c.Fail("file left open", "%d files still open", n)
		}
	}
	c.faultCounts()
	c.Nontrivial = true
}
