// Package instrument rewrites a copy of the code under test so that the simulator decides every
// interleaving and fault. The rewriting is purely syntactic and meaning-preserving:
//
//   - before every statement a yield, where the scheduler may switch goroutines;
//   - read-modify-write statements on memory that may be shared are split around a yield;
//   - go statements start simulated goroutines;
//   - sends, receives, selects, closes and ranges over channels, and sleeps, go through the scheduler;
//   - ranges over maps with ordered keys iterate in an order the run's seed decides;
//   - sync, os, io/ioutil, math/rand and machine-dependent runtime functions are redirected to
//     shims where the shim has the name, and left alone where it does not.
package instrument

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Shims maps an import path to the shim package that stands in for it.
var Shims = map[string]string{
	"sync":          "verif.local/simrt/simsync",
	"os":            "verif.local/simrt/simos",
	"io/ioutil":     "verif.local/simrt/simioutil",
	"math/rand":     "verif.local/simrt/simrand",
	"runtime":       "verif.local/simrt/simruntime",
	"path/filepath": "verif.local/simrt/simfilepath",
	"fmt":           "verif.local/simrt/simfmt",
}

// Options selects how much is rewritten; used to fall back when a rewritten tree does not build.
type Options struct {
	Yields bool
	RMW    bool
	Maps   bool
	Chans  bool
}

type edit struct {
	a, b int
	s    string
	seq  int
}

type file struct {
	fset     *token.FileSet
	src      []byte
	f        *ast.File
	info     *types.Info
	leaf     []edit
	edits    []edit
	exports  map[string]map[string]bool
	opt      Options
	n        int
	native   bool
	sels     map[*ast.SelectStmt]bool
	perIter  bool
	captured map[*types.Var]bool
	tail     strings.Builder // declarations appended to the file
}

// ShimExports reads the exported names of the shim packages below dir (the simrt module).
func ShimExports(dir string) (map[string]map[string]bool, error) {
	out := map[string]map[string]bool{}
	for imp, shim := range Shims {
		d := filepath.Join(dir, strings.TrimPrefix(shim, "verif.local/simrt/"))
		fs, err := filepath.Glob(filepath.Join(d, "*.go"))
		if err != nil {
			return nil, err
		}
		m := map[string]bool{}
		for _, p := range fs {
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil, err
			}
			for _, decl := range f.Decls {
				switch d := decl.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if s.Name.IsExported() {
								m[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if n.IsExported() {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		out[imp] = m
	}
	// Harness-only names must never capture a selector of the real package.
	for _, n := range []string{"Reset", "Plan", "Restrict", "Ops", "Fired", "OpenFiles", "Frozen", "Trace",
		"PowerLoss", "Restart", "Put", "MkAll", "Get", "Del", "Files", "Fault", "Counts", "None", "EIO",
		"Partial", "CrashHere", "CloseErr", "Capture", "Captured"} {
		delete(out["os"], n)
	}
	delete(out["math/rand"], "Mode")
	delete(out["runtime"], "CPUs")
	return out, nil
}

func (x *file) off(p token.Pos) int { return x.fset.Position(p).Offset }

func (x *file) ins(p token.Pos, s string) { o := x.off(p); x.rep(o, o, s) }
func (x *file) rep(a, b int, s string) {
	x.n++
	x.edits = append(x.edits, edit{a, b, s, x.n})
}

// text is the source between two positions with leaf edits applied.
func (x *file) text(a, b int) string {
	var es []edit
	for _, e := range x.leaf {
		if e.a >= a && e.b <= b {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].a != es[j].a {
			return es[i].a < es[j].a
		}
		return es[i].b < es[j].b
	})
	var o strings.Builder
	p := a
	for _, e := range es {
		o.Write(x.src[p:e.a])
		o.WriteString(e.s)
		p = e.b
	}
	o.Write(x.src[p:b])
	return o.String()
}

func (x *file) node(n ast.Node) string { return x.text(x.off(n.Pos()), x.off(n.End())) }

// cover marks leaf edits inside [a,b) as consumed.
func (x *file) cover(a, b int) {
	var keep []edit
	for _, e := range x.leaf {
		if !(e.a >= a && e.b <= b) {
			keep = append(keep, e)
		}
	}
	x.leaf = keep
}

func importName(s *ast.ImportSpec) (path, name string) {
	path, _ = strconv.Unquote(s.Path.Value)
	if s.Name != nil {
		return path, s.Name.Name
	}
	i := strings.LastIndex(path, "/")
	return path, path[i+1:]
}

const rt = "simrt__"

// shims rewrites selectors on shimmed packages.
func (x *file) shims() []string {
	var extra []string
	type imp struct {
		spec  *ast.ImportSpec
		path  string
		alias string
		left  int
		used  int
	}
	byName := map[string]*imp{}
	for _, s := range x.f.Imports {
		p, n := importName(s)
		if x.exports[p] != nil && n != "_" && n != "." {
			byName[n] = &imp{spec: s, path: p, alias: "sim_" + strings.ReplaceAll(p, "/", "_") + "_"}
		}
	}
	if len(byName) == 0 {
		return nil
	}
	ast.Inspect(x.f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		im := byName[id.Name]
		if im == nil {
			return true
		}
		if x.info != nil {
			if o, ok := x.info.Uses[id]; ok {
				if _, isPkg := o.(*types.PkgName); !isPkg {
					return true
				}
			}
		} else if id.Obj != nil {
			return true
		}
		if x.exports[im.path][se.Sel.Name] {
			x.leaf = append(x.leaf, edit{x.off(id.Pos()), x.off(id.End()), im.alias, 0})
			im.used++
		} else {
			im.left++
		}
		return true
	})
	var names []string
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		im := byName[n]
		if im.used > 0 {
			extra = append(extra, fmt.Sprintf("import %s %q", im.alias, Shims[im.path]))
			if im.left == 0 {
				if im.spec.Name != nil {
					x.rep(x.off(im.spec.Name.Pos()), x.off(im.spec.Name.End()), "_")
				} else {
					x.ins(im.spec.Path.Pos(), "_ ")
				}
			}
		}
	}
	return extra
}

// simple reports that an expression has no calls and no function literals: evaluating it twice is
// harmless.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.IndexExpr:
		return simple(e.X) && simple(e.Index)
	case *ast.StarExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	case *ast.BinaryExpr:
		return simple(e.X) && simple(e.Y)
	}
	return false
}

func hasFuncLit(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			f = true
		}
		return !f
	})
	return f
}

// shared reports that an lvalue may be visible to another goroutine.
func (x *file) shared(e ast.Expr, fn ast.Node) bool {
	switch e := e.(type) {
	case *ast.Ident:
		if x.info == nil || e.Name == "_" {
			return false
		}
		o := x.info.Uses[e]
		v, ok := o.(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
		// Captured: declared outside the innermost function literal.
		if lit, ok := fn.(*ast.FuncLit); ok {
			return v.Pos() < lit.Pos() || v.Pos() > lit.End()
		}
		return x.captured[v]
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return x.shared(e.X, fn)
	}
	return false
}

// findCaptured notes variables that some function literal uses but does not declare.
func (x *file) findCaptured() {
	x.captured = map[*types.Var]bool{}
	if x.info == nil {
		return
	}
	var lits []*ast.FuncLit
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				lits = append(lits, m)
				walk(m.Body)
				lits = lits[:len(lits)-1]
				return false
			case *ast.Ident:
				if v, ok := x.info.Uses[m].(*types.Var); ok && !v.IsField() {
					for _, l := range lits {
						if v.Pos() < l.Pos() || v.Pos() > l.End() {
							x.captured[v] = true
						}
					}
				}
			}
			return true
		})
	}
	walk(x.f)
}

func (x *file) typeOf(e ast.Expr) types.Type {
	if x.info == nil {
		return nil
	}
	return x.info.TypeOf(e)
}

// rmw splits a read-modify-write statement around a yield.
func (x *file) rmw(s ast.Stmt, fn ast.Node) bool {
	a, b := x.off(s.Pos()), x.off(s.End())
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !simple(s.X) || !x.shared(s.X, fn) {
			return false
		}
		l := x.node(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		t := fmt.Sprintf("{ sim_t%d := %s; %s.Yield(); %s = sim_t%d %s 1 }", x.n, l, rt, l, x.n, op)
		x.cover(a, b)
		x.rep(a, b, t)
		return true
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !simple(s.Lhs[0]) || !x.shared(s.Lhs[0], fn) || hasFuncLit(s) {
			return false
		}
		l, r := x.node(s.Lhs[0]), x.node(s.Rhs[0])
		if s.Tok == token.ASSIGN {
			if !strings.Contains(r, l) || x.info == nil {
				return false
			}
			lt, rt0 := x.typeOf(s.Lhs[0]), x.typeOf(s.Rhs[0])
			if lt == nil || rt0 == nil || !types.Identical(lt, rt0) {
				return false
			}
			t := fmt.Sprintf("{ sim_t%d := %s; %s.Yield(); %s = sim_t%d }", x.n, r, rt, l, x.n)
			x.cover(a, b)
			x.rep(a, b, t)
			return true
		}
		if s.Tok == token.DEFINE {
			return false
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		t := fmt.Sprintf("{ sim_t%d := %s; %s.Yield(); %s = sim_t%d %s (%s) }", x.n, l, rt, l, x.n, op, r)
		x.cover(a, b)
		x.rep(a, b, t)
		return true
	}
	return false
}

// gostmt turns go f(a, b) into a simulated goroutine; f, a and b are evaluated now, as in the original.
func (x *file) gostmt(s *ast.GoStmt) {
	c := s.Call
	n := x.n
	if id, ok := c.Fun.(*ast.Ident); ok && x.info != nil {
		if _, isB := x.info.Uses[id].(*types.Builtin); isB {
			x.rep(x.off(s.Go), x.off(c.Pos()), rt+".Go(func() { ")
			x.rep(x.off(c.End()), x.off(c.End()), " })")
			return
		}
	}
	var pre, args []string
	for i, a := range c.Args {
		t := x.node(a)
		konst := false
		if x.info != nil {
			if tv, ok := x.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
				konst = true
			}
		} else if _, ok := a.(*ast.BasicLit); ok {
			konst = true
		}
		if konst {
			args = append(args, t)
			continue
		}
		v := fmt.Sprintf("sim_a%d_%d", n, i)
		pre = append(pre, fmt.Sprintf("%s := %s; ", v, t))
		args = append(args, v)
	}
	call := strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	x.cover(x.off(c.Fun.End()), x.off(c.End()))
	x.rep(x.off(s.Go), x.off(c.Fun.Pos()), fmt.Sprintf("{ sim_f%d := ", n))
	x.rep(x.off(c.Fun.End()), x.off(c.End()), fmt.Sprintf("; %s%s.Go(func() { sim_f%d(%s) }) }", strings.Join(pre, ""), rt, n, call))
}

func ordered(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsOrdered != 0
}

// maprange rewrites a range over a map; label is the loop's label, if any.
func (x *file) maprange(s *ast.RangeStmt, label *ast.LabeledStmt) {
	if x.info == nil || hasFuncLit(s.X) {
		return
	}
	t := x.typeOf(s.X)
	if t == nil {
		return
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || !ordered(m.Key()) {
		return
	}
	n := x.n
	k, v := "_", "_"
	if s.Key != nil {
		if !simple(s.Key) {
			return
		}
		k = x.node(s.Key)
	}
	if s.Value != nil {
		if !simple(s.Value) {
			return
		}
		v = x.node(s.Value)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "{ sim_m%d := %s; ", n, x.node(s.X))
	def := s.Tok == token.DEFINE && (k != "_" || v != "_")
	if def && !x.perIter {
		fmt.Fprintf(&b, "%s, %s := %s.ZeroKV(sim_m%d); ", k, v, rt, n)
		for _, q := range []string{k, v} {
			if q != "_" {
				fmt.Fprintf(&b, "_ = %s; ", q)
			}
		}
	}
	start := x.off(s.Pos())
	if label != nil {
		start = x.off(label.Pos())
		fmt.Fprintf(&b, "%s: ", label.Label.Name)
	}
	fmt.Fprintf(&b, "for _, sim_k%d := range %s.Keys(sim_m%d) { sim_v%d, sim_ok%d := sim_m%d[sim_k%d]; if !sim_ok%d { continue }; _ = sim_v%d; ",
		n, rt, n, n, n, n, n, n, n)
	if k != "_" || v != "_" {
		op := "="
		if def && x.perIter {
			op = ":="
		}
		fmt.Fprintf(&b, "%s, %s %s sim_k%d, sim_v%d; ", k, v, op, n, n)
	}
	end := x.off(s.Body.Lbrace) + 1
	x.cover(start, end)
	x.rep(start, end, b.String())
	x.rep(x.off(s.Body.Rbrace)+1, x.off(s.Body.Rbrace)+1, " }")
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// commRecv is the receive of a select's case.
func commRecv(s ast.Stmt) *ast.UnaryExpr {
	switch s := s.(type) {
	case *ast.ExprStmt:
		return arrow(s.X)
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 {
			return arrow(s.Rhs[0])
		}
	}
	return nil
}

// chans puts sends, receives, closes and sleeps in the scheduler's hands; selects and ranges follow in
// walk.
func (x *file) chans() {
	x.sels = map[*ast.SelectStmt]bool{}
	if !x.opt.Chans {
		return
	}
	skip := map[ast.Node]bool{}
	two := map[*ast.UnaryExpr]bool{}
	leaf := func(a, b token.Pos, t string) {
		x.leaf = append(x.leaf, edit{x.off(a), x.off(b), t, 0})
	}
	sleeps, timeName := false, ""
	ast.Inspect(x.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectStmt:
			ok := true
			for _, c := range n.Body.List {
				cm := c.(*ast.CommClause).Comm
				if cm == nil {
					continue
				}
				if hasFuncLit(cm) {
					ok = false
				}
				switch cm := cm.(type) {
				case *ast.SendStmt:
					skip[cm] = true
				default:
					if u := commRecv(cm); u != nil {
						skip[u] = true
					} else {
						ok = false
					}
				}
			}
			x.sels[n] = ok
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := arrow(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.SendStmt:
			if !skip[n] {
				leaf(n.Chan.Pos(), n.Chan.Pos(), rt+".Send(")
				leaf(n.Chan.End(), n.Value.Pos(), ")(")
				leaf(n.Value.End(), n.Value.End(), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skip[n] {
				f := ".Recv("
				if two[n] {
					f = ".Recv2("
				}
				leaf(n.Pos(), n.X.Pos(), rt+f)
				leaf(n.X.End(), n.X.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if x.info != nil {
					if _, isB := x.info.Uses[id].(*types.Builtin); !isB {
						return true
					}
				} else if id.Obj != nil {
					return true
				}
				leaf(id.Pos(), id.End(), rt+".Close")
			}
			if se, ok := n.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Sleep" && x.info != nil {
				if id, ok := se.X.(*ast.Ident); ok {
					if pn, ok := x.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "time" {
						leaf(se.Pos(), se.End(), rt+".Sleep")
						sleeps, timeName = true, id.Name
					}
				}
			}
		}
		return true
	})
	if sleeps {
		fmt.Fprintf(&x.tail, "\nvar _ %s.Duration\n", timeName)
	}
}

// selectstmt rewrites a select; label is its label, if any.
func (x *file) selectstmt(s *ast.SelectStmt, label *ast.LabeledStmt) {
	if !x.sels[s] {
		return
	}
	n := x.n
	start := x.off(s.Pos())
	lab := ""
	if label != nil {
		start = x.off(label.Pos())
		lab = label.Label.Name + ": "
	}
	end := x.off(s.Body.Lbrace) + 1
	if len(s.Body.List) == 0 {
		x.cover(start, end)
		x.rep(start, end, fmt.Sprintf("%s%s.Select(false); select {", lab, rt))
		return
	}
	var pre, args []string
	hasDef, k := false, 0
	last := len(s.Body.List) - 1
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	type head struct {
		a, b int
		t    string
	}
	var heads []head
	for i, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		a, b := x.off(cc.Pos()), x.off(cc.Colon)+1
		if cc.Comm == nil {
			continue
		}
		v := fmt.Sprintf("sim_s%d_%d", n, k)
		t := fmt.Sprintf("case %d: ", k)
		if !hasDef && i == last {
			t = "default: "
		}
		if sd, ok := cc.Comm.(*ast.SendStmt); ok {
			pre = append(pre, fmt.Sprintf("%s := %s.T(%s)(%s); ", v, rt, x.node(sd.Chan), x.node(sd.Value)))
			args = append(args, v)
		} else {
			u := commRecv(cc.Comm)
			pre = append(pre, fmt.Sprintf("%s := %s.R(%s); ", v, rt, x.node(u.X)))
			args = append(args, v+".C()")
			if as, ok := cc.Comm.(*ast.AssignStmt); ok {
				l, r := x.node(as.Lhs[0]), v+".V"
				if len(as.Lhs) == 2 {
					l, r = l+", "+x.node(as.Lhs[1]), r+", "+v+".OK"
				}
				t += fmt.Sprintf("%s %s %s; ", l, as.Tok, r)
			}
		}
		k++
		heads = append(heads, head{a, b, t})
	}
	for _, h := range heads {
		x.cover(h.a, h.b)
		x.rep(h.a, h.b, h.t)
	}
	x.rep(start, end, fmt.Sprintf("{ %s%sswitch %s.Select(%v, %s) {", strings.Join(pre, ""), lab, rt, hasDef, strings.Join(args, ", ")))
	x.rep(x.off(s.Body.Rbrace)+1, x.off(s.Body.Rbrace)+1, " }")
}

// chanrange rewrites a range over a channel; label is the loop's label, if any.
func (x *file) chanrange(s *ast.RangeStmt, label *ast.LabeledStmt) bool {
	t := x.typeOf(s.X)
	if t == nil || !x.opt.Chans || hasFuncLit(s.X) {
		return false
	}
	if _, ok := t.Underlying().(*types.Chan); !ok {
		return false
	}
	n := x.n
	v := "_"
	if s.Key != nil {
		if !simple(s.Key) {
			return false
		}
		v = x.node(s.Key)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "{ sim_c%d := %s; ", n, x.node(s.X))
	def := s.Tok == token.DEFINE && v != "_"
	if def && !x.perIter {
		fmt.Fprintf(&b, "%s := %s.ZeroC(sim_c%d); _ = %s; ", v, rt, n, v)
	}
	start := x.off(s.Pos())
	if label != nil {
		start = x.off(label.Pos())
		fmt.Fprintf(&b, "%s: ", label.Label.Name)
	}
	fmt.Fprintf(&b, "for { sim_v%d, sim_ok%d := %s.Recv2(sim_c%d); if !sim_ok%d { break }; _ = sim_v%d; ", n, n, rt, n, n, n)
	if v != "_" {
		op := "="
		if def && x.perIter {
			op = ":="
		}
		fmt.Fprintf(&b, "%s %s sim_v%d; ", v, op, n)
	}
	end := x.off(s.Body.Lbrace) + 1
	x.cover(start, end)
	x.rep(start, end, b.String())
	x.rep(x.off(s.Body.Rbrace)+1, x.off(s.Body.Rbrace)+1, " }")
	return true
}

func (x *file) hasChanOp(s ast.Stmt) bool {
	if x.opt.Chans {
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && id.Name == "time" && (se.Sel.Name == "Sleep") {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (x *file) list(l []ast.Stmt, fn ast.Node) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if x.opt.Yields {
			x.ins(s.Pos(), rt+".Yield(); ")
		}
		st := s
		var lab *ast.LabeledStmt
		if ls, ok := s.(*ast.LabeledStmt); ok {
			lab, st = ls, ls.Stmt
		}
		switch st := st.(type) {
		case *ast.GoStmt:
			x.gostmt(st)
		case *ast.SelectStmt:
			x.selectstmt(st, lab)
		case *ast.RangeStmt:
			if x.opt.Maps && !x.chanrange(st, lab) {
				x.maprange(st, lab)
			}
		case *ast.IncDecStmt, *ast.AssignStmt:
			if x.opt.RMW && lab == nil {
				if x.rmw(st, fn) {
					continue
				}
			}
		}
		switch st.(type) {
		case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.DeclStmt:
			if x.hasChanOp(st) {
				x.native = true
				x.ins(st.End(), "; "+rt+".Resync()")
			}
		case *ast.ReturnStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.ForStmt:
			if x.hasChanOp(st) {
				x.native = true
			}
		}
	}
}

func (x *file) walk(n ast.Node, fn ast.Node) {
	skip := map[*ast.BlockStmt]bool{}
	ours := map[ast.Stmt]bool{}
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncDecl:
			if m.Body != nil {
				x.walk(m.Body, m)
			}
			return false
		case *ast.FuncLit:
			x.walk(m.Body, m)
			return false
		case *ast.SwitchStmt:
			skip[m.Body] = true
		case *ast.TypeSwitchStmt:
			skip[m.Body] = true
		case *ast.SelectStmt:
			skip[m.Body] = true
			if x.sels[m] {
				for _, c := range m.Body.List {
					ours[c] = true
				}
			}
		case *ast.BlockStmt:
			if skip[m] {
				return true
			}
			if len(m.List) == 0 && x.opt.Yields {
				x.rep(x.off(m.Lbrace)+1, x.off(m.Lbrace)+1, " "+rt+".Yield(); ")
			}
			x.list(m.List, fn)
		case *ast.CaseClause:
			x.list(m.Body, fn)
		case *ast.CommClause:
			if !ours[m] {
				x.native = true
				x.rep(x.off(m.Colon)+1, x.off(m.Colon)+1, " "+rt+".Resync(); ")
			}
			x.list(m.Body, fn)
		case *ast.RangeStmt:
			if t := x.typeOf(m.X); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok && (!x.opt.Chans || !x.opt.Maps) {
					x.native = true
					x.rep(x.off(m.Body.Lbrace)+1, x.off(m.Body.Lbrace)+1, " "+rt+".Resync(); ")
				}
			}
		}
		return true
	})
}

func (x *file) render(extra []string) []byte {
	hdr := fmt.Sprintf("; import %s %q", rt, "verif.local/simrt")
	for _, e := range extra {
		hdr += "; " + e
	}
	x.rep(x.off(x.f.Name.End()), x.off(x.f.Name.End()), hdr)
	all := append([]edit(nil), x.edits...)
	for _, e := range x.leaf {
		x.n++
		e.seq = x.n
		all = append(all, e)
	}
	sort.SliceStable(all, func(i, j int) bool {
		if all[i].a != all[j].a {
			return all[i].a < all[j].a
		}
		// Insertions before replacements at the same place; otherwise in order of creation.
		zi, zj := all[i].a == all[i].b, all[j].a == all[j].b
		if zi != zj {
			return zi
		}
		return all[i].seq < all[j].seq
	})
	var o bytes.Buffer
	p := 0
	for _, e := range all {
		if e.a < p {
			// Inside a replaced region: dropped.
			continue
		}
		o.Write(x.src[p:e.a])
		o.WriteString(e.s)
		p = e.b
	}
	o.Write(x.src[p:])
	fmt.Fprintf(&o, "\nvar _ = %s.Yield\n", rt)
	o.WriteString(x.tail.String())
	return o.Bytes()
}

type listed struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir, GoVersion string }
	Error      *struct{ Err string }
}

// resets gives a package a function that puts its package-level variables back to their initial
// values and runs its init functions again, so that one run does not see what another left behind.
func resets(xs []*file, info *types.Info, path string) {
	in := func(p token.Pos) *file {
		for _, x := range xs {
			if p >= x.f.FileStart && p <= x.f.FileEnd {
				return x
			}
		}
		return nil
	}
	var calls []string
	n := 0
	initialised := map[*types.Var]bool{}
	for _, o := range info.InitOrder {
		for _, v := range o.Lhs {
			initialised[v] = true
		}
	}
	add := func(x *file, body string) {
		name := fmt.Sprintf("sim_reset_%d", n)
		n++
		fmt.Fprintf(&x.tail, "\nfunc %s() { %s }\n", name, body)
		calls = append(calls, name+"()")
	}
	for _, x := range xs {
		for _, d := range x.f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) != 0 || vs.Type == nil {
					continue
				}
				for _, id := range vs.Names {
					if id.Name != "_" {
						add(x, fmt.Sprintf("%s = *new(%s)", id.Name, x.node(vs.Type)))
					}
				}
			}
		}
	}
	for _, o := range info.InitOrder {
		x := in(o.Rhs.Pos())
		if x == nil {
			continue
		}
		var l []string
		blank := true
		for _, v := range o.Lhs {
			l = append(l, v.Name())
			blank = blank && v.Name() == "_"
		}
		t := x.node(o.Rhs)
		if blank || strings.Contains(t, "flag.") {
			continue
		}
		add(x, fmt.Sprintf("%s = %s", strings.Join(l, ", "), t))
	}
	for _, x := range xs {
		k := 0
		for _, d := range x.f.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Recv != nil || f.Name.Name != "init" || f.Body == nil {
				continue
			}
			name := fmt.Sprintf("sim_init_%d_%d", n, k)
			k++
			n++
			x.rep(x.off(f.Name.Pos()), x.off(f.Name.End()), name)
			fmt.Fprintf(&x.tail, "\nfunc init() { %s() }\n", name)
			calls = append(calls, name+"()")
		}
	}
	if len(calls) > 0 {
		fmt.Fprintf(&xs[0].tail, "\nfunc init() { %s.OnReset(func() { %s }) }\n", rt, strings.Join(calls, "; "))
	}
}

// Root is one source tree to rewrite: every package below Src is written below Dst.
type Root struct {
	Src, Dst string
	Lang     string // language version of the module: decides loop variable semantics
}

// Pkg is a package as go list sees it.
type Pkg = listed

// List runs go list in dir and returns every package with its export data.
func List(dir string, env []string) ([]Pkg, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module,Error", "./...")
	cmd.Dir = dir
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	var pkgs []Pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for dec.More() {
		var p listed
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

// Trees instruments every listed package that lies below one of the roots.
func Trees(pkgs []Pkg, roots []Root, shimDir string, opt Options) error {
	exports, err := ShimExports(shimDir)
	if err != nil {
		return err
	}
	exp := map[string]string{}
	for _, p := range pkgs {
		exp[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exp[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	native := map[string]bool{}
	for _, p := range pkgs {
		var root *Root
		for i := range roots {
			if p.Dir == roots[i].Src || strings.HasPrefix(p.Dir, roots[i].Src+"/") {
				root = &roots[i]
			}
		}
		if root == nil {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		for _, g := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, g))
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), b, 0)
			if err != nil {
				return fmt.Errorf("%s/%s: %v", p.ImportPath, g, err)
			}
			files = append(files, f)
			srcs = append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}, FakeImportC: true}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			// Partial type information is used where it exists.
			fmt.Fprintf(os.Stderr, "instrument: %s: type check: %v\n", p.ImportPath, err)
		}
		rel, _ := filepath.Rel(root.Src, p.Dir)
		od := filepath.Join(root.Dst, rel)
		if err := os.MkdirAll(od, 0777); err != nil {
			return err
		}
		isNative := false
		var xs []*file
		var extras [][]string
		for i, f := range files {
			x := &file{fset: fset, src: srcs[i], f: f, info: info, exports: exports, opt: opt}
			x.perIter = root.Lang != "" && langAtLeast(root.Lang, 22)
			x.findCaptured()
			extras = append(extras, x.shims())
			x.chans()
			xs = append(xs, x)
		}
		if p.Name != "main" {
			resets(xs, info, p.ImportPath)
		}
		for i, x := range xs {
			x.walk(x.f, nil)
			isNative = isNative || x.native
			if err := os.WriteFile(filepath.Join(od, p.GoFiles[i]), x.render(extras[i]), 0666); err != nil {
				return err
			}
		}
		if isNative && !native[od] {
			native[od] = true
			src := fmt.Sprintf("package %s\n\nimport \"verif.local/simrt\"\n\nfunc init() { simrt.Native = true }\n", files[0].Name.Name)
			if err := os.WriteFile(filepath.Join(od, "zz_sim_native.go"), []byte(src), 0666); err != nil {
				return err
			}
		}
	}
	return nil
}

func langAtLeast(v string, minor int) bool {
	parts := strings.Split(strings.TrimPrefix(v, "go"), ".")
	if len(parts) < 2 {
		return false
	}
	n, err := strconv.Atoi(parts[1])
	return err == nil && n >= minor
}
