// Command instr rewrites the packages of the library under test so that every
// source of scheduling nondeterminism goes through verif.local/sim/simrt. It
// reads the current tree, writes instrumented copies of the files elsewhere
// and an overlay for `go build -overlay`; the tree itself is not touched.
//
// What it rewrites (judged by types, not by names or shape):
//   - imports of sync and sync/atomic become the simulated ones;
//   - reads and writes of struct fields reached through pointers, slice
//     elements, maps, dereferences and package variables become preemption
//     points that also feed the happens-before race check;
//   - map iteration order becomes a seeded choice;
//   - loops count steps; go statements, channels, select, time and math/rand
//     top-level functions become simulated ones.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	DepOnly    bool
	Name       string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	out := flag.String("out", "", "output directory")
	pattern := flag.String("pkgs", "./cmd/simcheck", "package whose dependencies are looked at")
	sitesPath := flag.String("sites", "", "path the generated site table is overlaid to")
	modfile := flag.String("modfile", "", "go.mod to use")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Imports,Standard,DepOnly,Name,Module,Error", *pattern)
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var targets []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == "github.com/henderiw/idxtable" {
			targets = append(targets, p)
		}
	}
	if len(targets) == 0 {
		die("no packages match %s", *pattern)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	}
	overlay := map[string]string{}
	sites := []string{""}
	for _, p := range targets {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", lookup)
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs = append(srcs, src)
			names = append(names, g)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.23"}
		pkg, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		resets := map[*types.Var]string{}
		var zeros, inits []string
		for i, f := range files {
			r := &rewriter{idx: i, resets: resets, zeros: &zeros, inits: &inits, fset: fset, info: info, pkg: pkg, file: f, src: srcs[i], sites: &sites,
				rel: strings.TrimPrefix(p.ImportPath, "github.com/henderiw/idxtable/") + "/" + names[i]}
			text := r.run()
			dst := filepath.Join(*out, "src", p.ImportPath, names[i])
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, names[i])] = dst
		}
		// package state goes back to its initial value before every run
		var calls []string
		calls = append(calls, zeros...)
		for _, in := range info.InitOrder {
			if c := resets[in.Lhs[0]]; c != "" {
				calls = append(calls, c)
			}
		}
		calls = append(calls, inits...)
		if len(calls) > 0 {
			var roots []string
			for _, n := range pkg.Scope().Names() {
				if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok {
					roots = append(roots, "&"+v.Name())
				}
			}
			text := "package " + p.Name + "\n\nimport simrt \"verif.local/sim/simrt\"\n\nfunc init() { simrt.OnReset(simReset); simrt.OnRoots(" + strings.Join(roots, ", ") + ") }\n\nfunc simReset() {\n\t" + strings.Join(calls, "\n\t") + "\n}\n"
			dst := filepath.Join(*out, "src", p.ImportPath, "sim_reset_gen.go")
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, "sim_reset_gen.go")] = dst
		}
	}
	if *sitesPath != "" {
		var b bytes.Buffer
		b.WriteString("package simrt\n\nfunc init() {\n\tSites = []string{\n")
		for _, s := range sites {
			fmt.Fprintf(&b, "\t\t%q,\n", s)
		}
		b.WriteString("\t}\n}\n")
		dst := filepath.Join(*out, "sites_gen.go")
		if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
		overlay[*sitesPath] = dst
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Fprintf(os.Stderr, "instr: %d packages, %d files, %d sites\n", len(targets), len(overlay)-1, len(sites)-1)
}

type edit struct {
	pos, end int
	text     string
	kind     int // 0 suffix insert, 1 prefix insert, 2 replacement
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	src   []byte
	rel   string
	sites *[]string
	edits []edit
	seq   int
	tmp   int
	used  bool
	keep  map[string]bool // imported package names that must stay used
	selOf map[ast.Node]bool

	captured map[*types.Var]bool // locals that function literals share

	idx    int
	resets map[*types.Var]string
	zeros  *[]string
	inits  *[]string
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) site(n ast.Node) string {
	pos := r.fset.Position(n.Pos())
	*r.sites = append(*r.sites, fmt.Sprintf("%s:%d:%d", r.rel, pos.Line, pos.Column))
	r.used = true
	return strconv.Itoa(len(*r.sites) - 1)
}

func (r *rewriter) add(pos, end int, text string, kind int) {
	r.seq++
	r.edits = append(r.edits, edit{pos, end, text, kind, r.seq})
}

func (r *rewriter) before(n ast.Node, s string) { r.add(r.off(n.Pos()), r.off(n.Pos()), s, 1) }
func (r *rewriter) after(n ast.Node, s string)  { r.add(r.off(n.End()), r.off(n.End()), s, 0) }

// render applies the edits inside [a,b).
func (r *rewriter) render(a, b int) string {
	var es []edit
	for _, e := range r.edits {
		if e.pos >= a && e.end <= b {
			if e.pos == e.end && ((e.pos == a && e.kind == 0) || (e.pos == b && e.kind == 1)) {
				continue // belongs to a neighbour
			}
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// at one offset: suffixes of what ends here, prefixes, then replacements
		if es[i].kind != es[j].kind {
			return es[i].kind < es[j].kind
		}
		return es[i].seq < es[j].seq
	})
	var out strings.Builder
	at := a
	for _, e := range es {
		if e.pos < at {
			die("%s: overlapping edits at offset %d", r.rel, e.pos)
		}
		out.Write(r.src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(r.src[at:b])
	return out.String()
}

// collapse replaces [a,b) and every edit inside by text.
func (r *rewriter) collapse(a, b int, text string) {
	var keep []edit
	for _, e := range r.edits {
		if e.pos >= a && e.end <= b {
			if e.pos == e.end && ((e.pos == a && e.kind == 0) || (e.pos == b && e.kind == 1)) {
				keep = append(keep, e)
			}
			continue
		}
		keep = append(keep, e)
	}
	r.edits = keep
	r.add(a, b, text, 2)
}

func (r *rewriter) unsupported(n ast.Node, what string) {
	die("%s: unsupported construct: %s", r.fset.Position(n.Pos()), what)
}

func (r *rewriter) run() []byte {
	r.keep = map[string]bool{}
	r.selOf = map[ast.Node]bool{}
	r.findCaptured()
	r.replaceNames()
	tail := ""
	gen := 0
	fn := func(kind, body string) string {
		gen++
		name := fmt.Sprintf("sim%s%d_%d", kind, r.idx, gen)
		tail += "\nfunc " + name + "() { " + body + " }\n"
		return name + "()"
	}
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			r.block(d.Body.List)
			if d.Recv == nil && d.Name.Name == "init" {
				gen++
				name := fmt.Sprintf("simUserInit%d_%d", r.idx, gen)
				r.add(r.off(d.Name.Pos()), r.off(d.Name.End()), name, 2)
				tail += "\nfunc init() { " + name + "() }\n"
				*r.inits = append(*r.inits, name+"()")
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, v := range vs.Values {
					r.rd(v)
				}
				switch {
				case len(vs.Values) == 0:
					t := r.render(r.off(vs.Type.Pos()), r.off(vs.Type.End()))
					for _, n := range vs.Names {
						if n.Name != "_" {
							*r.zeros = append(*r.zeros, fn("Zero", "var z "+t+"; "+n.Name+" = z"))
						}
					}
				case len(vs.Values) == len(vs.Names):
					for i, n := range vs.Names {
						if v, ok := r.info.Defs[n].(*types.Var); ok && n.Name != "_" {
							r.resets[v] = fn("Init", n.Name+" = "+r.render(r.off(vs.Values[i].Pos()), r.off(vs.Values[i].End())))
						}
					}
				default:
					var l []string
					var first *types.Var
					named := false
					for i, n := range vs.Names {
						l = append(l, n.Name)
						named = named || n.Name != "_"
						if v, ok := r.info.Defs[n].(*types.Var); ok && i == 0 {
							first = v
						}
					}
					if named {
						r.resets[first] = fn("Init", strings.Join(l, ", ")+" = "+r.render(r.off(vs.Values[0].Pos()), r.off(vs.Values[0].End())))
					}
				}
			}
		}
	}
	// imports
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		repl := map[string][2]string{
			"sync":        {"sync", "verif.local/sim/simsync"},
			"sync/atomic": {"atomic", "verif.local/sim/simatomic"},
		}[path]
		if repl[0] == "" {
			continue
		}
		t := strconv.Quote(repl[1])
		if im.Name == nil {
			t = repl[0] + " " + t
		}
		r.add(r.off(im.Path.Pos()), r.off(im.Path.End()), t, 2)
	}
	body := r.render(0, len(r.src))
	if r.used {
		// insert the import right after the package clause, on its line
		at := r.off(r.file.Name.End())
		// edits never precede the package clause, so offsets there are unchanged
		body = body[:at] + `; import simrt "verif.local/sim/simrt"` + body[at:]
	}
	keys := make([]string, 0, len(r.keep))
	for k := range r.keep {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		body += "\n" + k + "\n"
	}
	body += tail
	return []byte(body)
}

// ---- statements

func (r *rewriter) block(list []ast.Stmt) {
	for _, s := range list {
		r.stmt(s, true)
	}
}

func (r *rewriter) optStmt(s ast.Stmt) {
	if s != nil {
		r.stmt(s, false)
	}
}

// stmt rewrites one statement; inList tells whether it may become a block.
func (r *rewriter) stmt(s ast.Stmt, inList bool) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		r.block(s.List)
	case *ast.ExprStmt:
		if u, ok := ast.Unparen(s.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.recv(u, false)
			return
		}
		r.rd(s.X)
	case *ast.SendStmt:
		site := r.site(s)
		r.before(s, "simrt.ChanSend(")
		r.rd(s.Chan)
		r.rd(s.Value)
		arrow := r.off(s.Arrow)
		r.add(arrow, arrow+2, ",", 2)
		r.after(s, ", "+site+")")
	case *ast.IncDecStmt:
		r.wr(s.X)
	case *ast.AssignStmt:
		r.assign(s, inList)
	case *ast.GoStmt:
		r.goStmt(s, inList)
	case *ast.DeferStmt:
		r.rd(s.Call)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			r.rd(e)
		}
	case *ast.IfStmt:
		r.optStmt(s.Init)
		r.rd(s.Cond)
		r.block(s.Body.List)
		r.optStmt(s.Else)
	case *ast.ForStmt:
		r.optStmt(s.Init)
		if s.Cond != nil {
			r.rd(s.Cond)
		}
		r.optStmt(s.Post)
		r.tick(s.Body)
		r.block(s.Body.List)
	case *ast.RangeStmt:
		r.rangeStmt(s)
	case *ast.SwitchStmt:
		r.optStmt(s.Init)
		if s.Tag != nil {
			r.rd(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.rd(e)
			}
			r.block(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		r.optStmt(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			r.rd(a.X)
		case *ast.AssignStmt:
			r.rd(a.Rhs[0])
		}
		for _, c := range s.Body.List {
			r.block(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		r.selectStmt(s)
	case *ast.LabeledStmt:
		r.stmt(s.Stmt, false)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Names) == 2 && len(vs.Values) == 1 {
				if u, ok := ast.Unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv(u, true)
					continue
				}
			}
			for _, v := range vs.Values {
				r.rd(v)
			}
		}
	case *ast.BranchStmt, *ast.EmptyStmt:
	default:
		r.unsupported(s, fmt.Sprintf("%T", s))
	}
}

func (r *rewriter) tick(b *ast.BlockStmt) {
	at := r.off(b.Lbrace) + 1
	r.add(at, at, " simrt.Tick("+r.site(b)+"); ", 1)
}

func (r *rewriter) assign(s *ast.AssignStmt, inList bool) {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.recv(u, true)
			if s.Tok != token.DEFINE {
				for _, l := range s.Lhs {
					r.wr(l)
				}
			}
			return
		}
	}
	for _, e := range s.Rhs {
		r.rd(e)
	}
	if s.Tok == token.DEFINE {
		return
	}
	shared := false
	for _, l := range s.Lhs {
		if r.wr(l) {
			shared = true
		}
	}
	if !shared || !inList {
		return
	}
	call := false
	for _, e := range s.Rhs {
		if r.hasCall(e) {
			call = true
		}
	}
	if !call || len(s.Rhs) != 1 {
		return
	}
	// evaluate the right side first, then announce and perform the write
	tv := r.info.Types[s.Rhs[0]]
	if tv.Value != nil || tv.IsNil() {
		return
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	rhs := r.render(r.off(s.Rhs[0].Pos()), r.off(s.Rhs[0].End()))
	var lhs []string
	for _, l := range s.Lhs {
		lhs = append(lhs, r.render(r.off(l.Pos()), r.off(l.End())))
	}
	var tmps []string
	for range s.Lhs {
		r.tmp++
		tmps = append(tmps, fmt.Sprintf("simTmp%d", r.tmp))
	}
	if _, isTuple := tv.Type.(*types.Tuple); len(s.Lhs) > 1 && !isTuple {
		// v, ok = m[k] and friends: leave as they are
		return
	}
	text := "{ " + strings.Join(tmps, ", ") + " := " + rhs + "; " + strings.Join(lhs, ", ") + " " + s.Tok.String() + " " + strings.Join(tmps, ", ") + " }"
	r.collapse(r.off(s.Pos()), r.off(s.End()), text)
}

// hasCall tells whether evaluating e runs other code.
func (r *rewriter) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			tv := r.info.Types[n.Fun]
			if tv.IsType() || tv.IsBuiltin() {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return found
}

func (r *rewriter) goStmt(s *ast.GoStmt, inList bool) {
	site := r.site(s)
	_ = site
	call := s.Call
	if fl, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.rd(fl)
		body := r.render(r.off(fl.Pos()), r.off(fl.End()))
		r.collapse(r.off(s.Pos()), r.off(s.End()), "simrt.Go("+body+")")
		return
	}
	if !inList {
		r.unsupported(s, "labelled go statement")
	}
	r.rd(call.Fun)
	for _, a := range call.Args {
		r.rd(a)
	}
	pre := ""
	r.tmp++
	fn := fmt.Sprintf("simTmp%d", r.tmp)
	if tv := r.info.Types[call.Fun]; tv.IsBuiltin() || tv.IsType() {
		r.unsupported(s, "go with a builtin")
	}
	pre += fn + " := " + r.render(r.off(call.Fun.Pos()), r.off(call.Fun.End())) + "; "
	var args []string
	for _, a := range call.Args {
		t := r.render(r.off(a.Pos()), r.off(a.End()))
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, t)
			continue
		}
		r.tmp++
		n := fmt.Sprintf("simTmp%d", r.tmp)
		pre += n + " := " + t + "; "
		args = append(args, n)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	r.collapse(r.off(s.Pos()), r.off(s.End()), "{ "+pre+"simrt.Go(func() { "+fn+"("+strings.Join(args, ", ")+ell+") }) }")
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) {
	t := r.info.Types[s.X].Type
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			r.wr(s.Key)
		}
		if s.Value != nil {
			r.wr(s.Value)
		}
	}
	fn := ""
	switch coreType(t).(type) {
	case *types.Map:
		fn = "RangeMap"
	case *types.Slice:
		if s.Value != nil && !isBlank(s.Value) && !r.ownSlice(s.X) {
			fn = "RangeSlice"
		}
	case *types.Chan:
		fn = "RangeChan"
	}
	if fn != "" {
		r.wrap(s.X, fn)
	} else {
		r.rd(s.X)
	}
	r.tick(s.Body)
	r.block(s.Body.List)
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// ownSlice: variadic/local slices could still alias shared ones, so only
// composite literals count as private.
func (r *rewriter) ownSlice(e ast.Expr) bool {
	_, ok := ast.Unparen(e).(*ast.CompositeLit)
	return ok
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(0).Underlying()
		}
		return nil
	}
	return t.Underlying()
}

// ---- channels

func (r *rewriter) recv(u *ast.UnaryExpr, two bool) {
	site := r.site(u)
	r.rd(u.X)
	fn := "simrt.ChanRecv("
	if two {
		fn = "simrt.ChanRecv2("
	}
	p := r.off(u.Pos())
	r.add(p, p+2, fn, 2)
	r.after(u, ", "+site+")")
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) {
	// select { case v := <-c: ... } becomes
	// switch c0 := simrt.RecvCase(c); simrt.Select(hasDefault, site, c0.Case) { case 0: v := simrt.Got(c0) ... }
	site := r.site(s)
	var cases, names, fields []string
	hasDef := "false"
	type rep struct {
		cc   *ast.CommClause
		head string
	}
	var reps []rep
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			reps = append(reps, rep{cc, "default:"})
			continue
		}
		n := len(cases)
		head := fmt.Sprintf("case %d:", n)
		r.tmp++
		name := fmt.Sprintf("simC%d", r.tmp)
		names = append(names, name)
		fields = append(fields, name+".Case")
		chanText := func(e ast.Expr) string {
			r.rd(e)
			return r.render(r.off(e.Pos()), r.off(e.End()))
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, "simrt.SendCase("+chanText(cm.Chan)+", "+chanText(cm.Value)+")")
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			cases = append(cases, "simrt.RecvCase("+chanText(u.X)+")")
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			cases = append(cases, "simrt.RecvCase("+chanText(u.X)+")")
			var l []string
			for _, e := range cm.Lhs {
				if cm.Tok == token.ASSIGN {
					r.wr(e)
				}
				l = append(l, r.render(r.off(e.Pos()), r.off(e.End())))
			}
			got := "simrt.Got("
			if len(l) == 2 {
				got = "simrt.Got2("
			}
			head += " " + strings.Join(l, ", ") + " " + cm.Tok.String() + " " + got + name + "); "
		}
		reps = append(reps, rep{cc, head})
	}
	if n := len(reps); hasDef == "false" && n > 0 {
		// the last case becomes the default, so that a select that cannot be left
		// becomes a switch that cannot be left
		h := reps[n-1].head
		reps[n-1].head = "default:" + h[strings.Index(h, ":")+1:]
	} else if n == 0 {
		r.after(s, `; panic("select without cases returned")`)
	}
	for _, rp := range reps {
		r.collapse(r.off(rp.cc.Pos()), r.off(rp.cc.Colon)+1, rp.head)
	}
	a := r.off(s.Pos())
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(cases, ", ") + "; "
	}
	r.add(a, a+len("select"), "switch "+init+"simrt.Select("+hasDef+", "+site+pre(fields)+")", 2)
	for _, c := range s.Body.List {
		r.block(c.(*ast.CommClause).Body)
	}
}

func pre(c []string) string {
	if len(c) == 0 {
		return ""
	}
	return ", " + strings.Join(c, ", ")
}

// ---- expressions

// localPath tells whether e denotes storage inside a local variable (reached
// without following a pointer, slice or map), which no other task can see.
func (r *rewriter) localPath(e ast.Expr) bool {
	for {
		switch x := ast.Unparen(e).(type) {
		case *ast.Ident:
			o := r.info.Uses[x]
			if o == nil {
				o = r.info.Defs[x]
			}
			v, ok := o.(*types.Var)
			return ok && !r.shared(v)
		case *ast.SelectorExpr:
			sel := r.info.Selections[x]
			if sel == nil || sel.Kind() != types.FieldVal || sel.Indirect() {
				return false
			}
			e = x.X
		case *ast.IndexExpr:
			if _, ok := coreType(r.info.Types[x.X].Type).(*types.Array); !ok {
				return false
			}
			e = x.X
		default:
			return false
		}
	}
}

func (r *rewriter) pkgLevel(v *types.Var) bool {
	return v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// findCaptured finds the local variables that function literals capture,
// unless the literal can only run in the goroutine that made it.
func (r *rewriter) findCaptured() {
	r.captured = map[*types.Var]bool{}
	inPlace := map[*ast.FuncLit]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			if f, ok := ast.Unparen(n.Call.Fun).(*ast.FuncLit); ok {
				inPlace[f] = false
			}
		case *ast.CallExpr:
			if f, ok := ast.Unparen(n.Fun).(*ast.FuncLit); ok {
				if _, seen := inPlace[f]; !seen {
					inPlace[f] = true // called on the spot, or deferred
				}
			}
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				fn, ok := r.info.Uses[se.Sel].(*types.Func)
				if ok && fn.Pkg() != nil && (fn.Pkg().Path() == "sort" || fn.Pkg().Path() == "slices" || fn.Pkg().Path() == "maps") {
					for _, a := range n.Args {
						if f, ok := ast.Unparen(a).(*ast.FuncLit); ok {
							inPlace[f] = true
						}
					}
				}
			}
		}
		return true
	})
	var lits []*ast.FuncLit
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			ast.Inspect(n.Body, walk)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			v, ok := r.info.Uses[n].(*types.Var)
			if !ok || v.IsField() || r.pkgLevel(v) {
				return true
			}
			for _, f := range lits {
				if !inPlace[f] && (v.Pos() < f.Pos() || v.Pos() >= f.End()) {
					r.captured[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(r.file, walk)
}

// shared reports a variable other goroutines may reach: one of a package, or a
// local one that a function literal captures.
func (r *rewriter) shared(v *types.Var) bool { return r.pkgLevel(v) || r.captured[v] }

func (r *rewriter) isLocation(e ast.Expr) bool {
	tv := r.info.Types[e]
	return tv.Addressable() && !r.localPath(e)
}

// wr rewrites a write target; it reports whether the target is shared memory.
func (r *rewriter) wr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.wr(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		if v, ok := r.info.Uses[x].(*types.Var); ok && r.shared(v) {
			site := r.site(x)
			r.before(x, "*simrt.St(&")
			r.after(x, ", "+site+")")
			return true
		}
		return false
	case *ast.IndexExpr:
		if _, ok := coreType(r.info.Types[x.X].Type).(*types.Map); ok {
			site := r.site(x)
			r.before(x.X, "simrt.MW(")
			r.rd(x.X)
			r.after(x.X, ", "+site+")")
			r.rd(x.Index)
			return true
		}
	}
	if r.isLocation(e) {
		site := r.site(e)
		r.before(e, "*simrt.St(&")
		r.addr(e)
		r.after(e, ", "+site+")")
		return true
	}
	r.addr(e)
	return false
}

// addr rewrites the operands needed to form e's address without accessing e.
func (r *rewriter) addr(e ast.Expr) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		r.addr(x.X)
	case *ast.Ident:
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil { // pkg.Var
			return
		}
		if _, ok := r.info.Types[x.X].Type.Underlying().(*types.Pointer); ok {
			r.rd(x.X)
		} else if r.info.Types[x.X].Addressable() {
			r.addr(x.X)
		} else {
			r.rd(x.X)
		}
	case *ast.IndexExpr:
		switch coreType(r.info.Types[x.X].Type).(type) {
		case *types.Array:
			r.addr(x.X)
		default:
			r.rd(x.X)
		}
		r.rd(x.Index)
	case *ast.StarExpr:
		r.rd(x.X)
	default:
		r.rd(e)
	}
}

// rd rewrites an expression evaluated for its value.
func (r *rewriter) rd(e ast.Expr) {
	if e == nil {
		return
	}
	tv := r.info.Types[e]
	if tv.IsType() || tv.Value != nil {
		return
	}
	switch x := e.(type) {
	case *ast.BadExpr, *ast.BasicLit:
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok && r.shared(v) {
			r.load(x)
		}
	case *ast.ParenExpr:
		r.rd(x.X)
	case *ast.FuncLit:
		r.block(x.Body.List)
	case *ast.CompositeLit:
		_, isStruct := coreType(tv.Type).(*types.Struct)
		if p, ok := coreType(tv.Type).(*types.Pointer); ok {
			_, isStruct = p.Elem().Underlying().(*types.Struct)
		}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					r.rd(kv.Key)
				}
				r.rd(kv.Value)
				continue
			}
			r.rd(el)
		}
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil { // qualified identifier
			if v, ok := r.info.Uses[x.Sel].(*types.Var); ok && r.pkgLevel(v) && r.ours(v.Pkg()) {
				r.load(x)
			}
			return
		}
		switch sel.Kind() {
		case types.FieldVal:
			if r.isLocation(e) {
				r.load(e)
			} else {
				r.addr(e)
			}
		case types.MethodVal:
			// method value or call: a pointer receiver takes the operand's address
			recv := sel.Obj().(*types.Func).Type().(*types.Signature).Recv()
			_, ptrRecv := recv.Type().(*types.Pointer)
			_, ptrX := r.info.Types[x.X].Type.Underlying().(*types.Pointer)
			if ptrRecv && !ptrX && r.info.Types[x.X].Addressable() {
				r.addr(x.X)
			} else if r.embeddedPath(sel) {
				// promoted through embedded fields: reading the outer value whole
				// would touch more than the call does
				r.addrOrRead(x.X)
			} else {
				r.rd(x.X)
			}
		default: // method expression
		}
	case *ast.IndexExpr:
		xt := r.info.Types[x.X]
		if xt.IsType() {
			return
		}
		switch coreType(xt.Type).(type) {
		case *types.Signature:
			r.rd(x.X) // instantiation
			return
		case *types.Map:
			site := r.site(x)
			r.before(x.X, "simrt.MR(")
			r.rd(x.X)
			r.after(x.X, ", "+site+")")
			r.rd(x.Index)
			return
		}
		if r.isLocation(e) {
			r.load(e)
			return
		}
		if tv.Addressable() {
			r.addr(e)
			return
		}
		r.rd(x.X)
		r.rd(x.Index)
	case *ast.IndexListExpr:
		r.rd(x.X)
	case *ast.SliceExpr:
		if _, ok := coreType(r.info.Types[x.X].Type).(*types.Array); ok {
			r.addr(x.X)
		} else if pt, ok := coreType(r.info.Types[x.X].Type).(*types.Pointer); ok && !r.info.Types[x.X].IsNil() {
			_ = pt // a pointer to an array, which the compiler will not slice straight from a generic call
			r.before(x.X, "(*simrt.P(")
			r.rd(x.X)
			r.after(x.X, "))")
		} else {
			r.rd(x.X)
		}
		r.rd(x.Low)
		r.rd(x.High)
		r.rd(x.Max)
	case *ast.TypeAssertExpr:
		r.rd(x.X)
	case *ast.StarExpr:
		r.load(e)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			r.addr(x.X)
		case token.ARROW:
			r.recv(x, false)
		default:
			r.rd(x.X)
		}
	case *ast.BinaryExpr:
		r.rd(x.X)
		r.rd(x.Y)
	case *ast.KeyValueExpr:
		r.rd(x.Key)
		r.rd(x.Value)
	case *ast.CallExpr:
		r.call(x)
	case *ast.ArrayType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.ChanType, *ast.Ellipsis:
	default:
		r.unsupported(e, fmt.Sprintf("%T", e))
	}
}

func (r *rewriter) addrOrRead(e ast.Expr) {
	if r.info.Types[e].Addressable() {
		if _, ptr := r.info.Types[e].Type.Underlying().(*types.Pointer); !ptr {
			r.addr(e)
			return
		}
	}
	r.rd(e)
}

func (r *rewriter) embeddedPath(sel *types.Selection) bool { return len(sel.Index()) > 1 }

func (r *rewriter) ours(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/henderiw/idxtable/")
}

func (r *rewriter) load(e ast.Expr) {
	site := r.site(e)
	r.before(e, "simrt.Ld(&")
	r.addr(e)
	r.after(e, ", "+site+")")
}

func (r *rewriter) wrap(e ast.Expr, fn string) {
	site := r.site(e)
	r.before(e, "simrt."+fn+"(")
	r.rd(e)
	r.after(e, ", "+site+")")
}

func (r *rewriter) call(c *ast.CallExpr) {
	ftv := r.info.Types[c.Fun]
	if ftv.IsType() {
		for _, a := range c.Args {
			r.rd(a)
		}
		return
	}
	if ftv.IsBuiltin() {
		name := ""
		switch f := ast.Unparen(c.Fun).(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
		}
		kind := func(i int) types.Type { return coreType(r.info.Types[c.Args[i]].Type) }
		isMap := func(i int) bool { _, ok := kind(i).(*types.Map); return ok }
		isSlice := func(i int) bool {
			_, ok := kind(i).(*types.Slice)
			return ok && !r.info.Types[c.Args[i]].IsNil()
		}
		switch name {
		case "len", "cap":
			if isMap(0) {
				r.wrap(c.Args[0], "MR")
				return
			}
			if _, ok := kind(0).(*types.Chan); ok {
				fn := map[string]string{"len": "simrt.ChanLen", "cap": "simrt.ChanCap"}[name]
				r.add(r.off(c.Fun.Pos()), r.off(c.Fun.End()), fn, 2)
				r.rd(c.Args[0])
				r.used = true
				return
			}
			r.rd(c.Args[0])
		case "delete":
			r.wrap(c.Args[0], "MW")
			r.rd(c.Args[1])
		case "clear":
			if isMap(0) {
				r.wrap(c.Args[0], "MW")
			} else if isSlice(0) {
				r.wrap(c.Args[0], "SW")
			}
		case "copy":
			if isSlice(0) {
				r.wrap(c.Args[0], "SW")
			} else {
				r.rd(c.Args[0])
			}
			if isSlice(1) {
				r.wrap(c.Args[1], "SR")
			} else {
				r.rd(c.Args[1])
			}
		case "append":
			if isSlice(0) && len(c.Args) > 1 && !r.isConvNil(c.Args[0]) {
				r.wrap(c.Args[0], "App")
			} else {
				r.rd(c.Args[0])
			}
			for i, a := range c.Args[1:] {
				if c.Ellipsis.IsValid() && i == len(c.Args)-2 && isSlice(i+1) {
					r.wrap(a, "SR")
				} else {
					r.rd(a)
				}
			}
		case "close":
			r.add(r.off(c.Fun.Pos()), r.off(c.Fun.End()), "simrt.ChanClose", 2)
			r.rd(c.Args[0])
			r.used = true
		case "make", "new":
			for _, a := range c.Args[1:] {
				r.rd(a)
			}
		default:
			for _, a := range c.Args {
				r.rd(a)
			}
		}
		return
	}
	if r.external(c) {
		return
	}
	if r.externalMethod(c) {
		return
	}
	r.rd(c.Fun)
	r.args(c, 0)
}

// args rewrites the arguments of a call. What code the simulator does not run
// on gets hold of - maps, slices, objects of its own packages - is announced:
// it may read and change them. lent objects have been announced already; arm
// tells that the call happens next.
func (r *rewriter) args(c *ast.CallExpr, lent int) {
	ext := r.externalCallee(c)
	last := -1
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value == nil && !tv.IsNil() && !tv.IsType() {
			last = i
		}
		if _, multi := tv.Type.(*types.Tuple); multi {
			ext = false
		}
	}
	lend := make([]string, len(c.Args))
	for i, a := range c.Args {
		t := r.info.Types[a].Type
		if !ext || t == nil || r.info.Types[a].IsNil() || r.fresh(a) {
			continue
		}
		switch ct := coreType(t).(type) {
		case *types.Map:
			lend[i] = "MR"
		case *types.Slice:
			lend[i] = "ExtS"
			lent++
		case *types.Pointer:
			if _, ok := types.Unalias(t).(*types.Pointer); ok && r.foreign(ct.Elem()) {
				if u, ok := ast.Unparen(a).(*ast.UnaryExpr); !ok || u.Op != token.AND || !r.localPath(u.X) {
					lend[i] = "Ext"
					lent++
				}
			}
		}
	}
	for i, a := range c.Args {
		arm := ext && lent > 0 && i == last
		if arm {
			r.before(a, "simrt.Arm(")
		}
		if lend[i] != "" {
			r.wrap(a, lend[i])
		} else {
			r.rd(a)
		}
		if arm {
			r.after(a, fmt.Sprintf(", %d)", lent))
		}
	}
}

// externalCallee reports a call of a function or method the simulator does not run on.
func (r *rewriter) externalCallee(c *ast.CallExpr) bool {
	var id *ast.Ident
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return false
	}
	fn, ok := r.info.Uses[id].(*types.Func)
	if !ok || fn.Pkg() == nil || r.ours(fn.Pkg()) {
		return false
	}
	switch fn.Pkg().Path() {
	case "sync", "sync/atomic", "unsafe":
		return false
	}
	return true
}

// foreign reports a named type of a package the simulator does not run on.
func (r *rewriter) foreign(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || r.ours(n.Obj().Pkg()) {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "unsafe", "time":
		return false
	}
	_, isIface := n.Underlying().(*types.Interface)
	return !isIface
}

// fresh reports an object made in place, such as new(big.Int).Add(x, y).
func (r *rewriter) fresh(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.CompositeLit:
		return true
	case *ast.UnaryExpr:
		_, lit := ast.Unparen(x.X).(*ast.CompositeLit)
		return x.Op == token.AND && lit
	case *ast.CallExpr:
		ftv := r.info.Types[x.Fun]
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && ftv.IsBuiltin() {
			return id.Name == "new" || id.Name == "make"
		}
		if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
			if sel := r.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
				return r.fresh(se.X)
			}
		}
	}
	return false
}

// externalMethod handles a call of a pointer method of an object that belongs
// to a package the simulator does not run on, such as a big.Int or a
// bytes.Buffer: whether it changed the object is found out by comparing.
func (r *rewriter) externalMethod(c *ast.CallExpr) bool {
	se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	sel := r.info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal || r.embeddedPath(sel) {
		return false
	}
	recv := sel.Obj().(*types.Func).Type().(*types.Signature).Recv()
	p, ok := types.Unalias(recv.Type()).(*types.Pointer)
	if !ok || !r.foreign(p.Elem()) || r.fresh(se.X) {
		return false
	}
	now := true // nothing is evaluated between the receiver and the call
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if _, multi := tv.Type.(*types.Tuple); multi {
			return false
		}
		if tv.Value == nil && !tv.IsNil() && !tv.IsType() {
			now = false
		}
	}
	pre, post := "simrt.Ext(", ", "+r.site(c)+")"
	if now {
		pre, post = "simrt.Arm("+pre, post+", 1)"
	}
	if _, ok := types.Unalias(r.info.Types[se.X].Type).(*types.Pointer); ok {
		r.before(se.X, pre)
		r.rd(se.X)
		r.after(se.X, post)
	} else if r.info.Types[se.X].Addressable() && !r.localPath(se.X) {
		r.before(se.X, pre+"&")
		r.addr(se.X)
		r.after(se.X, post)
	} else {
		return false
	}
	if now {
		r.args(c, 0)
	} else {
		r.args(c, 1)
	}
	return true
}

func (r *rewriter) isConvNil(e ast.Expr) bool {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	return ok && len(c.Args) == 1 && r.info.Types[c.Fun].IsType() && r.info.Types[c.Args[0]].IsNil()
}

// replaced names what stands for a function or type whose behaviour depends on
// the clock or on chance; "" if there is nothing to replace.
func (r *rewriter) replaced(o types.Object) string {
	if o == nil || o.Pkg() == nil || o.Parent() != o.Pkg().Scope() {
		return ""
	}
	name := o.Name()
	_, isType := o.(*types.TypeName)
	switch o.Pkg().Path() {
	case "time":
		switch name {
		case "Timer", "Ticker":
			return "simrt." + name
		case "Sleep", "Now", "Since", "After", "NewTimer", "NewTicker", "Tick", "AfterFunc", "Until":
			return "simrt.Time" + name
		}
	case "runtime":
		if name == "Gosched" {
			return "simrt.Gosched"
		}
	case "math/rand", "math/rand/v2":
		if isType {
			return ""
		}
		switch name {
		case "New", "NewSource", "NewPCG", "NewChaCha8", "NewZipf":
			return ""
		}
		return "simrt.Rand" + name
	case "crypto/rand":
		switch name {
		case "Read":
			return "simrt.RandRead"
		case "Reader":
			return "simrt.RandReader"
		}
	}
	return ""
}

// replaceNames puts in what stands for those names, wherever they are used.
func (r *rewriter) replaceNames() {
	ast.Inspect(r.file, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		if _, ok := r.info.Uses[id].(*types.PkgName); !ok {
			return true
		}
		o := r.info.Uses[se.Sel]
		repl := r.replaced(o)
		if repl == "" {
			return true
		}
		r.add(r.off(se.Pos()), r.off(se.End()), repl, 2)
		r.used = true
		switch fn := o.(type) {
		case *types.TypeName:
			r.keep["var _ "+id.Name+"."+o.Name()] = true
		case *types.Func:
			if fn.Type().(*types.Signature).TypeParams().Len() > 0 {
				r.keep["var _ = "+id.Name+"."+o.Name()+"[int]"] = true
				break
			}
			r.keep["var _ = "+id.Name+"."+o.Name()] = true
		default:
			r.keep["var _ = "+id.Name+"."+o.Name()] = true
		}
		return true
	})
}

// external handles calls into packages the simulator does not run on.
func (r *rewriter) external(c *ast.CallExpr) bool {
	se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	fn, ok := r.info.Uses[se.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil || r.info.Selections[se] != nil {
		return false
	}
	name := fn.Name()
	repl := r.replaced(fn)
	switch fn.Pkg().Path() {
	case "maps":
		switch name {
		case "Keys", "Values", "All":
			site := r.site(c)
			r.add(r.off(se.Pos()), r.off(se.End()), "simrt.Map"+name, 2)
			r.rd(c.Args[0])
			r.after(c.Args[0], ", "+site)
			r.keep["var _ = "+se.X.(*ast.Ident).Name+".Clone[map[int]int]"] = true
			return true
		}
		for i, a := range c.Args {
			if _, ok := coreType(r.info.Types[a].Type).(*types.Map); ok && !r.info.Types[a].IsNil() {
				w := "MR"
				if i == 0 && (name == "Copy" || name == "DeleteFunc" || name == "Insert") {
					w = "MW"
				}
				r.wrap(a, w)
			} else {
				r.rd(a)
			}
		}
		return true
	case "sort", "slices":
		for i, a := range c.Args {
			if _, ok := coreType(r.info.Types[a].Type).(*types.Slice); ok && i == 0 && !r.info.Types[a].IsNil() {
				w := "SR"
				if strings.HasPrefix(name, "S") && name != "SearchInts" && !strings.HasPrefix(name, "Search") && !strings.HasSuffix(name, "AreSorted") || name == "Reverse" {
					w = "SW"
				}
				r.wrap(a, w)
			} else {
				r.rd(a)
			}
		}
		return true
	}
	if repl != "" { // the name itself is replaced by replaceNames
		for _, a := range c.Args {
			r.rd(a)
		}
		return true
	}
	return false
}
