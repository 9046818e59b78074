package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter copies the library's packages out of the working tree into
// the simulated world, once per node, and inserts calls of the simulator's
// run-time by editing text at positions taken from the syntax tree. It changes
// no behaviour: it adds decision points, puts make(), goroutines, channels,
// sync, math/rand, time, the CPU-feature package and (for the tools) os, flag
// and log behind the simulator, and splits read-modify-write statements on
// package-level state into their two halves.

const portableArch = "riscv64"

type variant struct {
	name   string // amd64, portable, tools
	arch   string
	std    map[string]string // import path -> replacement
	pkgs   map[string]*pkgInfo
	order  []*pkgInfo
	noSync bool
}

type pkgInfo struct {
	rel     string // e.g. pkg/encode
	path    string // import path in the module
	name    string
	files   []*fileInfo
	asm     []string
	tpkg    *types.Package
	info    *types.Info
	state   int
	main    bool
	errs    []error
	bodylss []string
}

type fileInfo struct {
	path     string
	name     string
	src      []byte
	ast      *ast.File
	edits    []*edit
	p        *pkgInfo
	inits    int
	resets   []resetVar
	asmDecls []*ast.FuncDecl
}

type resetVar struct {
	fn   string
	objs []types.Object
}

type edit struct {
	start, end int
	text       string
	gen        func() string
	seq        int
}

type inst struct {
	repo     string
	module   string
	fset     *token.FileSet
	ext      types.Importer
	sites    []string
	siteIDs  map[string]int
	asmFns   []asmFn
	asmIDs   map[string]int
	hot      map[types.Object]bool
	hotTypes map[types.Object]bool
	seq      int
	hotN     int
}

type asmFn struct {
	Name string
	Need []string
}

func (in *inst) site(pos token.Pos, fn string) int {
	p := in.fset.Position(pos)
	rel, err := filepath.Rel(in.repo, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	k := fmt.Sprintf("%s:%d:%d %s", rel, p.Line, p.Column, fn)
	if id, ok := in.siteIDs[k]; ok {
		return id
	}
	id := len(in.sites)
	in.sites = append(in.sites, k)
	in.siteIDs[k] = id
	return id
}

// extImporter resolves packages outside the module from export data.
func extImporter(dir string, fset *token.FileSet, pkgs []string) (types.Importer, error) {
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list -export: %v\n%s", err, errb.String())
	}
	files := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.SplitN(l, "\t", 2)
		if len(f) == 2 && f[1] != "" {
			files[f[0]] = f[1]
		}
	}
	return importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := files[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	}), nil
}

func (in *inst) findPkgs(v *variant, wantMain func(rel string) bool) error {
	ctx := build.Default
	ctx.GOARCH = v.arch
	ctx.GOOS = "linux"
	ctx.CgoEnabled = false
	var dirs []string
	err := filepath.Walk(in.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != in.repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for _, d := range dirs {
		ents, err := os.ReadDir(d)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(in.repo, d)
		rel = filepath.ToSlash(rel)
		pi := &pkgInfo{rel: rel, path: path.Join(in.module, rel)}
		if rel == "." {
			pi.path = in.module
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || strings.HasSuffix(n, "_test.go") {
				continue
			}
			isGo, isAsm := strings.HasSuffix(n, ".go"), strings.HasSuffix(n, ".s")
			if !isGo && !isAsm && !strings.HasSuffix(n, ".h") {
				continue
			}
			ok, err := ctx.MatchFile(d, n)
			if err != nil {
				return fmt.Errorf("%s/%s: %v", d, n, err)
			}
			if !ok && !strings.HasSuffix(n, ".h") {
				continue
			}
			full := filepath.Join(d, n)
			if !isGo {
				pi.asm = append(pi.asm, full)
				continue
			}
			src, err := os.ReadFile(full)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(in.fset, full, src, parser.ParseComments)
			if err != nil {
				return err
			}
			pi.files = append(pi.files, &fileInfo{path: full, name: n, src: src, ast: f, p: pi})
			pi.name = f.Name.Name
		}
		if len(pi.files) == 0 {
			continue
		}
		if pi.name == "main" {
			pi.main = true
			if wantMain == nil || !wantMain(rel) {
				continue
			}
		}
		v.pkgs[pi.path] = pi
	}
	return nil
}

type modImporter struct {
	in *inst
	v  *variant
}

func (m modImporter) Import(p string) (*types.Package, error) {
	if pi, ok := m.v.pkgs[p]; ok {
		if err := m.in.check(m.v, pi); err != nil {
			return nil, err
		}
		return pi.tpkg, nil
	}
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	return m.in.ext.Import(p)
}

func (in *inst) check(v *variant, pi *pkgInfo) error {
	if pi.state == 2 {
		return nil
	}
	if pi.state == 1 {
		return fmt.Errorf("import cycle through %s", pi.path)
	}
	pi.state = 1
	pi.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: modImporter{in, v}, Error: func(err error) { pi.errs = append(pi.errs, err) },
		Sizes: sizesOf(v.arch)}
	var fs []*ast.File
	for _, f := range pi.files {
		fs = append(fs, f.ast)
	}
	pi.tpkg, _ = conf.Check(pi.path, in.fset, fs, pi.info)
	pi.state = 2
	v.order = append(v.order, pi)
	return nil
}

// typecheck type-checks the variant's packages. Type errors are returned
// separately: they are a property of the tree.
func (in *inst) typecheck(v *variant) (typeErrs []error, err error) {
	var paths []string
	for p := range v.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if err := in.check(v, v.pkgs[p]); err != nil {
			return nil, err
		}
	}
	for _, pi := range v.order {
		typeErrs = append(typeErrs, pi.errs...)
	}
	return typeErrs, nil
}

// ---- hot state

// findHot marks the package-level variables that code outside initialisation
// can change.
func (in *inst) findHot(v *variant) {
	for _, pi := range v.order {
		for _, f := range pi.files {
			for _, d := range f.ast.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
					continue
				}
				in.hotIn(pi, fd.Body)
			}
			for _, d := range f.ast.Decls {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					ast.Inspect(gd, func(n ast.Node) bool {
						if fl, ok := n.(*ast.FuncLit); ok {
							in.hotIn(pi, fl.Body)
							return false
						}
						return true
					})
				}
			}
		}
	}
}

func (in *inst) hotIn(pi *pkgInfo, body ast.Node) {
	mark := func(e ast.Expr) {
		if o := in.rootVar(pi, e); o != nil {
			in.hot[o] = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					mark(l)
				}
			}
		case *ast.IncDecStmt:
			mark(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					mark(x.Key)
				}
				if x.Value != nil {
					mark(x.Value)
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.SliceExpr:
			if tv, ok := pi.info.Types[x.X]; ok {
				if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					break
				}
			}
			mark(x.X)
		case *ast.CallExpr:
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel := pi.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					mark(se.X)
				}
			}
			for _, a := range x.Args {
				tv, ok := pi.info.Types[a]
				if !ok || tv.Type == nil {
					continue
				}
				switch tv.Type.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Chan:
					mark(a)
				}
			}
		}
		return true
	})
}

// rootVar returns the package-level variable of the module an lvalue is part
// of, or nil.
func (in *inst) rootVar(pi *pkgInfo, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e = x.X
		case *ast.SelectorExpr:
			if o := in.pkgVar(pi, x.Sel); o != nil {
				return o
			}
			e = x.X
		case *ast.Ident:
			return in.pkgVar(pi, x)
		default:
			return nil
		}
	}
}

func (in *inst) pkgVar(pi *pkgInfo, id *ast.Ident) types.Object {
	o := pi.info.Uses[id]
	if o == nil {
		o = pi.info.Defs[id]
	}
	vr, ok := o.(*types.Var)
	if !ok || vr.IsField() || vr.Pkg() == nil || vr.Parent() != vr.Pkg().Scope() {
		return nil
	}
	if !strings.HasPrefix(vr.Pkg().Path(), in.module) {
		return nil
	}
	return vr
}

// isHot reports whether a statement itself (without nested statements) touches
// mutable package-level state.
func (in *inst) isHot(pi *pkgInfo, s ast.Node) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if n == nil || found {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			if n != s {
				return false
			}
		case *ast.Ident:
			if o := in.pkgVar(pi, x); o != nil && in.hot[o] {
				found = true
			}
		case *ast.SelectorExpr:
			if len(in.hotTypes) > 0 && pi.info.Selections[x] != nil {
				if tv, ok := pi.info.Types[x.X]; ok && tv.Type != nil {
					t := tv.Type
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if nt, ok := t.(*types.Named); ok && in.hotTypes[nt.Obj()] {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

// findHotTypes marks the module's types whose values package-level variables
// hold, so that state reached through receivers and pointers counts as such.
func (in *inst) findHotTypes() {
	var add func(t types.Type, depth int)
	add = func(t types.Type, depth int) {
		if depth > 4 {
			return
		}
		if nt, ok := t.(*types.Named); ok {
			o := nt.Obj()
			if o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), in.module) || in.hotTypes[o] {
				return
			}
			in.hotTypes[o] = true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			add(u.Elem(), depth+1)
		case *types.Slice:
			add(u.Elem(), depth+1)
		case *types.Array:
			add(u.Elem(), depth+1)
		case *types.Map:
			add(u.Elem(), depth+1)
		case *types.Chan:
			add(u.Elem(), depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type(), depth+1)
			}
		}
	}
	for o := range in.hot {
		add(o.Type(), 0)
	}
}

// ---- edits

func (f *fileInfo) off(in *inst, p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) insert(f *fileInfo, p token.Pos, text string) {
	in.seq++
	o := f.off(in, p)
	f.edits = append(f.edits, &edit{start: o, end: o, text: text, seq: in.seq})
}

// insertAfter inserts text after a node; inner nodes' texts come first.
func (in *inst) insertAfter(f *fileInfo, p token.Pos, text string) {
	in.seq++
	o := f.off(in, p)
	f.edits = append(f.edits, &edit{start: o, end: o, text: text, seq: -in.seq})
}

func (in *inst) atEnd(f *fileInfo, text string) {
	in.seq++
	f.edits = append(f.edits, &edit{start: len(f.src), end: len(f.src), text: text, seq: 1<<29 + in.seq})
}

func (in *inst) replace(f *fileInfo, from, to token.Pos, text string) {
	in.seq++
	f.edits = append(f.edits, &edit{start: f.off(in, from), end: f.off(in, to), text: text, seq: in.seq})
}

func (in *inst) replaceGen(f *fileInfo, from, to token.Pos, gen func() string) {
	in.seq++
	f.edits = append(f.edits, &edit{start: f.off(in, from), end: f.off(in, to), gen: gen, seq: in.seq})
}

// render returns the edited text of [from, to). Edits made by gen functions of
// nested ranges are left out when skip is the edit being generated.
func (f *fileInfo) render(from, to int, skip *edit) string {
	var es []*edit
	for _, e := range f.edits {
		if e == skip || e.start < from || e.end > to {
			continue
		}
		es = append(es, e)
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.start != b.start {
			return a.start < b.start
		}
		// closings (negative, later first) before openings, insertions before
		// replacements, wider replacements first
		ai, bi := a.end == a.start, b.end == b.start
		if ai != bi {
			return ai
		}
		if !ai && a.end != b.end {
			return a.end > b.end
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	pos := from
	for _, e := range es {
		if e.start < pos {
			continue // inside a range that was replaced
		}
		sb.Write(f.src[pos:e.start])
		if e.gen != nil {
			sb.WriteString(e.gen())
		} else {
			sb.WriteString(e.text)
		}
		pos = e.end
	}
	sb.Write(f.src[pos:to])
	return sb.String()
}

func (f *fileInfo) text(in *inst, n ast.Node) string {
	return string(f.src[f.off(in, n.Pos()):f.off(in, n.End())])
}

func (f *fileInfo) rendered(in *inst, n ast.Node) string {
	return f.render(f.off(in, n.Pos()), f.off(in, n.End()), nil)
}

func hasCall(e ast.Expr) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			bad = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				bad = true
			}
		}
		return !bad
	})
	return bad
}

func isChan(pi *pkgInfo, e ast.Expr) bool {
	tv, ok := pi.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func isMap(pi *pkgInfo, e ast.Expr) bool {
	tv, ok := pi.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func isBuiltin(pi *pkgInfo, e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = pi.info.Uses[id].(*types.Builtin)
	return ok
}

var intKinds = map[string]bool{"byte": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true,
	"int": true, "int8": true, "int16": true, "int32": true, "int64": true, "uint": true}

// instrument produces the edits of one file.
func (in *inst) instrument(v *variant, f *fileInfo) error {
	pi := f.p
	file := f.ast

	// constraints: this copy is selected already
	for _, cg := range file.Comments {
		if cg.Pos() > file.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") || strings.HasPrefix(c.Text, "//+build") {
				in.replace(f, c.Pos(), c.End(), "//")
			}
		}
	}

	name := pi.name
	if pi.main {
		name = "toolmain"
		in.replace(f, file.Name.Pos(), file.Name.End(), name)
	}
	in.insertAfter(f, file.Name.End(), "; import verifrt \"simworld/rt\"")

	usesRuntime := ""
	for _, im := range file.Imports {
		p, err := strconv.Unquote(im.Path.Value)
		if err != nil {
			return err
		}
		to := ""
		base := baseName(p)
		switch {
		case p == in.module || strings.HasPrefix(p, in.module+"/"):
			to = "simworld/VERIFNODE" + strings.TrimPrefix(p, in.module)
			to = open_(to)
			if mp, ok := v.pkgs[p]; ok {
				base = mp.name
			}
		case v.std[p] != "":
			to = v.std[p]
			if strings.HasPrefix(to, "simworld/sim") && !simSupports(p, file, im) {
				to = ""
			}
		}
		if p == "runtime" {
			usesRuntime = "runtime"
			if im.Name != nil {
				usesRuntime = im.Name.Name
			}
		}
		if to == "" {
			continue
		}
		txt := strconv.Quote(to)
		if im.Name == nil {
			txt = base + " " + txt
		}
		in.replace(f, im.Path.Pos(), im.Path.End(), txt)
	}

	for _, d := range file.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			fn := x.Name.Name
			if x.Recv == nil && fn == "init" {
				f.inits++
				in.replace(f, x.Name.Pos(), x.Name.End(), fmt.Sprintf("verifInit_%s_%d", ident(f.name), f.inits))
			}
			if pi.main && x.Recv == nil && fn == "main" {
				in.replace(f, x.Name.Pos(), x.Name.End(), "VerifMain")
			}
			if x.Body == nil {
				in.asmDecl(v, f, x)
				continue
			}
			in.body(v, f, fn, x.Body)
		case *ast.GenDecl:
			if x.Tok != token.VAR {
				continue
			}
			for _, sp := range x.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, val := range vs.Values {
					in.exprs(v, f, "init of "+vs.Names[0].Name, val)
				}
				in.resetFor(f, vs)
			}
		}
	}
	in.atEnd(f, "\nvar _ = verifrt.Y\n")
	if usesRuntime != "" && usesRuntime != "_" && usesRuntime != "." {
		in.atEnd(f, "\nvar _ = "+usesRuntime+".GOOS\n")
	}
	return nil
}

// open_ renames internal directories, which the simulator has to import too.
func open_(rel string) string {
	el := strings.Split(rel, "/")
	for i := range el {
		if el[i] == "internal" {
			el[i] = "internal_"
		}
	}
	return strings.Join(el, "/")
}

func ident(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9]`).ReplaceAllString(s, "_")
}

// resetFor queues the re-initialisation of package-level variables.
func (in *inst) resetFor(f *fileInfo, vs *ast.ValueSpec) {
	pi := f.p
	var objs []types.Object
	allBlank := true
	for _, n := range vs.Names {
		if n.Name != "_" {
			allBlank = false
		}
	}
	if allBlank {
		return
	}
	add := func(text func() string, names ...*ast.Ident) {
		fn := fmt.Sprintf("verifReset_%s_%d", ident(f.name), len(f.resets)+1)
		objs = nil
		for _, n := range names {
			objs = append(objs, pi.info.Defs[n])
		}
		f.resets = append(f.resets, resetVar{fn: fn, objs: objs})
		f.edits = append(f.edits, &edit{start: len(f.src), end: len(f.src), seq: 1 << 30, gen: func() string {
			return fmt.Sprintf("\nfunc %s() { %s }\n", fn, text())
		}})
	}
	if len(vs.Values) == 0 {
		typ := f.text(in, vs.Type)
		for _, n := range vs.Names {
			if n.Name == "_" {
				continue
			}
			n := n
			add(func() string { return fmt.Sprintf("var verifz %s; %s = verifz", typ, n.Name) }, n)
		}
		return
	}
	if len(vs.Values) == len(vs.Names) {
		for i, n := range vs.Names {
			if n.Name == "_" {
				continue
			}
			n, val := n, vs.Values[i]
			add(func() string { return fmt.Sprintf("%s = %s", n.Name, f.rendered(in, val)) }, n)
		}
		return
	}
	add(func() string {
		var l []string
		for _, n := range vs.Names {
			l = append(l, n.Name)
		}
		return fmt.Sprintf("%s = %s", strings.Join(l, ", "), f.rendered(in, vs.Values[0]))
	}, vs.Names...)
}

// asmDecl wraps a routine implemented in assembly.
func (in *inst) asmDecl(v *variant, f *fileInfo, x *ast.FuncDecl) {
	pi := f.p
	f.asmDecls = append(f.asmDecls, x)
	pi.bodylss = append(pi.bodylss, x.Name.Name)
	in.replace(f, x.Name.Pos(), x.Name.End(), "verifasm_"+x.Name.Name)
	var params, args []string
	i := 0
	for _, p := range x.Type.Params.List {
		t := f.text(in, p.Type)
		n := len(p.Names)
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			nm := fmt.Sprintf("p%d", i)
			i++
			params = append(params, nm+" "+t)
			if strings.HasPrefix(t, "...") {
				nm += "..."
			}
			args = append(args, nm)
		}
	}
	res, ret := "", ""
	if x.Type.Results != nil && len(x.Type.Results.List) > 0 {
		var rs []string
		for _, r := range x.Type.Results.List {
			n := len(r.Names)
			if n == 0 {
				n = 1
			}
			for k := 0; k < n; k++ {
				rs = append(rs, f.text(in, r.Type))
			}
		}
		res = " (" + strings.Join(rs, ", ") + ")"
		ret = "return "
	}
	id, ok := in.asmIDs[pi.path+"."+x.Name.Name]
	if !ok {
		id = len(in.asmFns)
		in.asmIDs[pi.path+"."+x.Name.Name] = id
		in.asmFns = append(in.asmFns, asmFn{Name: pi.name + "." + x.Name.Name, Need: asmNeeds(pi, x.Name.Name)})
	}
	site := in.site(x.Pos(), x.Name.Name+" (assembly)")
	f.edits = append(f.edits, &edit{start: len(f.src), end: len(f.src), seq: 1 << 30, text: fmt.Sprintf(
		"\nfunc %s(%s)%s { verifrt.Asm(VERIFNUM, %d, %d); %sverifasm_%s(%s) }\n",
		x.Name.Name, strings.Join(params, ", "), res, id, site, ret, x.Name.Name, strings.Join(args, ", "))})
}

// body instruments a function body.
func (in *inst) body(v *variant, f *fileInfo, fn string, b *ast.BlockStmt) {
	pi := f.p
	y := func(s ast.Node, fn string) string {
		if in.isHot(pi, s) {
			in.hotN++
			return fmt.Sprintf("verifrt.YH(%d); ", in.site(s.Pos(), fn))
		}
		return fmt.Sprintf("verifrt.Y(%d); ", in.site(s.Pos(), fn))
	}
	inSelect := map[ast.Stmt]bool{}
	var list func(l []ast.Stmt)
	list = func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.EmptyStmt:
				if x.Implicit {
					continue
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && x.Tok != token.ASSIGN && len(x.Lhs) == 1 && pure(pi, x.Lhs[0]) &&
					(in.hotRoot(pi, x.Lhs[0]) || viaPtr(pi, x.Lhs[0]) && pure(pi, x.Rhs[0])) {
					op := strings.TrimSuffix(x.Tok.String(), "=")
					lt := f.text(in, x.Lhs[0])
					st := in.site(x.Pos(), fn)
					in.insert(f, x.Pos(), fmt.Sprintf("%s{ verifv := %s; verifrt.YH(%d); ", y(s, fn), lt, st))
					in.replace(f, x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "= verifv "+op+" (")
					in.insertAfter(f, x.End(), ") }")
					continue
				}
				if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					if ix, ok := x.Lhs[0].(*ast.IndexExpr); ok && isMap(pi, ix.X) && pure(pi, ix.X) && pure(pi, ix.Index) {
						if key := in.mapKey(pi, f, ix.X, s.Pos()); key != "" {
							begin := fmt.Sprintf("verifrt.MapBegin(%s, %d); ", key, in.site(x.Pos(), fn))
							if pure(pi, x.Rhs[0]) {
								in.insert(f, x.Pos(), y(s, fn)+begin)
								in.insertAfter(f, x.End(), "; verifrt.MapEnd()")
								continue
							}
							// what is stored is made before the write begins
							tv, ok1 := pi.info.Types[x.Rhs[0]]
							lv, ok2 := pi.info.Types[x.Lhs[0]]
							if ok1 && ok2 && types.Identical(tv.Type, lv.Type) {
								in.insert(f, x.Pos(), y(s, fn)+"{ ")
								in.replaceGen(f, x.Pos(), x.End(), nil)
								e := f.edits[len(f.edits)-1]
								l, r := x.Lhs[0], x.Rhs[0]
								e.gen = func() string {
									return fmt.Sprintf("verifv := %s; %s%s = verifv; verifrt.MapEnd() }", f.render(f.off(in, r.Pos()), f.off(in, r.End()), e), begin, f.text(in, l))
								}
								continue
							}
						}
					}
				}
				// x = f(x): read, decision point, write
				if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && pure(pi, x.Lhs[0]) && !isConstOrNil(pi, x.Rhs[0]) &&
					(in.hotRoot(pi, x.Lhs[0]) && in.isHot(pi, x.Rhs[0]) ||
						viaPtr(pi, x.Lhs[0]) && pure(pi, x.Rhs[0]) && f.mentions(in, x.Rhs[0], x.Lhs[0])) {
					st := in.site(x.Pos(), fn)
					if tv, ok := pi.info.Types[x.Rhs[0]]; ok && types.Identical(tv.Type, pi.info.Types[x.Lhs[0]].Type) {
						in.insert(f, x.Pos(), y(s, fn)+"{ ")
						in.replaceGen(f, x.Pos(), x.End(), nil)
						e := f.edits[len(f.edits)-1]
						l, r := x.Lhs[0], x.Rhs[0]
						e.gen = func() string {
							return fmt.Sprintf("verifv := %s; verifrt.YH(%d); %s = verifv }", f.render(f.off(in, r.Pos()), f.off(in, r.End()), e), st, f.text(in, l))
						}
						continue
					}
				}
			case *ast.IncDecStmt:
				if (in.hotRoot(pi, x.X) || viaPtr(pi, x.X)) && pure(pi, x.X) {
					lt := f.text(in, x.X)
					st := in.site(x.Pos(), fn)
					in.insert(f, x.Pos(), fmt.Sprintf("%s{ verifv := %s; verifrt.YH(%d); ", y(s, fn), lt, st))
					in.replace(f, x.TokPos, x.TokPos+2, "= verifv "+x.Tok.String()[:1]+" 1 }")
					continue
				}
			}
			for _, m := range in.mapReads(pi, f, s) {
				in.insert(f, s.Pos(), fmt.Sprintf("verifrt.MapRead(%s, %d); ", m, in.site(s.Pos(), fn)))
			}
			in.insert(f, s.Pos(), y(s, fn))
		}
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) == 0 {
				in.insert(f, x.Lbrace+1, fmt.Sprintf(" verifrt.Y(%d) ", in.site(x.Pos(), fn)))
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			if x.Comm != nil {
				inSelect[x.Comm] = true
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					if s, ok := m.(ast.Stmt); ok {
						inSelect[s] = true
					}
					return true
				})
			}
			list(x.Body)
		}
		return true
	})
	in.exprsSel(v, f, fn, b, inSelect)
}

func isConstOrNil(pi *pkgInfo, e ast.Expr) bool {
	tv, ok := pi.info.Types[e]
	return !ok || tv.Value != nil || tv.IsNil() || tv.Type == nil
}

func (in *inst) hotRoot(pi *pkgInfo, e ast.Expr) bool {
	o := in.rootVar(pi, e)
	return o != nil && in.hot[o]
}

// viaPtr reports whether an lvalue is reached through a pointer, a slice or a
// map, so that others may share it.
func viaPtr(pi *pkgInfo, e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			tv, ok := pi.info.Types[x.X]
			if !ok || tv.Type == nil {
				return false
			}
			if _, ok := tv.Type.Underlying().(*types.Array); !ok {
				return true
			}
			e = x.X
		case *ast.StarExpr:
			return true
		case *ast.SelectorExpr:
			sel := pi.info.Selections[x]
			if sel == nil {
				return false
			}
			if sel.Indirect() {
				return true
			}
			if tv, ok := pi.info.Types[x.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Pointer); ok {
					return true
				}
			}
			e = x.X
		default:
			return false
		}
	}
}

// pure reports that evaluating an expression calls nothing but conversions
// and len and the like.
func pure(pi *pkgInfo, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.CallExpr:
			if tv, has := pi.info.Types[x.Fun]; has && tv.IsType() {
				break
			}
			if !isBuiltin(pi, x.Fun, "len") && !isBuiltin(pi, x.Fun, "cap") && !isBuiltin(pi, x.Fun, "min") && !isBuiltin(pi, x.Fun, "max") {
				ok = false
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// mentions reports whether an expression contains another one.
func (f *fileInfo) mentions(in *inst, e, what ast.Expr) bool {
	found := false
	txt := f.text(in, what)
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && f.text(in, x) == txt {
			found = true
		}
		return !found
	})
	return found
}

// mapKey gives an expression that identifies a map when evaluated at a
// position, or "".
func (in *inst) mapKey(pi *pkgInfo, f *fileInfo, e ast.Expr, at token.Pos) string {
	if !pure(pi, e) {
		return ""
	}
	known := true
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CompositeLit); ok {
			known = false
		}
		if id, ok := n.(*ast.Ident); ok {
			if o := pi.info.Uses[id]; o != nil {
				if vr, ok := o.(*types.Var); ok && !vr.IsField() && vr.Pkg() != nil && vr.Parent() != vr.Pkg().Scope() && vr.Pos() >= at {
					known = false
				}
			}
		}
		return known
	})
	if !known {
		return ""
	}
	return fmt.Sprintf("func() interface{} { return %s }, %q", f.text(in, e), f.text(in, e))
}

// mapReads identifies the maps a simple statement reads, ranges over or
// deletes from.
func (in *inst) mapReads(pi *pkgInfo, f *fileInfo, s ast.Stmt) []string {
	var out []string
	seen := map[string]bool{}
	add := func(e ast.Expr) {
		if isMap(pi, e) {
			if k := in.mapKey(pi, f, e, s.Pos()); k != "" && !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.IndexExpr:
			add(x.X)
		case *ast.RangeStmt:
			add(x.X)
		case *ast.CallExpr:
			if isBuiltin(pi, x.Fun, "delete") && len(x.Args) == 2 {
				add(x.Args[0])
			}
		}
		return true
	})
	return out
}

func (in *inst) exprs(v *variant, f *fileInfo, fn string, e ast.Expr) {
	ast.Inspect(e, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			in.body(v, f, fn, fl.Body)
			return false
		}
		return true
	})
	in.exprsSel(v, f, fn, e, nil)
}

// exprsSel rewrites make, goroutines and channel operations.
func (in *inst) exprsSel(v *variant, f *fileInfo, fn string, root ast.Node, inSelect map[ast.Stmt]bool) {
	pi := f.p
	skipRecv := map[ast.Expr]bool{}
	labels := 0
	var stack []ast.Node
	_, rootIsExpr := root.(ast.Expr)
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if fl, ok := n.(*ast.FuncLit); ok && rootIsExpr {
			_ = fl
			return false // done by body
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.CallExpr:
			if isBuiltin(pi, x.Fun, "make") && len(x.Args) >= 1 {
				if at, ok := x.Args[0].(*ast.ArrayType); ok && at.Len == nil && len(x.Args) >= 2 && v.name != "tools" {
					if id, ok := at.Elt.(*ast.Ident); ok && intKinds[id.Name] {
						if _, ok := pi.info.Uses[id].(*types.TypeName); ok && pi.info.Uses[id].Parent() == types.Universe {
							in.replace(f, x.Pos(), x.Args[0].End(), "verifrt.Make["+id.Name+"]")
							// the comma after the type becomes the parenthesis
							c := bytes.IndexByte(f.src[f.off(in, x.Args[0].End()):], ',')
							cp := x.Args[0].End() + token.Pos(c)
							in.replace(f, cp, cp+1, "(")
							for _, a := range x.Args[1:] {
								in.insert(f, a.Pos(), "int(")
								in.insertAfter(f, a.End(), ")")
							}
						}
					}
				}
				if ct, ok := x.Args[0].(*ast.ChanType); ok {
					sz := "0"
					in.replaceGen(f, x.Pos(), x.End(), func() string {
						if len(x.Args) > 1 {
							sz = "int(" + f.rendered(in, x.Args[1]) + ")"
						}
						return "verifrt.MakeChan[" + f.text(in, ct.Value) + "](" + sz + ")"
					})
				}
			}
			if isBuiltin(pi, x.Fun, "close") && len(x.Args) == 1 {
				in.replace(f, x.Fun.Pos(), x.Fun.End(), "verifrt.Close")
			}
		case *ast.GoStmt:
			in.goStmt(f, x)
		case *ast.SendStmt:
			if inSelect[x] {
				break
			}
			in.insert(f, x.Pos(), "verifrt.Send(")
			in.replace(f, x.Arrow, x.Arrow+2, ",")
			in.insertAfter(f, x.End(), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !inSelect[x] {
					skipRecv[u] = true
					in.replace(f, u.Pos(), u.OpPos+2, "verifrt.Recv2(")
					in.insertAfter(f, u.End(), ")")
				}
			}
			if inSelect[x] {
				for _, r := range x.Rhs {
					skipRecv[unparen(r)] = true
				}
			}
		case *ast.ExprStmt:
			if inSelect[x] {
				skipRecv[unparen(x.X)] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skipRecv[x] {
				in.replace(f, x.Pos(), x.OpPos+2, "verifrt.Recv(")
				in.insertAfter(f, x.End(), ")")
			}
		case *ast.RangeStmt:
			if isChan(pi, x.X) {
				in.rangeChan(f, x)
			} else if tv, ok := pi.info.Types[x.X]; ok && tv.Type != nil {
				if m, ok := tv.Type.Underlying().(*types.Map); ok {
					in.rangeMap(f, x, m)
				}
			}
		case *ast.SelectStmt:
			hasDef := false
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					hasDef = true
				}
			}
			if n := len(x.Body.List); n == 0 || n == 1 && hasDef {
				if n == 0 {
					in.replace(f, x.Pos(), x.End(), "verifrt.Forever()")
				}
				break
			}
			labels++
			id := fmt.Sprintf("%d_%d", f.off(in, x.Pos()), labels)
			at := x.Pos()
			if len(stack) >= 2 {
				if ls, ok := stack[len(stack)-2].(*ast.LabeledStmt); ok {
					at = ls.Pos()
				}
			}
			// Channels and values are evaluated once, and the simulator picks
			// one of the cases that can proceed.
			nh := 0
			hoist := func(e ast.Expr, ch string) string {
				nm := fmt.Sprintf("verifc%s_%d", id, nh+1)
				if ch == "" && !hasCall(e) {
					return ""
				}
				nh++
				if ch != "" {
					in.replace(f, e.Pos(), e.End(), fmt.Sprintf("verifrt."+ch+"(verifk%s, %d, %s)", id, nh-1, nm))
				} else {
					in.replace(f, e.Pos(), e.End(), nm)
				}
				ed := f.edits[len(f.edits)-1]
				from, to := f.off(in, e.Pos()), f.off(in, e.End())
				in.replaceGen(f, at, at, func() string { return nm + " := " + f.render(from, to, ed) + "; " })
				return nm
			}
			var ready, waits []string
			can := "CanSend"
			if hasDef {
				can = "TrySend"
			}
			for _, c := range x.Body.List {
				var rx ast.Expr
				switch cm := c.(*ast.CommClause).Comm.(type) {
				case *ast.SendStmt:
					nm := hoist(cm.Chan, "CaseSend")
					ready = append(ready, fmt.Sprintf("verifrt.%s(%d, %s)", can, nh-1, nm))
					hoist(cm.Value, "")
				case *ast.ExprStmt:
					rx = cm.X
				case *ast.AssignStmt:
					rx = cm.Rhs[0]
				}
				if u, ok := unparen2(rx).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					nm := hoist(u.X, "Case")
					ready = append(ready, fmt.Sprintf("verifrt.CanRecv(%d, %s)", nh-1, nm))
					waits = append(waits, "verifrt.ChanID("+nm+")")
				}
			}
			pick := fmt.Sprintf("verifk%s := verifrt.Pick(%s); ", id, strings.Join(ready, ", "))
			if hasDef {
				in.insert(f, at, pick)
				break
			}
			in.insert(f, at, "verifSel"+id+": "+pick)
			in.insert(f, x.Body.Rbrace, "; default: verifrt.Poll("+strings.Join(waits, ", ")+"); goto verifSel"+id+" ")
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && runtimeSim[x.Sel.Name] {
				if pn, ok := pi.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" {
					in.replace(f, x.Pos(), x.End(), "verifrt."+x.Sel.Name)
				}
			}
			if id, ok := x.X.(*ast.Ident); ok && x.Sel.Name == "GOARCH" {
				if pn, ok := pi.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" && v.arch != "amd64" {
					in.replace(f, x.Pos(), x.End(), strconv.Quote(v.arch))
				}
			}
		}
		return true
	})
}

// runtimeSim are the functions of package runtime the simulator replaces.
var runtimeSim = set("SetFinalizer Gosched NumCPU GOMAXPROCS NumGoroutine")

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func unparen2(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return unparen(e)
}

func (in *inst) goStmt(f *fileInfo, x *ast.GoStmt) {
	pi := f.p
	in.replaceGen(f, x.Pos(), x.End(), nil)
	e := f.edits[len(f.edits)-1]
	r := func(n ast.Node) string { return f.render(f.off(in, n.Pos()), f.off(in, n.End()), e) }
	e.gen = func() string {
		var pre, args []string
		for i, a := range x.Call.Args {
			if isConstOrNil(pi, a) {
				args = append(args, r(a))
				continue
			}
			nm := fmt.Sprintf("verifg%d", i)
			pre = append(pre, fmt.Sprintf("%s := %s; ", nm, r(a)))
			if x.Call.Ellipsis.IsValid() && i == len(x.Call.Args)-1 {
				nm += "..."
			}
			args = append(args, nm)
		}
		fun := r(x.Call.Fun)
		if _, lit := x.Call.Fun.(*ast.FuncLit); !lit {
			if tv, ok := pi.info.Types[x.Call.Fun]; ok && !tv.IsBuiltin() && !tv.IsType() {
				pre = append(pre, "veriff := "+fun+"; ")
				fun = "veriff"
			}
		}
		return "{ " + strings.Join(pre, "") + "verifrt.Go(func() { " + fun + "(" + strings.Join(args, ", ") + ") }) }"
	}
}

func (in *inst) rangeChan(f *fileInfo, x *ast.RangeStmt) {
	// The variables stay one per loop, as before Go 1.22.
	ch := func() string { return f.rendered(in, x.X) }
	in.replaceGen(f, x.For, x.Body.Lbrace+1, func() string {
		next := "verifok := false; if %s, verifok = verifrt.Recv2(verifc); !verifok { break }; "
		if x.Key == nil || isBlank(x.Key) {
			return "for verifc, _ := verifrt.RangeChan(" + ch() + "); ; { " + fmt.Sprintf(next, "_")
		}
		k := f.text(in, x.Key)
		if x.Tok == token.DEFINE {
			return "for verifc, " + k + " := verifrt.RangeChan(" + ch() + "); ; { " + fmt.Sprintf(next, k)
		}
		return "for verifc, verifx := verifrt.RangeChan(" + ch() + "); ; { " + fmt.Sprintf(next, "verifx") + k + " = verifx; "
	})
}

// rangeMap puts the order of a map under the simulator's control.
func (in *inst) rangeMap(f *fileInfo, x *ast.RangeStmt, m *types.Map) {
	pi := f.p
	vars := [2]ast.Expr{x.Key, x.Value}
	types_ := [2]types.Type{m.Key(), m.Elem()}
	var decl, addr [2]string
	for i, e := range vars {
		decl[i], addr[i] = "_", "nil"
		if e == nil || isBlank(e) {
			continue
		}
		addr[i] = "&" + f.text(in, e)
		if x.Tok == token.DEFINE {
			decl[i] = f.text(in, e)
			continue
		}
		if _, ok := e.(*ast.Ident); !ok || !types.Identical(pi.info.Types[e].Type, types_[i]) {
			return
		}
	}
	in.replaceGen(f, x.For, x.Body.Lbrace+1, func() string {
		return fmt.Sprintf("for verifm, %s, %s := verifrt.RangeMap(%s); verifm.Next(%s, %s); { ", decl[0], decl[1], f.rendered(in, x.X), addr[0], addr[1])
	})
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// ---- simulated standard packages

var simSupport = map[string]map[string]bool{
	"math/rand":    set("Rand Source Source64 Zipf New NewSource NewZipf Seed Uint32 Uint64 Int63 Int31 Int Int63n Int31n Intn Float64 Float32 NormFloat64 ExpFloat64 Perm Shuffle Read"),
	"math/rand/v2": set("Rand Source Zipf PCG ChaCha8 New NewPCG NewChaCha8 NewZipf Uint32 Uint64 Uint Int64 Int32 Int Int64N Int32N IntN Uint64N Uint32N UintN Float64 Float32 NormFloat64 ExpFloat64 Perm Shuffle N"),
	"time":         set("Duration Time Month Nanosecond Microsecond Millisecond Second Minute Hour Now Since Until Unix UnixMilli UnixMicro Sleep Timer Ticker NewTimer NewTicker AfterFunc After Tick Weekday Location ParseError ANSIC UnixDate RFC822 RFC1123 RFC3339 RFC3339Nano Kitchen Stamp StampMilli UTC Local ParseDuration Parse Date"),
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// baseName is the name a standard package is imported under.
func baseName(p string) string {
	if b := path.Base(p); b != "v2" {
		return b
	}
	return path.Base(path.Dir(p))
}

// simSupports reports whether the stand-in has everything the file uses.
func simSupports(p string, file *ast.File, im *ast.ImportSpec) bool {
	sup, ok := simSupport[p]
	if !ok {
		return true
	}
	name := baseName(p)
	if im.Name != nil {
		name = im.Name.Name
	}
	if name == "." || name == "_" {
		return false
	}
	good := true
	ast.Inspect(file, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil && !sup[se.Sel.Name] {
				good = false
			}
		}
		return true
	})
	return good
}

// ---- output

func (in *inst) write(v *variant, world, node string, num int) error {
	for _, pi := range v.order {
		dir := filepath.Join(world, node, filepath.FromSlash(open_(pi.rel)))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		sub := func(s string) string {
			s = strings.ReplaceAll(s, "VERIFNODE", node)
			return strings.ReplaceAll(s, "VERIFNUM", strconv.Itoa(num))
		}
		byObj := map[types.Object]string{}
		var rest []string
		for i, f := range pi.files {
			out := sub(f.render(0, len(f.src), nil))
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d_x.go", i)), []byte(out), 0o644); err != nil {
				return err
			}
			for _, r := range f.resets {
				for _, o := range r.objs {
					if o != nil {
						byObj[o] = r.fn
					}
				}
				rest = append(rest, r.fn)
			}
		}
		// reset in initialisation order: variables without initialiser first
		var seq []string
		did := map[string]bool{}
		hasInit := map[string]bool{}
		for _, io := range pi.info.InitOrder {
			for _, l := range io.Lhs {
				hasInit[byObj[l]] = true
			}
		}
		for _, fn := range rest {
			if !hasInit[fn] && !did[fn] {
				did[fn] = true
				seq = append(seq, fn)
			}
		}
		for _, io := range pi.info.InitOrder {
			for _, l := range io.Lhs {
				if fn := byObj[l]; fn != "" && !did[fn] {
					did[fn] = true
					seq = append(seq, fn)
				}
			}
		}
		name := pi.name
		if pi.main {
			name = "toolmain"
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nfunc VerifReset() {\n", name)
		for _, s := range seq {
			fmt.Fprintf(&sb, "\t%s()\n", s)
		}
		sb.WriteString("\tverifInits()\n}\n\nfunc verifInits() {\n")
		for _, f := range pi.files {
			for k := 1; k <= f.inits; k++ {
				fmt.Fprintf(&sb, "\tverifInit_%s_%d()\n", ident(f.name), k)
			}
		}
		sb.WriteString("}\n\nfunc init() { verifInits() }\n")
		if err := os.WriteFile(filepath.Join(dir, "zz_reset.go"), []byte(sb.String()), 0o644); err != nil {
			return err
		}
		for i, a := range pi.asm {
			b, err := os.ReadFile(a)
			if err != nil {
				return err
			}
			s := string(b)
			for _, n := range pi.bodylss {
				s = regexp.MustCompile(`·`+regexp.QuoteMeta(n)+`(<>)?\(SB\)`).ReplaceAllString(s, "·verifasm_"+n+"${1}(SB)")
			}
			s = regexp.MustCompile(`(?m)^//\s*(go:build|\+build).*$`).ReplaceAllString(s, "//")
			nm := fmt.Sprintf("a%d_x.s", i)
			if strings.HasSuffix(a, ".h") {
				nm = filepath.Base(a)
			}
			if err := os.WriteFile(filepath.Join(dir, nm), []byte(s), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

func writeJSON(p string, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}
