package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// node is one simulated machine.
type node struct {
	dir  string // package directory in the world
	name string
	v    string // variant
	has  string // CPU extensions that are physically there
	bits string // what the feature mask reports; "" means has
}

const sseAll = "SSE2 SSE3 SSSE3 SSE41 SSE42 "

// nodes lists the fleet. The portable one comes last: it is left out of the
// checks of other properties when the tree does not build for it.
var nodes = []node{
	{"n0", "x86-64 with AVX2", "amd64", sseAll + "AVX AVX2 FMA BMI1 BMI2 POPCNT ADX AES PCLMULQDQ ERMS RDRAND OSXSAVE", ""},
	{"n1", "x86-64 with AVX only", "amd64", sseAll + "AVX POPCNT AES PCLMULQDQ OSXSAVE", ""},
	{"n2", "x86-64 without AVX", "amd64", "SSE2", ""},
	{"n3", "x86-64 whose mask shows AVX2 but not AVX", "amd64", sseAll + "POPCNT", sseAll + "AVX2 POPCNT"},
	{"n4", "x86-64 with AVX2 but no BMI and POPCNT", "amd64", sseAll + "AVX AVX2 OSXSAVE", ""},
	{"n5", "not x86-64", "portable", "", ""},
}

// nodes32 is the fleet of the second world, which is compiled for 32-bit
// machines: the same source, with int, uint and pointers of 4 bytes.
var nodes32 = []node{
	{"n0", "32-bit x86", "portable", "", ""},
	{"n1", "32-bit x86, another", "portable", "", ""},
	{"n2", "32-bit x86, a third", "portable", "", ""},
}

type world struct {
	arch     string // GOARCH it is compiled for
	dir      string
	sites    int
	nodes    []string
	noPort   []error // why there is no portable node
	badArch  string
	hot      int
	asmNames []string
	asmNeed  map[string][]string
	files    int
	buildS   float64
}

func goCmd(dir string, args ...string) *exec.Cmd {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOOS=linux", "GOARCH=amd64")
	return cmd
}

func runCmd(cmd *exec.Cmd) (string, error) {
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err := cmd.Run()
	return b.String(), err
}

// toolErr is trouble with the machinery or the tree that decides nothing.
type toolErr struct{ s string }

func (e toolErr) Error() string { return e.s }

func fatalf(f string, a ...interface{}) error { return toolErr{fmt.Sprintf(f, a...)} }

func copyTree(from, to string, skip func(rel string, fi os.FileInfo) bool) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if rel != "." && skip != nil && skip(rel, fi) {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

// prepare copies the working tree, so that nothing is ever run inside it.
func prepare(repo, scratch string) (string, error) {
	src := filepath.Join(scratch, "src")
	err := copyTree(repo, src, func(rel string, fi os.FileInfo) bool {
		return rel == ".git"
	})
	return src, err
}

func modulePath(dir string) (string, []string, error) {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return "", nil, err
	}
	mod := ""
	var req []string
	in := false
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "module "):
			mod = strings.Trim(strings.TrimSpace(t[7:]), `"`)
		case t == "require (":
			in = true
		case t == ")":
			in = false
		case strings.HasPrefix(t, "require "):
			req = append(req, t[8:])
		case in && t != "" && !strings.HasPrefix(t, "//"):
			req = append(req, t)
		}
	}
	if mod == "" {
		return "", nil, fmt.Errorf("no module line in go.mod")
	}
	return mod, req, nil
}

// externals lists the packages from outside the module that the tree imports.
func externals(in *inst, vs ...*variant) []string {
	seen := map[string]bool{"unsafe": true, "C": true}
	var out []string
	for _, v := range vs {
		for _, pi := range v.pkgs {
			for _, f := range pi.files {
				for _, im := range f.ast.Imports {
					p, _ := strconv.Unquote(im.Path.Value)
					if seen[p] || p == in.module || strings.HasPrefix(p, in.module+"/") {
						continue
					}
					seen[p] = true
					out = append(out, p)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func newInst(src string) (*inst, []string, error) {
	mod, req, err := modulePath(src)
	if err != nil {
		return nil, nil, err
	}
	return &inst{repo: src, module: mod, fset: token.NewFileSet(), siteIDs: map[string]int{}, sites: []string{"?"},
		asmIDs: map[string]int{}, hot: map[types.Object]bool{}, hotTypes: map[types.Object]bool{}}, req, nil
}

func writeMod(dir string, req []string, src string) error {
	var sb strings.Builder
	sb.WriteString("module simworld\n\ngo 1.21\n")
	if len(req) > 0 {
		sb.WriteString("\nrequire (\n")
		for _, r := range req {
			sb.WriteString("\t" + r + "\n")
		}
		sb.WriteString(")\n")
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(sb.String()), 0o644); err != nil {
		return err
	}
	if b, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		return os.WriteFile(filepath.Join(dir, "go.sum"), b, 0o644)
	}
	return nil
}

func stdMap(extra map[string]string) map[string]string {
	m := map[string]string{"sync": "simworld/simsync", "math/rand": "simworld/simrand", "math/rand/v2": "simworld/simrand2", "time": "simworld/simtime"}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

// buildCodec makes the world of the codec simulations: one instrumented copy
// of the library per node.
func buildCodec(verif, src, scratch string, arch string) (*world, error) {
	w := &world{arch: arch, dir: filepath.Join(scratch, "world-"+arch), asmNeed: map[string][]string{}}
	if err := copyTree(filepath.Join(verif, "world"), w.dir, nil); err != nil {
		return nil, err
	}
	in, req, err := newInst(src)
	if err != nil {
		return nil, err
	}
	if err := writeMod(w.dir, req, src); err != nil {
		return nil, err
	}
	cpuMap := map[string]string{"golang.org/x/sys/cpu": "simworld/VERIFNODE/simcpu"}
	amd := &variant{name: "amd64", arch: "amd64", std: stdMap(cpuMap)}
	port := &variant{name: "portable", arch: portableArch, std: stdMap(cpuMap)}
	vs := []*variant{amd, port}
	for _, a := range otherArchs {
		if a != portableArch {
			vs = append(vs, &variant{name: "portable", arch: a, std: stdMap(cpuMap)})
		}
	}
	fleet := nodes
	if arch != "amd64" {
		amd = &variant{name: "portable", arch: arch, std: stdMap(cpuMap)}
		port, vs, fleet = amd, []*variant{amd}, nodes32
	}
	for _, v := range vs {
		v.pkgs = map[string]*pkgInfo{}
		if err := in.findPkgs(v, nil); err != nil {
			if v != amd {
				w.noPort = append(w.noPort, err)
				w.badArch = v.arch
				continue
			}
			return nil, fatalf("%v", err)
		}
	}
	in.ext, err = extImporter(src, in.fset, externals(in, vs...))
	if err != nil {
		return nil, fatalf("%v", err)
	}
	terr, err := in.typecheck(amd)
	if err != nil || len(terr) > 0 {
		return nil, fatalf("the tree does not type-check: %v %v", err, terr)
	}
	for _, v := range vs[1:] {
		terr, err = in.typecheck(v)
		if err != nil {
			terr = append(terr, err)
		}
		if len(terr) > 0 {
			w.noPort = append(w.noPort, terr...)
			w.badArch = v.arch
			break
		}
	}
	vs = vs[:1]
	if len(w.noPort) == 0 && port != amd {
		vs = append(vs, port)
	}
	for _, v := range vs {
		in.findHot(v)
		in.findHotTypes()
	}
	for _, v := range vs {
		for _, pi := range v.order {
			for _, f := range pi.files {
				if err := in.instrument(v, f); err != nil {
					return nil, fatalf("%v", err)
				}
				w.files++
			}
		}
	}
	var glue strings.Builder
	glue.WriteString("// Package glue connects the nodes to the simulator. Generated.\npackage glue\n\nimport (\n\"simworld/engine\"\n\"simworld/rt\"\n")
	var body strings.Builder
	num := 0
	var cpus strings.Builder
	for _, n := range fleet {
		v := amd
		if n.v == "portable" {
			if len(w.noPort) > 0 {
				continue
			}
			v = port
		}
		if err := in.write(v, w.dir, n.dir, num); err != nil {
			return nil, err
		}
		if err := writeCPU(src, w.dir, n); err != nil {
			return nil, fatalf("simulated CPU: %v", err)
		}
		imps, b, err := nodeGlue(in, v, n, num)
		if err != nil {
			return nil, err
		}
		glue.WriteString(imps)
		body.WriteString(b)
		fmt.Fprintf(&cpus, "{Name: %q, Has: map[string]bool{", n.name)
		for _, h := range strings.Fields(n.has) {
			fmt.Fprintf(&cpus, "%q: true, ", h)
		}
		cpus.WriteString("}},\n")
		w.nodes = append(w.nodes, n.name)
		num++
	}
	glue.WriteString(")\n\nvar sites = []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&glue, "%q,\n", s)
	}
	glue.WriteString("}\n\n// Site names a decision point.\nfunc Site(i int32) string {\nif i <= 0 { return rt.PrimName(i) }\nif int(i) >= len(sites) { return \"?\" }\nreturn sites[i]\n}\n\n")
	glue.WriteString("// Install fills in the nodes.\nfunc Install() {\nrt.SetCPUs([]rt.CPU{\n" + cpus.String() + "}, []rt.AsmFn{\n")
	for _, a := range in.asmFns {
		fmt.Fprintf(&glue, "{Name: %q, Need: %#v},\n", a.Name, a.Need)
		w.asmNames = append(w.asmNames, a.Name)
		w.asmNeed[a.Name] = a.Need
	}
	glue.WriteString("})\n" + body.String() + "}\n")
	if err := os.MkdirAll(filepath.Join(w.dir, "glue"), 0o755); err != nil {
		return nil, err
	}
	gsrc, err := format.Source([]byte(glue.String()))
	if err != nil {
		return nil, fatalf("glue: %v\n%s", err, glue.String())
	}
	if err := os.WriteFile(filepath.Join(w.dir, "glue", "glue.go"), gsrc, 0o644); err != nil {
		return nil, err
	}
	w.sites, w.hot = len(in.sites), in.hotN
	build := goCmd(w.dir, "build", "-o", filepath.Join(scratch, "worker-"+arch), "./cmd/worker")
	build.Env = append(build.Env, "GOARCH="+arch, "CGO_ENABLED=0")
	if out, err := runCmd(build); err != nil {
		return nil, fatalf("building the simulated world: %v\n%s", err, out)
	}
	return w, nil
}

// apiFns: function name -> package, engine field ("" for a map keyed by name).
var apiFns = []struct{ pkg, names, sig, field string }{
	{"pkg/stream/writer", "WriteAll WriteAllScalar WriteAllFast", "func([]uint32) []byte", "E"},
	{"pkg/stream/writer", "WriteAllDelta WriteAllDeltaScalar WriteAllDeltaFast", "func([]uint32, uint32) []byte", "ED"},
	{"pkg/stream/reader", "ReadAll ReadAllScalar ReadAllFast", "func(int, []byte, []uint32)", "D"},
	{"pkg/stream/reader", "ReadAllDelta ReadAllDeltaScalar ReadAllDeltaFast", "func(int, []byte, []uint32, uint32)", "DD"},
	{"pkg/encode", "Put8uint32 Put8uint32Scalar Put8uint32Fast", "func([]uint32, []byte) uint16", "P8"},
	{"pkg/encode", "Put8uint32Delta Put8uint32DeltaScalar Put8uint32DeltaFast", "func([]uint32, []byte, uint32) uint16", "P8D"},
	{"pkg/encode", "Put4uint32Scalar", "func([]uint32, []byte) uint8", "P4"},
	{"pkg/encode", "Put4uint32DeltaScalar", "func([]uint32, []byte, uint32) uint8", "P4D"},
	{"pkg/encode", "PutUint32Scalar", "func([]uint32, []byte, int) uint8", "PN"},
	{"pkg/encode", "PutUint32DeltaScalar", "func([]uint32, []byte, int, uint32) uint8", "PND"},
	{"pkg/decode", "Get8uint32 Get8uint32Scalar Get8uint32Fast", "func([]byte, []uint32, uint16)", "G8"},
	{"pkg/decode", "Get8uint32Delta Get8uint32DeltaScalar Get8uint32DeltaFast", "func([]byte, []uint32, uint16, uint32)", "G8D"},
	{"pkg/decode", "Get4uint32Scalar", "func([]byte, []uint32, uint8)", "G4"},
	{"pkg/decode", "Get4uint32DeltaScalar", "func([]byte, []uint32, uint8, uint32)", "G4D"},
	{"pkg/decode", "GetUint32Scalar", "func([]byte, []uint32, uint8, int) int", "GN"},
	{"pkg/decode", "GetUint32DeltaScalar", "func([]byte, []uint32, uint8, int, uint32) int", "GND"},
	{"pkg/util", "PutVarint", "func([]uint32, []byte) int", "=VP"},
	{"pkg/util", "GetVarint", "func([]byte, []uint32) int", "=VG"},
	{"pkg/util", "PutDeltaVarint", "func([]uint32, []byte, uint32) int", "=VPD"},
	{"pkg/util", "GetDeltaVarint", "func([]byte, []uint32, uint32) int", "=VGD"},
	{"pkg/util", "Delta", "func([]uint32, []uint32)", "=Delta"},
	{"pkg/util", "SortUint32", "func([]uint32)", "=Sort"},
	{"pkg/util", "RandUint32", "func() uint32", "=Rand"},
	{"pkg/util", "GenUint32", "func(int) []uint32", "=Gen"},
	{"pkg/shared", "ControlByteToSize", "func(uint8) int", "=Size1"},
	{"pkg/shared", "ControlByteToSizeTwo", "func(uint16) int", "=Size2"},
}

func sigOf(o types.Object) string {
	f, ok := o.(*types.Func)
	if !ok {
		return ""
	}
	s := f.Type().(*types.Signature)
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, strings.ReplaceAll(s.Params().At(i).Type().String(), "byte", "uint8"))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, strings.ReplaceAll(s.Results().At(i).Type().String(), "byte", "uint8"))
	}
	r := strings.Join(rs, ", ")
	if len(rs) > 0 {
		r = " " + r
	}
	return "func(" + strings.Join(ps, ", ") + ")" + r
}

func nodeGlue(in *inst, v *variant, n node, num int) (imports, body string, err error) {
	var im, b strings.Builder
	alias := map[string]string{}
	var resets []string
	for _, pi := range v.order {
		if pi.main {
			continue
		}
		a := fmt.Sprintf("%s_%s", n.dir, ident(pi.rel))
		alias[pi.rel] = a
		rel := "/" + open_(pi.rel)
		if pi.rel == "." {
			rel = ""
		}
		fmt.Fprintf(&im, "%s %q\n", a, "simworld/"+n.dir+rel)
		resets = append(resets, a+".VerifReset()")
	}
	fmt.Fprintf(&b, "engine.Nodes = append(engine.Nodes, engine.API{Name: %q,\n", fmt.Sprintf("node %d (%s)", num, n.name))
	fmt.Fprintf(&b, "Reset: func() {\n%s\n},\n", strings.Join(resets, "\n"))
	mode := func(pkg, field string) error {
		pi := v.pkgs[in.module+"/"+pkg]
		if pi == nil || pi.tpkg.Scope().Lookup("GetMode") == nil {
			return fatalf("%s.GetMode not found (%s)", pkg, v.name)
		}
		fmt.Fprintf(&b, "%s: func() bool { return int(%s.GetMode()) == int(%s.Fast) },\n", field, alias[pkg], alias["pkg/shared"])
		return nil
	}
	if err := mode("pkg/encode", "EncFast"); err != nil {
		return "", "", err
	}
	if err := mode("pkg/decode", "DecFast"); err != nil {
		return "", "", err
	}
	for _, g := range apiFns {
		pi := v.pkgs[in.module+"/"+g.pkg]
		if pi == nil {
			return "", "", fatalf("package %s not found", g.pkg)
		}
		var ents []string
		for _, name := range strings.Fields(g.names) {
			o := pi.tpkg.Scope().Lookup(name)
			if o == nil {
				if v.name == "portable" && strings.HasSuffix(name, "Fast") {
					continue
				}
				return "", "", fatalf("%s.%s not found (%s)", g.pkg, name, v.name)
			}
			if got := sigOf(o); got != strings.ReplaceAll(g.sig, "byte", "uint8") {
				return "", "", fatalf("%s.%s has signature %s, not %s", g.pkg, name, got, g.sig)
			}
			if g.field[0] == '=' {
				fmt.Fprintf(&b, "%s: %s.%s,\n", g.field[1:], alias[g.pkg], name)
			} else {
				ents = append(ents, fmt.Sprintf("%q: %s.%s", name, alias[g.pkg], name))
			}
		}
		if g.field[0] != '=' {
			fmt.Fprintf(&b, "%s: map[string]%s{%s},\n", g.field, g.sig, strings.Join(ents, ", "))
		}
	}
	b.WriteString("})\n")
	return im.String(), b.String(), nil
}

// writeCPU writes the node's stand-in for golang.org/x/sys/cpu: the package's
// own declarations, with the feature mask of the simulated machine.
func writeCPU(src, worldDir string, n node) error {
	out, err := goCmd(src, "list", "-f", "{{.Dir}}", "golang.org/x/sys/cpu").Output()
	if err != nil {
		// the tree no longer imports it
		return nil
	}
	fset := token.NewFileSet()
	file := filepath.Join(strings.TrimSpace(string(out)), "cpu.go")
	text, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	f, err := parser.ParseFile(fset, file, text, 0)
	if err != nil {
		return err
	}
	var sb strings.Builder
	sb.WriteString("// Package cpu is the simulated machine's feature mask. Generated.\npackage cpu\n\nconst cacheLineSize = 64\n\n")
	fields := map[string]bool{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || (gd.Tok != token.VAR && gd.Tok != token.TYPE) {
			continue
		}
		for _, sp := range gd.Specs {
			name := ""
			switch x := sp.(type) {
			case *ast.ValueSpec:
				name = x.Names[0].Name
				if name == "X86" {
					if st, ok := x.Type.(*ast.StructType); ok {
						for _, fl := range st.Fields.List {
							for _, nm := range fl.Names {
								fields[nm.Name] = true
							}
						}
					}
				}
			case *ast.TypeSpec:
				name = x.Name.Name
			}
			if !ast.IsExported(name) {
				continue
			}
			fmt.Fprintf(&sb, "%s %s\n\n", gd.Tok, text[fset.Position(sp.Pos()).Offset:fset.Position(sp.End()).Offset])
		}
	}
	sb.WriteString("func init() {\nInitialized = true\n")
	bits := n.bits
	if bits == "" {
		bits = n.has
	}
	for _, h := range strings.Fields(bits) {
		if fields["Has"+h] {
			fmt.Fprintf(&sb, "X86.Has%s = true\n", h)
		}
	}
	sb.WriteString("}\n")
	dir := filepath.Join(worldDir, n.dir, "simcpu")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "cpu.go"), []byte(sb.String()), 0o644)
}
