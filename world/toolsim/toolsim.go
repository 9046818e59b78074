// Package toolsim simulates runs of the repository's two file-writing tools on
// a disk that fails.
package toolsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
	"unicode/utf8"

	"simworld/engine"
	"simworld/rt"
	"simworld/simflag"
	"simworld/simlog"
	"simworld/simos"
)

// Tool is one program of the repository.
type Tool struct {
	Reset func()
	Main  func()
}

// GenTables and Readme are filled in by the generated glue.
var GenTables, Readme Tool

// Doc describes a README.
type Doc struct {
	Seed   uint64 `json:"seed"`
	Before int    `json:"before"` // paragraphs before the benchmark block
	Old    int    `json:"old"`    // lines in the old block
	After  int    `json:"after"`  // paragraphs after it
	Form   int    `json:"form,omitempty"`
	Fences bool   `json:"fences,omitempty"` // other code blocks
}

// Log describes what the updater reads on standard input.
type Log struct {
	Seed  uint64 `json:"seed"`
	Pkgs  int    `json:"pkgs"`
	Lines int    `json:"n"` // benchmark lines per package
	Noise bool   `json:"noise,omitempty"`
	CRLF  bool   `json:"crlf,omitempty"`
	Long  int    `json:"long,omitempty"` // one line of this length
	NoEOL bool   `json:"noEOL,omitempty"`
}

// Step is one execution of a tool, or (Edit) a new README put in place.
type Step struct {
	Tool   string        `json:"tool"` // gentables, readme
	Edit   *Doc          `json:"edit,omitempty"`
	Junk   int           `json:"junk,omitempty"` // gentables: bytes already in the target file
	Out    string        `json:"out,omitempty"`
	Pkg    string        `json:"pkg,omitempty"`
	Print  bool          `json:"print,omitempty"`
	In     Log           `json:"in"`
	Faults []simos.Fault `json:"faults,omitempty"`
	Free   int           `json:"free,omitempty"`     // 1 + bytes left on the disk, counting the old target file as free
	Short  int           `json:"shortMax,omitempty"` // reads return at most this much
}

// Spec is one simulated history.
type Spec struct {
	Prop  string `json:"prop"`
	Seed  uint64 `json:"seed"`
	Home  bool   `json:"home,omitempty"` // SBYTE_HOME is set
	Doc   Doc    `json:"doc"`
	Steps []Step `json:"steps"`
}

const (
	startS = "## Benchmarks\n\n```text\n"
	endS   = "```\n"
)

var words = strings.Fields("stream vbyte control data bytes shuffle mask register decode encode integers delta block `code` (link) # * 123 == é 整数 --")

func para(r *rt.Rng) string {
	var sb strings.Builder
	for i, n := 0, 1+r.Intn(30); i < n; i++ {
		sb.WriteString(words[r.Intn(len(words))])
		if r.Intn(9) == 0 {
			sb.WriteByte('\n')
		} else {
			sb.WriteByte(' ')
		}
	}
	sb.WriteByte('\n')
	return sb.String()
}

func (d Doc) text() []byte {
	r := rt.NewRng(d.Seed)
	var sb strings.Builder
	part := func(n int) {
		for i := 0; i < n; i++ {
			sb.WriteString(para(&r))
			if d.Fences && r.Bool(0.4) {
				sb.WriteString("\n```\n" + para(&r) + "```\n\n")
			} else if d.Fences && r.Bool(0.2) {
				sb.WriteString("```go\nfmt.Println(1)\n```\n")
			}
		}
	}
	if d.Form != 1 { // 1: starts with the block
		sb.WriteString("# Stream VByte\n\n")
		part(d.Before)
	}
	if d.Form == 2 { // no block
		part(d.After)
		return []byte(sb.String())
	}
	sb.WriteString(startS)
	for i := 0; i < d.Old; i++ {
		fmt.Fprintf(&sb, "Old%d-8 \t%d\t%d ns/op\n", i, r.Intn(1000000), r.Intn(999))
	}
	switch d.Form {
	case 3: // block without end
		return []byte(sb.String())
	case 4: // end fence at the end of the file
		sb.WriteString(endS)
		return []byte(sb.String())
	case 5: // end fence without newline
		sb.WriteString("```")
		return []byte(sb.String())
	}
	sb.WriteString(endS)
	part(d.After)
	switch d.Form {
	case 6: // a second block
		sb.WriteString("\n" + startS + "old\n" + endS)
		part(d.After)
	case 7: // no newline at the end
		sb.WriteString("the end")
	case 8: // bytes that are no text
		for i := 0; i < 40; i++ {
			sb.WriteByte(byte(r.U32()))
		}
	}
	return []byte(sb.String())
}

// text returns the input and the lines that must end up in the block.
func (l Log) text() (in []byte, must []string) {
	r := rt.NewRng(l.Seed)
	var sb strings.Builder
	eol := "\n"
	if l.CRLF {
		eol = "\r\n"
	}
	add := func(s string, m bool) {
		sb.WriteString(s + eol)
		if m {
			must = append(must, s)
		}
	}
	longAt := -1
	if l.Long > 0 && l.Pkgs > 0 && l.Lines > 0 {
		longAt = r.Intn(l.Pkgs * l.Lines)
	}
	k := 0
	for p := 0; p < l.Pkgs; p++ {
		if l.Noise && r.Bool(0.3) {
			add("?   \tgithub.com/x/y\t[no test files]", false)
		}
		add("goos: linux", true)
		add("goarch: amd64", true)
		add(fmt.Sprintf("pkg: github.com/theMPatel/streamvbyte-simdgo/p%d", p), true)
		add("cpu: Simulated CPU @ 2.60GHz", true)
		for i := 0; i < l.Lines; i++ {
			s := fmt.Sprintf("BenchmarkThing%d%s-8 \t%8d\t%9.3f ns/op\t%d MB/s", i, words[r.Intn(5)], r.Intn(100000000), r.Float()*1000, r.Intn(9999))
			switch {
			case r.Intn(40) == 0:
				s = "Benchmark"
			case r.Intn(40) == 0:
				s = "BenchmarkBenchmarkX-8 \t1\t2 ns/op"
			case r.Intn(60) == 0:
				s = "Benchmark`x`-8 \t1\t2 ns/op"
			}
			if k == longAt {
				s += strings.Repeat("x", l.Long)
			}
			add(s, true)
			k++
			if l.Noise && r.Bool(0.1) {
				add("--- BENCH: note", false)
			}
			if l.Noise && r.Bool(0.05) {
				add("", false)
			}
		}
		if l.Noise {
			add("PASS", false)
			add("ok  \tgithub.com/theMPatel/x\t12.3s", false)
		}
	}
	b := []byte(sb.String())
	if l.NoEOL && len(b) > 0 {
		b = bytes.TrimSuffix(b, []byte(eol))
	}
	return b, must
}

// Gen makes the run with this seed.
func Gen(prop string, seed uint64) *Spec {
	r := rt.NewRng(seed)
	sp := &Spec{Prop: prop, Seed: seed, Home: r.Bool(0.85), Doc: genDoc(&r)}
	n := r.Pick(1, 1, 1, 2, 2, 3, 4)
	slow := r.Bool(0.2)
	for i := 0; i < n; i++ {
		st := Step{Tool: "readme"}
		if slow && i < 2 {
			st.Tool = "gentables"
		}
		if st.Tool == "gentables" {
			st.Out = []string{"/repo/pkg/shared/tables.go", "tables.go", "/repo/tables.go", "/missing/tables.go", ""}[r.Pick(0, 0, 0, 1, 1, 2, 2, 2, 3, 4)]
			st.Pkg = []string{"", "", "", "shared", "other", "x", "bad name", "func"}[r.Intn(8)]
			if r.Bool(0.5) {
				st.Junk = 1 + r.Intn(60000)
			}
		} else {
			if i > 0 && r.Bool(0.3) {
				d := genDoc(&r)
				st.Edit = &d
			}
			st.Print = r.Bool(0.12)
			st.In = Log{Seed: r.U64() >> 16, Pkgs: r.Pick(0, 1, 1, 2, 3), Lines: r.Pick(0, 1, 2, 5, 20), Noise: r.Bool(0.5), CRLF: r.Bool(0.05), NoEOL: r.Bool(0.2)}
			if r.Bool(0.06) {
				st.In.Long = r.Pick(4000, 65400, 65536, 66000, 200000)
			}
			if r.Bool(0.05) {
				st.In.Lines = 100 + r.Intn(400)
			}
		}
		if r.Bool(0.3) {
			st.Short = r.Pick(1, 3, 17, 100, 511, 600)
		}
		if r.Bool(0.2) {
			st.Free = 1 + r.Intn(r.Pick(10, 1000, 5000, 40000))
		}
		for k, m := 0, r.Pick(0, 1, 1, 1, 2, 3); k < m; k++ {
			f := genFault(&r)
			if st.Print && f.Op == "write" {
				f.On = "stdout"
			}
			st.Faults = append(st.Faults, f)
		}
		sp.Steps = append(sp.Steps, st)
	}
	return sp
}

func genDoc(r *rt.Rng) Doc {
	d := Doc{Seed: r.U64() >> 16, Before: r.Intn(6), Old: r.Pick(0, 1, 5, 40), After: r.Intn(8), Fences: r.Bool(0.6)}
	if r.Bool(0.4) {
		d.Form = r.Intn(9)
	}
	if r.Bool(0.05) {
		d.After += 60
	}
	return d
}

func genFault(r *rt.Rng) simos.Fault {
	errs := []string{"EIO", "EIO", "ENOSPC", "EACCES", "EDQUOT", "EINTR", "ESTALE", "EMFILE", "EROFS"}
	f := simos.Fault{Err: errs[r.Intn(len(errs))]}
	switch r.Intn(14) {
	case 0:
		f.Op = "open"
	case 1:
		f.Op = "create"
		f.N = r.Pick(0, 0, 0, 1)
		f.K = r.Intn(2)
	case 2, 3:
		f.Op = "read"
		f.N = int(r.Exp() * 6)
		if r.Bool(0.3) {
			f.Err, f.K = "", r.Intn(600)
		}
	case 4, 5:
		f.Op, f.On = "read", "stdin"
		f.N = int(r.Exp() * float64(r.Pick(1, 4)))
		if r.Bool(0.3) {
			f.Err, f.K = "", r.Intn(600)
		}
	case 6, 7, 8:
		f.Op = "write"
		f.N = r.Pick(0, 0, 0, 0, 1, 2, int(r.Exp()*8))
		switch r.Intn(4) {
		case 1:
			f.K = r.Intn(20)
		case 2:
			f.K = r.Intn(4000)
		case 3:
			f.K = 1 << 30 // all but the last byte
		}
	case 9, 10:
		f.Op = "close"
		f.N = r.Pick(0, 0, 0, 1)
		if r.Bool(0.7) {
			f.Lost = r.Pick(1, 10, 100, 4096, 1<<30)
		}
	case 11:
		f.Op = "close of a file read"
	case 12:
		f.Op = []string{"sync", "rename", "stat", "truncate", "remove"}[r.Intn(5)]
		f.Lost = r.Pick(0, 100)
	case 13: // the process is killed there
		f.Op = []string{"open", "create", "read", "write", "close", "sync", "rename"}[r.Intn(7)]
		f.Err, f.K = "KILL", r.Intn(3000)
		f.N = r.Pick(0, 0, 1)
	}
	return f
}

type proc struct {
	status int
	w      *simos.World
	note   string
}

// start executes a tool to its end.
func start(sp *Spec, st *Step, fs *simos.FS, faults []simos.Fault, short int, stdin []byte, c *engine.Counters) (proc, *rt.Sched) {
	rt.Reset()
	rt.SeedRun(sp.Seed)
	rt.ArenaOn(false)
	w := &simos.World{FS: fs, Env: map[string]string{"HOME": "/sim", "PATH": "/bin"}, Faults: faults, ShortMax: short}
	if sp.Home {
		w.Env["SBYTE_HOME"] = "/repo"
	}
	tool := Readme
	args := []string{"tool"}
	if st.Tool == "gentables" {
		tool = GenTables
		if st.Out != "" {
			args = append(args, "-out", st.Out)
		}
		if st.Pkg != "" {
			args = append(args, "-package", st.Pkg)
		}
	} else if !st.Print {
		args = append(args, "-w")
	}
	simos.Boot(w, args, stdin)
	simflag.Boot()
	simlog.Boot()
	s := rt.NewSched(rt.Policy{Mode: "serial", Seed: sp.Seed}, nil, false)
	note := ""
	s.Add("main", 0, func() {
		defer func() {
			if p := recover(); p != nil {
				note = fmt.Sprint(p)
				w.End(2)
			}
		}()
		tool.Reset()
		tool.Main()
		w.End(0)
	})
	v := s.Run(200000000)
	if !w.Exited() {
		w.End(3)
		if v != nil {
			note = v.Msg
		}
	}
	if c != nil {
		c.Steps += s.St.Steps
		c.Ops++
		c.Fn[st.Tool]++
	}
	return proc{w.Status, w, note}, s
}

var good = map[string][]byte{} // package name -> the tables a healthy run writes

// Exec executes a history.
func Exec(sp *Spec, _ []rt.Ev, _ bool, c *engine.Counters) *engine.Result {
	res := &engine.Result{Log: 14695981039346656037}
	dig := func(b []byte, x uint64) {
		for _, y := range b {
			res.Log = (res.Log ^ uint64(y)) * 1099511628211
		}
		res.Log = (res.Log ^ x) * 1099511628211
	}
	fs := simos.NewFS()
	readme := "/sim/README.md"
	if sp.Home {
		readme = "/repo/README.md"
	}
	fs.Put("/sim/x", nil)
	fs.Put("/repo/pkg/shared/tables.go.orig", nil)
	fs.Put("/tmp/x", nil)
	fs.Put(readme, sp.Doc.text())
	c.Runs++
	whole := true // nothing has failed so far
	for i := range sp.Steps {
		st := &sp.Steps[i]
		bad := func(f string, a ...interface{}) *engine.Result {
			res.V = &rt.Violation{Kind: "file", Msg: fmt.Sprintf("step %d, %s: ", i, st.Tool) + fmt.Sprintf(f, a...), Task: -1}
			return res
		}
		var stdin []byte
		var must []string
		target := readme
		if st.Tool == "gentables" {
			target = st.Out
			if target != "" && target[0] != '/' {
				target = "/sim/" + target
			}
			if st.Junk > 0 && target != "" && !strings.HasPrefix(target, "/missing") {
				fs.Put(target, junk(st.Junk))
			}
		} else {
			if st.Edit != nil {
				fs.Put(readme, st.Edit.text())
			}
			stdin, must = st.In.text()
		}
		before, _ := fs.Get(target)
		clone := fs.Clone()
		fs.Cap = 0
		if st.Free > 0 {
			fs.Cap = fs.Used() - len(before) + st.Free - 1
		}
		p, s := start(sp, st, fs, st.Faults, st.Short, stdin, c)
		fs.Cap = 0
		if s.St.Hash != 0 && len(c.Hashes) < 4000000 {
			h := rt.Mix(s.St.Hash, uint64(s.St.Steps), uint64(p.status), uint64(p.w.Calls))
			c.Hashes[h] = struct{}{}
		}
		fired := int64(0)
		for k, n := range p.w.Fired {
			c.Fault[k] += int64(n)
			fired += int64(n)
		}
		whole = whole && fired == 0 && st.Free == 0
		after, exists := fs.Get(target)
		dig(after, uint64(p.status))
		c.Probe[fmt.Sprintf("%s: exit status %d", st.Tool, p.status)]++
		if st.Print {
			if !bytes.Equal(before, after) {
				return bad("without -w, the README was changed")
			}
			dig(p.w.Out, 1)
			after = p.w.Out
		}
		if p.status != 0 {
			if whole && st.fit(before, must) {
				return bad("exit status %d although nothing failed and its input is right (%s)", p.status, strings.TrimSpace(p.note+" "+string(p.w.Err)))
			}
			continue
		}
		if fired > 0 {
			c.Probe[st.Tool+": success in spite of a fault"]++
		}
		if !exists {
			return bad("exit status 0 but %s does not exist", target)
		}
		if st.Tool == "gentables" {
			name := st.Pkg
			if g := good[name]; g != nil && bytes.Equal(g, after) {
				continue
			}
			if err := checkTables(after, name); err != nil {
				return bad("exit status 0 but %s is not right (%d bytes): %v", target, len(after), err)
			}
			g := simos.NewFS()
			g.Put("/sim/x", nil)
			h := Step{Tool: "gentables", Out: "/sim/t.go", Pkg: st.Pkg}
			q, _ := start(sp, &h, g, nil, 0, nil, nil)
			ref, ok := g.Get("/sim/t.go")
			if q.status != 0 || !ok {
				continue
			}
			if !bytes.Equal(ref, after) {
				return bad("exit status 0 but %s (%d bytes) is not what a run on a healthy empty disk writes (%d bytes)", target, len(after), len(ref))
			}
			good[name] = ref
			continue
		}
		if err := checkReadme(before, after, must); err != nil {
			if st.Print {
				return bad("exit status 0, but of what it printed: %v", err)
			}
			return bad("exit status 0 but %v", err)
		}
		if fired > 0 || st.Short > 0 {
			q, _ := start(sp, st, clone, nil, 0, stdin, nil)
			ref, _ := clone.Get(readme)
			if st.Print {
				ref = q.w.Out
			}
			if q.status == 0 && !bytes.Equal(ref, after) {
				return bad("exit status 0 but the README is not what a run on a healthy disk writes")
			}
		}
	}
	return res
}

// fit reports that a tool whose disk works has no reason to refuse this step.
func (st *Step) fit(readme []byte, must []string) bool {
	if st.Tool == "gentables" {
		return st.Out != "" && !strings.HasPrefix(st.Out, "/missing") && (st.Pkg == "" || token.IsIdentifier(st.Pkg))
	}
	a := bytes.Index(readme, []byte(startS))
	return a >= 0 && bytes.Contains(readme[a+len(startS):], []byte(endS)) && utf8.Valid(readme) &&
		len(must) > 0 && st.In.Lines > 0 && st.In.Long < 60000 && !st.In.CRLF
}

func junk(n int) []byte {
	s := "package junk\n\n// old tables\n"
	for len(s) < n {
		s += "// stale line of an older and longer file, stale line of an older and longer file\n"
	}
	return []byte(s)
}

func checkReadme(before, after []byte, must []string) error {
	a := bytes.Index(before, []byte(startS))
	if a < 0 {
		return fmt.Errorf("the README has no benchmark block to replace")
	}
	a += len(startS)
	e := bytes.Index(before[a:], []byte(endS))
	if e < 0 {
		return fmt.Errorf("the README's benchmark block has no end")
	}
	pre, suf := before[:a], before[a+e:]
	if !bytes.HasPrefix(after, pre) {
		return fmt.Errorf("the README (%d bytes, was %d) has lost or changed text before the benchmark block", len(after), len(before))
	}
	rest := after[len(pre):]
	if !bytes.HasSuffix(rest, suf) {
		return fmt.Errorf("the README (%d bytes, was %d) has lost or changed text after the benchmark block", len(after), len(before))
	}
	block := string(rest[:len(rest)-len(suf)])
	if block != "" && block[len(block)-1] != '\n' {
		return fmt.Errorf("the block's end is glued to its last line")
	}
	k := 0
	for _, l := range strings.Split(block, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if k < len(must) && (l == must[k] || l == strings.TrimPrefix(must[k], "Benchmark")) {
			k++
			continue
		}
		if strings.Trim(l, "- ") != "" {
			if k < len(must) {
				return fmt.Errorf("line %d of the %d to go into the block is %q, but the block has %q", k+1, len(must), cutLine(must[k]), cutLine(l))
			}
			return fmt.Errorf("the block has a line after the last of the %d that belong there: %q", k, cutLine(l))
		}
	}
	if k < len(must) {
		return fmt.Errorf("the block lacks line %d of the %d it read, or has it out of order: %q", k+1, len(must), cutLine(must[k]))
	}
	return nil
}

func cutLine(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// checkTables reads a generated file and compares every table with its
// definition.
func checkTables(b []byte, name string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "tables.go", b, 0)
	if err != nil {
		return err
	}
	if name != "" && f.Name.Name != name {
		return fmt.Errorf("package %s instead of %s", f.Name.Name, name)
	}
	got := map[string][][]int{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if i >= len(vs.Values) {
					continue
				}
				rows, err := table(vs.Values[i])
				if err != nil {
					return fmt.Errorf("%s: %v", n.Name, err)
				}
				if got[n.Name] != nil {
					return fmt.Errorf("%s is there twice", n.Name)
				}
				got[n.Name] = rows
			}
		}
	}
	for _, t := range []string{"PerNumLenTable", "PerControlLenTable", "EncodeShuffleTable", "DecodeShuffleTable"} {
		rows := got[t]
		if len(rows) != 256 {
			return fmt.Errorf("%s has %d entries", t, len(rows))
		}
		for c, row := range rows {
			want := entry(t, c)
			if fmt.Sprint(row) != fmt.Sprint(want) {
				return fmt.Errorf("%s[%#02x] is %v, not %v", t, c, row, want)
			}
		}
	}
	return nil
}

func entry(t string, c int) []int {
	var l [4]int
	sum := 0
	for k := range l {
		l[k] = c>>(2*uint(k))&3 + 1
		sum += l[k]
	}
	switch t {
	case "PerNumLenTable":
		return l[:]
	case "PerControlLenTable":
		return []int{sum}
	}
	enc, dec := make([]int, 16), make([]int, 16)
	for i := range enc {
		enc[i], dec[i] = 255, 255
	}
	p := 0
	for k := range l {
		for j := 0; j < l[k]; j++ {
			enc[p] = 4*k + j
			dec[4*k+j] = p
			p++
		}
	}
	if t == "EncodeShuffleTable" {
		return enc
	}
	return dec
}

func table(e ast.Expr) ([][]int, error) {
	if u, ok := e.(*ast.UnaryExpr); ok {
		e = u.X
	}
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, fmt.Errorf("no composite literal")
	}
	var rows [][]int
	for _, x := range cl.Elts {
		if r, ok := x.(*ast.CompositeLit); ok {
			var row []int
			for _, y := range r.Elts {
				n, err := number(y)
				if err != nil {
					return nil, err
				}
				row = append(row, n)
			}
			rows = append(rows, row)
			continue
		}
		n, err := number(x)
		if err != nil {
			return nil, err
		}
		rows = append(rows, []int{n})
	}
	return rows, nil
}

func number(e ast.Expr) (int, error) {
	b, ok := e.(*ast.BasicLit)
	if !ok {
		return 0, fmt.Errorf("entry is no number")
	}
	n, err := strconv.ParseInt(b.Value, 0, 64)
	return int(n), err
}

// Parse reads a specification.
func Parse(b json.RawMessage) (interface{}, error) {
	sp := &Spec{}
	return sp, json.Unmarshal(b, sp)
}
