package main

import (
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// The tools whose runs are simulated.
var toolDirs = map[string]string{"pkg/shared/main": "GenTables", "tools": "Readme"}

// buildTools makes the world of the tool simulations: the two main packages
// and what they import from the module, linked with a simulated os package.
func buildTools(verif, src, scratch string) error {
	dir := filepath.Join(scratch, "toolworld")
	if err := copyTree(filepath.Join(verif, "world"), dir, nil); err != nil {
		return err
	}
	in, req, err := newInst(src)
	if err != nil {
		return err
	}
	if err := writeMod(dir, req, src); err != nil {
		return err
	}
	v := &variant{name: "tools", arch: "amd64", pkgs: map[string]*pkgInfo{}, std: stdMap(map[string]string{
		"os": "simworld/simos", "flag": "simworld/simflag", "log": "simworld/simlog", "io/ioutil": "simworld/simioutil"})}
	err = in.findPkgs(v, func(rel string) bool { return toolDirs[rel] != "" })
	if err != nil {
		return fatalf("%v", err)
	}
	// only what the tools are made of
	keep := map[string]*pkgInfo{}
	var need func(p string)
	need = func(p string) {
		pi := v.pkgs[p]
		if pi == nil || keep[p] != nil {
			return
		}
		keep[p] = pi
		for _, f := range pi.files {
			for _, im := range f.ast.Imports {
				q, _ := strconv.Unquote(im.Path.Value)
				need(q)
			}
		}
	}
	for rel := range toolDirs {
		p := in.module + "/" + rel
		if pi := v.pkgs[p]; pi == nil || !pi.main {
			return fatalf("the program %s is not there", rel)
		}
		need(p)
	}
	v.pkgs = keep
	in.ext, err = extImporter(src, in.fset, externals(in, v))
	if err != nil {
		return fatalf("%v", err)
	}
	terr, err := in.typecheck(v)
	if err != nil || len(terr) > 0 {
		return fatalf("the tree does not type-check: %v %v", err, terr)
	}
	in.findHot(v)
	in.findHotTypes()
	var imps, resets strings.Builder
	tool := map[string]string{}
	for _, pi := range v.order {
		for _, f := range pi.files {
			if err := in.instrument(v, f); err != nil {
				return fatalf("%v", err)
			}
		}
		a := "p_" + ident(pi.rel)
		rel := "/" + open_(pi.rel)
		if pi.rel == "." {
			rel = ""
		}
		fmt.Fprintf(&imps, "%s %q\n", a, "simworld/nt"+rel)
		fmt.Fprintf(&resets, "%s.VerifReset()\n", a)
		if f := toolDirs[pi.rel]; f != "" {
			tool[f] = a
		}
	}
	if err := in.write(v, dir, "nt", 0); err != nil {
		return err
	}
	var g strings.Builder
	g.WriteString("// Package toolglue connects the tools to the simulator. Generated.\npackage toolglue\n\nimport (\n\"simworld/rt\"\n\"simworld/toolsim\"\n" + imps.String() + ")\n\n")
	g.WriteString("func reset() {\n" + resets.String() + "}\n\n")
	g.WriteString("// Install fills in the tools.\nfunc Install() {\nrt.SetCPUs([]rt.CPU{{Name: \"host\", Has: map[string]bool{")
	for _, h := range strings.Fields(nodes[0].has) {
		fmt.Fprintf(&g, "%q: true, ", h)
	}
	g.WriteString("}}}, []rt.AsmFn{\n")
	for _, a := range in.asmFns {
		fmt.Fprintf(&g, "{Name: %q},\n", a.Name)
	}
	g.WriteString("})\n")
	for f, a := range tool {
		fmt.Fprintf(&g, "toolsim.%s = toolsim.Tool{Reset: reset, Main: %s.VerifMain}\n", f, a)
	}
	g.WriteString("}\n")
	if err := os.MkdirAll(filepath.Join(dir, "toolglue"), 0o755); err != nil {
		return err
	}
	b, err := format.Source([]byte(g.String()))
	if err != nil {
		return fatalf("glue: %v\n%s", err, g.String())
	}
	if err := os.WriteFile(filepath.Join(dir, "toolglue", "glue.go"), b, 0o644); err != nil {
		return err
	}
	if out, err := runCmd(goCmd(dir, "build", "-o", filepath.Join(scratch, "toolworker"), "./cmd/toolworker")); err != nil {
		return fatalf("building the simulated world of the tools: %v\n%s", err, out)
	}
	return nil
}
