// Command veriftool builds the simulated world from the working tree of the
// repository and searches it for violations of one property.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type params struct {
	quick, thorough int // runs
	chunk           int
	rule            string
}

var props = map[string]params{
	"C01": {2500000, 30000000, 2500, "a run counts when calls of at least two tasks were interleaved or a fault was injected"},
	"C02": {2000000, 30000000, 2500, "a run counts when a caller reused or overwrote memory, an input was read-only or flush, or calls were interleaved"},
	"C03": {5000000, 60000000, 5000, "a run counts when a buffer lay flush against unmapped memory or in read-only memory"},
	"C04": {4000000, 60000000, 5000, "a run counts when a stored stream was cut short or lay flush against unmapped memory"},
	"C05": {5000000, 60000000, 5000, "a run counts when stored bytes were altered or replaced"},
	"C06": {2500000, 30000000, 2500, "a run counts when a stream went from node to node, or calls of several nodes were interleaved"},
	"C07": {2200000, 30000000, 2500, "a run counts when a call panicked on bad arguments, was suspended or was lost"},
	"C08": {800000, 10000000, 1000, "a run counts when a worker stalled or crashed, or calls were interleaved"},
	"C10": {16000, 600000, 50, "a run counts when a call panicked on bad arguments, was suspended, or calls were interleaved"},
	"C11": {14000, 400000, 50, "a run counts when callers were interleaved or a task was suspended"},
	"C09": {150000, 4000000, 250, "a run counts when an I/O fault was injected"},
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: veriftool check PROPERTY | replay FILE | world DIR")
		os.Exit(2)
	}
	verif := env("VERIF_DIR", "/verif")
	repo := env("VERIF_REPO", "/repo")
	if os.Args[1] == "world" {
		src, err := prepare(repo, os.Args[2])
		if err == nil {
			if _, err = buildCodec(verif, src, os.Args[2], "amd64"); err == nil {
				if _, err = buildCodec(verif, src, os.Args[2], arch32); err != nil {
					fmt.Println(err)
				}
				err = buildTools(verif, src, os.Args[2])
			}
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	scratch, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	clean := func() { os.RemoveAll(scratch) }
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sig; clean(); os.Exit(2) }()
	var code int
	switch os.Args[1] {
	case "check":
		code, err = check(verif, repo, scratch, os.Args[2])
	case "replay":
		code, err = replay(verif, repo, scratch, os.Args[2])
	default:
		err = fmt.Errorf("unknown command %s", os.Args[1])
	}
	clean()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	os.Exit(code)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func newCampaign(scratch, prop string) (*campaign, error) {
	p, ok := props[prop]
	if !ok {
		return nil, fmt.Errorf("no check for property %q", prop)
	}
	c := &campaign{prop: prop, tier: env("VERIF_TIER", "quick"), seed: 1, scratch: scratch, worker: filepath.Join(scratch, "worker-amd64"),
		n: p.quick, chunk: p.chunk, wall: 240 * time.Second, stall: 60 * time.Second, t0: time.Now(),
		sets: map[string]map[uint64]struct{}{"h": {}, "p": {}, "l": {}}}
	if c.tier == "thorough" {
		c.n = p.thorough
		c.wall = 30 * time.Minute
	} else {
		c.tier = "quick"
	}
	if s, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64); err == nil {
		c.seed = uint64(s)
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && n > 0 {
		c.n = n
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_WALL")); err == nil && n > 0 {
		c.wall = time.Duration(n) * time.Second
	}
	if prop == "C09" {
		c.worker = filepath.Join(scratch, "toolworker")
	}
	return c, nil
}

func check(verif, repo, scratch, prop string) (int, error) {
	c, err := newCampaign(scratch, prop)
	if err != nil {
		return 2, err
	}
	start := time.Now()
	src, err := prepare(repo, scratch)
	if err != nil {
		return 2, err
	}
	w := &world{}
	if prop == "C09" {
		if err := buildTools(verif, src, scratch); err != nil {
			return 2, err
		}
	} else {
		w32 := make(chan error, 1)
		go func() {
			_, err := buildCodec(verif, src, scratch, arch32)
			w32 <- err
		}()
		w, err = buildCodec(verif, src, scratch, "amd64")
		err32 := <-w32
		if err != nil {
			return 2, err
		}
		if err32 == nil {
			err32 = c.use32()
		}
		if err32 != nil {
			c.note("no 32-bit world: %s", strings.SplitN(err32.Error(), "\n", 2)[0])
		}
		if prop == "C06" && len(w.noPort) > 0 {
			return portable(verif, src, c, w)
		}
	}
	buildS := time.Since(start).Seconds()
	c.t0 = time.Now()
	r, err := c.explore()
	if err != nil {
		return 2, err
	}
	exploreS := time.Since(c.t0).Seconds()
	var f *replayFile
	if r != nil {
		if r.bin != "" && r.bin == c.worker32 {
			c.worker = r.bin
		}
		f = c.confirm(r)
		if c.worker == c.worker32 {
			f.Arch = arch32
		}
	}
	det := ""
	if r == nil {
		det = c.selfTest()
	}
	if err := c.evidence(verif, w, start, buildS, exploreS, det, f != nil); err != nil {
		return 2, err
	}
	fmt.Printf("%s %s seed %d: %d runs, %d calls, %d simulated statements, %d distinct interleavings, %.0f s\n",
		prop, c.tier, c.seed, c.tot.Runs, c.tot.Ops, c.tot.Steps, len(c.sets["h"]), exploreS)
	if f == nil {
		return 0, nil
	}
	return 1, c.report(verif, f)
}

func (c *campaign) report(verif string, f *replayFile) error {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", c.prop, c.seed, f.Index))
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(f); err != nil {
		return err
	}
	if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
		return err
	}
	fmt.Printf("%s: %s\n", f.Kind, f.Message)
	for _, d := range f.Decisions {
		if d.K != "next" && d.K != "first" && len(f.Decisions) < 60 {
			fmt.Printf("  task%d after %d statements, before %s: %s -> task%d\n", d.T, d.S, d.W, d.K, d.N)
		}
	}
	if f.Note != "" {
		fmt.Println("note:", f.Note)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	return nil
}

// arch32 is what the second world is compiled for.
const arch32 = "386"

// use32 makes a share of the runs happen in the 32-bit world if this machine
// can execute it.
func (c *campaign) use32() error {
	w := filepath.Join(c.scratch, "worker-"+arch32)
	o, err := c.process(job{Prop: c.prop, Seed: c.seed, From: 0, To: 0, bin: w}, c.stall)
	if err != nil {
		return err
	}
	if o.rep == nil {
		return fmt.Errorf("the 32-bit worker does not start: %s", firstLine(o.crash))
	}
	c.worker32 = w
	return nil
}

// selfTest executes the first chunk again, with a different garbage collector
// setting, and compares digests: a run must be a function of its seed.
func (c *campaign) selfTest() string {
	n := 500
	if n > c.n {
		n = c.n
	}
	var d []uint64
	for _, gc := range []int{200, 15} {
		o, err := c.process(job{Prop: c.prop, Seed: c.seed, From: 0, To: n, GC: gc}, c.stall)
		if err != nil || o.rep == nil {
			return "failed"
		}
		d = append(d, o.rep.Digest)
	}
	if d[0] != d[1] {
		c.note("two executions of the same %d seeds differ: something is outside the simulator's control", n)
		return "differs"
	}
	return fmt.Sprintf("%d runs executed twice in different processes, identical digests", n)
}

// portable decides what a tree without a working portable node means.
func portable(verif, src string, c *campaign, w *world) (int, error) {
	if out, err := runCmd(goCmd(src, "build", "./...")); err != nil {
		return 2, fmt.Errorf("the tree does not build: %v\n%s", err, out)
	}
	arch := w.badArch
	cmd := goCmd(src, "build", "./pkg/...")
	cmd.Env = append(cmd.Env, "GOARCH="+arch)
	out, err := runCmd(cmd)
	if err == nil {
		return 2, fmt.Errorf("cannot instrument the tree for %s: %v", arch, w.noPort)
	}
	f := &replayFile{Property: c.prop, Kind: "build", Message: fmt.Sprintf("a node with GOARCH=%s cannot start: %s", arch, strings.TrimSpace(out)), Seed: c.seed, Build: arch}
	c.tot.Runs = 1
	if err := c.evidence(verif, w, time.Now(), 0, 0, "", true); err != nil {
		return 2, err
	}
	return 1, c.report(verif, f)
}

func replay(verif, repo, scratch, file string) (int, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return 2, err
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		return 2, err
	}
	c, err := newCampaign(scratch, f.Property)
	if err != nil {
		return 2, err
	}
	c.seed = f.Seed
	src, err := prepare(repo, scratch)
	if err != nil {
		return 2, err
	}
	if f.Build != "" {
		cmd := goCmd(src, "build", "./pkg/...")
		cmd.Env = append(cmd.Env, "GOARCH="+f.Build)
		if out, err := runCmd(cmd); err != nil {
			fmt.Print(out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
			return 1, nil
		}
		fmt.Println("no violation")
		return 0, nil
	}
	if f.Property == "C09" {
		err = buildTools(verif, src, scratch)
	} else {
		arch := f.Arch
		if arch == "" {
			arch = "amd64"
		}
		c.worker = filepath.Join(scratch, "worker-"+arch)
		_, err = buildCodec(verif, src, scratch, arch)
	}
	if err != nil {
		return 2, err
	}
	var v *violation
	if f.History != nil {
		o, err := c.process(job{Prop: c.prop, Seed: c.seed, From: f.History[0], To: f.History[1]}, c.stall)
		if err != nil {
			return 2, err
		}
		switch {
		case o.hang:
			v = &violation{Kind: "hang", Msg: "a call does not return"}
		case o.crash != "":
			v = &violation{Kind: "crash", Msg: "the process died: " + firstLine(o.crash)}
		default:
			v = o.rep.V
		}
	} else {
		v, _ = c.try(c.stall, runIn{f.Spec, f.Decisions, f.Replay})
	}
	if v == nil {
		fmt.Println("no violation")
		return 0, nil
	}
	fmt.Printf("%s: %s\n", v.Kind, v.Msg)
	if v.Kind != f.Kind || v.Msg != f.Message {
		fmt.Printf("(recorded: %s: %s)\n", f.Kind, f.Message)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1, nil
}

func (c *campaign) evidence(verif string, w *world, start time.Time, buildS, exploreS float64, det string, viol bool) error {
	real := []string{"pkg/encode, pkg/decode, pkg/stream/writer, pkg/stream/reader, pkg/shared, pkg/util: the working tree's own source, with decision points inserted between statements; assembly routines run natively on the host CPU"}
	stub := []string{"golang.org/x/sys/cpu: feature mask of the simulated machine", "sync, math/rand, time, goroutines, channels: seeded simulator",
		"make() of numeric slices: served from guarded memory", "a CPU's missing instructions: derived from the assembly text; the call traps instead of executing",
		"the portable node runs the files selected for " + portableArch + " as x86-64 machine code; a share of the runs is made in a second world compiled for " + arch32}
	note := "hash of the sequence (where preempted, who goes on, where it stands)"
	if c.prop == "C09" {
		note = "hash of the sequence of executed statements, operating system calls and exit status of a tool run"
		real = []string{"pkg/shared/main (table generator) and tools (README updater) with the packages they import: the working tree's own source"}
		stub = []string{"os, io/ioutil, flag, log: in-memory file system and process environment with injected faults"}
	}
	hours := exploreS / 3600
	if hours <= 0 {
		hours = 1e-9
	}
	var samples []interface{}
	for _, s := range c.samp {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none: the campaign stopped before a sample was taken")
	}
	cov := map[string]interface{}{
		"evaluations":         c.tot.Runs,
		"distinct_nontrivial": len(c.sets["l"]),
		"rule": "one evaluation is one simulated run, made from (seed, property, run number) alone: its calls, arguments, buffer placements, faults and schedule; " +
			props[c.prop].rule + "; distinct by the digest of everything the run observed (all results and the whole interleaving)",
		"samples":                     samples,
		"runs_with_injected_faults":   c.tot.Nontrivial,
		"runs_and_seeds_per_hour":     int64(float64(c.tot.Runs) / hours),
		"library_calls":               c.tot.Ops,
		"calls_by_function":           c.tot.Fn,
		"simulated_time_statements":   c.tot.Steps,
		"simulated_time_note":         "the codec has no clock; simulated time is counted in executed statements",
		"faults_injected":             c.tot.Fault,
		"situations_reached":          c.tot.Probe,
		"results_kept_under_watch":    c.tot.Held,
		"calls_skipped_not_offered":   c.tot.Skipped,
		"distinct_interleavings":      len(c.sets["h"]),
		"distinct_interleavings_note": note,
		"distinct_preemption_pairs":   len(c.sets["p"]),
		"worker_processes":            c.jobs,
		"runs_in_the_32_bit_world":    c.runs32,
		"determinism_self_test":       det,
		"real_components":             real,
		"stubbed_components":          stub,
		"notes":                       c.notes,
	}
	if c.prop != "C09" {
		cov["nodes"] = w.nodes
		cov["assembly_calls_by_node"] = c.tot.Asm
		cov["instruction_sets_of_assembly_routines"] = w.asmNeed
		cov["decision_points_in_source"] = w.sites
		cov["decision_points_on_mutable_global_state"] = w.hot
		if len(w.noPort) > 0 {
			cov["no_portable_node"] = fmt.Sprint(w.noPort)
		}
	}
	n := 0
	if viol {
		n = 1
	}
	e := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": int64(c.seed), "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"preemption happens between Go statements, inside read-modify-write statements on package-level state, and around assembly routines, not inside one",
			"sequentially consistent memory",
			"the host has AVX2; simulated CPUs run a subset of its instructions",
		},
		"wall_s": time.Since(start).Seconds(), "violations": n,
	}
	if c.prop == "C09" {
		e["assumptions"] = []string{"what the stand-in file system keeps after a failed write or close is what a real one may keep", "the tools reach files only through the packages os, io/ioutil, bufio and the like"}
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}

// otherArchs are type-checked, so that a node with such a CPU can start.
var otherArchs = []string{portableArch, "arm64", "386", "s390x"}

func sizesOf(arch string) types.Sizes { return types.SizesFor("gc", arch) }
