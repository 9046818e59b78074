package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// The driver's side of the worker protocol.

type ev struct {
	T int    `json:"t"`
	S int64  `json:"s"`
	K string `json:"k"`
	N int    `json:"n"`
	D int64  `json:"d,omitempty"`
	W string `json:"where,omitempty"`
}

type violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Task int    `json:"task"`
}

type runIn struct {
	Spec   json.RawMessage `json:"spec"`
	Trace  []ev            `json:"decisions,omitempty"`
	Replay bool            `json:"replay,omitempty"`
}

type job struct {
	Prop     string  `json:"prop"`
	Seed     uint64  `json:"seed"`
	From     int     `json:"from"`
	To       int     `json:"to"`
	BudgetMs int     `json:"budgetMs"`
	Runs     []runIn `json:"runs,omitempty"`
	Status   string  `json:"status"`
	Sets     string  `json:"sets,omitempty"`
	Samples  int     `json:"samples,omitempty"`
	GC       int     `json:"gc,omitempty"`

	bin string // worker to use; "" for the campaign's
}

type counts struct {
	Runs, Ops, Steps, Nontrivial, Held, Skipped int64
	Fn, Fault, Probe                            map[string]int64
	Asm                                         map[string]int64
}

type report struct {
	Done    int             `json:"done"`
	V       *violation      `json:"v,omitempty"`
	Index   int             `json:"index"`
	Spec    json.RawMessage `json:"spec,omitempty"`
	Trace   []ev            `json:"decisions,omitempty"`
	Digest  uint64          `json:"digest"`
	Samples []json.RawMessage
	Counts  counts

	bin  string
	hist bool // needs the chunk's history to show
	from int
}

type campaign struct {
	prop     string
	tier     string
	seed     uint64
	scratch  string
	worker   string
	worker32 string // "" when there is none
	runs32   int64
	n        int // runs
	chunk    int
	wall     time.Duration
	stall    time.Duration

	mu    sync.Mutex
	tot   counts
	sets  map[string]map[uint64]struct{}
	samp  []json.RawMessage
	jobs  int
	seq   int
	notes []string
	t0    time.Time
}

func (c *counts) add(o counts) {
	c.Runs += o.Runs
	c.Ops += o.Ops
	c.Steps += o.Steps
	c.Nontrivial += o.Nontrivial
	c.Held += o.Held
	c.Skipped += o.Skipped
	for _, p := range []struct {
		a *map[string]int64
		b map[string]int64
	}{{&c.Fn, o.Fn}, {&c.Fault, o.Fault}, {&c.Probe, o.Probe}, {&c.Asm, o.Asm}} {
		if *p.a == nil {
			*p.a = map[string]int64{}
		}
		for k, v := range p.b {
			(*p.a)[k] += v
		}
	}
}

// outcome of a worker process
type outcome struct {
	rep   *report
	crash string // the process died: its last words
	hang  bool
	at    int // run it was at when it died
}

// process runs one job in a fresh process.
func (c *campaign) process(j job, stall time.Duration) (*outcome, error) {
	c.mu.Lock()
	c.seq++
	base := filepath.Join(c.scratch, fmt.Sprintf("job%d", c.seq))
	c.jobs++
	c.mu.Unlock()
	j.Status = base + ".st"
	if j.bin == "" {
		j.bin = c.worker
	}
	if j.Sets != "" {
		j.Sets = base
	}
	b, err := json.Marshal(j)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(base+".in", b, 0o600); err != nil {
		return nil, err
	}
	defer func() {
		for _, x := range []string{".in", ".out", ".st", ".h", ".p", ".l"} {
			os.Remove(base + x)
		}
	}()
	if err := os.WriteFile(j.Status, make([]byte, 8), 0o600); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, j.bin, base+".in", base+".out")
	cmd.Dir = c.scratch
	var eb tailBuf
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.Env = append(os.Environ(), "GODEBUG=", "GOTRACEBACK=single", "GOMEMLIMIT=2GiB", "GOGC=")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	status := func() int {
		b, err := os.ReadFile(j.Status)
		if err != nil || len(b) < 8 {
			return -1
		}
		return int(binary.LittleEndian.Uint64(b)) - 1
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastT := -1, time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	hang := false
	for {
		select {
		case err = <-done:
		case <-tick.C:
			if s := status(); s != last {
				last, lastT = s, time.Now()
			} else if time.Since(lastT) > stall {
				hang = true
				cancel()
				<-done
				return &outcome{hang: true, at: status()}, nil
			}
			continue
		}
		break
	}
	_ = hang
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			return nil, fmt.Errorf("worker: %s", eb.String())
		}
		return &outcome{crash: strings.TrimSpace(eb.String()), at: status()}, nil
	}
	ob, err := os.ReadFile(base + ".out")
	if err != nil {
		return nil, err
	}
	r := &report{}
	if err := json.Unmarshal(ob, r); err != nil {
		return nil, err
	}
	if j.Sets != "" {
		c.mu.Lock()
		for _, k := range []string{"h", "p", "l"} {
			b, err := os.ReadFile(base + "." + k)
			if err != nil {
				c.mu.Unlock()
				return nil, err
			}
			m := c.sets[k]
			for ; len(b) >= 8 && len(m) < 30000000; b = b[8:] {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
		c.mu.Unlock()
	}
	return &outcome{rep: r}, nil
}

// tailBuf keeps the first 16 kB of what a process prints.
type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if n := 16384 - t.b.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		t.b.Write(p[:n])
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

// chunkRun executes runs [from, to) and turns crashes and hangs of the process
// into violations when they reproduce.
func (c *campaign) chunkRun(from, to, budget int) (*report, error) {
	bin := c.worker
	if c.worker32 != "" && (from/c.chunk)%8 == 5 {
		bin = c.worker32
	}
	r, err := c.chunkRunIn(bin, from, to, budget)
	if r != nil {
		r.bin = bin
		if bin != c.worker {
			c.mu.Lock()
			c.runs32 += r.Counts.Runs
			c.mu.Unlock()
		}
	}
	return r, err
}

func (c *campaign) chunkRunIn(bin string, from, to, budget int) (*report, error) {
	for attempt := 0; attempt < 3; attempt++ {
		samples := 0
		if from == 0 {
			samples = 2
		}
		o, err := c.process(job{bin: bin, Prop: c.prop, Seed: c.seed, From: from, To: to, BudgetMs: budget, Sets: "y", Samples: samples}, c.stall)
		if err != nil {
			return nil, err
		}
		if o.rep != nil {
			c.mu.Lock()
			c.tot.add(o.rep.Counts)
			c.samp = append(c.samp, o.rep.Samples...)
			c.mu.Unlock()
			o.rep.from = from
			return o.rep, nil
		}
		kind, msg := "crash", "the process died: "+firstLine(o.crash)
		if o.hang {
			kind, msg = "hang", "a call does not return"
		}
		if o.at < from || o.at >= to {
			if attempt == 2 {
				return nil, fmt.Errorf("worker died outside any run: %s", o.crash)
			}
			continue
		}
		v := &violation{Kind: kind, Msg: msg, Task: -1}
		// alone?
		o2, err := c.process(job{bin: bin, Prop: c.prop, Seed: c.seed, From: o.at, To: o.at + 1}, c.stall)
		if err != nil {
			return nil, err
		}
		if (o2.hang && o.hang) || (o2.crash != "" && o.crash != "") {
			return &report{V: v, Index: o.at, from: o.at}, nil
		}
		if o2.rep != nil && o2.rep.V != nil {
			o2.rep.from = o.at
			return o2.rep, nil
		}
		// with its history?
		o3, err := c.process(job{bin: bin, Prop: c.prop, Seed: c.seed, From: from, To: o.at + 1}, c.stall)
		if err != nil {
			return nil, err
		}
		if o3.at == o.at && ((o3.hang && o.hang) || (o3.crash != "" && o.crash != "")) {
			return &report{V: v, Index: o.at, from: from, hist: true}, nil
		}
		c.note("a worker process ended (%s) and did not do so again; the chunk was repeated", msg)
	}
	return nil, fmt.Errorf("worker processes keep dying without a reproducible cause")
}

func (c *campaign) note(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	fmt.Fprintf(os.Stderr, "note: "+f+"\n", a...)
}

// explore executes the whole campaign and returns the violation with the
// lowest run number, if any.
func (c *campaign) explore() (*report, error) {
	type res struct {
		k   int
		r   *report
		err error
	}
	nch := (c.n + c.chunk - 1) / c.chunk
	var mu sync.Mutex
	next, stopAt := 0, nch
	var found *report
	var firstErr error
	var wg sync.WaitGroup
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				k := next
				next++
				stop := k >= stopAt || firstErr != nil || time.Since(c.t0) > c.wall
				mu.Unlock()
				if stop {
					return
				}
				to := (k + 1) * c.chunk
				if to > c.n {
					to = c.n
				}
				left := int(time.Until(c.t0.Add(c.wall)).Milliseconds())
				if left < 1000 {
					left = 1000
				}
				r, err := c.chunkRun(k*c.chunk, to, left)
				mu.Lock()
				if err != nil {
					if firstErr == nil {
						firstErr = err
					}
				} else if r.V != nil && k < stopAt {
					stopAt = k
					found = r
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if found != nil {
		return found, nil
	}
	return nil, firstErr
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// ---- confirmation and minimisation

type replayFile struct {
	Property  string          `json:"property"`
	Kind      string          `json:"kind"`
	Message   string          `json:"message"`
	Seed      uint64          `json:"campaign_seed"`
	Index     int             `json:"run"`
	Note      string          `json:"note,omitempty"`
	Spec      json.RawMessage `json:"spec,omitempty"`
	Decisions []ev            `json:"decisions,omitempty"`
	Replay    bool            `json:"replay_decisions"`
	History   *[2]int         `json:"history,omitempty"` // runs to execute in one process
	Build     string          `json:"build_for,omitempty"`
	Arch      string          `json:"world,omitempty"` // "" for the 64-bit one
	Original  json.RawMessage `json:"original_spec,omitempty"`
}

// try executes runs, each given in full, in one fresh process.
func (c *campaign) try(stall time.Duration, rs ...runIn) (*violation, *report) {
	o, err := c.process(job{Prop: c.prop, Seed: c.seed, Runs: rs}, stall)
	if err != nil {
		return nil, nil
	}
	switch {
	case o.hang:
		return &violation{Kind: "hang", Msg: "a call does not return"}, nil
	case o.crash != "":
		return &violation{Kind: "crash", Msg: "the process died: " + firstLine(o.crash)}, nil
	}
	return o.rep.V, o.rep
}

// confirm reproduces a violation and minimises it.
func (c *campaign) confirm(r *report) *replayFile {
	f := &replayFile{Property: c.prop, Kind: r.V.Kind, Message: r.V.Msg, Seed: c.seed, Index: r.Index}
	if r.Spec == nil || r.hist {
		f.History = &[2]int{r.from, r.Index + 1}
		f.Note = "the run is given by its number; every run from the first to the second number is executed in one process"
		return f
	}
	f.Spec, f.Decisions, f.Replay = r.Spec, r.Trace, true
	f.Original = r.Spec
	v, _ := c.try(c.stall, runIn{r.Spec, r.Trace, true})
	if v == nil || v.Kind != r.V.Kind {
		// Alone it does not show: the library carries something from run to run.
		f.Spec, f.Decisions, f.Replay, f.Original = nil, nil, false, nil
		f.History = &[2]int{r.from, r.Index + 1}
		o, err := c.process(job{Prop: c.prop, Seed: c.seed, From: r.from, To: r.Index + 1}, c.stall)
		switch {
		case err == nil && o.rep != nil && o.rep.V != nil && o.rep.Index == r.Index:
			f.Note = "shows only after the runs before it in the same process"
		default:
			f.Note = "seen once; neither the run alone nor its history reproduced it, so the library depends on something outside the simulator"
		}
		return f
	}
	f.Message = v.Msg
	c.minimise(f)
	return f
}

func (c *campaign) minimise(f *replayFile) {
	t0 := time.Now()
	limit := 45 * time.Second
	if c.tier == "thorough" {
		limit = 4 * time.Minute
	}
	over := func() bool { return time.Since(t0) > limit }
	cur := f.Spec
	var curRep *report
	// 1. a smaller run that breaks in the same way under some policy seed
	cands := 0
	good := func(spec interface{}) (json.RawMessage, *report) {
		m := spec.(map[string]interface{})
		var rs []runIn
		for k := 0; k < 8; k++ {
			x := clone(m).(map[string]interface{})
			if k > 0 {
				if p, ok := x["policy"].(map[string]interface{}); ok {
					p["seed"] = json.Number(fmt.Sprint(uint64(k) * 7919))
					if md, _ := p["mode"].(string); md == "serial" && k > 0 {
						break
					}
				} else {
					break
				}
			}
			b, err := json.Marshal(x)
			if err != nil {
				return nil, nil
			}
			rs = append(rs, runIn{Spec: b})
		}
		cands++
		v, rep := c.try(20*time.Second, rs...)
		if v != nil && v.Kind == f.Kind && rep != nil {
			return rep.Spec, rep
		}
		return nil, nil
	}
	parse := func(b json.RawMessage) map[string]interface{} {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var m map[string]interface{}
		if d.Decode(&m) != nil {
			return nil
		}
		return m
	}
	improve := true
	for improve && !over() {
		improve = false
		list := reductions(parse(cur))
		for k := 0; k < len(list) && !over(); {
			// a batch of candidates at a time, the first good one wins
			n := workers()
			if k+n > len(list) {
				n = len(list) - k
			}
			specs := make([]json.RawMessage, n)
			reps := make([]*report, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					specs[i], reps[i] = good(list[k+i])
				}(i)
			}
			wg.Wait()
			hit := -1
			for i := range specs {
				if specs[i] != nil {
					hit = i
					break
				}
			}
			if hit >= 0 {
				cur, curRep = specs[hit], reps[hit]
				improve = true
				break
			}
			k += n
		}
	}
	if curRep != nil {
		if v, _ := c.try(c.stall, runIn{curRep.Spec, curRep.Trace, true}); v != nil && v.Kind == f.Kind {
			f.Spec, f.Decisions, f.Message = curRep.Spec, curRep.Trace, v.Msg
		}
	}
	// 2. fewer decisions of the scheduler
	tr := f.Decisions
	for size := (len(tr) + 1) / 2; size >= 1 && !over() && len(tr) > 0; {
		removed := false
		var starts []int
		for at := 0; at < len(tr); at += size {
			starts = append(starts, at)
		}
		for b := 0; b < len(starts) && !over(); b += workers() {
			e := b + workers()
			if e > len(starts) {
				e = len(starts)
			}
			got := make([][]ev, e-b)
			msgs := make([]string, e-b)
			var wg sync.WaitGroup
			for i := b; i < e; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					at := starts[i]
					end := at + size
					if end > len(tr) {
						end = len(tr)
					}
					t2 := append(append([]ev(nil), tr[:at]...), tr[end:]...)
					if v, _ := c.try(20*time.Second, runIn{f.Spec, t2, true}); v != nil && v.Kind == f.Kind {
						got[i-b], msgs[i-b] = t2, v.Msg
						if t2 == nil {
							got[i-b] = []ev{}
						}
					}
				}(i)
			}
			wg.Wait()
			hit := false
			for i := range got {
				if got[i] != nil {
					tr, f.Decisions, f.Message = got[i], got[i], msgs[i]
					removed, hit = true, true
					break
				}
			}
			if hit {
				break
			}
		}
		if !removed {
			if size == 1 {
				break
			}
			size /= 2
		} else if size > len(tr) {
			size = len(tr)
		}
	}
	f.Note = strings.TrimSpace(f.Note + fmt.Sprintf(" minimised in %.0f s from %d to %d bytes of specification, %d decisions left", time.Since(t0).Seconds(), len(f.Original), len(f.Spec), len(f.Decisions)))
	if bytes.Equal(f.Spec, f.Original) {
		f.Original = nil
	}
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = clone(x[i])
		}
		return l
	}
	return v
}

// reductions lists smaller variants of a specification: list elements left
// out (largest parts first), optional fields dropped, counts made smaller.
func reductions(m map[string]interface{}) []interface{} {
	type cand struct {
		v interface{}
		w int
	}
	var out []cand
	add := func(w int, f func(root map[string]interface{})) {
		c := clone(m).(map[string]interface{})
		f(c)
		out = append(out, cand{c, w})
	}
	var walk func(path []interface{}, v interface{})
	at := func(root interface{}, path []interface{}) interface{} {
		for _, p := range path {
			switch k := p.(type) {
			case string:
				root = root.(map[string]interface{})[k]
			case int:
				root = root.([]interface{})[k]
			}
		}
		return root
	}
	walk = func(path []interface{}, v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				p := append(append([]interface{}(nil), path...), k)
				switch e := x[k].(type) {
				case []interface{}:
					if k == "bufs" {
						continue // indexed by the calls
					}
					if len(e) > 1 || k != "tasks" && k != "enc" && k != "dec" && k != "cuts" {
						for i := range e {
							i := i
							w := len(fmt.Sprint(e[i]))
							add(w+1000, func(root map[string]interface{}) {
								par := at(root, p[:len(p)-1]).(map[string]interface{})
								l := par[k].([]interface{})
								par[k] = append(append([]interface{}(nil), l[:i]...), l[i+1:]...)
							})
						}
					}
					walk(p, e)
				case map[string]interface{}:
					if k == "cut" {
						add(50, func(root map[string]interface{}) { delete(at(root, path).(map[string]interface{}), k) })
					}
					walk(p, e)
				case bool:
					if e && k != "arena" && k != "noWaiting" {
						add(10, func(root map[string]interface{}) { delete(at(root, path).(map[string]interface{}), k) })
					}
				case json.Number:
					n, err := e.Int64()
					if err != nil || n == 0 {
						continue
					}
					var tries []int64
					switch k {
					case "n":
						for _, t := range []int64{0, 1, n / 2, n - 8, n - 1} {
							if t >= 0 && t < n {
								tries = append(tries, t)
							}
						}
					case "times":
						tries = []int64{0, n / 16}
					case "prof":
						tries = []int64{1}
						if n == 1 {
							tries = nil
						}
					case "extra", "spare", "prev", "buf", "off", "node", "in", "out", "poolForgets", "rest", "less", "tail", "big":
						tries = []int64{0}
					case "callsPerRound", "numbersPerCaller":
						for _, t := range []int64{25, n / 4, n / 2} {
							if t >= 25 && t < n {
								tries = append(tries, t)
							}
						}
					}
					for _, t := range tries {
						t := t
						add(int(n-t)%100+1, func(root map[string]interface{}) {
							at(root, path).(map[string]interface{})[k] = json.Number(fmt.Sprint(t))
						})
					}
				}
			}
		case []interface{}:
			for i := range x {
				walk(append(append([]interface{}(nil), path...), i), x[i])
			}
		}
	}
	walk(nil, m)
	sort.SliceStable(out, func(i, j int) bool { return out[i].w > out[j].w })
	var l []interface{}
	for _, c := range out {
		l = append(l, c.v)
	}
	return l
}
