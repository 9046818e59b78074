// Package worker runs batches of simulated runs in one process for the driver.
package worker

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"simworld/engine"
	"simworld/rt"
)

// Run is one run that is given in full.
type Run struct {
	Spec   json.RawMessage `json:"spec"`
	Trace  []rt.Ev         `json:"decisions,omitempty"`
	Replay bool            `json:"replay,omitempty"`
}

// Job is what the driver asks for.
type Job struct {
	Prop     string `json:"prop"`
	Seed     uint64 `json:"seed"`
	From     int    `json:"from"`
	To       int    `json:"to"`
	Step     int    `json:"step"`
	BudgetMs int    `json:"budgetMs"`
	Runs     []Run  `json:"runs,omitempty"`
	Status   string `json:"status"`
	Sets     string `json:"sets,omitempty"`
	Samples  int    `json:"samples,omitempty"`
	GC       int    `json:"gc,omitempty"`
}

// Report is the answer.
type Report struct {
	Done    int             `json:"done"`
	V       *rt.Violation   `json:"v,omitempty"`
	Index   int             `json:"index"`
	Spec    json.RawMessage `json:"spec,omitempty"`
	Trace   []rt.Ev         `json:"decisions,omitempty"`
	Digest  uint64          `json:"digest"`
	Samples []json.RawMessage
	Counts  Counts
}

// Counts are the mergeable counters.
type Counts struct {
	Runs, Ops, Steps, Nontrivial, Held, Skipped int64
	Fn, Fault, Probe                            map[string]int64
	Asm                                         map[string]int64
}

// World is what runs are made of and executed by.
type World struct {
	Gen   func(prop string, seed uint64) interface{}
	Parse func(json.RawMessage) (interface{}, error)
	Exec  func(spec interface{}, trace []rt.Ev, replay bool, c *engine.Counters) *engine.Result
	Nodes []string
}

// RunSeed is the seed of the i-th run of a campaign.
func RunSeed(seed uint64, prop string, i int) uint64 {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	return rt.Mix(seed, h, uint64(i))
}

// Main serves one job: worker JOB OUT.
func Main(w World) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: worker JOB OUT")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[1])
	check(err)
	var j Job
	check(json.Unmarshal(b, &j))
	if j.GC != 0 {
		debug.SetGCPercent(j.GC)
	}
	rt.InitArena()
	st, err := os.OpenFile(j.Status, os.O_CREATE|os.O_RDWR, 0o600)
	check(err)
	mark := func(i int) {
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], uint64(i)+1)
		_, err := st.WriteAt(x[:], 0)
		check(err)
	}
	c := engine.NewCounters()
	rep := &Report{Digest: 14695981039346656037, Index: -1}
	one := func(i int, spec interface{}, tr []rt.Ev, replay bool) bool {
		mark(i)
		before := c.Injected()
		res := w.Exec(spec, tr, replay, c)
		rep.Done++
		rep.Digest = (rep.Digest ^ res.Log) * 1099511628211
		if c.Injected() > before {
			c.Nontrivial++
			if len(c.Logs) < 1500000 {
				c.Logs[res.Log] = struct{}{}
			}
		}
		if res.V != nil {
			rep.V, rep.Index, rep.Trace = res.V, i, res.Trace
			rep.Spec, err = json.Marshal(spec)
			check(err)
			return false
		}
		return true
	}
	start := time.Now()
	if len(j.Runs) > 0 {
		for i, r := range j.Runs {
			sp, err := w.Parse(r.Spec)
			check(err)
			if !one(i, sp, r.Trace, r.Replay) {
				break
			}
		}
	} else {
		if j.Step < 1 {
			j.Step = 1
		}
		for i := j.From; i < j.To; i += j.Step {
			sp := w.Gen(j.Prop, RunSeed(j.Seed, j.Prop, i))
			if len(rep.Samples) < j.Samples {
				x, err := json.Marshal(sp)
				check(err)
				rep.Samples = append(rep.Samples, x)
			}
			if !one(i, sp, nil, false) {
				break
			}
			if j.BudgetMs > 0 && rep.Done%16 == 0 && time.Since(start) > time.Duration(j.BudgetMs)*time.Millisecond {
				break
			}
		}
	}
	rep.Counts = Counts{Runs: c.Runs, Ops: c.Ops, Steps: c.Steps, Nontrivial: c.Nontrivial, Held: c.Held, Skipped: c.Skipped,
		Fn: c.Fn, Fault: c.Fault, Probe: c.Probe, Asm: map[string]int64{}}
	for n, name := range w.Nodes {
		if x := c.AsmCalls[n]; x > 0 {
			rep.Counts.Asm[name] = x
		}
	}
	if j.Sets != "" {
		for k, m := range map[string]map[uint64]struct{}{"h": c.Hashes, "p": c.Pairs, "l": c.Logs} {
			buf := make([]byte, 0, 8*len(m))
			for x := range m {
				buf = binary.LittleEndian.AppendUint64(buf, x)
			}
			check(os.WriteFile(j.Sets+"."+k, buf, 0o600))
		}
	}
	b, err = json.Marshal(rep)
	check(err)
	check(os.WriteFile(os.Args[2], b, 0o600))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
}
