package rt

import (
	"fmt"
	"reflect"
)

// AsmFn is one assembly routine of the library as found in its .s file.
type AsmFn struct {
	Name string
	Need []string // instruction set extensions its instructions belong to
}

// CPU is a simulated processor: the extensions it has.
type CPU struct {
	Name string
	Has  map[string]bool
}

var (
	asmFns  []AsmFn
	cpus    []CPU
	asmMiss map[int64]string
	// AsmCalls counts calls of assembly routines by node.
	AsmCalls [16]int64
)

// SetCPUs installs the simulated processors (by node) and the routines.
func SetCPUs(c []CPU, f []AsmFn) {
	cpus, asmFns = c, f
	asmMiss = map[int64]string{}
	for n := range c {
		for i := range f {
			for _, need := range f[i].Need {
				if !c[n].Has[need] {
					asmMiss[int64(n)<<32|int64(i)] = need
				}
			}
		}
	}
}

// Asm is called before every assembly routine: a decision point, and the place
// where a processor without the routine's instructions traps.
func Asm(node, fn int32, site int32) {
	YH(site)
	AsmCalls[node]++
	if S == nil || S.dying {
		return
	}
	if need, bad := asmMiss[int64(node)<<32|int64(fn)]; bad {
		Violate("illegal-instruction", "illegal instruction: %s needs %s, which the processor %q of node %d lacks",
			asmFns[fn].Name, need, cpus[node].Name, node)
	}
}

// Missing reports whether a routine's instructions are missing on the node.
func Missing(node, fn int) bool { return asmMiss[int64(node)<<32|int64(fn)] != "" }

// MapBegin and MapEnd bracket a write to a map; MapRead precedes reads. Go's
// run-time kills the process when such an access meets a write in progress.
type mapWrite struct {
	key  uintptr
	task int
}

var mapBusy []mapWrite

func mapID(m func() interface{}) (id uintptr) {
	defer func() {
		if recover() != nil {
			id = 0 // the statement itself will, or will not, meet the nil pointer
		}
	}()
	v := reflect.ValueOf(m())
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

func MapBegin(m func() interface{}, name string, site int32) {
	if !Running() {
		return
	}
	MapRead(m, name, site)
	mapBusy = append(mapBusy, mapWrite{mapID(m), S.cur.ID})
	YH(site)
}

func MapEnd() {
	if !Running() {
		return
	}
	for i := len(mapBusy) - 1; i >= 0; i-- {
		if mapBusy[i].task == S.cur.ID {
			mapBusy = append(mapBusy[:i], mapBusy[i+1:]...)
			return
		}
	}
}

func dropMapWrites(task int) {
	var keep []mapWrite
	for _, w := range mapBusy {
		if w.task != task {
			keep = append(keep, w)
		}
	}
	mapBusy = keep
}

func MapRead(m func() interface{}, name string, site int32) {
	if !Running() {
		return
	}
	YH(site)
	if len(mapBusy) == 0 {
		return
	}
	id := mapID(m)
	for _, w := range mapBusy {
		if w.key == id && id != 0 && w.task != S.cur.ID {
			Violate("map-race", "concurrent access to the map %s at %s while task %d writes to it (Go ends the process)", name, S.where(site), w.task)
		}
	}
}

// Reset clears what must not outlive a run.
func Reset() {
	resetChans()
	resetPools()
	resetFinalizers()
	mapBusy = nil
	AsmCalls = [16]int64{}
	_ = fmt.Sprint
}
