// Command worker runs codec simulations.
package main

import (
	"encoding/json"

	"simworld/engine"
	"simworld/glue"
	"simworld/rt"
	"simworld/worker"
)

func main() {
	glue.Install()
	var names []string
	for _, n := range engine.Nodes {
		names = append(names, n.Name)
	}
	worker.Main(worker.World{
		Gen: func(prop string, seed uint64) interface{} { return engine.Gen(prop, seed) },
		Parse: func(b json.RawMessage) (interface{}, error) {
			sp := &engine.Spec{}
			return sp, json.Unmarshal(b, sp)
		},
		Exec: func(spec interface{}, tr []rt.Ev, replay bool, c *engine.Counters) *engine.Result {
			return engine.Exec(spec.(*engine.Spec), tr, replay, c, glue.Site)
		},
		Nodes: names,
	})
}
