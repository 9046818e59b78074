// Command toolworker runs simulations of the repository's tools.
package main

import (
	"simworld/engine"
	"simworld/rt"
	"simworld/toolglue"
	"simworld/toolsim"
	"simworld/worker"
)

func main() {
	toolglue.Install()
	worker.Main(worker.World{
		Gen:   func(prop string, seed uint64) interface{} { return toolsim.Gen(prop, seed) },
		Parse: toolsim.Parse,
		Exec: func(spec interface{}, tr []rt.Ev, replay bool, c *engine.Counters) *engine.Result {
			return toolsim.Exec(spec.(*toolsim.Spec), tr, replay, c)
		},
	})
}
