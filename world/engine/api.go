// Package engine generates, executes and judges simulated runs.
package engine

// API is one node's copy of the library.
type API struct {
	Name             string
	Reset            func() // re-initialise the node's packages, as a restart would
	EncFast, DecFast func() bool

	E     map[string]func([]uint32) []byte               // whole-stream encoders
	ED    map[string]func([]uint32, uint32) []byte       // with delta base
	D     map[string]func(int, []byte, []uint32)         // whole-stream decoders
	DD    map[string]func(int, []byte, []uint32, uint32) //
	P8    map[string]func([]uint32, []byte) uint16       // block encoders
	P8D   map[string]func([]uint32, []byte, uint32) uint16
	P4    map[string]func([]uint32, []byte) uint8
	P4D   map[string]func([]uint32, []byte, uint32) uint8
	PN    map[string]func([]uint32, []byte, int) uint8
	PND   map[string]func([]uint32, []byte, int, uint32) uint8
	G8    map[string]func([]byte, []uint32, uint16) // block decoders
	G8D   map[string]func([]byte, []uint32, uint16, uint32)
	G4    map[string]func([]byte, []uint32, uint8)
	G4D   map[string]func([]byte, []uint32, uint8, uint32)
	GN    map[string]func([]byte, []uint32, uint8, int) int
	GND   map[string]func([]byte, []uint32, uint8, int, uint32) int
	VP    func([]uint32, []byte) int
	VG    func([]byte, []uint32) int
	VPD   func([]uint32, []byte, uint32) int
	VGD   func([]byte, []uint32, uint32) int
	Delta func([]uint32, []uint32)
	Sort  func([]uint32)
	Rand  func() uint32
	Gen   func(int) []uint32
	Size1 func(uint8) int
	Size2 func(uint16) int
}

// Fn describes one public function of the library.
type Fn struct {
	Name  string
	Kind  string // field of API
	Delta bool
	Fast  bool // accelerated by name
	Gen   bool // general entry point
	Enc   bool
}

// Fns lists the public functions the simulation drives.
var Fns = []Fn{
	{"WriteAll", "E", false, false, true, true},
	{"WriteAllScalar", "E", false, false, false, true},
	{"WriteAllFast", "E", false, true, false, true},
	{"WriteAllDelta", "ED", true, false, true, true},
	{"WriteAllDeltaScalar", "ED", true, false, false, true},
	{"WriteAllDeltaFast", "ED", true, true, false, true},
	{"ReadAll", "D", false, false, true, false},
	{"ReadAllScalar", "D", false, false, false, false},
	{"ReadAllFast", "D", false, true, false, false},
	{"ReadAllDelta", "DD", true, false, true, false},
	{"ReadAllDeltaScalar", "DD", true, false, false, false},
	{"ReadAllDeltaFast", "DD", true, true, false, false},
	{"Put8uint32", "P8", false, false, true, true},
	{"Put8uint32Scalar", "P8", false, false, false, true},
	{"Put8uint32Fast", "P8", false, true, false, true},
	{"Put8uint32Delta", "P8D", true, false, true, true},
	{"Put8uint32DeltaScalar", "P8D", true, false, false, true},
	{"Put8uint32DeltaFast", "P8D", true, true, false, true},
	{"Put4uint32Scalar", "P4", false, false, false, true},
	{"Put4uint32DeltaScalar", "P4D", true, false, false, true},
	{"PutUint32Scalar", "PN", false, false, false, true},
	{"PutUint32DeltaScalar", "PND", true, false, false, true},
	{"Get8uint32", "G8", false, false, true, false},
	{"Get8uint32Scalar", "G8", false, false, false, false},
	{"Get8uint32Fast", "G8", false, true, false, false},
	{"Get8uint32Delta", "G8D", true, false, true, false},
	{"Get8uint32DeltaScalar", "G8D", true, false, false, false},
	{"Get8uint32DeltaFast", "G8D", true, true, false, false},
	{"Get4uint32Scalar", "G4", false, false, false, false},
	{"Get4uint32DeltaScalar", "G4D", true, false, false, false},
	{"GetUint32Scalar", "GN", false, false, false, false},
	{"GetUint32DeltaScalar", "GND", true, false, false, false},
	{"PutVarint", "VP", false, false, false, true},
	{"GetVarint", "VG", false, false, false, false},
	{"PutDeltaVarint", "VPD", true, false, false, true},
	{"GetDeltaVarint", "VGD", true, false, false, false},
	{"Delta", "Delta", false, false, false, true},
	{"SortUint32", "Sort", false, false, false, true},
}

var fnByName = map[string]Fn{}

func init() {
	for _, f := range Fns {
		fnByName[f.Name] = f
	}
}

// Nodes are the simulated machines, filled in by the generated glue.
var Nodes []API
