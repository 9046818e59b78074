// Package simflag stands in for package flag: the command line of the
// simulated process.
package simflag

import (
	"errors"
	"flag"
	"io"
	"time"

	"simworld/simos"
)

type (
	FlagSet       = flag.FlagSet
	Flag          = flag.Flag
	Value         = flag.Value
	Getter        = flag.Getter
	ErrorHandling = flag.ErrorHandling
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var (
	ErrHelp     = flag.ErrHelp
	CommandLine = flag.NewFlagSet("tool", flag.ContinueOnError)
	Usage       = func() {}
)

// Boot makes a new process's command line.
func Boot() {
	CommandLine = flag.NewFlagSet("tool", flag.ContinueOnError)
	CommandLine.SetOutput(io.Discard)
}

func NewFlagSet(n string, e flag.ErrorHandling) *flag.FlagSet {
	if e == flag.ExitOnError {
		e = flag.ContinueOnError
	}
	return flag.NewFlagSet(n, e)
}

func Parse() {
	var a []string
	if len(simos.Args) > 1 {
		a = simos.Args[1:]
	}
	if err := CommandLine.Parse(a); err != nil {
		if errors.Is(err, flag.ErrHelp) {
			simos.Exit(0)
		}
		simos.Exit(2)
	}
}

func String(n, v, u string) *string                  { return CommandLine.String(n, v, u) }
func Bool(n string, v bool, u string) *bool          { return CommandLine.Bool(n, v, u) }
func Int(n string, v int, u string) *int             { return CommandLine.Int(n, v, u) }
func Int64(n string, v int64, u string) *int64       { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return CommandLine.Uint(n, v, u) }
func Float64(n string, v float64, u string) *float64 { return CommandLine.Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func StringVar(p *string, n, v, u string)         { CommandLine.StringVar(p, n, v, u) }
func BoolVar(p *bool, n string, v bool, u string) { CommandLine.BoolVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)    { CommandLine.IntVar(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Var(v flag.Value, n, u string)           { CommandLine.Var(v, n, u) }
func Func(n, u string, fn func(string) error) { CommandLine.Func(n, u, fn) }
func Args() []string                          { return CommandLine.Args() }
func Arg(i int) string                        { return CommandLine.Arg(i) }
func NArg() int                               { return CommandLine.NArg() }
func NFlag() int                              { return CommandLine.NFlag() }
func Parsed() bool                            { return CommandLine.Parsed() }
func PrintDefaults()                          { CommandLine.PrintDefaults() }
func Lookup(n string) *flag.Flag              { return CommandLine.Lookup(n) }
func Set(n, v string) error                   { return CommandLine.Set(n, v) }
func Visit(fn func(*flag.Flag))               { CommandLine.Visit(fn) }
func VisitAll(fn func(*flag.Flag))            { CommandLine.VisitAll(fn) }
