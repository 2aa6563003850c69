// Package flag gives every simulated process its own command line.
package flag

import (
	real "flag"
	"io"
	"time"

	"verif.local/simrt"
)

var CommandLine = real.CommandLine

func fs() *real.FlagSet {
	n := simrt.CurNode()
	if n == nil {
		return CommandLine
	}
	if n.Flags == nil {
		f := real.NewFlagSet(n.Name, real.ContinueOnError)
		f.SetOutput(io.Discard)
		n.Flags = f
	}
	return n.Flags.(*real.FlagSet)
}

func Int(name string, v int, u string) *int                { return fs().Int(name, v, u) }
func IntVar(p *int, name string, v int, u string)          { fs().IntVar(p, name, v, u) }
func Int64(name string, v int64, u string) *int64          { return fs().Int64(name, v, u) }
func Uint(name string, v uint, u string) *uint             { return fs().Uint(name, v, u) }
func String(name string, v string, u string) *string       { return fs().String(name, v, u) }
func StringVar(p *string, name string, v string, u string) { fs().StringVar(p, name, v, u) }
func Bool(name string, v bool, u string) *bool             { return fs().Bool(name, v, u) }
func BoolVar(p *bool, name string, v bool, u string)       { fs().BoolVar(p, name, v, u) }
func Float64(name string, v float64, u string) *float64    { return fs().Float64(name, v, u) }
func Duration(name string, v time.Duration, u string) *time.Duration {
	return fs().Duration(name, v, u)
}
func Var(v real.Value, name, u string) { fs().Var(v, name, u) }
func Parsed() bool                     { return fs().Parsed() }
func Arg(i int) string                 { return fs().Arg(i) }
func Args() []string                   { return fs().Args() }
func NArg() int                        { return fs().NArg() }
func NFlag() int                       { return fs().NFlag() }
func Lookup(n string) *real.Flag       { return fs().Lookup(n) }
func Set(n, v string) error            { return fs().Set(n, v) }
func Usage()                           {}
func PrintDefaults()                   {}
func Parse() {
	if err := fs().Parse(simrt.CurNode().Args); err != nil {
		simrt.Die(simrt.ExitOS, "flag: "+err.Error())
	}
}
