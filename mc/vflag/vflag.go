// A copy of this package serves every instrumented main package.
package vflag

import (
	"flag"
	"time"
)

// CommandLine holds the flags of the main package.
var CommandLine = flag.NewFlagSet("main", flag.ContinueOnError)

// Argv are the arguments that Parse takes.
var Argv []string

// Restart forgets all flags.
func Restart() { CommandLine = flag.NewFlagSet("main", flag.ContinueOnError) }

func Bool(name string, value bool, usage string) *bool { return CommandLine.Bool(name, value, usage) }
func BoolVar(p *bool, name string, value bool, usage string) {
	CommandLine.BoolVar(p, name, value, usage)
}
func Int(name string, value int, usage string) *int { return CommandLine.Int(name, value, usage) }
func IntVar(p *int, name string, value int, usage string) {
	CommandLine.IntVar(p, name, value, usage)
}
func Int64(name string, value int64, usage string) *int64 {
	return CommandLine.Int64(name, value, usage)
}
func Int64Var(p *int64, name string, value int64, usage string) {
	CommandLine.Int64Var(p, name, value, usage)
}
func Uint(name string, value uint, usage string) *uint { return CommandLine.Uint(name, value, usage) }
func UintVar(p *uint, name string, value uint, usage string) {
	CommandLine.UintVar(p, name, value, usage)
}
func Uint64(name string, value uint64, usage string) *uint64 {
	return CommandLine.Uint64(name, value, usage)
}
func Uint64Var(p *uint64, name string, value uint64, usage string) {
	CommandLine.Uint64Var(p, name, value, usage)
}
func String(name string, value string, usage string) *string {
	return CommandLine.String(name, value, usage)
}
func StringVar(p *string, name string, value string, usage string) {
	CommandLine.StringVar(p, name, value, usage)
}
func Float64(name string, value float64, usage string) *float64 {
	return CommandLine.Float64(name, value, usage)
}
func Float64Var(p *float64, name string, value float64, usage string) {
	CommandLine.Float64Var(p, name, value, usage)
}
func Duration(name string, value time.Duration, usage string) *time.Duration {
	return CommandLine.Duration(name, value, usage)
}
func DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	CommandLine.DurationVar(p, name, value, usage)
}
func Var(value flag.Value, name string, usage string)    { CommandLine.Var(value, name, usage) }
func Func(name, usage string, fn func(string) error)     { CommandLine.Func(name, usage, fn) }
func BoolFunc(name, usage string, fn func(string) error) { CommandLine.BoolFunc(name, usage, fn) }
func Set(name, value string) error                       { return CommandLine.Set(name, value) }
func Lookup(name string) *flag.Flag                      { return CommandLine.Lookup(name) }
func Visit(fn func(*flag.Flag))                          { CommandLine.Visit(fn) }
func VisitAll(fn func(*flag.Flag))                       { CommandLine.VisitAll(fn) }
func Arg(i int) string                                   { return CommandLine.Arg(i) }
func Args() []string                                     { return CommandLine.Args() }
func NArg() int                                          { return CommandLine.NArg() }
func NFlag() int                                         { return CommandLine.NFlag() }
func PrintDefaults()                                     {}
func Parsed() bool                                       { return CommandLine.Parsed() }
func Usage()                                             {}
func Parse() {
	if err := CommandLine.Parse(Argv); err != nil {
		panic("flag: " + err.Error())
	}
}
