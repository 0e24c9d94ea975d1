// Package vglog replaces github.com/golang/glog: logging has no observable
// effect under the model checker. Formatting is still evaluated for arguments
// that can panic while being formatted? No: glog formats lazily only when
// enabled, so formatting is skipped here.
package vglog

import "fmt"

type Level int32
type Verbose bool

func V(level Level) Verbose { return false }

func (v Verbose) Info(args ...any)                     {}
func (v Verbose) Infoln(args ...any)                   {}
func (v Verbose) Infof(format string, args ...any)     {}
func (v Verbose) InfoDepth(d int, args ...any)         {}
func (v Verbose) InfoDepthf(d int, f string, a ...any) {}
func Info(args ...any)                                 {}
func Infof(format string, args ...any)                 {}
func Infoln(args ...any)                               {}
func InfoDepth(d int, args ...any)                     {}
func InfoDepthf(d int, f string, a ...any)             {}
func Warning(args ...any)                              {}
func Warningf(format string, args ...any)              {}
func Warningln(args ...any)                            {}
func WarningDepth(d int, args ...any)                  {}
func WarningDepthf(d int, f string, a ...any)          {}
func Error(args ...any)                                {}
func Errorf(format string, args ...any)                {}
func Errorln(args ...any)                              {}
func ErrorDepth(d int, args ...any)                    {}
func ErrorDepthf(d int, f string, a ...any)            {}
func Flush()                                           {}
func Fatal(args ...any)                                { panic("glog.Fatal: " + fmt.Sprint(args...)) }
func Fatalf(format string, args ...any)                { panic("glog.Fatal: " + fmt.Sprintf(format, args...)) }
func Fatalln(args ...any)                              { panic("glog.Fatal: " + fmt.Sprintln(args...)) }
func Exit(args ...any)                                 { panic("glog.Exit: " + fmt.Sprint(args...)) }
func Exitf(format string, args ...any)                 { panic("glog.Exit: " + fmt.Sprintf(format, args...)) }
