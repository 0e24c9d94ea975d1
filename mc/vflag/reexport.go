// Code generated by reexport.py from flag. DO NOT EDIT.

// Package vflag replaces flag in instrumented code.
package vflag

import "flag"

const ContinueOnError = flag.ContinueOnError

var ErrHelp = flag.ErrHelp

type ErrorHandling = flag.ErrorHandling

const ExitOnError = flag.ExitOnError

type Flag = flag.Flag
type FlagSet = flag.FlagSet
type Getter = flag.Getter

var NewFlagSet = flag.NewFlagSet

const PanicOnError = flag.PanicOnError

var TextVar = flag.TextVar
var UnquoteUsage = flag.UnquoteUsage

type Value = flag.Value
