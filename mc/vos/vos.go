package vos

import "os"

// ExitCode is the panic of an Exit.
type ExitCode int

func Exit(code int) { panic(ExitCode(code)) }

// Stdout and Stderr are set by the harness.
var (
	Stdout = os.Stdout
	Stderr = os.Stderr
	Stdin  = os.Stdin
	Args   = os.Args
)
