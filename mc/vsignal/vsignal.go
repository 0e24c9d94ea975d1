// Package vsignal replaces os/signal in instrumented main packages.
package vsignal

import (
	"context"
	"os"

	"github.com/openconfig/gnmi/zz_verif/vcontext"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Reset(sig ...os.Signal)                      {}
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return vcontext.WithCancel(parent)
}
