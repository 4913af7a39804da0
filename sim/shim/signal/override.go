// Package signal never delivers a signal, a kill ends the process at once.
package signal

import (
	"context"
	"os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Ignored(sig os.Signal) bool                  { return false }
func Reset(sig ...os.Signal)                      {}

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, func()) {
	return parent, func() {}
}
