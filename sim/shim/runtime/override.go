// Package runtime describes the simulated machine.
package runtime

import (
	rruntime "runtime"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

func NumCPU() int                       { return simrt.NumCPU() }
func GOMAXPROCS(int) int                { return simrt.NumCPU() }
func GC()                               { simrt.GC() }
func ReadMemStats(m *rruntime.MemStats) { simrt.ReadMemStats(m) }
func Gosched()                          { simrt.Gosched() }
func NumGoroutine() int                 { return simrt.NumGoroutine() }
func SetFinalizer(any, any)             {}
