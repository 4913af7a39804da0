// Package debug is a quiet runtime/debug.
package debug

import "github.com/vearutop/flatjsonl/verifsim/simrt"

func Stack() []byte              { return []byte("goroutine (simulated stack)\n") }
func PrintStack()                {}
func FreeOSMemory()              { simrt.GC() }
func SetGCPercent(int) int       { return 100 }
func SetMemoryLimit(int64) int64 { return 1 << 62 }
func SetMaxStack(int) int        { return 1 << 30 }
