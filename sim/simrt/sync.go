package simrt

import "runtime"

// Epoch identifies the current run; state of primitives from earlier runs is void.
func Epoch() uint32 { return epochs }

// WaitOn blocks the current thread on key until Wake(key).
func WaitOn(key any, reason string) {
	w.mutexes[key] = append(w.mutexes[key], w.cur)
	w.block(reason)
}

// Wake makes all (or the first n) threads waiting on key runnable.
func Wake(key any, n int) {
	if w == nil {
		return
	}

	q := w.mutexes[key]
	if len(q) == 0 {
		return
	}

	if n < 0 || n >= len(q) {
		n = len(q)
		delete(w.mutexes, key)
	} else {
		w.mutexes[key] = append([]*Thread(nil), q[n:]...)
	}

	for _, t := range q[:n] {
		w.ready(t)
	}
}

// Gosched lets other threads run.
func Gosched() {
	YOp()

	if w == nil || len(w.runnable) == 0 {
		return
	}

	t := w.cur
	t.state = stBlocked
	w.ready(t)
	// t is runnable now: pick anybody, itself included.
	n := w.next()

	if n == t {
		t.state = stRunning
		w.cur = t
		w.arm()

		return
	}

	w.resume(n)
	w.park(t)
}

// PoolGet decides which of n pooled items to hand out, -1 is none.
func PoolGet(n int) int {
	if n == 0 {
		return -1
	}

	if w == nil {
		return n - 1
	}

	if w.P.PoolDrop > 0 && w.env.Bool(w.P.PoolDrop) {
		w.fired("pool_drop")

		return -1
	}

	return w.env.Intn(n)
}

// PoolDrop tells whether a pooled item is lost (collected).
func PoolDrop() bool {
	if w == nil || w.P.PoolDrop == 0 {
		return false
	}

	if w.env.Bool(w.P.PoolDrop) {
		w.fired("pool_drop")

		return true
	}

	return false
}

// NumCPU of the simulated machine.
func NumCPU() int {
	if w == nil {
		return 1
	}

	return w.P.NumCPU
}

// NumGoroutine of the simulated process.
func NumGoroutine() int {
	if w == nil {
		return 1
	}

	return w.live
}

type memModel struct {
	kind  string
	high  uint64
	gcs   int
	phase int64
}

func (m *memModel) init(w *World) {
	m.kind = w.P.MemKind
	m.high = w.P.MemHigh
	m.phase = int64(1+w.env.Intn(20)) * 1e8
}

// ReadMemStats fills simulated memory statistics.
func ReadMemStats(ms *runtime.MemStats) {
	YOp()

	*ms = runtime.MemStats{}
	ms.HeapInuse = 10 << 20
	ms.HeapObjects = 1000

	if w == nil {
		return
	}

	m := &w.heap
	high := false

	switch m.kind {
	case "high": // The data set simply does not fit below the limit.
		high = true
	case "saw": // Grows, a collection or the passage of time brings it down.
		high = (w.now()/m.phase)%2 == 1
	case "gc": // High until collected twice.
		high = m.gcs < 2
	case "rand":
		high = w.env.Bool(0.5)
	}

	if high {
		ms.HeapInuse = m.high
		w.fired("mem_high")
	}

	ms.HeapAlloc = ms.HeapInuse
	ms.Sys = ms.HeapInuse * 2
}

// GC is a simulated collection.
func GC() {
	YOp()

	if w != nil {
		w.heap.gcs++
	}
}

// CondToken is one waiting Cond.Wait call.
type CondToken struct {
	t    *Thread
	done bool
}

// CondEnqueue registers the current thread on a condition.
func CondEnqueue(key any) *CondToken {
	tok := &CondToken{t: w.cur}
	w.conds[key] = append(w.conds[key], tok)

	return tok
}

// Wait blocks until signalled.
func (c *CondToken) Wait() {
	for !c.done {
		w.block("sync.Cond.Wait")
	}
}

// CondSignal wakes n (all when negative) waiters.
func CondSignal(key any, n int) {
	q := w.conds[key]

	for len(q) > 0 && n != 0 {
		q[0].done = true
		w.ready(q[0].t)
		q = q[1:]
		n--
	}

	w.conds[key] = q
}

// RangeMapAtomic is RangeMap without access checks, for maps that are safe to share.
func RangeMapAtomic(m map[any]any) func(func(any, any) bool) {
	return func(yield func(any, any) bool) {
		for _, k := range mapKeys[map[any]any, any, any](m) {
			v, ok := m[k]
			if !ok {
				continue
			}

			if !yield(k, v) {
				return
			}
		}
	}
}
