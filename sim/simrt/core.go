// Package simrt is the deterministic simulator that rewritten code runs on.
//
// Exactly one simulated thread (a parked real goroutine) runs at a time. Every
// scheduling decision, delay and fault is drawn from PRNG streams derived from
// one seed, so one (case, seed) pair is one exactly repeatable execution.
package simrt

import (
	"container/heap"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
)

// Thread is a simulated thread.
type Thread struct {
	id     int
	name   string
	wake   chan struct{}
	state  uint8
	prio   int64
	reason string
	stall  bool
	gone   bool // The goroutine has ended or is about to.
}

const (
	stRunnable uint8 = iota
	stRunning
	stBlocked
	stDone
)

// Decision is one scheduling decision: at Step, thread Tid was resumed (or stalled for Dur).
type Decision struct {
	Step int64 `json:"s"`
	Kind uint8 `json:"k"` // 0 preempt, 1 block, 2 stall.
	Tid  int   `json:"t"`
	Dur  int64 `json:"d,omitempty"`
}

// Params configures the simulated machine of one run.
type Params struct {
	Seed      uint64  `json:"seed"`
	Strategy  string  `json:"strategy"`           // random, sticky, pct, lifo, fifo, starve, serial.
	Gap       float64 `json:"gap"`                // Mean number of yield points between preemptions, 0 is never.
	PCTDepth  int     `json:"pctDepth,omitempty"` // Number of priority change points.
	PCTLen    int64   `json:"pctLen,omitempty"`   // Assumed run length in steps for change points.
	StallProb float64 `json:"stallProb,omitempty"`
	StepCost  int64   `json:"stepCost"` // ns of simulated time per step.
	NumCPU    int     `json:"numCPU"`
	MaxSteps  int64   `json:"maxSteps"`
	MaxTime   int64   `json:"maxTime"` // ns of simulated time without any file operation.
	KillStep  int64   `json:"killStep,omitempty"`

	ReadChunk  int     `json:"readChunk,omitempty"` // Max bytes per read, 0 unlimited; random below.
	IOLatency  int64   `json:"ioLatency,omitempty"` // Max ns per I/O op.
	MaxFiles   int     `json:"maxFiles,omitempty"`  // Limit of open files, 0 is none.
	PoolDrop   float64 `json:"poolDrop,omitempty"`
	MapShuffle bool    `json:"mapShuffle,omitempty"`
	SelectRand bool    `json:"selectRand,omitempty"`

	MemKind string `json:"memKind,omitempty"` // "", high, saw, spike.
	MemHigh uint64 `json:"memHigh,omitempty"`

	Faults []Fault `json:"faults,omitempty"`

	// Replay, when UseReplay is set, replaces random scheduling.
	UseReplay bool       `json:"useReplay,omitempty"`
	Replay    []Decision `json:"replay,omitempty"`
}

// Outcome is what happened in a run.
type Outcome struct {
	Exit     int    `json:"exit"`
	End      string `json:"end"` // exit, panic, fatal, deadlock, steps, time, killed.
	Message  string `json:"message,omitempty"`
	Stack    string `json:"-"`
	Steps    int64  `json:"steps"`
	SimTime  int64  `json:"simTime"`
	Switches int64  `json:"switches"`
	Threads  int    `json:"threads"`
	Hash     uint64 `json:"hash"`    // Everything observable: schedule, I/O, outcome.
	Inter    uint64 `json:"inter"`   // Interleaving only.
	MaxLive  int    `json:"maxLive"` // Max simultaneously live threads.

	Stdout []byte         `json:"-"`
	Stderr []byte         `json:"-"`
	Fired  map[string]int `json:"fired,omitempty"`
	Sched  []Decision     `json:"-"`
	Probes map[string]int `json:"-"`
}

// World is the state of one run.
type World struct {
	P     Params
	epoch uint32

	lastIO int64 // Simulated time of the last file operation.
	stalls int

	cur      *Thread
	threads  []*Thread
	runnable []*Thread
	live     int

	now0, step0 int64 // now = now0 + (step-step0)*StepCost
	timers      timerHeap
	timerSeq    int64

	sched, env Rand
	hashes     uint64 // Maps of dependencies with a hash seed.

	preemptAt int64
	fairAt    int64
	pctPoints []int64
	starveTid int
	minPrio   int64

	replayIdx int

	ended   bool
	endCh   chan struct{}
	exited  chan struct{}
	out     Outcome
	mutexes map[any][]*Thread // Threads waiting for a lock, by its address.
	conds   map[any][]*CondToken
	chans   map[uintptr]*chanState
	wins    []mapWin

	FS *FS

	heap memModel
	hash uint64
}

const fairness = 30000

// Global state read on the fast path.
var (
	step   int64
	nextAt int64 = math.MaxInt64
	dead   bool
	w      *World
	epochs uint32
	// Cov marks visited yield sites of the code under test.
	Cov [1 << 15]uint8
)

// Current returns the active world or nil.
func Current() *World { return w }

// Active tells whether a simulated run is in progress.
func Active() bool { return w != nil }

// Y is a yield point between statements of the code under test.
func Y(site int32) {
	Cov[site] = 1
	step++

	if step >= nextAt {
		slow(site)
	}
}

// Y1 yields between computing a value and storing it.
func Y1[T any](site int32, v T) T {
	Y(site)

	return v
}

// YOp is a yield point before a synchronisation or I/O operation.
func YOp() {
	if dead {
		runtime.Goexit()
	}

	step++

	if step >= nextAt {
		slow(-1)
	}
}

func (w *World) now() int64 { return w.now0 + (step-w.step0)*w.P.StepCost }

func (w *World) rebase(now int64) {
	w.now0 = now
	w.step0 = step
}

func (w *World) mix(a uint64) {
	w.hash = (w.hash ^ a) * 1099511628211
	w.hash ^= w.hash >> 29
}

func (w *World) mixInter(a uint64) {
	w.out.Inter = (w.out.Inter ^ a) * 1099511628211
	w.out.Inter ^= w.out.Inter >> 31
	w.mix(a)
}

func (w *World) mixStr(s string) {
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}

	w.mix(uint64(len(s)))
}

// slow is reached when some event is due at the current step.
func slow(site int32) {
	if dead {
		runtime.Goexit()
	}

	if w == nil {
		nextAt = math.MaxInt64

		return
	}

	w.events()

	t := w.cur

	if w.P.UseReplay {
		for w.replayIdx < len(w.P.Replay) {
			d := w.P.Replay[w.replayIdx]
			if d.Step > step {
				break
			}

			w.replayIdx++

			if d.Step < step {
				continue
			}

			switch d.Kind {
			case 0:
				if n := w.findRunnable(d.Tid); n != nil {
					w.arm()
					w.switchFrom(t, n, 0, site)

					return
				}
			case 2:
				if d.Tid == t.id {
					w.doStall(d.Dur, site)

					return
				}
			}
		}

		w.arm()

		return
	}

	if step >= w.preemptAt {
		w.drawPreempt()

		if w.P.StallProb > 0 && w.sched.Float() < w.P.StallProb && w.live > 1 && w.stalls < maxStalls {
			w.stalls++

			dur := int64(1+w.sched.Intn(1000)) * int64(1e4) * int64(1+w.sched.Intn(200))
			w.fired("stall")
			w.doStall(dur, site)

			return
		}

		if n := w.pickPreempt(t); n != nil && n != t {
			w.arm()
			w.switchFrom(t, n, 0, site)

			return
		}
	}

	w.arm()
}

// maxStalls keeps the simulated time of a run that makes progress well below MaxTime.
const maxStalls = 300

func (w *World) doStall(dur int64, site int32) {
	t := w.cur
	w.out.Sched = append(w.out.Sched, Decision{Step: step, Kind: 2, Tid: t.id, Dur: dur})
	w.mixInter(uint64(step)<<20 ^ uint64(t.id) ^ 0xabc)
	w.addTimer(w.now()+dur, func() { w.ready(t) })
	w.block("stall")
}

// events handles caps, kills and due timers.
func (w *World) events() {
	if w.P.KillStep > 0 && step >= w.P.KillStep {
		w.fired("kill")
		w.end("killed", 137, "")
	}

	if step >= w.P.MaxSteps {
		w.end("steps", -1, "step budget exhausted: "+w.dump())
	}

	now := w.now()

	if now-w.lastIO >= w.P.MaxTime {
		w.end("time", -1, "no file was touched for the whole simulated time budget: "+w.dump())
	}

	for len(w.timers) > 0 && w.timers[0].at <= now {
		w.fireTimer()
	}
}

func (w *World) fireTimer() {
	t := heap.Pop(&w.timers).(*timer) //nolint
	t.idx = -1
	t.fn()
}

// arm computes the next step at which slow has to be entered.
func (w *World) arm() {
	n := w.P.MaxSteps

	if w.P.KillStep > 0 && w.P.KillStep < n {
		n = w.P.KillStep
	}

	if w.P.UseReplay {
		for i := w.replayIdx; i < len(w.P.Replay); i++ {
			if w.P.Replay[i].Kind != 1 {
				if s := w.P.Replay[i].Step; s < n {
					n = s
				}

				break
			}
		}
	} else if w.preemptAt < n {
		n = w.preemptAt
	}

	if len(w.timers) > 0 {
		d := w.timers[0].at - w.now0
		s := w.step0 + (d+w.P.StepCost-1)/w.P.StepCost

		if s < n {
			n = s
		}
	}

	if n <= step {
		n = step + 1
	}

	nextAt = n
}

func (w *World) drawPreempt() {
	// Even strategies that hardly preempt let others run now and then, so spinning cannot last for ever.
	fair := w.fairAt <= step

	if w.fairAt <= step {
		w.fairAt = step + fairness
	}

	defer func() {
		if w.preemptAt > w.fairAt {
			w.preemptAt = w.fairAt
		}
	}()

	switch {
	case w.P.Strategy == "pct":
		// Change points only.
		w.preemptAt = math.MaxInt64

		if fair && w.cur != nil {
			w.minPrio--
			w.cur.prio = w.minPrio
		}

		for len(w.pctPoints) > 0 {
			if w.pctPoints[0] > step {
				w.preemptAt = w.pctPoints[0]

				break
			}

			w.pctPoints = w.pctPoints[1:]

			if w.cur != nil {
				w.minPrio--
				w.cur.prio = w.minPrio
			}
		}
	case w.P.Gap <= 0 || w.P.Strategy == "serial":
		w.preemptAt = math.MaxInt64
	default:
		g := int64(-math.Log(1-w.sched.Float())*w.P.Gap) + 1
		w.preemptAt = step + g
	}
}

func (w *World) findRunnable(tid int) *Thread {
	for _, t := range w.runnable {
		if t.id == tid {
			return t
		}
	}

	return nil
}

// pickPreempt chooses who runs next when the current thread could continue.
func (w *World) pickPreempt(cur *Thread) *Thread {
	if len(w.runnable) == 0 {
		return nil
	}

	switch w.P.Strategy {
	case "pct":
		best := cur

		for _, t := range w.runnable {
			if t.prio > best.prio {
				best = t
			}
		}

		return best
	case "fifo":
		return w.runnable[0]
	case "lifo":
		return w.runnable[len(w.runnable)-1]
	}

	return w.pick()
}

// pick chooses among runnable threads (there is at least one).
func (w *World) pick() *Thread {
	if len(w.runnable) == 1 {
		return w.runnable[0]
	}

	switch w.P.Strategy {
	case "pct":
		best := w.runnable[0]

		for _, t := range w.runnable {
			if t.prio > best.prio {
				best = t
			}
		}

		return best
	case "fifo", "serial":
		return w.runnable[0]
	case "lifo":
		return w.runnable[len(w.runnable)-1]
	case "starve":
		// One victim (re-drawn now and then) only runs when nobody else can.
		if w.sched.Intn(200) == 0 {
			w.starveTid = w.threads[w.sched.Intn(len(w.threads))].id
		}

		i := w.sched.Intn(len(w.runnable))
		if w.runnable[i].id == w.starveTid {
			i = (i + 1) % len(w.runnable)
		}

		return w.runnable[i]
	}

	return w.runnable[w.sched.Intn(len(w.runnable))]
}

func (w *World) pickBlocked() *Thread {
	if w.P.UseReplay {
		for w.replayIdx < len(w.P.Replay) {
			d := w.P.Replay[w.replayIdx]

			if d.Step > step {
				break
			}

			w.replayIdx++

			if d.Kind == 1 && d.Step == step {
				if n := w.findRunnable(d.Tid); n != nil {
					return n
				}
			}
		}

		best := w.runnable[0]

		for _, t := range w.runnable {
			if t.id < best.id {
				best = t
			}
		}

		return best
	}

	return w.pick()
}

func (w *World) removeRunnable(t *Thread) {
	for i, r := range w.runnable {
		if r == t {
			w.runnable = append(w.runnable[:i], w.runnable[i+1:]...)

			return
		}
	}
}

// switchFrom parks the still runnable thread t and resumes n.
func (w *World) switchFrom(t, n *Thread, kind uint8, site int32) {
	w.removeRunnable(n)
	t.state = stRunnable
	w.runnable = append(w.runnable, t)
	w.record(n, kind, site)
	w.resume(n)
	w.park(t)
}

func (w *World) record(n *Thread, kind uint8, site int32) {
	w.out.Sched = append(w.out.Sched, Decision{Step: step, Kind: kind, Tid: n.id})
	w.mixInter(uint64(uint32(site))<<32 ^ uint64(n.id)<<8 ^ uint64(kind))
	w.mix(uint64(step))
}

func (w *World) resume(n *Thread) {
	w.out.Switches++
	n.state = stRunning
	w.cur = n
	n.wake <- struct{}{}
}

func (w *World) park(t *Thread) {
	<-t.wake

	if dead {
		runtime.Goexit()
	}
}

// ready makes a blocked thread runnable.
func (w *World) ready(t *Thread) {
	if t.state != stBlocked {
		return
	}

	t.state = stRunnable
	t.reason = ""
	w.runnable = append(w.runnable, t)

	if w.P.Strategy == "pct" && w.cur != nil && t.prio > w.cur.prio {
		w.preemptAt = step + 1
		nextAt = step + 1
	}
}

// block parks the current thread until somebody calls ready.
func (w *World) block(reason string) {
	t := w.cur
	t.state = stBlocked
	t.reason = reason
	n := w.next()

	if n == t {
		t.state = stRunning
		w.cur = t
		w.arm()

		return
	}

	w.resume(n)
	w.park(t)
}

// next finds the thread to run when the current one cannot, advancing the clock if everybody waits.
func (w *World) next() *Thread {
	step++
	w.events()

	for len(w.runnable) == 0 {
		if len(w.timers) == 0 {
			w.end("deadlock", -1, "all threads are blocked: "+w.dump())
		}

		at := w.timers[0].at
		if at-w.lastIO >= w.P.MaxTime {
			w.rebase(at)
			w.end("time", -1, "no file was touched for the whole simulated time budget: "+w.dump())
		}

		if at > w.now() {
			w.rebase(at)
		}

		w.fireTimer()
	}

	n := w.pickBlocked()
	w.removeRunnable(n)
	w.record(n, 1, -2)
	w.arm()

	return n
}

func (w *World) dump() string {
	var sb strings.Builder

	n := 0

	for _, t := range w.threads {
		if t.state == stDone {
			continue
		}

		if n++; n > 12 {
			sb.WriteString(" ...")

			break
		}

		st := t.reason
		if t.state != stBlocked {
			st = "runnable"
		}

		fmt.Fprintf(&sb, " [%d %s: %s]", t.id, t.name, st)
	}

	return sb.String()
}

// end finishes the run; it never returns when called by a simulated thread.
func (w *World) end(how string, code int, msg string) {
	t := w.cur // Before Run is told: it changes cur.

	if !w.ended {
		w.ended = true
		w.out.End = how
		w.out.Exit = code
		w.out.Message = msg
		dead = true
		nextAt = 0
		w.endCh <- struct{}{}
	}

	<-t.wake
	runtime.Goexit()
}

// Exit ends the simulated process.
func Exit(code int) {
	if dead {
		runtime.Goexit()
	}

	w.end("exit", code, "")
}

// Fatal is an unrecoverable runtime error (such as concurrent map writes).
func Fatal(msg string) {
	if dead {
		runtime.Goexit()
	}

	w.end("fatal", 2, msg)
}

// Harness reports that the simulator cannot handle what the code does; such a run decides nothing.
func Harness(msg string) {
	if dead {
		runtime.Goexit()
	}

	w.end("harness", -1, msg)
}

// PreGo registers a new thread.
func PreGo(name string) *Thread {
	if dead {
		runtime.Goexit()
	}

	if w == nil {
		panic("simrt: go statement outside of a simulated run: " + name)
	}

	t := &Thread{id: len(w.threads), name: name, wake: make(chan struct{}, 1)}
	t.prio = int64(w.sched.Next() >> 2)
	w.threads = append(w.threads, t)
	w.runnable = append(w.runnable, t)
	w.live++

	if w.live > w.out.MaxLive {
		w.out.MaxLive = w.live
	}

	if w.P.Strategy == "pct" && w.cur != nil && t.prio > w.cur.prio {
		w.preemptAt = step + 1
		nextAt = step + 1
	}

	return t
}

// BeginGo parks a new thread until it is scheduled.
func BeginGo(t *Thread) { w.park(t) }

// EndGo must be deferred directly by the root function of a thread.
func EndGo(t *Thread) {
	r := recover()
	wd := w
	t.state = stDone

	if dead {
		t.gone = true
		wd.exited <- struct{}{}

		return
	}

	wd.live--

	if r != nil {
		wd.out.Stack = string(debug.Stack())
		wd.finish(t, "panic", 2, panicText(r))

		return
	}

	if t.id == 0 {
		wd.finish(t, "exit", 0, "")

		return
	}

	// next may end the run (deadlock): then this goroutine unwinds through Goexit.
	defer func() {
		if !t.gone {
			t.gone = true
			wd.exited <- struct{}{}
		}
	}()

	n := wd.next()
	t.gone = true
	wd.resume(n)
}

func panicText(r any) string {
	if e, ok := r.(error); ok {
		return e.Error()
	}

	return fmt.Sprintf("%v", r)
}

// finish ends the run from a thread that is about to return.
func (w *World) finish(t *Thread, how string, code int, msg string) {
	t.gone = true
	w.ended = true
	w.out.End = how
	w.out.Exit = code
	w.out.Message = msg
	dead = true
	nextAt = 0
	w.endCh <- struct{}{}
}

// Go starts fn as a simulated thread.
func Go(name string, fn func()) {
	t := PreGo(name)

	go func() {
		defer EndGo(t)
		BeginGo(t)
		fn()
	}()
}

// Sleep blocks the current thread for d ns of simulated time.
func Sleep(d int64) {
	YOp()

	if d <= 0 {
		return
	}

	t := w.cur
	w.addTimer(w.now()+d, func() { w.ready(t) })
	w.block("sleep")
}

// Now is the simulated time in ns.
func Now() int64 {
	if w == nil {
		return 0
	}

	return w.now()
}

// Run executes main as thread 0 of a fresh world and returns when it ended.
func Run(p Params, fs *FS, main func()) Outcome {
	if w != nil {
		panic("simrt: nested run")
	}

	epochs++

	wd := &World{
		P: p, epoch: epochs, endCh: make(chan struct{}, 1), exited: make(chan struct{}),
		FS: fs, chans: map[uintptr]*chanState{}, mutexes: map[any][]*Thread{}, conds: map[any][]*CondToken{},
	}
	wd.hash = 14695981039346656037
	wd.out.Inter = wd.hash
	wd.out.Fired = map[string]int{}
	wd.out.Probes = map[string]int{}
	wd.sched = NewRand(p.Seed, 0x5ced)
	wd.env = NewRand(p.Seed, 0xe4f)
	wd.starveTid = -1
	wd.heap.init(wd)

	if p.Strategy == "pct" {
		for i := 0; i < p.PCTDepth; i++ {
			wd.pctPoints = append(wd.pctPoints, 1+int64(wd.sched.Intn(int(p.PCTLen))))
		}

		sortInt64(wd.pctPoints)
	}

	fs.w = wd
	w = wd
	step = 0
	dead = false
	wd.preemptAt = math.MaxInt64
	wd.drawPreempt()

	t := PreGo("main")

	go func() {
		defer EndGo(t)
		BeginGo(t)
		main()
	}()

	wd.removeRunnable(t)
	wd.arm()
	t.state = stRunning
	wd.cur = t
	t.wake <- struct{}{}

	<-wd.endCh

	// Unwind whatever still lives, one thread at a time.
	wd.out.Steps = step
	wd.out.SimTime = wd.now()

	for _, t := range wd.threads {
		if t.gone {
			continue
		}

		wd.cur = t
		t.wake <- struct{}{}
		<-wd.exited
	}

	wd.out.Threads = len(wd.threads)
	wd.mixStr(wd.out.End)
	wd.mix(uint64(wd.out.Exit))
	wd.mixStr(wd.out.Message)
	wd.mix(uint64(wd.out.Steps))
	wd.mix(uint64(wd.out.SimTime))
	wd.out.Stdout = fs.stdout
	wd.out.Stderr = fs.stderr
	wd.mixStr(string(fs.stdout))
	wd.mixStr(string(fs.stderr))
	fs.mixAll(wd)
	wd.out.Hash = wd.hash

	w = nil
	dead = false
	step = 0
	nextAt = math.MaxInt64

	return wd.out
}

func (w *World) fired(kind string) { w.out.Fired[kind]++ }

// Probe counts a rare condition of interest.
func Probe(name string) {
	if w != nil {
		w.out.Probes[name]++
	}
}

func sortInt64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

type timer struct {
	at  int64
	seq int64
	fn  func()
	idx int
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}

	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) } //nolint
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]

	return t
}

func (w *World) addTimer(at int64, fn func()) *timer {
	w.timerSeq++
	t := &timer{at: at, seq: w.timerSeq, fn: fn}
	heap.Push(&w.timers, t)

	if !dead {
		w.arm()
	}

	return t
}

func (w *World) delTimer(t *timer) bool {
	if t == nil || t.idx < 0 || t.idx >= len(w.timers) || w.timers[t.idx] != t {
		return false
	}

	heap.Remove(&w.timers, t.idx)
	t.idx = -1

	return true
}

// Timer is an opaque simulated timer.
type Timer struct {
	t *timer
	w *World
}

// AddTimer calls fn (which must not block) at simulated time Now()+d.
func AddTimer(d int64, fn func()) *Timer {
	if d < 0 {
		d = 0
	}

	return &Timer{t: w.addTimer(w.now()+d, fn), w: w}
}

// Stop removes the timer, it tells whether it was pending.
func (t *Timer) Stop() bool {
	if t == nil || w == nil || t.w != w {
		return false
	}

	return w.delTimer(t.t)
}

// Rand is splitmix64.
type Rand struct{ s uint64 }

// NewRand derives a stream from a seed.
func NewRand(seed, stream uint64) Rand {
	r := Rand{s: seed*0x9E3779B97F4A7C15 ^ stream*0xD1B54A32D192ED03}
	r.Next()

	return r
}

// Next is the next 64 random bits.
func (r *Rand) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB

	return z ^ (z >> 31)
}

// Intn is uniform in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}

	return int(r.Next() % uint64(n))
}

// Float is uniform in [0,1).
func (r *Rand) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// Bool is true with probability p.
func (r *Rand) Bool(p float64) bool { return r.Float() < p }

// EnvRand draws from the environment stream of the current run.
func EnvRand() *Rand {
	if w == nil {
		return &Rand{s: 1}
	}

	return &w.env
}

// EnvU64 draws a number from the environment stream.
func EnvU64() uint64 { return EnvRand().Next() }
