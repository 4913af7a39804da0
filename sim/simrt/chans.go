package simrt

import (
	"iter"
	"unsafe"
)

type waiter struct {
	t    *Thread
	val  any
	ok   bool
	idx  int
	sel  *selection // Shared between the cases of one select.
	done bool
}

type selection struct {
	fired *waiter
}

func (w *waiter) gone() bool { return w.done || (w.sel != nil && w.sel.fired != nil) }

func (w *waiter) fire() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w
	}
}

type chanState struct {
	cap     int
	buf     []any
	closed  bool
	foreign bool
	recvq   []*waiter
	sendq   []*waiter
	keep    any
}

func popq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]

		if !x.gone() {
			return x
		}
	}

	return nil
}

func chanPtr[T any](c <-chan T) uintptr {
	return *(*uintptr)(unsafe.Pointer(&c))
}

func stateOf[T any](c <-chan T) *chanState {
	p := chanPtr(c)
	if p == 0 {
		return nil
	}

	if w == nil { // Initialisation of package variables.
		s := globalChans[p]
		if s == nil {
			panic("simrt: channel of unknown origin")
		}

		return s
	}

	s := w.chans[p]
	if s == nil {
		g := globalChans[p]
		if g == nil {
			Harness("channel of unknown origin")
		}

		s = &chanState{cap: cap(c), keep: c, closed: g.closed, buf: append([]any(nil), g.buf...)}
		w.chans[p] = s
	}

	return s
}

// globalChans are channels made outside of runs (package variables).
var (
	globalChans = map[uintptr]*chanState{}
)

// MakeChan registers a new channel.
func MakeChan[T any](c chan T) chan T {
	p := chanPtr[T](c)

	if w == nil {
		globalChans[p] = &chanState{cap: cap(c), keep: c}
	} else {
		w.chans[p] = &chanState{cap: cap(c), keep: c}
	}

	return c
}

// SendTo sends to a channel.
func SendTo[T any](c chan<- T) func(v T) {
	return func(v T) {
		YOp()

		s := stateOf(bidi(c))
		if s == nil {
			blockForever("chan send (nil chan)")
		}

		if s.trySend(v) {
			return
		}

		x := &waiter{t: w.cur, val: v}
		s.sendq = append(s.sendq, x)
		blockWaiter("chan send", x)

		if !x.ok {
			panic(plainError("send on closed channel"))
		}
	}
}

func bidi[T any](c chan<- T) <-chan T {
	return *(*<-chan T)(unsafe.Pointer(&c))
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func blockWaiter(reason string, x *waiter) {
	for !x.done {
		w.block(reason)
	}
}

func blockForever(reason string) {
	for {
		w.block(reason)
	}
}

// BlockForever is select {}.
func BlockForever() {
	YOp()
	blockForever("select (no cases)")
}

func (s *chanState) trySend(v any) bool {
	if s.closed {
		panic(plainError("send on closed channel"))
	}

	if r := popq(&s.recvq); r != nil {
		r.val, r.ok = v, true
		r.fire()
		w.ready(r.t)

		return true
	}

	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)

		return true
	}

	return false
}

func (s *chanState) tryRecv() (v any, ok, done bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf = s.buf[1:]

		if x := popq(&s.sendq); x != nil {
			s.buf = append(s.buf, x.val)
			x.ok = true
			x.fire()
			w.ready(x.t)
		}

		return v, true, true
	}

	if x := popq(&s.sendq); x != nil {
		x.ok = true
		x.fire()
		w.ready(x.t)

		return x.val, true, true
	}

	if s.closed {
		return nil, false, true
	}

	return nil, false, false
}

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)

	return v
}

// Recv2 receives from a channel.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	YOp()

	s := stateOf(c)
	if s == nil {
		blockForever("chan receive (nil chan)")
	}

	a, ok, done := s.tryRecv()
	if !done {
		x := &waiter{t: w.cur}
		s.recvq = append(s.recvq, x)
		blockWaiter("chan receive", x)
		a, ok = x.val, x.ok
	}

	if a != nil {
		v, _ = a.(T)
	}

	return v, ok
}

// RangeChan ranges over a channel.
func RangeChan[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	YOp()

	s := stateOf(bidi(c))
	if s == nil {
		panic(plainError("close of nil channel"))
	}

	if s.closed {
		panic(plainError("close of closed channel"))
	}

	s.closed = true

	for r := popq(&s.recvq); r != nil; r = popq(&s.recvq) {
		r.val, r.ok = nil, false
		r.fire()
		w.ready(r.t)
	}

	for r := popq(&s.sendq); r != nil; r = popq(&s.sendq) {
		r.ok = false
		r.fire()
		w.ready(r.t)
	}
}

// TrySendNoYield is used by timers.
func TrySendNoYield[T any](c chan T, v T) bool {
	return stateOf[T](c).trySend(v)
}

// ChLen is len of a channel.
func ChLen[T any](c <-chan T) int {
	if c == nil {
		return 0
	}

	return len(stateOf(c).buf)
}

// Case is one select case.
type Case interface {
	state() *chanState
	isSend() bool
	sendVal() any
	set(v any, ok bool)
}

// RecvC is a receiving case.
type RecvC[T any] struct {
	c  <-chan T
	v  T
	ok bool
}

// RecvCase makes a receiving case.
func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }

func (r *RecvC[T]) state() *chanState { return stateOf(r.c) }
func (r *RecvC[T]) isSend() bool      { return false }
func (r *RecvC[T]) sendVal() any      { return nil }
func (r *RecvC[T]) set(v any, ok bool) {
	if v != nil {
		r.v, _ = v.(T)
	}

	r.ok = ok
}

// Val is the received value.
func (r *RecvC[T]) Val() T { return r.v }

// Val2 is the received value.
func (r *RecvC[T]) Val2() (T, bool) { return r.v, r.ok }

// SendC is a sending case.
type SendC[T any] struct {
	c chan<- T
	v T
}

// SendCase makes a sending case.
func SendCase[T any](c chan<- T) func(v T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
}

func (r *SendC[T]) state() *chanState { return stateOf(bidi(r.c)) }
func (r *SendC[T]) isSend() bool      { return true }
func (r *SendC[T]) sendVal() any      { return r.v }
func (r *SendC[T]) set(any, bool)     {}

// Select runs a select statement, -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	YOp()

	if len(cases) == 0 {
		if hasDefault {
			return -1
		}

		blockForever("select (no cases)")
	}

	off := 0
	if w != nil && w.P.SelectRand {
		off = w.env.Intn(len(cases))
	}

	states := make([]*chanState, len(cases))
	for i, c := range cases {
		states[i] = c.state()
	}

	for i := range cases {
		j := (i + off) % len(cases)
		c, s := cases[j], states[j]

		if s == nil {
			continue
		}

		if c.isSend() {
			if s.trySend(c.sendVal()) {
				return j
			}
		} else if v, ok, done := s.tryRecv(); done {
			c.set(v, ok)

			return j
		}
	}

	if hasDefault {
		return -1
	}

	sel := &selection{}

	for i, c := range cases {
		s := states[i]
		if s == nil {
			continue
		}

		x := &waiter{t: w.cur, sel: sel, idx: i}

		if c.isSend() {
			x.val = c.sendVal()
			s.sendq = append(s.sendq, x)
		} else {
			s.recvq = append(s.recvq, x)
		}
	}

	for sel.fired == nil {
		w.block("select")
	}

	// Forget the other cases.
	for _, s := range states {
		if s != nil {
			s.recvq = compact(s.recvq)
			s.sendq = compact(s.sendq)
		}
	}

	x := sel.fired
	c := cases[x.idx]

	if c.isSend() {
		if !x.ok {
			panic(plainError("send on closed channel"))
		}
	} else {
		c.set(x.val, x.ok)
	}

	return x.idx
}

func compact(q []*waiter) []*waiter {
	n := q[:0]

	for _, x := range q {
		if !x.gone() {
			n = append(n, x)
		}
	}

	return n
}

// Drain empties the buffer of a timer channel.
func Drain[T any](c chan T) {
	if w == nil {
		return
	}

	if s := w.chans[chanPtr[T](c)]; s != nil {
		s.buf = nil
	}
}
