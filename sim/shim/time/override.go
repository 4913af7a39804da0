// Package time runs on the simulated clock.
package time

import (
	rtime "time"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

var base = rtime.Date(2024, 1, 1, 0, 0, 0, 0, rtime.UTC)

func Now() rtime.Time                          { return base.Add(rtime.Duration(simrt.Now())) }
func Since(t rtime.Time) rtime.Duration        { return Now().Sub(t) }
func Until(t rtime.Time) rtime.Duration        { return t.Sub(Now()) }
func Sleep(d rtime.Duration)                   { simrt.Sleep(int64(d)) }
func After(d rtime.Duration) <-chan rtime.Time { return NewTimer(d).C }
func Tick(d rtime.Duration) <-chan rtime.Time  { return NewTicker(d).C }

type Timer struct {
	C <-chan rtime.Time
	c chan rtime.Time
	f func()
	t *simrt.Timer
}

func (t *Timer) start(d rtime.Duration) {
	t.t = simrt.AddTimer(int64(d), func() {
		if t.f != nil {
			simrt.Go("time.AfterFunc", t.f)

			return
		}

		simrt.TrySendNoYield(t.c, Now())
	})
}

func NewTimer(d rtime.Duration) *Timer {
	simrt.YOp()

	c := simrt.MakeChan(make(chan rtime.Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)

	return t
}

func AfterFunc(d rtime.Duration, f func()) *Timer {
	simrt.YOp()

	t := &Timer{f: f}
	t.start(d)

	return t
}

func (t *Timer) Stop() bool {
	simrt.YOp()

	ok := t.t.Stop()
	if t.c != nil {
		simrt.Drain(t.c)
	}

	return ok
}

func (t *Timer) Reset(d rtime.Duration) bool {
	ok := t.Stop()
	t.start(d)

	return ok
}

type Ticker struct {
	C <-chan rtime.Time
	c chan rtime.Time
	d rtime.Duration
	t *simrt.Timer
}

func NewTicker(d rtime.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}

	simrt.YOp()

	c := simrt.MakeChan(make(chan rtime.Time, 1))
	t := &Ticker{C: c, c: c, d: d}
	t.start()

	return t
}

func (t *Ticker) start() {
	t.t = simrt.AddTimer(int64(t.d), func() {
		simrt.TrySendNoYield(t.c, Now())
		t.start()
	})
}

func (t *Ticker) Stop() {
	simrt.YOp()
	t.t.Stop()
	simrt.Drain(t.c)
}

func (t *Ticker) Reset(d rtime.Duration) {
	t.Stop()
	t.d = d
	t.start()
}
