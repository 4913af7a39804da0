// Package sync is simulated synchronisation.
package sync

import (
	"sync"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

type Locker = sync.Locker

// Mutex is 8 bytes as in the standard library.
type Mutex struct {
	locked bool
	epoch  uint32
}

func (m *Mutex) sync() {
	if e := simrt.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if !simrt.Active() {
		return
	}

	simrt.YOp()
	m.sync()

	for m.locked {
		simrt.WaitOn(m, "sync.Mutex.Lock")
	}

	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.YOp()
	m.sync()

	if m.locked {
		return false
	}

	m.locked = true

	return true
}

func (m *Mutex) Unlock() {
	if !simrt.Active() {
		return
	}

	simrt.YOp()
	m.sync()

	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}

	m.locked = false
	simrt.Wake(m, -1)
}

type RWMutex struct {
	writer  bool
	readers int32
	waiting int32
	epoch   uint32
}

func (m *RWMutex) sync() {
	if e := simrt.Epoch(); m.epoch != e {
		*m = RWMutex{epoch: e}
	}
}

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		return
	}

	simrt.YOp()
	m.sync()

	for m.writer || m.readers > 0 {
		m.waiting++
		simrt.WaitOn(m, "sync.RWMutex.Lock")
		m.waiting--
	}

	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	simrt.YOp()
	m.sync()

	if m.writer || m.readers > 0 {
		return false
	}

	m.writer = true

	return true
}

func (m *RWMutex) Unlock() {
	if !simrt.Active() {
		return
	}

	simrt.YOp()
	m.sync()

	if !m.writer {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}

	m.writer = false
	simrt.Wake(m, -1)
}

func (m *RWMutex) RLock() {
	if !simrt.Active() {
		return
	}

	simrt.YOp()
	m.sync()

	// A waiting writer blocks new readers, as in the standard library.
	first := true
	for m.writer || (first && m.waiting > 0) {
		simrt.WaitOn(m, "sync.RWMutex.RLock")
		first = false
	}

	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	simrt.YOp()
	m.sync()

	if m.writer {
		return false
	}

	m.readers++

	return true
}

func (m *RWMutex) RUnlock() {
	if !simrt.Active() {
		return
	}

	simrt.YOp()
	m.sync()

	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}

	m.readers--
	if m.readers == 0 {
		simrt.Wake(m, -1)
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n     int
	epoch uint32
}

func (g *WaitGroup) sync() {
	if e := simrt.Epoch(); g.epoch != e {
		*g = WaitGroup{epoch: e}
	}
}

func (g *WaitGroup) Add(d int) {
	simrt.YOp()
	g.sync()
	g.n += d

	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}

	if g.n == 0 {
		simrt.Wake(g, -1)
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	simrt.YOp()
	g.sync()

	for g.n > 0 {
		simrt.WaitOn(g, "sync.WaitGroup.Wait")
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	ep   uint32
}

func (o *Once) Do(f func()) {
	if !simrt.Active() {
		if !o.done {
			o.done = true
			f()
		}

		return
	}

	if e := simrt.Epoch(); o.ep != e {
		o.ep = e
		o.done = false
	}

	simrt.YOp()

	if o.done {
		return
	}

	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once

	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)

	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var (
		o Once
		v T
		u U
	)

	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L Locker
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	simrt.YOp()
	// Registration and release are one step for the scheduler: nobody can signal in between
	// without holding the lock, and a signal sent without it may be missed only before Wait.
	tok := simrt.CondEnqueue(c)
	c.L.Unlock()
	tok.Wait()
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.YOp()
	simrt.CondSignal(c, 1)
}

func (c *Cond) Broadcast() {
	simrt.YOp()
	simrt.CondSignal(c, -1)
}

// Pool hands out items in an order (and with losses) decided by the simulator.
type Pool struct {
	New   func() any
	items []any
	epoch uint32
}

func (p *Pool) sync() {
	if e := simrt.Epoch(); p.epoch != e {
		p.epoch = e
		p.items = nil
	}
}

func (p *Pool) Get() any {
	if simrt.Active() {
		simrt.YOp()
	}

	p.sync()

	i := simrt.PoolGet(len(p.items))
	if i < 0 {
		if p.New != nil {
			return p.New()
		}

		return nil
	}

	x := p.items[i]
	last := len(p.items) - 1
	p.items[i] = p.items[last]
	p.items = p.items[:last]

	return x
}

func (p *Pool) Put(x any) {
	if simrt.Active() {
		simrt.YOp()
	}

	p.sync()

	if x == nil || simrt.PoolDrop() {
		return
	}

	p.items = append(p.items, x)
}

// Map is a simulated concurrent map.
type Map struct {
	m     map[any]any
	epoch uint32
}

func (m *Map) op() {
	if simrt.Active() {
		simrt.YOp()
	}

	if e := simrt.Epoch(); m.epoch != e || m.m == nil {
		m.epoch = e
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.m[k] = v }
func (m *Map) Delete(k any)           { m.op(); delete(m.m, k) }
func (m *Map) Clear()                 { m.op(); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()

	if o, ok := m.m[k]; ok {
		return o, true
	}

	m.m[k] = v

	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	delete(m.m, k)

	return v, ok
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	o, ok := m.m[k]
	m.m[k] = v

	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()

	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n

		return true
	}

	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()

	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)

		return true
	}

	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.op()

	for k, v := range simrt.RangeMapAtomic(m.m) {
		if simrt.Active() {
			simrt.YOp()
		}

		if !f(k, v) {
			return
		}
	}
}
