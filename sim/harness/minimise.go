package main

import (
	"fmt"
	ros "os"
	"reflect"
	"time"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// minimiser shrinks a failing case while the same class of violation persists.
type minimiser struct {
	x        *ctx
	class    string
	cur      *Case
	msg      string
	deadline time.Time
	tries    int
	last     *Result
}

func (m *minimiser) left() bool { return time.Now().Before(m.deadline) }

func (m *minimiser) try(c *Case) bool {
	if !m.left() {
		return false
	}

	m.tries++
	vi := m.x.safeCheck(c)

	if m.x.trouble != "" || vi == nil || vi.class != m.class {
		return false
	}

	m.cur = c
	m.msg = vi.msg
	m.last = m.x.last

	return true
}

// edit tries one change on a copy.
func (m *minimiser) edit(f func(c *Case)) bool {
	c := m.cur.clone()
	f(c)

	if mustJSON(c) == mustJSON(m.cur) {
		return false
	}

	return m.try(c)
}

func minimiseFile(file string, secs float64) {
	rf := readReplay(file)
	p := props[rf.Property]

	if p == nil {
		fatal("unknown property")
	}

	x := &ctx{prop: p}
	x.st.init()

	m := &minimiser{x: x, class: rf.Class, cur: rf.Case, deadline: time.Now().Add(time.Duration(secs * float64(time.Second)))}

	defer cleanScratch()

	if !m.try(rf.Case) {
		fmt.Fprintln(ros.Stderr, "minimise: does not fail")
		cleanScratch()
		ros.Exit(4)
	}

	for round := 0; round < 4 && m.left(); round++ {
		before := mustJSON(m.cur)

		m.lines()
		m.machine()
		m.options()
		m.members()

		if mustJSON(m.cur) == before {
			break
		}
	}

	m.schedule()

	h := uint64(0)
	if m.last != nil {
		h = m.last.Out.Hash
	}

	writeJSON(file+".min", &replayFile{Property: rf.Property, Class: m.class, Message: m.msg, Hash: h, Original: rf.Original, Case: m.cur,
		Note: fmt.Sprintf("minimised with %d executions", m.tries)})
}

// lines drops chunks of lines and files.
func (m *minimiser) lines() {
	for i := 0; i < len(m.cur.In) && len(m.cur.In) > 1; {
		if !m.edit(func(c *Case) { c.In = append(c.In[:i], c.In[i+1:]...) }) {
			i++
		}
	}

	for fi := 0; fi < len(m.cur.In); fi++ {
		for size := len(m.cur.In[fi].Lines); size >= 1 && m.left(); size /= 2 {
			for at := 0; at < len(m.cur.In[fi].Lines) && m.left(); {
				ok := m.edit(func(c *Case) {
					ll := c.In[fi].Lines

					e := at + size
					if e > len(ll) {
						e = len(ll)
					}

					c.In[fi].Lines = append(append([]string{}, ll[:at]...), ll[e:]...)

					if len(c.In[fi].Plain()) == 0 {
						c.In[fi].Lines = ll // Empty inputs are refused.
					}
				})
				if !ok {
					at += size
				}
			}
		}

		m.edit(func(c *Case) { c.In[fi].NoEOL = false })
		m.edit(func(c *Case) { c.In[fi].CRLF = false })
	}
}

// machine simplifies parameters of the simulation.
func (m *minimiser) machine() {
	m.edit(func(c *Case) {
		s := c.P.Seed
		f := c.P.Faults
		k := c.P.KillStep
		c.P = calm(s)
		c.P.Faults = f
		c.P.KillStep = k
	})

	for i := 0; i < len(m.cur.P.Faults); {
		if !m.edit(func(c *Case) { c.P.Faults = append(append([]simrt.Fault{}, c.P.Faults[:i]...), c.P.Faults[i+1:]...) }) {
			i++
		}
	}

	for _, f := range []func(p *simrt.Params){
		func(p *simrt.Params) { p.ReadChunk = 0 },
		func(p *simrt.Params) { p.IOLatency = 0 },
		func(p *simrt.Params) { p.PoolDrop = 0 },
		func(p *simrt.Params) { p.StallProb = 0 },
		func(p *simrt.Params) { p.MemKind = ""; p.MemHigh = 0 },
		func(p *simrt.Params) { p.MapShuffle = false },
		func(p *simrt.Params) { p.SelectRand = false },
		func(p *simrt.Params) { p.StepCost = 100 },
		func(p *simrt.Params) { p.NumCPU = 2 },
	} {
		m.edit(func(c *Case) { f(&c.P) })
	}
}

// options sets options to their defaults.
func (m *minimiser) options() {
	reset := func(get func(c *Case) reflect.Value) {
		t := get(m.cur).Type()

		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type.Kind() == reflect.Struct || get(m.cur).Field(i).IsZero() {
				continue
			}

			m.edit(func(c *Case) { get(c).Field(i).SetZero() })
		}
	}

	if m.cur.Library > 0 {
		m.edit(func(c *Case) { c.Library = 0 })
	}

	reset(func(c *Case) reflect.Value { return reflect.ValueOf(&c.O).Elem() })
	reset(func(c *Case) reflect.Value { return reflect.ValueOf(&c.O.Cfg).Elem() })

	for _, n := range []int{1, 2, 3} {
		if m.cur.O.Conc > n && m.edit(func(c *Case) { c.O.Conc = n }) {
			break
		}
	}
}

// members drops members of the objects of lines.
func (m *minimiser) members() {
	for fi := range m.cur.In {
		if len(m.cur.In[fi].Lines) > 40 {
			continue
		}

		for li := 0; li < len(m.cur.In[fi].Lines) && m.left(); li++ {
			j, err := parseJSON(m.cur.In[fi].Lines[li])
			if err != nil || j.T != 'o' || j.String() == "" {
				continue
			}

			for k := 0; k < len(j.K) && m.left(); {
				n := &JV{T: 'o', K: append(append([]string{}, j.K[:k]...), j.K[k+1:]...), V: append(append([]*JV{}, j.V[:k]...), j.V[k+1:]...)}

				if m.edit(func(c *Case) { c.In[fi].Lines[li] = n.String() }) {
					j = n
				} else {
					k++
				}
			}
		}
	}
}

// schedule turns the random schedule into an explicit one and drops decisions.
func (m *minimiser) schedule() {
	if m.last == nil || !m.left() || len(m.last.Out.Sched) > 60000 {
		return
	}

	sched := m.last.Out.Sched

	if !m.edit(func(c *Case) { c.P.UseReplay = true; c.P.Replay = sched }) {
		return
	}

	for size := (len(m.cur.P.Replay) + 1) / 2; size >= 1 && m.left(); size /= 2 {
		for at := 0; at < len(m.cur.P.Replay) && m.left(); {
			ok := m.edit(func(c *Case) {
				r := c.P.Replay

				e := at + size
				if e > len(r) {
					e = len(r)
				}

				c.P.Replay = append(append([]simrt.Decision{}, r[:at]...), r[e:]...)
			})
			if !ok {
				at += size
			}
		}
	}
}
