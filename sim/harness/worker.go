package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	ros "os"
	"sort"
	"strings"
	"time"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// property is one decided property.
type property struct {
	id    string
	rule  string // How cases are made and what makes one non-trivial.
	gen   func(r *rng, idx int, x *ctx) *Case
	check func(x *ctx, c *Case) *viol
	crash bool // A crash of the process is a failure exit and not a violation.
}

var props = map[string]*property{}

func register(p *property) { props[p.id] = p }

// ctx runs cases and counts what happens.
type ctx struct {
	prop     *property
	thorough bool
	st       stats
	last     *Result // Main run of the last check.
	trouble  string
}

type stats struct {
	Cases    int              `json:"cases"`
	Runs     int              `json:"runs"`
	Steps    int64            `json:"steps"`
	SimNS    int64            `json:"simNS"`
	Switches int64            `json:"switches"`
	Lines    int64            `json:"lines"`
	Ends     map[string]int   `json:"ends"`
	Fired    map[string]int   `json:"fired"`
	Strat    map[string]int   `json:"strat"`
	Shapes   map[string]int   `json:"shapes"`
	Probes   map[string]int   `json:"probes"`
	Opts     map[string]int   `json:"opts"`
	Inter    map[uint64]bool  `json:"-"`
	InterL   []uint64         `json:"inter"`
	Nontriv  map[uint64]bool  `json:"-"`
	NontrivL []uint64         `json:"nontriv"`
	Sites    map[int]bool     `json:"-"`
	SitesL   []int            `json:"sites"`
	Threads  int              `json:"threads"`
	NonDet   int              `json:"nonDet"`
	Failed   int              `json:"failed"`
	DetRuns  int              `json:"detRuns"`
	Samples  []map[string]any `json:"samples"`
}

func (s *stats) init() {
	s.Ends = map[string]int{}
	s.Fired = map[string]int{}
	s.Strat = map[string]int{}
	s.Shapes = map[string]int{}
	s.Probes = map[string]int{}
	s.Opts = map[string]int{}
	s.Inter = map[uint64]bool{}
	s.Nontriv = map[uint64]bool{}
	s.Sites = map[int]bool{}
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *stats) merge(o *stats) {
	s.Cases += o.Cases
	s.Runs += o.Runs
	s.Steps += o.Steps
	s.SimNS += o.SimNS
	s.Switches += o.Switches
	s.Lines += o.Lines
	s.NonDet += o.NonDet
	s.Failed += o.Failed
	s.DetRuns += o.DetRuns

	if o.Threads > s.Threads {
		s.Threads = o.Threads
	}

	addMap(s.Ends, o.Ends)
	addMap(s.Fired, o.Fired)
	addMap(s.Strat, o.Strat)
	addMap(s.Shapes, o.Shapes)
	addMap(s.Probes, o.Probes)
	addMap(s.Opts, o.Opts)

	for _, h := range o.InterL {
		s.Inter[h] = true
	}

	for _, h := range o.NontrivL {
		s.Nontriv[h] = true
	}

	for _, i := range o.SitesL {
		s.Sites[i] = true
	}

	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

func (s *stats) pack() {
	for h := range s.Inter {
		s.InterL = append(s.InterL, h)
	}

	for h := range s.Nontriv {
		s.NontrivL = append(s.NontrivL, h)
	}

	for i, c := range simrt.Cov {
		if c != 0 {
			s.SitesL = append(s.SitesL, i)
		}
	}

	sort.Ints(s.SitesL)
}

func (x *ctx) probe(name string) { x.st.Probes[name]++ }

// run executes a case and counts it.
func (x *ctx) run(c *Case) *Result {
	r := execute(c)
	s := &x.st
	s.Runs++
	s.Steps += r.Out.Steps
	s.SimNS += r.Out.SimTime
	s.Switches += r.Out.Switches
	s.Ends[r.Out.End]++
	s.Strat[c.P.Strategy]++

	if r.Out.MaxLive > s.Threads {
		s.Threads = r.Out.MaxLive
	}

	addMap(s.Fired, r.Out.Fired)

	for i := range r.Prev {
		o := &r.Prev[i]
		s.Runs++
		s.Steps += o.Steps
		s.SimNS += o.SimTime
		s.Switches += o.Switches
		s.Ends[o.End]++
		s.Strat[c.Prev[i].P.Strategy]++
		addMap(s.Fired, o.Fired)

		if o.End == "harness" {
			x.trouble = "harness: " + o.Message
		}
	}

	if len(s.Inter) < 200000 {
		s.Inter[r.Out.Inter] = true
	}

	for i := range c.In {
		s.Lines += int64(len(c.In[i].Lines))
	}

	if r.Out.End == "harness" {
		x.trouble = "harness: " + r.Out.Message
	}

	return r
}

// main executes the run a check is about.
func (x *ctx) main(c *Case) *Result {
	r := x.run(c)
	x.last = r

	fired := 0
	for _, n := range r.Out.Fired {
		fired += n
	}

	if r.Out.Switches > 0 || fired > 0 {
		h := fnv.New64a()
		b, _ := json.Marshal(c)
		_, _ = h.Write(b)
		x.st.Nontriv[h.Sum64()^r.Out.Inter] = true
	}

	return r
}

func caseSeed(seed uint64, prop string, idx int) uint64 {
	return mix64(mix64(seed^hashStr(prop)) + uint64(idx)*0x9e3779b97f4a7c15)
}

func (x *ctx) makeCase(seed uint64, idx int) *Case {
	s := caseSeed(seed, x.prop.id, idx)

	for range 8 {
		if c := x.tryCase(s, idx); c != nil {
			return c
		}

		s = mix64(s ^ 0x9e57)
	}

	panic("harness: no case can be made")
}

// tryCase makes a case, it gives nil if the generator or the model fails at it.
func (x *ctx) tryCase(s uint64, idx int) (c *Case) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintln(ros.Stderr, "generator failed at case", idx, e)

			x.st.Failed++
			c = nil
		}
	}()

	c = x.prop.gen(&rng{s: s}, idx, x)
	c.Prop = x.prop.id
	c.Seed = s
	c.Index = idx
	settle(c)
	habits(&rng{s: mix64(s ^ 0x5ca1e)}, c)

	return c
}

// habits draws circumstances that must not matter.
func habits(r *rng, c *Case) {
	if c.Tool != "" {
		return
	}

	o := &c.O

	if o.CfgForm == "yaml" && !yamlFits(o.Cfg) {
		o.CfgForm = ""
	}

	if r.p(0.25) {
		c.Stale = pick(r, 1, 40, 3000, 200000)
	}

	if !o.PosInput && r.p(0.3) {
		o.BothInput = true
	}

	if o.CSV == "out.csv" && o.Raw == "" && o.SQLite == "" && o.PG == "" && !o.Flat && !o.Hier && !o.Info && !o.Schema &&
		len(c.P.Faults) == 0 && r.p(0.1) {
		o.DefOut = true
		o.CSV = c.In[0].Name + ".csv"
	}

	if c.libraryFits() && r.p(0.08) {
		c.Library = pick(r, 1, 1, 2)
	}
}

// libraryFits tells whether it does not matter that inputs are readers.
func (c *Case) libraryFits() bool {
	// Who gives a reader closes it, C16 is about files of the program.
	if !hasLibrary || c.Prop == "C16" || len(c.Prev) > 0 || c.CfgRaw != nil || len(c.Extra) > 0 || len(c.In) == 0 || c.O.DefOut {
		return false
	}

	inputs := map[string]bool{}

	for i := range c.In {
		f := &c.In[i]
		if f.Missing || f.Dir || len(f.Stored()) == 0 {
			return false
		}

		inputs[simrt.Clean(f.Name)] = true
	}

	for _, f := range c.P.Faults {
		if f.Kind == "read" && f.Path != "" {
			continue
		}

		if strings.ContainsAny(f.Path, "*?[") || f.Path == "" && !strings.HasPrefix(f.Kind, "sql") || inputs[simrt.Clean(f.Path)] {
			return false
		}
	}

	return true
}

// settle keeps the simulated time of a case in proportion: many small and slow reads make progress reports the only thing that runs.
func settle(c *Case) {
	if c.P.IOLatency == 0 {
		return
	}

	var ops int64

	for i := range c.In {
		chunk := int64(c.P.ReadChunk)
		if chunk == 0 {
			chunk = 4096
		}

		ops += 2*int64(len(c.In[i].Stored()))/chunk + 20
	}

	if t := ops * c.P.IOLatency; t > 200e9 {
		c.P.IOLatency = 200e9 / ops
	}

	if c.O.Tick > 0 && ops*c.P.IOLatency/(int64(c.O.Tick)*1e6) > 20000 {
		c.O.Tick = 1000
	}
}

func summary(c *Case) map[string]any {
	lines, bytes := 0, 0

	for i := range c.In {
		lines += len(c.In[i].Lines)
		bytes += len(c.In[i].Plain())
	}

	m := map[string]any{"index": c.Index, "seed": fmt.Sprint(c.Seed), "args": c.Args(), "lines": lines, "bytes": bytes,
		"strategy": c.P.Strategy, "gap": c.P.Gap, "faults": c.P.Faults}

	if c.P.KillStep > 0 {
		m["killStep"] = c.P.KillStep
	}

	if lines > 0 && len(c.In[0].Lines) > 0 {
		m["firstLine"] = clip(c.In[0].Lines[0])
	}

	return m
}

// message is one line from a worker to its parent.
type message struct {
	Start   *int   `json:"start,omitempty"`
	Class   string `json:"class,omitempty"`
	Msg     string `json:"msg,omitempty"`
	Case    *Case  `json:"case,omitempty"`
	Stats   *stats `json:"stats,omitempty"`
	Trouble string `json:"trouble,omitempty"`
}

func (x *ctx) optStats(c *Case) {
	o := &c.O
	n := func(k string, b bool) {
		if b {
			x.st.Opts[k]++
		}
	}

	n("csv", o.CSV != "")
	n("sqlite", o.SQLite != "")
	n("pg", o.PG != "")
	n("raw", o.Raw != "")
	n("files>1", len(c.In) > 1)
	n("library", c.Library > 0)
	n("addSeq", o.AddSeq)
	n("extract", o.Extract)
	n("transpose", len(o.Cfg.Transpose) > 0)
	n("includeKeys", len(o.Cfg.IncludeKeys) > 0)
	n("getKey", o.GetKey != "")
	n("offset", o.Offset > 0)
	n("maxLines", o.MaxLines > 0)
	n("memPressure", c.P.MemKind != "")
	n("faults", len(c.P.Faults) > 0)
	n("replaceKeys", len(o.Cfg.ReplaceKeys) > 0 || o.ReplaceKeys)
	n("prefix", o.Prefix != "" || o.Cfg.MatchLinePrefix != "")
	n("smallMaxCols", o.MaxCols > 0)
	n("children", o.Children != 0)
}

// worker explores the indices k, k+n, ... until the deadline.
func worker(p *property, seed uint64, k, n, only int, deadline time.Time, thorough bool) {
	out := bufio.NewWriter(ros.Stdout)
	send := func(m message) {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}

		_, _ = out.Write(b)
		_ = out.WriteByte('\n')
		_ = out.Flush()
	}

	x := &ctx{prop: p, thorough: thorough}
	x.st.init()

	defer cleanScratch()

	// Real time watchdog: a case that does not come back is trouble.
	beat := make(chan int, 1)
	limit := 240 * time.Second

	go func() {
		cur := -1

		for {
			select {
			case cur = <-beat:
			case <-time.After(limit):
				fmt.Fprintln(ros.Stderr, "watchdog: case", cur, "does not end")
				ros.Exit(3)
			}
		}
	}()

	for idx := k; time.Now().Before(deadline); idx += n {
		if only >= 0 {
			idx = only
		}

		send(message{Start: &idx})
		beat <- idx

		c := x.makeCase(seed, idx)
		if only >= 0 {
			send(message{Case: c})
		}

		vi := x.safeCheck(c)
		x.st.Cases++
		x.st.Shapes[c.Shape]++
		x.optStats(c)

		if x.trouble != "" {
			send(message{Trouble: fmt.Sprintf("case %d: %s", idx, x.trouble)})

			break
		}

		if vi != nil {
			send(message{Class: vi.class, Msg: vi.msg, Case: c})

			break
		}

		if len(x.st.Samples) < 1 && idx >= n {
			x.st.Samples = append(x.st.Samples, summary(c))
		}

		if x.st.Cases%40 == 7 && x.last != nil {
			// The same case once more: one seed is one execution.
			h := x.last.Out.Hash
			r := execute(c)
			x.st.DetRuns++

			if r.Out.Hash != h {
				x.st.NonDet++
			}
		}

		if only >= 0 {
			break
		}
	}

	x.st.pack()
	send(message{Stats: &x.st})
}

// safeCheck turns a panic of the harness itself into trouble.
func (x *ctx) safeCheck(c *Case) (vi *viol) {
	x.last = nil
	x.trouble = ""

	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintln(ros.Stderr, "oracle failed at case", c.Index, e)

			x.st.Failed++
			vi = nil
		}
	}()

	return x.prop.check(x, c)
}
