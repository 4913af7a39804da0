package main

import (
	"bytes"
	"sort"
	"strconv"
	"strings"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// genC19 configures names of columns.
func genC19(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "names"}
	baseOpts(r, c)

	g := gcfg{lines: r.between(2, 25), files: pick(r, 1, 1, 2), fields: r.between(2, 6), depth: r.between(1, 3), ids: r.p(0.5),
		nulls: r.p(0.5), arrays: r.p(0.6), surprise: pick(r, 0, 0.2), empties: true, plainStr: true}

	if r.p(0.3) {
		g.odd = 0.3
	}

	if r.p(0.4) {
		c.P.Gap = pick(r, 2.0, 5, 15)
	}

	c.In = newGen(r, g).inputs()
	c.O.CSV = "out.csv"
	c.O.Info = true

	m := newModel(c)
	names := scalarKeys(m)

	if len(names) < 2 {
		return c
	}

	switch r.n(6) {
	case 5:
		c.Shape = "overlap"
		manyRules(r, c, m)

		return c
	case 0:
		c.Shape = "rules"
		nameRulesCfg(r, c, m)
	case 1:
		c.Shape = "tails"
		c.O.ReplaceKeys = true
	case 2:
		c.Shape = "limit"
		c.O.KeyLimit = pick(r, 2, 3, 4, 5, 6, 8, 12, 16)
	case 3:
		c.Shape = "tails+limit"
		c.O.ReplaceKeys = true
		c.O.KeyLimit = pick(r, 3, 4, 5, 6, 8)
	case 4:
		c.Shape = "given"
		c.O.Cfg.ReplaceKeys = map[string]string{}

		for _, n := range names {
			if r.p(0.5) {
				c.O.Cfg.ReplaceKeys[n] = pick(r, "one", "two", "a", "name", "Given Name")
			}
		}
	}

	if r.p(0.2) && len(c.O.Cfg.ReplaceKeys) == 0 {
		c.O.Cfg.ReplaceKeys = map[string]string{pick(r, names...): pick(r, "name", "value", "ren0", "x1")}

		if len(c.O.Cfg.ReplaceKeysRegex) > 0 && caseClash(c, m) {
			c.O.Cfg.ReplaceKeys = nil
		}
	}

	if r.p(0.15) && len(c.O.Cfg.ReplaceKeysRegex) == 0 {
		for _, n := range names {
			if r.p(0.6) {
				c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys, n)
			}
		}
	}

	return c
}

func checkC19(x *ctx, c *Case) *viol {
	m := newModel(c)
	if false {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	out := string(r.Out.Stdout)

	if c.O.freeNames() {
		if vi := m.chosenNames(out); vi != nil {
			return vi
		}
	}

	if !hasColumns(m) {
		return nil
	}

	t, vi := csvOf(c, r)
	if vi != nil {
		return vi
	}

	if vi := m.checkTable(t); vi != nil {
		return vi
	}

	return sameNames(x, c, out)
}

// genC20 configures conversions of values.
func genC20(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "convert"}
	baseOpts(r, c)

	g := gcfg{lines: pick(r, r.between(1, 12), nLines(r)), files: pick(r, 1, 1, 2), fields: r.between(1, 6), depth: r.n(3), ids: r.p(0.6), arrays: r.p(0.5),
		surprise: pick(r, 0, 0.1), empties: true, emptyCont: true, plainStr: true, bad: pick(r, 0, 0, 0.1), times: pick(r, 0.2, 0.5, 0.9), badTime: r.p(0.3)}

	if g.lines < g.files {
		g.files = 1
	}

	c.O.CSV = pick(r, "out.csv", "out.csv", "out.csv.gz")

	if r.p(0.3) {
		c.O.SQLite = "out.sqlite"
	}

	if r.p(0.3) {
		c.O.PG = "dump.sql"
	}

	if r.p(0.3) {
		c.O.Raw = "out.raw"
		c.O.RawDelim = pick(r, "|", "\t")
	}

	concat := r.p(0.35)
	if concat {
		c.Shape += "+concat"
		d := pick(r, ",", "|", "", " + ")
		c.O.Cfg.ConcatDelimiter = &d
		g.dups = pick(r, 0, 0.1)
		g.badTime = false
	} else {
		g.nulls = r.p(0.5)
	}

	c.In = newGen(r, g).inputs()
	names := scalarKeys(newModel(c))
	timeCfg(r, c, names)

	if r.p(0.25) {
		c.Shape += "+limit"
		c.O.FieldLimit = r.between(1, 30)
	}

	if len(names) > 1 && (concat && g.dups == 0 || r.p(0.15) && g.dups == 0) {
		c.Shape += "+merge"
		c.O.Cfg.ReplaceKeys = map[string]string{}

		for _, n := range names {
			if r.p(0.5) {
				c.O.Cfg.ReplaceKeys[n] = pick(r, "merged1", "merged2", "own"+strconv.Itoa(len(c.O.Cfg.ReplaceKeys)))
			}
		}
	} else if len(names) > 1 && r.p(0.15) {
		// A column is named as the key of another one.
		i := r.n(len(names))
		j := (i + 1 + r.n(len(names)-1)) % len(names)

		if i != j {
			c.Shape += "+namesake"
			c.O.Cfg.ReplaceKeys = map[string]string{names[i]: "renamed", names[j]: names[i]}
		}
	} else if len(names) > 0 && r.p(0.3) {
		c.Shape += "+const"

		for _, n := range names {
			if r.p(0.7) {
				c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys, n)
			}
		}

		for i := r.between(1, 3); i > 0; i-- {
			v := "const:" + pick(r, "fixed value", "1", "true", "", "a:b", "Ä") + strconv.Itoa(i)
			k := r.n(len(c.O.Cfg.IncludeKeys) + 1)
			c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys[:k:k], append([]string{v}, c.O.Cfg.IncludeKeys[k:]...)...)
		}
	}

	if r.p(0.1) {
		compressInputs(r, c)
	}

	return c
}

func checkC20(x *ctx, c *Case) *viol {
	m := newModel(c)
	if !hasColumns(m) {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	return m.checkOutputs(r)
}

// genC21 draws what happened before the run.
func genC21(r *rng, idx int, x *ctx) *Case {
	c := genFaulty(r, idx, x)
	c.Shape = "again"

	if r.p(0.5) {
		c.O.SQLite = ""
	}

	if c.O.CSV == "" && c.O.Raw == "" && c.O.PG == "" {
		c.O.CSV = "out.csv"
	}

	if len(newModel(c).cols) == 0 {
		return c
	}

	n := pick(r, 1, 1, 1, 2, 3)

	for i := 0; i < n; i++ {
		p := Prev{P: params(r)}
		q := c.clone()
		q.P = p.P

		if r.p(0.3) {
			// Another input was processed in the same place.
			h := genMulti(&rng{s: r.u64()}, idx, x)
			p.In = h.In
			q.In = h.In
			c.Shape = "again+other"
		}

		settle(q)
		p.P = q.P

		probe := x.probeRun(q)
		if success(probe) != nil {
			continue
		}

		switch r.n(5) {
		case 0:
			p.P.Faults = outputFaults(r, q, probe)
		case 1:
			f := &q.In[r.n(len(q.In))]
			p.P.Faults = []simrt.Fault{{Kind: "read", Path: f.Name, Err: "EIO", Off: int64(r.n(len(f.Stored()) + 1)), Nth: pick(r, 1, 2)}}
		case 2:
			if c.O.SQLite == "" || r.p(0.5) {
				break // A complete run.
			}

			fallthrough
		default:
			s := probe.Out.Steps
			p.P.KillStep = s/3 + 1 + int64(r.u64()%uint64(s-s/3))
		}

		c.Prev = append(c.Prev, p)
	}

	return c
}

func checkC21(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r := x.main(c)

	for i := range r.Prev {
		if r.Prev[i].End == "killed" {
			x.probe("after a kill")
		} else if r.Prev[i].Exit != 0 {
			x.probe("after a failure")
		} else {
			x.probe("after a complete run")
		}
	}

	// A database that has tables already may be refused.
	if c.O.SQLite != "" && len(c.Prev) > 0 && (r.Out.End != "exit" || r.Out.Exit != 0) {
		x.probe("refused")

		return failed(r)
	}

	if vi := success(r); vi != nil {
		return vi
	}

	return m.checkOutputs(r)
}

// genC22 draws a run with all kinds of diagnostics.
func genC22(r *rng, idx int, x *ctx) *Case {
	var c *Case

	if r.p(0.6) {
		c = genCells(r, idx, x)
	} else {
		c = genMulti(r, idx, x)
	}

	c.Shape = "diag"
	o := &c.O
	o.ReplaceKeys = false
	o.KeyLimit = 0
	o.Info = false
	o.Verbosity = pick(r, -1, 0, 1, 2, 3, 4)
	o.Tick = pick(r, 0, 1, 1, 10, 100, 5000)
	o.ViaOutput = false

	if r.p(0.6) {
		o.Flat = r.p(0.5)
		o.Hier = r.p(0.4)
		o.Info = r.p(0.5) && len(o.Cfg.ReplaceKeys) == 0 && len(o.Cfg.ReplaceKeysRegex) == 0 // A shared column is listed with one of its keys.
		o.Schema = r.p(0.4)
	}

	if o.Prefix == "" && o.Cfg.MatchLinePrefix == "" && r.p(0.15) {
		o.Prefix = pick(r, `(\w)(\w*)`, `([a-z]+)`)
	}

	return c
}

func checkC22(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if vi := m.checkOutputs(r); vi != nil {
		return vi
	}

	o := &c.O

	if !o.Flat && !o.Hier && !o.Info && !o.Schema {
		if len(r.Out.Stdout) > 0 {
			return v("stdout", "no report was requested, stdout has %q", clip(string(r.Out.Stdout)))
		}

		return nil
	}

	// Reports of a run without other diagnostics have the same content in some order.
	q := c.clone()
	q.P = calm(c.P.Seed)
	q.O.Verbosity = -1
	q.O.Tick = 0
	q.O.MemLimit = 0

	b := x.run(q)
	if vi := success(b); vi != nil {
		return vi
	}

	x.probe("reports compared")

	if !bytes.Equal(sortedBytes(r.Out.Stdout), sortedBytes(b.Out.Stdout)) {
		return v("reports", "reports differ with verbosity and progress options: %s", diffAt(string(b.Out.Stdout), string(r.Out.Stdout)))
	}

	return nil
}

// sortedBytes is the content without its order and layout.
func sortedBytes(b []byte) []byte {
	res := []byte(strings.Join(strings.Fields(string(b)), ""))
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })

	return res
}

// genC23 puts files next to inputs and outputs.
func genC23(r *rng, idx int, x *ctx) *Case {
	var c *Case

	switch r.n(4) {
	case 0:
		c = genC05(r, idx, x)
	case 1:
		c = genC04(r, idx, x)
	case 2:
		c = genFaulty(r, idx, x)

		if probe := x.probeRun(c); success(probe) == nil {
			c.P.KillStep = 1 + int64(r.u64()%uint64(probe.Out.Steps))
		}
	default:
		c = genMulti(r, idx, x)
	}

	if r.p(0.1) {
		nopOutputs(r, c)
	}

	if in := &c.In[0]; len(c.P.Faults) == 0 && in.Comp == "" && !in.Missing && !in.Dir && r.p(0.15) {
		// The default output is next to the input.
		in.Name = strings.TrimSuffix(in.Name, ".jsonl") + pick(r, ".csv", ".csv", ".jsonl", ".log.csv")

		o := &c.O
		o.Flat, o.Hier, o.Info, o.Schema = false, false, false, false
		o.Raw, o.SQLite, o.PG, o.ViaOutput = "", "", "", false
		o.DefOut = true
		o.CSV = in.Name + ".csv"
		c.Shape += "+default"
	}

	c.Shape += "+others"

	for i := range c.In {
		n := c.In[i].Name
		c.Others = append(c.Others, n+".csv", n+".bak", strings.TrimSuffix(n, ".gz"), strings.TrimSuffix(n, ".jsonl"), n+".gz")
	}

	for _, n := range append(c.O.outNames(), c.O.SQLite, "out") {
		if n == "" || n == "<nop>" {
			continue
		}

		i := strings.Index(n, ".")
		if i < 0 {
			i = len(n)
		}

		c.Others = append(c.Others, n+".tmp", n+".old", n+"~", n[:i]+"_other"+n[i:], n[:i], "old_"+n, n+".gz", strings.TrimSuffix(n, ".gz"))
	}

	c.Others = append(c.Others, "flatjsonl", "flatjsonl.csv", "data.csv", ".hidden", "dir.x/other.csv")
	sort.Strings(c.Others)

	var keep []string

	for _, n := range c.Others {
		if !c.expected(simrt.Clean(n)) && !isInput(c, simrt.Clean(n)) && (len(keep) == 0 || keep[len(keep)-1] != n) && r.p(0.8) {
			keep = append(keep, n)
		}
	}

	c.Others = keep

	return c
}

// expected tells whether a file is an output of the case.
func (c *Case) expected(p string) bool {
	o := &c.O

	for _, n := range []string{o.CSV, o.Raw, o.PG, o.SQLite} {
		if n == "" || n == "<nop>" {
			continue
		}

		if p == simrt.Clean(n) {
			return true
		}

		for _, dst := range o.Cfg.Transpose {
			if p == simrt.Clean(transposedName(n, dst)) {
				return true
			}
		}
	}

	return false
}

func checkC23(x *ctx, c *Case) *viol {
	r := x.main(c)
	changed := map[string]bool{} // By faults.

	for _, f := range c.P.Faults {
		if f.Kind == "truncate" || f.Kind == "grow" {
			changed[simrt.Clean(f.Path)] = true
		}
	}

	before := map[string][]byte{}

	for i := range c.In {
		f := &c.In[i]

		if !f.Missing && !f.Dir && !changed[simrt.Clean(f.Name)] {
			before[simrt.Clean(f.Name)] = f.Stored()
		}
	}

	if c.O.CfgFile && c.O.hasCfg() {
		before[simrt.Clean(c.cfgName())] = c.cfgText()
	}

	for i, n := range c.Others {
		if before[simrt.Clean(n)] == nil {
			before[simrt.Clean(n)] = otherData(i)
		}
	}

	for _, n := range sortedKeys(before) {
		if c.expected(n) {
			continue
		}

		f := r.FS.Files[n]
		if f == nil {
			return v("removed", "%s is gone after the run: %s", n, ended(r))
		}

		if !bytes.Equal(f.Data, before[n]) {
			return v("modified", "%s was changed by the run: %s", n, diffAt(string(before[n]), string(f.Data)))
		}
	}

	if r.Out.End != "exit" {
		x.probe("interrupted")

		return nil // Files for work in progress may be left.
	}

	if r.Out.Exit != 0 {
		x.probe("failed")

		return nil
	}

	for _, n := range sortedKeys(r.FS.Files) {
		if before[n] == nil && !c.expected(n) && !isInput(c, n) {
			return v("created", "%s was created by the run, it is not an output of it", n)
		}
	}

	return nil
}

func init() {
	register(&property{id: "C19", gen: genC19, check: checkC19, rule: "Inputs with nested keys that share tails and prefixes; names given by a map, by patterns with captures, by unique tails, by a length limit and combinations. Names and cells are compared with the model and with the names of an undisturbed run."})
	register(&property{id: "C20", gen: genC20, check: checkC20, rule: "Times of seven layouts with and without zones or errors, five output layouts, output zones; concatenated columns, constants, field limits, and combinations; every cell of every output is compared with the model."})
	register(&property{id: "C21", gen: genC21, check: checkC21, crash: true, rule: "The command runs up to three times in the same place and is killed at a random step, fails at a random operation or completes (also over other inputs); then it runs to the end, and its outputs must be those of a clean directory."})
	register(&property{id: "C22", gen: genC22, check: checkC22, rule: "Runs with any verbosity, progress interval and reports; outputs must equal the model, reports those of a quiet and undisturbed run, and nothing else may be on standard output."})
	register(&property{id: "C23", gen: genC23, check: checkC23, crash: true, rule: "Runs with and without failures and kills next to files with similar names; inputs, configuration and other files must keep their content, and a successful run leaves nothing but its outputs."})
}
