package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// runOK executes the main run and expects success.
func (x *ctx) runOK(c *Case) (*Result, *viol) {
	r := x.main(c)
	if vi := success(r); vi != nil {
		return r, vi
	}

	return r, nil
}

// csvOf reads the CSV output of a successful run.
func csvOf(c *Case, r *Result) (*table, *viol) {
	name := c.O.CSV
	if name == "" && c.O.SQLite == "" && c.O.PG == "" && c.O.Raw == "" {
		name = c.In[0].Name + ".csv"
		if c.O.PosInput {
			name = c.In[0].Name + ".csv"
		}
	}

	t, err := r.csvTable(name)
	if err != nil {
		return nil, v("csv", "CSV output: %v; %s", err, ended(r))
	}

	return t, nil
}

// manyLines occasionally asks for runs that reuse every worker's parser and buffers often.
func manyLines(r *rng, x *ctx, idx int) int {
	if idx%97 == 13 {
		return r.between(400, 1500)
	}

	return nLines(r)
}

// prefixInConfig moves the pattern of the line prefix from the command line to the configuration,
// or leaves it in both, where the command line wins.
func prefixInConfig(r *rng, c *Case) {
	switch {
	case r.p(0.3):
		c.O.Cfg.MatchLinePrefix, c.O.Prefix = c.O.Prefix, ""
	case r.p(0.1):
		c.O.Cfg.MatchLinePrefix = `nothing(\d)`
	}
}

func genC01(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "rows"}
	baseOpts(r, c)

	g := gcfg{lines: manyLines(r, x, idx), files: pick(r, 1, 1, 1, 2, 3), fields: r.between(1, 4), depth: r.n(3), ids: true,
		nulls: true, arrays: true, surprise: 0.05, emptyCont: true, tails: 0.05, empties: true, big: r.p(0.1), plainStr: r.p(0.3)}

	if r.p(0.6) {
		g.bad = pick(r, 0.05, 0.2, 0.5)
		g.badKinds = pick(r, []string{"blank"}, badLineKinds, []string{"blank", "text", "cr", "sp"})
	}

	if g.lines < g.files {
		g.files = 1
	}

	c.In = newGen(r, g).inputs()
	c.O.CSV = "out.csv"
	c.O.AddSeq = r.p(0.4)

	if r.p(0.1) {
		c.O.CSV = "" // Default output next to the input.
		c.O.ViaOutput = false
	}

	switch r.n(8) {
	case 0:
		c.O.Cfg.IncludeKeys = []string{".id", ".a"}
		c.Shape = "includeKeys"
	case 1:
		c.O.GetKey = ".id"
		c.Shape = "getKey"
	case 2:
		c.O.Extract = true
	case 3:
		c.O.Prefix = `lvl(\d+)`
		c.Shape = "prefix"
		prefixInConfig(r, c)
	}

	if r.p(0.25) {
		window(r, c)
	}

	if !strings.Contains(string(c.In[0].Plain()), `"id"`) && !c.O.AddSeq && c.O.GetKey == "" && len(c.O.Cfg.IncludeKeys) == 0 {
		c.O.AddSeq = true
	}

	if r.p(0.1) {
		compressInputs(r, c)
	}

	if r.p(0.03) {
		c.In = append(c.In, c.In[0]) // The same file again.
		c.Shape += "+again"
	}

	return c
}

// window picks an offset and a maximum inside one file.
func window(r *rng, c *Case) {
	if len(c.In) > 1 {
		return
	}

	n := len(c.In[0].Lines)

	if r.p(0.7) {
		c.O.MaxLines = r.between(1, n+2)
	}

	if r.p(0.7) && n > 1 {
		c.O.Offset = r.n(n)
	}
}

func compressInputs(r *rng, c *Case) {
	for i := range c.In {
		if !r.p(0.8) {
			continue
		}

		c.In[i].Comp = pick(r, "gz", "zst")
		c.In[i].Name += "." + c.In[i].Comp
		c.In[i].Members = pick(r, 1, 1, 2, 3)
		c.In[i].CompOpt = pick(r, "", "", "window", "header", "huffman", "stored")
	}
}

func hasColumns(m *Model) bool { return len(m.cols) > 0 }

func checkC01(x *ctx, c *Case) *viol {
	m := newModel(c)
	if !hasColumns(m) {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	t, vi := csvOf(c, r)
	if vi != nil {
		return vi
	}

	return m.checkRows(t)
}

// genCells makes inputs whose values say where they come from.
func genCells(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "cells"}
	baseOpts(r, c)

	g := gcfg{lines: manyLines(r, x, idx), files: pick(r, 1, 1, 1, 2, 3), fields: r.between(1, 7), depth: r.n(4), ids: r.p(0.8),
		nulls: r.p(0.7), arrays: true, surprise: pick(r, 0, 0.05, 0.3), emptyCont: true, tails: 0.05, empties: true, big: r.p(0.15),
		oddNum: r.p(0.15), mixed: pick(r, 0, 0, 0.1), contMix: r.p(0.25), dups: pick(r, 0, 0, 0.1), caseVar: pick(r, 0, 0, 0, 0.2)}

	if r.p(0.3) {
		g.bad = pick(r, 0.05, 0.3)
	}

	c.O.CSV = "out.csv"

	switch r.n(9) {
	case 0:
		c.Shape = "concat"
		g.nulls = false
		g.caseVar = 0.2
		g.dups = 0.1
		d := pick(r, ",", "|", "")
		c.O.Cfg.ConcatDelimiter = &d
	case 1:
		c.Shape = "prefix"
		g.prefix = true
		c.O.Prefix = pick(r, `lvl(\d+)`, `^(\d+):(\d+)`, `(?:(\d+):(\d+) )?lvl(\d)`)
		prefixInConfig(r, c)
	case 2:
		c.Shape = "fieldLimit"
		c.O.FieldLimit = r.between(1, 20)
	case 3:
		c.Shape = "extract"
		c.O.Extract = true
		g.extract = 0.4
	case 4:
		c.Shape = "time"
		g.times = 0.7
		g.badTime = r.p(0.3)
	}

	if r.p(0.15) {
		g.odd = 0.3
	}

	if g.caseVar > 0 && r.p(0.3) {
		c.O.CaseSens = true
	}

	if g.lines < g.files {
		g.files = 1
	}

	gn := newGen(r, g)
	c.In = gn.inputs()
	c.O.AddSeq = r.p(0.2)

	m := newModel(c)
	names := scalarKeys(m)

	if g.times > 0 {
		timeCfg(r, c, names)
	}

	if len(names) > 1 {
		switch r.n(11) {
		case 3:
			if g.caseVar == 0 && g.dups == 0 {
				c.Shape += "+rules"
				nameRulesCfg(r, c, m)
			}
		case 4:
			if g.caseVar == 0 && g.dups == 0 {
				c.Shape += "+short"
				shortNames(r, c, names)
			}
		case 5:
			if g.caseVar == 0 {
				c.Shape += "+filters"
				filters(r, c, names)
			}
		case 0:
			c.Shape += "+include"

			for _, n := range names {
				if r.p(0.5) {
					c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys, n)
				}
			}

			if r.p(0.3) {
				c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys, "const:fixed value", ".not.there")
			}
		case 1:
			c.Shape += "+exclude"

			for _, n := range names {
				if r.p(0.3) {
					c.O.Cfg.ExcludeKeys = append(c.O.Cfg.ExcludeKeys, n)
				}
			}
		case 2:
			if g.caseVar == 0 && g.dups == 0 {
				c.Shape += "+merge"
				c.O.Cfg.ReplaceKeys = map[string]string{}

				for _, n := range names {
					if r.p(0.5) && n != "._sequence" {
						c.O.Cfg.ReplaceKeys[n] = pick(r, "merged1", "merged2", "own"+strconv.Itoa(len(c.O.Cfg.ReplaceKeys)))
					}
				}

				if r.p(0.4) && !g.nulls {
					d := "+"
					c.O.Cfg.ConcatDelimiter = &d
				}
			}
		}
	}

	// With a single column the fast path is taken.
	if len(names) > 0 && len(c.O.Cfg.IncludeKeys) == 0 && len(c.O.Cfg.ReplaceKeys) == 0 && g.caseVar == 0 && g.dups == 0 && r.p(0.1) {
		c.Shape += "+single"
		c.O.Cfg.IncludeKeys = []string{pick(r, names...)}
		c.O.Cfg.ConcatDelimiter = nil
	}

	if r.p(0.1) {
		compressInputs(r, c)
	}

	if c.O.Extract && r.p(0.5) {
		c.O.Children = -1
	}

	if r.p(0.1) {
		c.O.MaxKeys = r.between(1, g.lines+1)
	}

	return c
}

// freeNames tells whether names of columns are up to the tool.
func (o *Opts) freeNames() bool { return o.ReplaceKeys || o.KeyLimit > 0 || o.AnyRule }

// shortNames asks for names that are made up by the tool.
func shortNames(r *rng, c *Case, names []string) {
	c.O.Info = true
	c.O.SkipZero = false

	if r.p(0.5) {
		c.O.ReplaceKeys = true
	}

	if !c.O.ReplaceKeys || r.p(0.3) {
		c.O.KeyLimit = pick(r, 3, 4, 4, 5, 6, 8, 12)
	}

	if r.p(0.3) {
		c.O.Cfg.ReplaceKeys = map[string]string{pick(r, names...): pick(r, "name", "value", "ren0", "x1")}

		// A name that is made up for another key.
		if l, k := c.O.KeyLimit, pick(r, names...); l > 0 && len(k) > l && utf8.ValidString(k[:l-1]) && r.p(0.6) {
			for n := range c.O.Cfg.ReplaceKeys {
				if n != k {
					c.O.Cfg.ReplaceKeys[n] = k[:l-1] + "0"
				}
			}
		}
	}
}

// nameRulesCfg makes regular expressions of names, at most one of which matches a key.
func nameRulesCfg(r *rng, c *Case, m *Model) {
	names := scalarKeys(m)
	rules := map[string]string{}

	for try := 0; try < 6 && len(rules) < 3; try++ {
		k := pick(r, names...)
		segs := m.keys[k].path

		var re, rep string

		switch r.n(6) {
		case 0:
			re, rep = `^\.([^.]+)$`, pick(r, "top_${1}", "${1}", "T ${1}", "${1} VARCHAR(255)")
		case 1:
			re, rep = "."+segs[0]+".*", pick(r, "in_${1}", "${1}_in", "merged")
		case 2:
			re, rep = "."+segs[0]+".*.*", pick(r, "${2}_${1}", "${2}${2}|to_snake_case")
		case 3:
			re, rep = ".*."+segs[len(segs)-1], "x_${1}"
		case 4:
			re, rep = `^\.`+regexp.QuoteMeta(segs[0])+`\.(.+)$`, pick(r, "${1}|to_snake_case", "deep ${1}")
		case 5:
			re, rep = `^`+regexp.QuoteMeta(k)+`$`, pick(r, "plain", "AnyNameHere|to_snake_case")
		}

		if re[0] != '^' && (strings.ContainsAny(re, `\()$+?|^`) || strings.Contains(segs[0]+segs[len(segs)-1], "*")) {
			continue
		}

		rules[re] = rep
		o := Opts{Cfg: Config{ReplaceKeysRegex: rules}}
		twice := false

		for _, n := range m.order {
			cnt := 0

			for _, nr := range o.nameRules() {
				if nr.re.MatchString(n) {
					cnt++
				}
			}

			twice = twice || cnt > 1
		}

		if twice {
			delete(rules, re)
		}
	}

	c.O.Cfg.ReplaceKeysRegex = rules

	if r.p(0.3) {
		c.O.Cfg.ReplaceKeys = map[string]string{pick(r, names...): "given"}
	}

	if caseClash(c, m) {
		c.O.Cfg.ReplaceKeysRegex = nil
	}
}

// caseClash finds names that differ in case only, they are not promised to work.
func caseClash(c *Case, m *Model) bool {
	q := Model{c: c}
	seen := map[string]string{}

	for _, k := range m.order {
		n := q.natural(c.O.ck(k), k)
		if o, ok := seen[strings.ToLower(n)]; ok && o != n {
			return true
		}

		seen[strings.ToLower(n)] = n
	}

	return false
}

// manyRules makes rules of names that match the same keys.
func manyRules(r *rng, c *Case, m *Model) {
	names := scalarKeys(m)
	k := pick(r, names...)
	all := []string{`^\.(.+)$`, `^\.(.+)`, `\.(.+)$`, `^\.()(.+)$`, `^(\..+)$`, `^\.(.)(.*)$`, `^` + regexp.QuoteMeta(k) + `(.*)$`, `^(.+)$`}
	reps := []string{"ra_${1}", "rb_${1}", "rc_${1}", "rd_${2}", "re_${1}", "rf_${1}${2}", "rg_${1}", "rh_${1}"}

	c.O.AnyRule = true
	c.O.Cfg.ReplaceKeysRegex = map[string]string{}

	for i := range all {
		if r.p(0.5) {
			c.O.Cfg.ReplaceKeysRegex[all[i]] = reps[i]
		}
	}
}

// filters combines includes and excludes.
func filters(r *rng, c *Case, names []string) {
	prefix := func() string {
		n := pick(r, names...)

		return "^" + regexp.QuoteMeta(runePrefix(n, 1+r.n(len(n))))
	}

	c.O.SkipZero = false

	for _, n := range names {
		if r.p(0.3) {
			c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys, n)
		}
	}

	for i := r.between(1, 2); i > 0; i-- {
		c.O.Cfg.IncludeKeysRegex = append(c.O.Cfg.IncludeKeysRegex, prefix())
	}

	if r.p(0.3) {
		c.O.Cfg.IncludeKeysRegex = nil
	}

	if r.p(0.5) {
		c.O.Cfg.ExcludeKeysRegex = []string{prefix()}
	}

	if r.p(0.5) {
		c.O.Cfg.ExcludeKeys = []string{pick(r, names...)}
	}

	if r.p(0.2) {
		c.O.Cfg.IncludeKeys = append(c.O.Cfg.IncludeKeys, "const:42")
	}
}

// scalarKeys lists keys of the case that give columns.
func scalarKeys(m *Model) []string {
	var res []string

	for _, k := range m.order {
		if m.keys[k].scalar() && !m.keys[k].hc {
			res = append(res, k)
		}
	}

	sort.Strings(res)

	return res
}

func checkC02(x *ctx, c *Case) *viol {
	m := newModel(c)
	if !hasColumns(m) {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if c.O.freeNames() {
		if vi := m.chosenNames(string(r.Out.Stdout)); vi != nil {
			return vi
		}
	}

	t, vi := csvOf(c, r)
	if vi != nil {
		return vi
	}

	return m.checkCells(t)
}

// keyInfo is one entry of the keys info.
type keyInfo struct {
	name, orig, typ, dst, extr string
	included                   bool
}

var infoRe = regexp.MustCompile(`^(\d+): (?s)(.*), TYPE ([a-z]*)(, INCLUDED)?(?:, TRANSPOSED TO ([^,]*))?(?:, EXTRACTED (\w+))?$`)

// parseInfo reads the keys info from stdout.
func parseInfo(out string) ([]keyInfo, []string, *viol) {
	i := strings.Index(out, "keys info:\n")
	if i < 0 {
		return nil, nil, v("info", "no keys info on stdout: %q", clip(out))
	}

	var (
		res     []keyInfo
		skipped []string
	)

	for n, l := range strings.Split(strings.TrimSuffix(out[i+len("keys info:\n"):], "\n"), "\n") {
		if l == "" {
			continue
		}

		if strings.HasPrefix(l, "{") || strings.HasPrefix(l, "[") || !strings.HasPrefix(l, strconv.Itoa(n+1)+": ") {
			break // Another report follows.
		}

		if s, ok := strings.CutSuffix(l, ", SKIPPED"); ok {
			skipped = append(skipped, s[strings.Index(s, ": ")+2:])

			continue
		}

		sm := infoRe.FindStringSubmatch(l)
		if sm == nil {
			return nil, nil, v("info", "unexpected line %q", l)
		}

		k := keyInfo{name: sm[2], orig: sm[2], typ: sm[3], included: sm[4] != "", dst: sm[5], extr: sm[6]}

		if o, n, ok := strings.Cut(k.name, ", REPLACED WITH "); ok {
			k.orig, k.name = o, n
		}

		res = append(res, k)
	}

	return res, skipped, nil
}

// checkTypes compares reported columns and types.
func (m *Model) checkTypes(out string) *viol {
	info, _, vi := parseInfo(out)
	if vi != nil {
		return vi
	}

	o := &m.c.O
	at := map[string]keyInfo{}

	for _, k := range info {
		n := o.ck(k.name)
		if k.dst != "" {
			n = k.dst + "\x00" + o.ck(k.orig)
		}

		if _, ok := at[n]; ok {
			return v("infodup", "keys info lists %q twice", k.name)
		}

		at[n] = k
	}

	for _, c := range m.cols {
		k, ok := at[o.ck(c.name)]
		if !ok {
			if c.optional {
				continue
			}

			return v("infomiss", "keys info does not list %q", clip(c.name))
		}

		delete(at, o.ck(c.name))

		if c.constV == nil && k.typ != c.typ {
			return v("type", "type of %q is %s, the values of the scanned lines need %s", clip(c.name), k.typ, c.typ)
		}
	}

	// Variants of case share a line.
	type tkey struct {
		kinds map[byte]bool
		hc    bool
		n     int
	}

	trans := map[string]*tkey{}

	for n, mk := range m.keys {
		if mk.dst == "" || !m.include[n] || !mk.scalar() {
			continue
		}

		id := mk.dst + "\x00" + o.ck(n)
		if trans[id] == nil {
			trans[id] = &tkey{kinds: map[byte]bool{}}
		}

		trans[id].hc = trans[id].hc || mk.hc
		trans[id].n++

		for k := range mk.kinds {
			trans[id].kinds[k] = true
		}
	}

	for _, id := range sortedKeys(trans) {
		k, ok := at[id]
		n := id[strings.IndexByte(id, 0)+1:]

		if !ok {
			return v("infomiss", "keys info does not list transposed %q", n)
		}

		delete(at, id)

		if t := m.joined(lub(trans[id].kinds, trans[id].hc), trans[id].n); k.typ != t {
			return v("type", "type of %q is %s, the values of the scanned lines need %s", n, k.typ, t)
		}
	}

	for _, n := range sortedKeys(at) {
		return v("infoextra", "keys info lists %q that is not in the scanned lines", n)
	}

	return nil
}

func genC03(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "types"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2, 3), fields: r.between(1, 6), depth: r.n(3), ids: r.p(0.5),
		nulls: r.p(0.7), arrays: true, surprise: pick(r, 0, 0.1, 0.5), emptyCont: true, empties: true,
		mixed: pick(r, 0, 0.03, 0.1, 0.4), contMix: r.p(0.4), caseVar: pick(r, 0, 0, 0.1), zeros: pick(r, 0, 0, 0.5, 0.95), plainStr: true, oddNum: r.p(0.1)}

	if r.p(0.1) {
		g.odd = 0.3
	}

	if r.p(0.25) {
		g.bad = 0.1
	}

	// Many short lines over few keys make first sights of keys and types collide.
	if r.p(0.4) {
		g.fields = r.between(1, 2)
		g.depth = r.n(2)
		g.mixed = pick(r, 0.2, 0.6)
		g.lines = r.between(2, 12)
		c.P.Gap = pick(r, 2.0, 5, 15)
	}

	if g.lines < g.files {
		g.files = 1
	}

	c.O.SkipZero = r.p(0.25)
	if c.O.SkipZero && g.zeros == 0 {
		g.zeros = 0.6
	}

	if r.p(0.15) && g.caseVar > 0 {
		c.O.CaseSens = true
	}

	c.In = newGen(r, g).inputs()
	c.O.CSV = "out.csv"
	c.O.Info = true
	c.O.AddSeq = r.p(0.15)

	if r.p(0.15) {
		c.O.Extract = true
	}

	if r.p(0.1) {
		c.O.Children = pick(r, 1, 2, 3, 5)
	}

	if r.p(0.1) {
		c.O.MaxKeys = r.between(1, g.lines)
	}

	m := newModel(c)
	names := scalarKeys(m)

	if len(names) > 1 && g.caseVar == 0 {
		switch r.n(10) {
		case 3:
			c.Shape = "rules"
			c.O.SkipZero = false
			nameRulesCfg(r, c, m)
		case 4:
			c.Shape = "short"
			shortNames(r, c, names)
		case 5:
			c.Shape = "filters"
			filters(r, c, names)
		case 0:
			c.Shape = "exclude"

			for _, n := range names {
				if r.p(0.3) {
					c.O.Cfg.ExcludeKeys = append(c.O.Cfg.ExcludeKeys, n)
				}
			}
		case 1:
			c.Shape = "regex"
			c.O.SkipZero = false
			n := pick(r, names...)
			c.O.Cfg.IncludeKeysRegex = []string{"^" + regexp.QuoteMeta(runePrefix(n, 1+r.n(len(n))))}

			if r.p(0.3) {
				c.O.Cfg.ExcludeKeysRegex = []string{regexp.QuoteMeta(pick(r, names...)) + "$"}
			}
		case 2:
			c.Shape = "merge"
			c.O.SkipZero = false
			c.O.Cfg.ReplaceKeys = map[string]string{}

			for _, n := range names {
				if r.p(0.5) {
					c.O.Cfg.ReplaceKeys[n] = pick(r, "merged1", "merged2")
				}
			}
		}
	}

	if r.p(0.1) {
		compressInputs(r, c)
	}

	return c
}

// runePrefix cuts a string, but not inside of a character.
func runePrefix(s string, n int) string {
	for n < len(s) && !utf8.RuneStart(s[n]) {
		n++
	}

	return s[:n]
}

func checkC03(x *ctx, c *Case) *viol {
	m := newModel(c)
	if false {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	t, vi := csvOf(c, r)
	if vi != nil {
		if len(m.cols) == 0 {
			return nil
		}

		return vi
	}

	if c.O.freeNames() {
		if vi := m.chosenNames(string(r.Out.Stdout)); vi != nil {
			return vi
		}
	}

	if len(m.cols) > 0 {
		if vi := m.checkHeader(t); vi != nil {
			return vi
		}
	}

	if vi := m.checkTypes(string(r.Out.Stdout)); vi != nil {
		return vi
	}

	if c.O.freeNames() {
		return sameNames(x, c, string(r.Out.Stdout))
	}

	for _, col := range m.cols {
		if len(col.keys) > 1 {
			return sameHeader(x, c, t)
		}
	}

	return nil
}

// sameHeader compares the spelling of columns that are shared by several keys with that of an
// undisturbed run.
func sameHeader(x *ctx, c *Case, t *table) *viol {
	q := c.clone()
	q.P = calm(c.P.Seed)
	q.O.Conc, q.O.ConcSet = 1, true

	r := x.run(q)
	if vi := success(r); vi != nil {
		return vi
	}

	u, vi := csvOf(q, r)
	if vi != nil {
		return vi
	}

	has := map[string]bool{}
	for _, h := range u.head {
		has[h] = true
	}

	for _, h := range t.head {
		if !has[h] {
			return v("spelldiff", "there is a column %q, in another run over the same input there is none, header is %q", clip(h), clip(strings.Join(u.head, ",")))
		}
	}

	if len(t.head) != len(u.head) {
		return v("spelldiff", "%d columns, %d in another run over the same input", len(t.head), len(u.head))
	}

	return nil
}

// sameNames compares the names with those of an undisturbed run.
func sameNames(x *ctx, c *Case, out string) *viol {
	q := c.clone()
	q.P = calm(c.P.Seed)
	q.O.Conc, q.O.ConcSet = 1, true

	r := x.run(q)
	if vi := success(r); vi != nil {
		return vi
	}

	names := func(out string) (map[string]string, *viol) {
		info, _, vi := parseInfo(out)
		res := map[string]string{}

		for _, k := range info {
			res[k.orig] = k.name
		}

		return res, vi
	}

	a, vi := names(out)
	if vi != nil {
		return vi
	}

	b, vi := names(string(r.Out.Stdout))
	if vi != nil {
		return vi
	}

	shown := map[string]bool{}
	for _, n := range b {
		shown[n] = true
	}

	for _, k := range sortedKeys(a) {
		// A shared column is listed with one of its keys.
		if _, ok := b[k]; !ok && shown[a[k]] {
			continue
		}

		if a[k] != b[k] {
			return v("namediff", "%q is named %q, in another run over the same input %q", clip(k), clip(a[k]), clip(b[k]))
		}
	}

	if len(a) != len(b) {
		return v("namediff", "%d names, %d in another run over the same input", len(a), len(b))
	}

	return nil
}

// plainKeys restricts names so that all outputs can hold them.
func genMulti(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "multi"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2), fields: r.between(1, 7), depth: r.n(3), ids: r.p(0.7),
		nulls: true, arrays: true, surprise: 0.05, emptyCont: true, empties: true, mixed: pick(r, 0, 0.1), bad: pick(r, 0, 0.1), big: r.p(0.15)}

	c.O.CSV = pick(r, "out.csv", "out.csv", "out.csv.gz", "dir.x/out.v1.csv", "out.csv.zst")
	if r.p(0.7) {
		c.O.SQLite = "out.sqlite"
	}

	if r.p(0.7) {
		c.O.PG = pick(r, "dump.sql", "dump.sql", "dump.sql.gz", "dump.sql.zst")
	}

	if r.p(0.5) || (c.O.SQLite == "" && c.O.PG == "") {
		c.O.Raw = pick(r, "out.raw", "out.raw", "out.raw.gz")
		c.O.RawDelim = pick(r, "|", "\t", ";;", "\x1f")
		g.plainStr = true
	}

	if r.p(0.5) {
		c.O.MaxCols = pick(r, 2, 3, 4, 5, 7, 11)
	} else if r.p(0.05) {
		c.Extra = append(c.Extra, "-sql-max-cols=0") // The default.
	}

	if r.p(0.2) {
		c.O.Table = pick(r, "my_table", "My Table", `quo"ted`, "it's")
	}

	if r.p(0.15) {
		g.odd = 0.3
	}

	if r.p(0.1) {
		g.times = 0.6
		g.badTime = r.p(0.2)
	}

	if r.p(0.3) {
		c.Shape = "multi+transpose"
		transposeCfg(r, c, &g)
	}

	if r.p(0.05) {
		c.Shape = "wide"
		g.fields = r.between(90, 120)
		g.depth = 0
		g.lines = r.between(2, 5)
		g.files = 1
	}

	if g.lines < g.files {
		g.files = 1
	}

	if len(c.O.Cfg.Transpose) == 0 {
		c.In = newGen(r, g).inputs()
	} else {
		c.In = transposeInputs(r, c, g)
	}

	if r.p(0.1) && len(c.O.Cfg.Transpose) == 0 {
		if names := scalarKeys(newModel(c)); len(names) > 1 {
			c.O.Cfg.IncludeKeys = append([]string{}, names[:1+r.n(len(names))]...)
		}
	}

	if g.times > 0 {
		timeCfg(r, c, scalarKeys(newModel(c)))
	}

	c.O.AddSeq = r.p(0.2)

	if r.p(0.03) && len(c.O.Cfg.Transpose) == 0 && len(c.O.Cfg.ParseTime) == 0 {
		c.noRows(r)
	}

	return c
}

// noRows moves the window behind the last line, only listed keys have columns.
func (c *Case) noRows(r *rng) {
	if len(c.O.Cfg.IncludeKeys) == 0 {
		c.O.Cfg.IncludeKeys = pick(r, []string{".a", ".b.c"}, []string{".id"}, scalarKeys(newModel(c)))
	}

	for i := range c.In {
		c.O.Offset = max(c.O.Offset, bytes.Count(c.In[i].Plain(), []byte("\n"))+1)
	}

	c.Shape += "+norows"
}

// genC08 adds runs that cross batch and transaction boundaries.
func genC08(r *rng, idx int, x *ctx) *Case {
	switch {
	case idx%120 == 5: // PostgreSQL dumps are flushed every 10000 lines, SQLite commits as well.
		return genLong(r, r.between(10000, 10010)+pick(r, 0, 0, 5000, 10000))
	case idx%40 == 17: // 100 to 999 keys commit every 1000 rows, more every 100.
		return genWideTx(r)
	}

	return genMulti(r, idx, x)
}

func genLong(r *rng, n int) *Case {
	c := &Case{P: params(r), Shape: "long"}
	c.P.Gap = pick(r, 300.0, 1000, 5000)
	c.P.ReadChunk = pick(r, 0, 4096)
	c.P.IOLatency = 0
	c.P.StallProb = 0
	c.O.Conc = pick(r, 1, 2, 4, 8)
	c.O.Verbosity = -1
	c.In = []InFile{{Name: "in0.jsonl"}}

	for i := 1; i <= n; i++ {
		c.In[0].Lines = append(c.In[0].Lines, fmt.Sprintf(`{"id":%d,"s":"v%d"}`, i, i))
	}

	c.O.CSV = "out.csv"
	c.O.SQLite = pick(r, "out.sqlite", "")
	c.O.PG = "dump.sql"

	if r.p(0.3) {
		c.O.MaxCols = 2
	}

	return c
}

func genWideTx(r *rng) *Case {
	c := &Case{P: params(r), Shape: "widetx"}
	c.P.Gap = pick(r, 300.0, 1000, 5000)
	c.P.StallProb = 0
	c.P.IOLatency = 0
	c.O.Conc = pick(r, 2, 4, 8)
	c.O.Verbosity = -1
	c.O.CSV = "out.csv"
	c.O.SQLite = "out.sqlite"
	c.O.MaxCols = pick(r, 0, 60, 25, 334)
	cols, lines := 1000+r.n(4), pick(r, 99, 100, 101, 203)

	if r.p(0.6) {
		cols, lines = pick(r, 100, 99, 101), pick(r, 1000, 1001, 2003)
	}

	c.In = []InFile{{Name: "in0.jsonl"}}

	for i := 1; i <= lines; i++ {
		var b strings.Builder

		if i == 1 {
			for k := 0; k < cols-1; k++ {
				fmt.Fprintf(&b, `,"k%d":%d`, k, k)
			}
		} else {
			k := r.n(cols - 1)
			fmt.Fprintf(&b, `,"k%d":"v%d_%d"`, k, i, k)
		}

		c.In[0].Lines = append(c.In[0].Lines, fmt.Sprintf(`{"id":%d%s}`, i, b.String()))
	}

	c.O.Children = -1

	return c
}

func checkMulti(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if len(m.lines) > 10000 {
		x.probe("more than 10000 rows")
	}

	if len(m.cols) >= 100 {
		x.probe("100 or more columns")
	}

	if c.O.MaxCols > 0 && len(m.cols) > c.O.MaxCols-1 {
		x.probe("part tables")

		if len(m.cols)%(c.O.MaxCols-1) == 0 {
			x.probe("columns are an exact multiple of part size")
		}
	}

	return m.checkOutputs(r)
}

// transposeCfg configures transposition of fields that transposeInputs makes.
func transposeCfg(r *rng, c *Case, g *gcfg) {
	c.O.Cfg.Transpose = map[string]string{}

	for _, k := range []string{"arr", "obj", "deep.map", "flat", "deep"} {
		if r.p(0.6) && (k != "deep" || r.p(0.4)) {
			c.O.Cfg.Transpose["."+k] = "t" + strings.ReplaceAll(k, ".", "_")
		}
	}

	if len(c.O.Cfg.Transpose) == 0 {
		c.O.Cfg.Transpose[".arr"] = "tarr"
	}

	c.O.Children = -1
}

// transposeInputs makes lines with containers to transpose.
func transposeInputs(r *rng, c *Case, g gcfg) []InFile {
	x := newGen(r, g)
	ff := x.fields(g.fields, 1)
	el := x.fields(r.between(1, 3), pick(r, 0, 1))
	maxEl := pick(r, 2, 4, 12)
	files := g.files
	res := make([]InFile, files)
	oddProps := g.odd > 0
	either := r.p(0.2) // Containers are arrays in some lines and objects in others.

	// items makes an array, or an object of the other kind.
	items := func(array bool, n int, value func(i int) *JV) *JV {
		if either && r.p(0.4) {
			array = !array
		}

		if array {
			a := &JV{T: 'a'}
			for i := n; i >= 0; i-- {
				a.V = append(a.V, value(i))
			}

			return a
		}

		e := jobj()

		for i := n; i >= 0; i-- {
			k := fmt.Sprintf("p%d", r.n(20))

			if oddProps && r.p(0.3) {
				k = pick(r, "P1", "P2", "[1]", "0", "", "with space", "Ключ", `q"t`, "[x]", "a,b", "-1", "[01]", "it's", "._value", "UP")
			}

			// The same flat key.
			if (k == "" && e.get("._value") != nil) || (k == "._value" && e.get("") != nil) {
				continue
			}

			if e.get(k) == nil {
				e.add(k, value(i))
			}
		}

		if len(e.K) == 0 {
			e.add("p1", value(0))
		}

		return e
	}

	for i := range res {
		res[i].Name = fmt.Sprintf("in%d.jsonl", i)
	}

	elem := func(n, i int) *JV {
		e := jobj()
		x.fill(e, el, n*100+i)

		if len(e.V) == 0 {
			e.add("only", jint(n*100+i))
		}

		return e
	}

	for n := 1; n <= g.lines; n++ {
		fi := (n - 1) * files / g.lines

		if r.p(g.bad) {
			res[fi].Lines = append(res[fi].Lines, x.badLine(n, jobj()))

			continue
		}

		o := jobj()
		o.add("id", jint(n))
		x.fill(o, ff, n)

		// Names of other keys do not collide with the transposed ones.
		for i := range o.K {
			o.K[i] = "m_" + o.K[i]
		}

		o.K[0] = "id"

		if r.p(0.8) {
			o.add("arr", items(true, r.n(maxEl), func(i int) *JV { return elem(n, i) }))
		}

		if r.p(0.7) {
			o.add("obj", items(false, r.n(maxEl), func(i int) *JV { return elem(n, 50+i) }))
		}

		if r.p(0.5) {
			e := jobj()

			for i := r.n(maxEl); i >= 0; i-- {
				k := fmt.Sprintf("q%d", i)
				e.add(k, x.scalar(pick(r, "int", "str"), n*100+i, 7))
			}

			d := jobj()
			d.add("map", e)
			d.add("other", jint(n))
			o.add("deep", d)
		}

		if r.p(0.6) {
			o.add("flat", items(true, r.n(maxEl), func(i int) *JV { return x.scalar(pick(r, "int", "int", "str"), n*100+i, 8) }))
		}

		var b strings.Builder

		x.st.write(&b, o)
		res[fi].Lines = append(res[fi].Lines, b.String())
	}

	for i := range res {
		if len(res[i].Plain()) == 0 {
			res[i].Lines = append(res[i].Lines, `{"id":0}`)
		}
	}

	return res
}

func genC09(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "transpose"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2), fields: r.between(1, 3), nulls: r.p(0.7), arrays: true, empties: true,
		mixed: pick(r, 0, 0.1), bad: pick(r, 0, 0.1)}

	if g.lines < g.files {
		g.files = 1
	}

	c.O.CSV = pick(r, "out.csv", "out.csv", "out.csv.gz", "")
	if c.O.CSV == "" || r.p(0.4) {
		if r.p(0.6) {
			c.O.SQLite = "out.sqlite"
		} else {
			c.O.PG = "dump.sql"
		}
	}

	if r.p(0.3) && c.O.CSV != "" {
		c.O.Raw = "out.raw"
		c.O.RawDelim = "|"
		g.plainStr = true
	}

	if r.p(0.3) {
		c.O.MaxCols = pick(r, 2, 3, 4, 5)
	}

	transposeCfg(r, c, &g)

	if r.p(0.25) {
		g.odd = 0.2
	}

	if r.p(0.15) {
		c.Shape = "transpose+case"
		g.caseVar = 0.3
		c.O.CaseSens = r.p(0.6)

		if c.O.CaseSens { // Not promised to work.
			c.O.SQLite = ""

			if c.O.CSV == "" {
				c.O.CSV = "out.csv"
			}
		}
	}

	// Two prefixes into the same table only with different indexes.
	c.In = transposeInputs(r, c, g)
	c.O.AddSeq = r.p(0.2)

	if r.p(0.15) {
		c.O.Children = pick(r, 2, 3, 4, 6)
		c.Shape = "transpose+children"
	}

	if r.p(0.15) {
		c.O.Cfg.IncludeKeysRegex = []string{pick(r, `^\.arr`, `^\.id$`, `^\.obj\.p[0-9]`, `\]$`), pick(r, `^\.id$`, `^\.deep`)}
		c.Shape = "transpose+regex"
	}

	if r.p(0.2) {
		c.O.Cfg.ExcludeKeysRegex = []string{`^\.arr\.\[1\]`}
		c.Shape = "transpose+exclude"
	}

	if r.p(0.15) {
		window(r, c)
	}

	switch r.n(8) {
	case 0:
		transposeNames(r, c)
	case 1:
		if g.caseVar == 0 {
			c.Shape = "transpose+short"
			c.O.Info = true
			c.O.SkipZero = false

			if r.p(0.6) {
				c.O.ReplaceKeys = true
			}

			if !c.O.ReplaceKeys || r.p(0.3) {
				c.O.KeyLimit = pick(r, 3, 4, 5, 6, 8, 12)
			}
		}
	}

	return c
}

// transposeNames gives names to columns of transposed tables, some of them are shared.
func transposeNames(r *rng, c *Case) {
	c.Shape = "transpose+names"
	c.O.Cfg.ReplaceKeys = map[string]string{}

	if r.p(0.2) {
		c.O.Cfg.ReplaceKeys["._index"] = "at"
	}

	if r.p(0.2) {
		c.O.Cfg.ReplaceKeys["._sequence"] = "line no"
	}

	m := newModel(c)
	own := map[string]string{}

	for _, k := range m.order {
		if mk := m.keys[k]; mk.dst != "" && own[c.O.ck(mk.trim)] == "" && r.p(0.5) {
			n := "own" + strconv.Itoa(len(own))
			own[c.O.ck(mk.trim)] = n
			c.O.Cfg.ReplaceKeys[c.O.ck(mk.trim)] = pick(r, "shared1", "shared1", "shared2", n)
		}
	}

	if r.p(0.3) {
		d := pick(r, ",", " + ")
		c.O.Cfg.ConcatDelimiter = &d
	}

	// The order of values of an element is not promised.
	if m = newModel(c); m.shared {
		for k, n := range own {
			c.O.Cfg.ReplaceKeys[k] = n
		}
	}
}

func checkC09(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if c.O.freeNames() {
		if vi := m.chosenNames(string(r.Out.Stdout)); vi != nil {
			return vi
		}
	}

	for _, rows := range m.trans {
		if len(rows) > 0 {
			x.probe("transposed rows")
		}
	}

	return m.checkOutputs(r)
}

func genC10(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "cardinality"}
	baseOpts(r, c)

	g := gcfg{lines: r.between(2, 40), files: pick(r, 1, 1, 2), plainStr: r.p(0.5), nulls: true, empties: true}
	if g.lines < g.files {
		g.files = 1
	}

	lim := pick(r, 1, 2, 3, 5, 8, 0)
	c.O.Children = lim
	n := lim

	if lim == 0 {
		n = 100
		g.lines = r.between(20, 60)
	}

	gx := newGen(r, g)
	files := make([]InFile, g.files)

	for i := range files {
		files[i].Name = fmt.Sprintf("in%d.jsonl", i)
	}

	// Containers with a number of distinct children around the limit.
	type cont struct {
		path []string
		card int
		arr  bool
		deep bool
	}

	conts := []cont{
		{path: []string{"hc"}, card: n + pick(r, -1, 0, 1, 2)},
		{path: []string{"hcx"}, card: n + pick(r, -1, 0, 1)},
		{path: []string{"hc_other", "in"}, card: n + pick(r, 0, 1, 3), deep: r.p(0.3)},
		{path: []string{"nest", "hc"}, card: n + pick(r, 0, 1)},
		{path: []string{"list"}, card: n + pick(r, -1, 0, 1, 2), arr: true, deep: r.p(0.4)},
	}

	for i := 1; i <= g.lines; i++ {
		fi := (i - 1) * g.files / g.lines
		o := jobj()
		o.add("id", jint(i))

		if r.p(0.3) {
			o.add("hcz", gx.scalar("str", i, 1))
		}

		tree := map[string]*JV{"": o}

		for ci, ct := range conts {
			if ct.card < 1 || !r.p(0.8) {
				continue
			}

			var e *JV

			if ct.arr {
				e = &JV{T: 'a'}
				for k := 0; k < r.between(1, ct.card); k++ {
					e.V = append(e.V, gx.scalar("int", i*100+k, ci))
				}

				if r.p(0.2) {
					for len(e.V) < ct.card {
						e.V = append(e.V, jint(len(e.V)))
					}
				}
			} else {
				e = jobj()

				per := r.between(1, min(ct.card, 4))
				if lim == 0 {
					per = r.between(1, 8)
				}

				for k := 0; k < per; k++ {
					name := fmt.Sprintf("c%d", (i*3+k*7+r.n(3))%ct.card)
					if e.get(name) != nil {
						continue
					}

					if ct.deep && r.p(0.5) {
						d := jobj()
						d.add("x", gx.scalar("int", i, ci))
						d.add(fmt.Sprintf("y%d", r.n(n+2)), gx.scalar("str", i, ci))
						e.add(name, d)
					} else {
						e.add(name, gx.scalar(pick(r, "int", "str", "float", "bool"), i*10+k, ci))
					}
				}
			}

			par := tree[""]

			for d := 0; d < len(ct.path)-1; d++ {
				p := par.get(ct.path[d])
				if p == nil {
					p = jobj()
					par.add(ct.path[d], p)
				}

				par = p
			}

			par.add(ct.path[len(ct.path)-1], e)
		}

		if r.p(0.03) {
			files[fi].Lines = append(files[fi].Lines, gx.badLine(i, o))

			continue
		}

		var b strings.Builder

		gx.st.write(&b, o)
		files[fi].Lines = append(files[fi].Lines, b.String())
	}

	for i := range files {
		if len(files[i].Plain()) == 0 {
			files[i].Lines = append(files[i].Lines, `{"id":0}`)
		}
	}

	c.In = files
	c.O.CSV = "out.csv"
	c.O.Info = true

	if r.p(0.25) {
		c.O.Cfg.AllowCardinality = []string{pick(r, ".hc", ".list", ".nest.hc", ".hc_other.in", ".hcx")}
		c.Shape = "allowed"
	}

	if r.p(0.1) {
		c.O.Cfg.KeepJSON = []string{pick(r, ".hcx", ".nest", ".list")}
		c.Shape = "keepJSON"
	}

	if r.p(0.15) {
		c.O.SQLite = "out.sqlite"
	}

	if r.p(0.15) {
		c.O.PG = "dump.sql"
	}

	if r.p(0.1) {
		c.O.MaxKeys = r.between(1, g.lines)
	}

	return c
}

func checkC10(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	if len(m.hc) > 0 {
		x.probe("collapsed containers")
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if vi := m.checkOutputs(r); vi != nil {
		return vi
	}

	if c.O.Info {
		return m.checkTypes(string(r.Out.Stdout))
	}

	return nil
}

func genC11(r *rng, idx int, x *ctx) *Case {
	if idx == 20 || (x.thorough && idx%2000 == 20) {
		// Sequence numbers beyond any rounding.
		c := genLong(r, 100003+r.n(300))
		c.Shape = "sequence"
		c.O.AddSeq = true
		c.O.PG = ""
		c.O.SQLite = ""
		c.O.Cfg.IncludeKeys = []string{"._sequence", ".id"}
		c.P.Strategy = "random"

		return c
	}

	c := &Case{P: params(r), Shape: "window"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: 1, fields: r.between(1, 3), depth: r.n(2), ids: true, arrays: true, surprise: 0.2,
		plainStr: r.p(0.5), bad: pick(r, 0, 0, 0.15), emptyCont: true, nulls: true}

	if g.lines > 1 && r.p(0.2) {
		g.files = 2 // Every file has its window.
	}

	c.In = newGen(r, g).inputs()
	c.O.CSV = "out.csv"
	c.O.AddSeq = r.p(0.6)
	n := len(c.In[0].Lines)

	switch r.n(5) {
	case 0:
		c.O.MaxLines = r.between(1, n+1)
	case 1:
		c.O.Offset = r.n(n + 1)
	case 2:
		c.O.Offset = r.n(n)
		c.O.MaxLines = r.between(1, n-c.O.Offset+1)
	case 3:
		c.O.Offset = r.n(n)
		c.O.MaxLines = r.between(1, n-c.O.Offset+1)
		c.O.MaxKeys = r.between(1, n+1)
	case 4:
		c.O.MaxKeys = r.between(1, n)
	}

	switch r.n(6) {
	case 0:
		c.O.Cfg.IncludeKeys = []string{".id", ".a", "._sequence"}
		c.Shape = "window+includeKeys"
	case 1:
		c.O.GetKey = ".id"
		c.O.AddSeq = false
		c.Shape = "window+getKey"
	}

	if r.p(0.3) {
		c.O.SQLite = "out.sqlite"
	}

	if r.p(0.3) {
		c.O.PG = "dump.sql"
	}

	if r.p(0.1) {
		compressInputs(r, c)
	}

	if c.O.AddSeq && r.p(0.2) && len(c.O.Cfg.IncludeKeys) == 0 && c.O.GetKey == "" && c.O.Offset == 0 {
		// Sequence numbers go on through several files.
		c.In = append(c.In, InFile{Name: "second.jsonl", Lines: []string{`{"id":"s1"}`, `{"id":"s2"}`}})
		c.O.MaxLines = 0
		c.O.MaxKeys = 0
	}

	return c
}

func checkC11(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	t, vi := csvOf(c, r)
	if vi != nil {
		return vi
	}

	if vi := m.checkRows(t); vi != nil {
		return vi
	}

	if len(m.lines) > 100000 {
		x.probe("more than 100000 rows")
	}

	// Values only matter as far as they tell the line.
	if vi := m.checkCells(t); vi != nil {
		return vi
	}

	return m.checkOutputs(r)
}

func genC13(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "getKey"}
	baseOpts(r, c)

	g := gcfg{lines: manyLines(r, x, idx), files: pick(r, 1, 1, 2), fields: r.between(1, 4), depth: r.n(4), ids: true, nulls: true, arrays: true,
		emptyCont: true, empties: true, mixed: pick(r, 0, 0.1), contMix: r.p(0.4), bad: pick(r, 0, 0.1), big: r.p(0.1), tails: 0.05, surprise: 0.05}

	if g.lines < g.files {
		g.files = 1
	}

	if r.p(0.2) {
		g.extract = 0.5
		c.O.Extract = true
		c.O.Children = -1
		c.Shape = "getKey+extract"
	}

	if r.p(0.15) {
		g.odd = 0.3
	}

	if r.p(0.25) {
		g.caseVar = 0.2
		c.Shape += "+case"
	}

	if r.p(0.3) {
		g.dups = 0.15
	}

	c.In = newGen(r, g).inputs()
	names := scalarKeys(newModel(c))

	if len(names) == 0 {
		names = []string{".id"}
	}

	c.O.GetKey = pick(r, names...)

	if r.p(0.03) {
		c.O.GetKey = ".not.there"
	}

	c.O.CSV = "out.csv"

	if r.p(0.3) {
		c.O.SQLite = "out.sqlite"
	}

	if r.p(0.3) {
		c.O.PG = "dump.sql"
	}

	if r.p(0.4) {
		c.O.Raw = "out.raw"

		if r.p(0.4) {
			c.O.CSV = ""
			c.O.ViaOutput = false
		}
	}

	if r.p(0.2) {
		c.O.FieldLimit = r.between(1, 10)
	}

	if r.p(0.2) {
		d := pick(r, ",", ";", "")
		c.O.Cfg.ConcatDelimiter = &d
		c.Shape += "+concat"
	}

	return c
}

// checkC13 also compares with the column of a full run.
func checkC13(x *ctx, c *Case) *viol {
	m := newModel(c)
	r, vi := x.runOK(c)

	if vi != nil {
		return vi
	}

	if vi := m.checkOutputs(r); vi != nil {
		return vi
	}

	if c.O.CSV == "" || c.Index%4 != 0 {
		return nil
	}

	full := c.clone()
	full.O.GetKey = ""
	full.O.SQLite, full.O.PG, full.O.Raw = "", "", ""
	full.O.Children = -1
	full.P = calm(c.P.Seed)

	fr := x.run(full)
	if vi := success(fr); vi != nil {
		return vi
	}

	a, vi := csvOf(c, r)
	if vi != nil {
		return vi
	}

	b, vi := csvOf(full, fr)
	if vi != nil {
		return vi
	}

	p := -1

	for i, h := range b.head {
		if strings.EqualFold(h, c.O.GetKey) {
			p = i
		}
	}

	if p < 0 {
		return nil
	}

	if len(a.rows) != len(b.rows) {
		return v("getkeyrows", "%d rows with a single key, %d in the full run", len(a.rows), len(b.rows))
	}

	x.probe("compared with the full run")

	for i := range a.rows {
		if a.rows[i][0] != b.rows[i][p] {
			return v("getkey", "row %d: single key gives %q, full run %q", i+1, clip(a.rows[i][0]), clip(b.rows[i][p]))
		}
	}

	return nil
}

func genC14(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "compressed"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2), fields: r.between(1, 4), depth: r.n(2), ids: true, nulls: true, arrays: true,
		plainStr: true, bad: pick(r, 0, 0.1)}

	if idx%5 == 3 {
		// More than a block of the parallel gzip writer.
		g.lines = r.between(60, 200)
		c.Shape = "blocks"
	}

	if g.lines < g.files {
		g.files = 1
	}

	c.In = newGen(r, g).inputs()

	if c.Shape == "blocks" {
		for i := range c.In {
			for j := range c.In[i].Lines {
				if l := c.In[i].Lines[j]; strings.HasSuffix(l, "}") && len(l) > 2 && !strings.Contains(l, "x}") && !strings.HasSuffix(l, ",}") {
					c.In[i].Lines[j] = l[:len(l)-1] + `,"fill":"` + noise(r, pick(r, 800, 3000)) + `"}`
				}
			}
		}
	}

	if r.p(0.7) {
		compressInputs(r, c)
	}

	ext := pick(r, ".gz", ".gz", ".zst", "")

	switch r.n(5) {
	case 0:
		c.O.PG = "dump.sql" + ext
	case 1:
		c.O.Raw = "out.raw" + ext
		c.O.CSV = "out.csv"
		c.O.RawDelim = "|"
	default:
		c.O.CSV = "out.csv" + ext
	}

	return c
}

// noise is text that does not compress away.
func noise(r *rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[r.u64()>>58]
	}

	return string(b)
}

func checkC14(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	for _, n := range []string{c.O.CSV, c.O.PG, c.O.Raw} {
		if n == "" {
			continue
		}

		b, err := r.plain(n)
		if err != nil {
			return v("stream", "%s is not a complete stream: %v", n, err)
		}

		if len(b) > 40000 && n != strings.TrimSuffix(n, ".gz") {
			x.probe("several gzip blocks")
		}
	}

	return m.checkOutputs(r)
}

func genC15(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "bad"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2), fields: r.between(1, 4), depth: r.n(3), ids: true, arrays: true, nulls: true,
		plainStr: true, bad: pick(r, 0.05, 0.2, 0.6), badKinds: append([]string{"nan"}, badLineKinds...), noStyle: r.p(0.5)}

	if r.p(0.5) {
		g.badKinds = nil
	}

	if g.lines < g.files {
		g.files = 1
	}

	if r.p(0.35) {
		g.extract = pick(r, 0.3, 0.7)
		c.O.Extract = true
		c.O.Children = -1
	}

	c.In = newGen(r, g).inputs()
	c.O.CSV = "out.csv"
	c.O.Info = true
	c.O.Verbosity = pick(r, 2, 2, 2, 3, 0, -1)
	c.O.AddSeq = r.p(0.5)

	if r.p(0.3) {
		c.O.SQLite = "out.sqlite"
	}

	if r.p(0.15) {
		c.O.GetKey = ".id"
		c.O.Info = false
	}

	return c
}

func checkC15(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if m.badWrite+m.malWrite > 0 {
		x.probe("bad lines")
	}

	if vi := m.checkOutputs(r); vi != nil {
		return vi
	}

	if c.O.Info {
		if vi := m.checkTypes(string(r.Out.Stdout)); vi != nil {
			return vi
		}
	}

	if c.O.Verbosity >= 2 {
		want := m.badWrite + m.malWrite + m.badScan + m.malScan
		got := 0

		for _, l := range strings.Split("\n"+string(r.Out.Stderr), "\nerror: ")[1:] {
			_ = l
			got++
		}

		if bytes.Contains(r.Out.Stderr, []byte(simrt.Cut)) {
			return nil
		}

		if got < want || got > want+m.nanWrite+m.nanScan {
			return v("errors", "%d errors reported, %d lines are bad (both passes)", got, want)
		}

		bad, nan := m.badWrite+m.malWrite, m.nanWrite
		if c.O.GetKey != "" || len(m.cols) <= 1 {
			nan = 0 // The failing value is not looked at.
		}

		if n, ok := errorsMetric(string(r.Out.Stderr)); ok && (n < bad+nan || n > bad+m.nanWrite) {
			return v("errmetric", "%d errors counted in the writing pass, %d lines are bad", n, bad+nan)
		}
	}

	return nil
}

var errMetricRe = regexp.MustCompile(`errors: (\d+)`)

// errorsMetric is the number of errors of the writing pass: reports may overtake each other, so it is the biggest one.
func errorsMetric(s string) (int, bool) {
	i := strings.Index(s, "flattening data")
	if i < 0 {
		return 0, false
	}

	res, ok := 0, false

	for _, m := range errMetricRe.FindAllStringSubmatch(s[i:], -1) {
		if n, err := strconv.Atoi(m[1]); err == nil {
			ok = true

			if n > res {
				res = n
			}
		}
	}

	return res, ok
}

func genC18(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "extract"}
	baseOpts(r, c)

	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2), fields: r.between(1, 4), depth: r.n(2), ids: true, arrays: true, nulls: true,
		extract: pick(r, 0.3, 0.7, 1), empties: true, bad: pick(r, 0, 0.05, 0.3)}

	if g.lines < g.files {
		g.files = 1
	}

	c.In = newGen(r, g).inputs()
	c.O.CSV = "out.csv"
	c.O.Children = pick(r, -1, -1, 0)

	if c.P.PoolDrop == 0 && r.p(0.5) {
		c.P.PoolDrop = 0.3
	}

	if r.p(0.75) {
		c.O.Extract = true
	} else {
		c.Shape = "extractRegex"
		c.O.Cfg.ExtractValuesRegex = map[string]string{}

		for _, k := range scalarKeys(newModel(c)) {
			if r.p(0.5) && k != ".id" {
				c.O.Cfg.ExtractValuesRegex["^"+regexp.QuoteMeta(k)+"$"] = pick(r, "JSON", "URL")
			}
		}

		ks := slices.DeleteFunc(scalarKeys(newModel(c)), func(k string) bool { return !utf8.ValidString(k) || strings.HasSuffix(k, ".") })
		if len(ks) > 0 && r.p(0.4) {
			// An expression that may match extracted values again.
			c.Shape = "extractAny"
			k := ks[r.n(len(ks))]
			seg := k[strings.LastIndex(k, ".")+1:]
			re := pick(r, regexp.QuoteMeta(seg), "^"+regexp.QuoteMeta(k), "[a-z]$", "]$", "^.+$", "URL|JSON|"+regexp.QuoteMeta(seg))
			c.O.Cfg.ExtractValuesRegex = map[string]string{re: pick(r, "JSON", "URL")}
		}

		if len(c.O.Cfg.ExtractValuesRegex) == 0 {
			c.O.Extract = true
		}
	}

	if r.p(0.2) {
		c.O.SQLite = "out.sqlite"
	}

	c.O.Info = r.p(0.5)

	return c
}

func checkC18(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	for k := range m.keys {
		if strings.Contains(k, ".JSON") || strings.Contains(k, ".URL") {
			x.probe("extracted keys")
		}
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if vi := m.checkOutputs(r); vi != nil {
		return vi
	}

	if c.O.Info {
		return m.checkTypes(string(r.Out.Stdout))
	}

	return nil
}

func genC12(r *rng, idx int, x *ctx) *Case {
	c := genC03(r, idx, x)
	c.Shape = "reports"
	c.O.CSV = pick(r, "out.csv", "")
	c.O.ViaOutput = false
	c.O.SkipZero = false
	c.O.Flat = r.p(0.6)
	c.O.Hier = r.p(0.5)
	c.O.Schema = r.p(0.7)
	c.O.Info = r.p(0.5) || (!c.O.Flat && !c.O.Hier && !c.O.Schema) || c.O.freeNames()

	if r.p(0.3) {
		c.O.Extract = true
	}

	return c
}

func checkC12(x *ctx, c *Case) *viol {
	m := newModel(c)
	if false {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	out := string(r.Out.Stdout)

	if c.O.Flat {
		if vi := m.checkFlat(out); vi != nil {
			return vi
		}
	}

	if c.O.freeNames() {
		if vi := m.chosenNames(out); vi != nil {
			return vi
		}
	}

	if c.O.Info {
		if vi := m.checkTypes(out); vi != nil {
			return vi
		}

		if c.O.CSV != "" && len(m.cols) > 0 {
			t, vi := csvOf(c, r)
			if vi != nil {
				return vi
			}

			if vi := infoMatchesHeader(m, out, t); vi != nil {
				return vi
			}
		}
	}

	hier, schema := trailingJSON(out, c.O.Hier, c.O.Schema)

	if c.O.Hier {
		if vi := m.checkHier(hier); vi != nil {
			return vi
		}
	}

	if c.O.Schema {
		if vi := m.checkSchema(schema); vi != nil {
			return vi
		}
	}

	return nil
}

// infoMatchesHeader compares keys info with the header of the same run.
func infoMatchesHeader(m *Model, out string, t *table) *viol {
	info, _, vi := parseInfo(out)
	if vi != nil {
		return vi
	}

	var names []string

	for _, k := range info {
		if k.dst == "" {
			names = append(names, k.name)
		}
	}

	if fmt.Sprint(names) != fmt.Sprint(t.head) {
		return v("infohead", "keys info lists %q, the header is %q", clipAll(names), clipAll(t.head))
	}

	return nil
}

// checkFlat compares the flat list of keys.
func (m *Model) checkFlat(out string) *viol {
	i := strings.Index(out, "keys:\n")
	if i < 0 {
		return v("flat", "no flat list on stdout")
	}

	got := map[string]bool{}

	for _, l := range strings.Split(out[i+len("keys:\n"):], "\n") {
		if !strings.HasPrefix(l, `".`) || !strings.HasSuffix(l, `",`) {
			break
		}

		k := m.c.O.ck(l[1 : len(l)-2])
		if got[k] {
			return v("flatdup", "the flat list has %q twice", k)
		}

		got[k] = true
	}

	for _, k := range m.order {
		mk := m.keys[k]
		if mk.scalar() && !got[mk.canon] {
			return v("flatmiss", "the flat list lacks %q", clip(k))
		}
	}

	for _, mk := range m.keys {
		if mk.scalar() {
			delete(got, mk.canon)
		}
	}

	for _, k := range sortedKeys(got) {
		return v("flatextra", "the flat list has %q that is not a scalar key of the scanned lines", clip(k))
	}

	return nil
}

// trailingJSON finds the JSON documents at the end of the output.
func trailingJSON(out string, hier, schema bool) (h, s string) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	docs := []string{}

	// Documents start at a line that is not indented and is not part of a list.
	for i := 0; i < len(lines); {
		l := lines[i]

		if l == "" || (l[0] != '{' && l[0] != '[') {
			i++

			continue
		}

		ok := false

		for e := i + 1; e <= len(lines); e++ {
			d := strings.Join(lines[i:e], "\n")
			if json.Valid([]byte(d)) {
				docs = append(docs, d)
				i = e
				ok = true

				break
			}
		}

		if !ok {
			i++
		}
	}

	switch {
	case hier && schema && len(docs) >= 2:
		return docs[len(docs)-2], docs[len(docs)-1]
	case hier && !schema && len(docs) >= 1:
		return docs[len(docs)-1], ""
	case schema && len(docs) >= 1:
		return "", docs[len(docs)-1]
	}

	return "", ""
}

type hnode map[string]hnode

func (h hnode) add(p []string) {
	if len(p) == 0 {
		return
	}

	if h[p[0]] == nil {
		h[p[0]] = hnode{}
	}

	h[p[0]].add(p[1:])
}

func hierOf(v any, into hnode) error {
	a, ok := v.([]any)
	if !ok {
		return fmt.Errorf("not a list: %v", v)
	}

	for _, e := range a {
		switch t := e.(type) {
		case string:
			if into[t] != nil {
				return fmt.Errorf("%q appears twice", t)
			}

			into[t] = hnode{}
		case map[string]any:
			for k, sub := range t {
				if into[k] != nil {
					return fmt.Errorf("%q appears twice", k)
				}

				into[k] = hnode{}
				if err := hierOf(sub, into[k]); err != nil {
					return err
				}
			}
		default:
			return fmt.Errorf("unexpected %v", e)
		}
	}

	return nil
}

func diffTree(a, b hnode, at string) string {
	for _, k := range sortedKeys(a) {
		if b[k] == nil {
			return "lacks " + at + "." + k
		}

		if d := diffTree(a[k], b[k], at+"."+k); d != "" {
			return d
		}
	}

	for _, k := range sortedKeys(b) {
		if a[k] == nil {
			return "has " + at + "." + k + " that is not in the scanned lines"
		}
	}

	return ""
}

func (m *Model) checkHier(doc string) *viol {
	want := hnode{}

	for _, k := range m.order {
		if m.keys[k].scalar() {
			want.add(m.keys[k].path)
		}
	}

	if len(want) == 0 {
		return nil
	}

	var j any
	if err := json.Unmarshal([]byte(doc), &j); err != nil {
		return v("hier", "hierarchy is not JSON: %v %q", err, clip(doc))
	}

	got := hnode{}
	if err := hierOf(j, got); err != nil {
		return v("hier", "hierarchy: %v", err)
	}

	if d := diffTree(want, got, ""); d != "" {
		return v("hierdiff", "the hierarchy %s", clip(d))
	}

	return nil
}

type snode struct {
	types map[string]bool
	props map[string]*snode
	items *snode
}

func newSnode() *snode { return &snode{types: map[string]bool{}, props: map[string]*snode{}} }

func schemaOf(j any) (*snode, error) {
	mm, ok := j.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("not an object: %v", j)
	}

	s := newSnode()

	for k, x := range mm {
		switch k {
		case "title":
		case "type":
			a, ok := x.([]any)
			if !ok {
				a = []any{x}
			}

			for _, t := range a {
				ts, _ := t.(string)
				if s.types[ts] {
					return nil, fmt.Errorf("type %q appears twice", ts)
				}

				s.types[ts] = true
			}
		case "properties":
			pm, ok := x.(map[string]any)
			if !ok {
				return nil, fmt.Errorf("properties: %v", x)
			}

			for n, p := range pm {
				c, err := schemaOf(p)
				if err != nil {
					return nil, err
				}

				s.props[n] = c
			}
		case "items":
			c, err := schemaOf(x)
			if err != nil {
				return nil, err
			}

			s.items = c
		default:
			return nil, fmt.Errorf("unexpected %q", k)
		}
	}

	return s, nil
}

// expectedSchema builds the schema of the scanned lines. Types are listed for keys that have
// scalar values, the structure for all of those.
func (m *Model) expectedSchema() *snode {
	root := newSnode()

	for _, k := range m.order {
		mk := m.keys[k]
		if !mk.scalar() {
			continue
		}

		s := root

		for i, seg := range mk.path {
			par := m.keys[pathKey(mk.path[:i])]
			if i > 0 && par != nil && par.kinds['a'] && strings.HasPrefix(seg, "[") {
				if s.items == nil {
					s.items = newSnode()
				}

				s = s.items
			} else {
				if s.props[seg] == nil {
					s.props[seg] = newSnode()
				}

				s = s.props[seg]
			}
		}

		names := map[byte]string{'s': "string", 'j': "string", 'i': "integer", 'f': "number", 'b': "boolean", 'n': "null", 'o': "object", 'a': "array"}
		for kind := range mk.kinds {
			s.types[names[kind]] = true
		}
	}

	return root
}

func diffSchema(a, b *snode, at string) string {
	for _, t := range sortedKeys(a.types) {
		if !b.types[t] {
			return fmt.Sprintf("does not list type %s at %q", t, at)
		}
	}

	for _, t := range sortedKeys(b.types) {
		if !a.types[t] {
			return fmt.Sprintf("lists type %s at %q without such a value", t, at)
		}
	}

	for _, k := range sortedKeys(a.props) {
		if b.props[k] == nil {
			return fmt.Sprintf("lacks %q", at+"."+k)
		}

		if d := diffSchema(a.props[k], b.props[k], at+"."+k); d != "" {
			return d
		}
	}

	for _, k := range sortedKeys(b.props) {
		if a.props[k] == nil {
			return fmt.Sprintf("has %q that is not in the scanned lines", at+"."+k)
		}
	}

	switch {
	case a.items == nil && b.items != nil:
		return fmt.Sprintf("has items at %q", at)
	case a.items != nil && b.items == nil:
		return fmt.Sprintf("lacks items at %q", at)
	case a.items != nil:
		return diffSchema(a.items, b.items, at+".[]")
	}

	return ""
}

func (m *Model) checkSchema(doc string) *viol {
	var j any
	if err := json.Unmarshal([]byte(doc), &j); err != nil {
		return v("schema", "schema is not JSON: %v %q", err, clip(doc))
	}

	got, err := schemaOf(j)
	if err != nil {
		return v("schema", "schema: %v", err)
	}

	if d := diffSchema(m.expectedSchema(), got, ""); d != "" {
		return v("schemadiff", "the JSON schema %s", clip(d))
	}

	return nil
}

func init() {
	register(&property{id: "C01", gen: genC01, check: checkC01, rule: "Random inputs (1 to 3 files, 1 to 1500 lines, blank, text and malformed lines, CRLF, missing last line feed, compressed) and options, run under a random schedule; rows of the CSV output are compared with the lines of the window by the unique id of every line."})
	register(&property{id: "C02", gen: orMix(genCells, anyMix), check: orCheckMix(checkC02), rule: "Random inputs whose values name their line and key, options for merging, concatenating, including, excluding, extracting, a quarter of cases combines options of all kinds freely; every cell is compared with an independent model of the line."})
	register(&property{id: "C03", gen: orMix(genC03, infoMix), check: orCheckMix(checkC03), rule: "Random inputs with mixed types, nulls, late and rare keys, case variants, zero columns; header and reported types are compared with a model that has no schedule."})
	register(&property{id: "C08", gen: orMix(genC08, multiMix), check: orCheckMix(checkMulti), rule: "Runs with several outputs at once (CSV, RAW, SQLite, PostgreSQL dump, plain and compressed), small part tables, batch and transaction boundaries; all are parsed back and compared with each other and the model."})
	register(&property{id: "C09", gen: genC09, check: checkC09, rule: "Inputs with arrays and objects under transposed prefixes; every element must have its row in every output format."})
	register(&property{id: "C10", gen: genC10, check: checkC10, rule: "Containers whose number of distinct children is around the limit, neighbours with a common textual prefix, allowed containers."})
	register(&property{id: "C11", gen: genC11, check: checkC11, rule: "Offset, maximum and key scan limits around the number of lines, with and without the scanning pass, and a run of more than 100000 lines."})
	register(&property{id: "C12", gen: genC12, check: checkC12, rule: "Flat list, hierarchy, keys info and JSON schema of random inputs are compared with the keys and kinds of values of the scanned lines."})
	register(&property{id: "C13", gen: genC13, check: checkC13, rule: "Single key extraction of a random key, compared with the model and with the column of a full run."})
	register(&property{id: "C14", gen: genC14, check: checkC14, rule: "Compressed inputs (several members or frames, any chunking) and outputs (several blocks of the parallel writer), decoded with independent decoders."})
	register(&property{id: "C15", gen: genC15, check: checkC15, rule: "Unusable lines of many kinds among good ones; rows, columns, types and counted errors are compared with a model in which they contribute nothing."})
	register(&property{id: "C18", gen: genC18, check: checkC18, rule: "Strings that embed JSON and URLs at several depths, with pools that lose or reorder parsers."})
}
