package main

import (
	"regexp"
	"slices"
	"strconv"
	"strings"
)

// genMix combines options freely.
func genMix(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "mix"}
	baseOpts(r, c)

	o := &c.O
	g := gcfg{lines: nLines(r), files: pick(r, 1, 1, 2, 3), fields: r.between(1, 6), depth: r.n(4), ids: r.p(0.7), nulls: r.p(0.7), arrays: r.p(0.8),
		mixed: pick(r, 0, 0, 0.1), contMix: r.p(0.25), zeros: pick(r, 0, 0, 0, 0.5), surprise: pick(r, 0, 0.05, 0.2), emptyCont: r.p(0.8), empties: true,
		tails: pick(r, 0, 0.05), big: r.p(0.05), bad: pick(r, 0, 0, 0.1), oddNum: r.p(0.1), plainStr: r.p(0.5)}

	if r.p(0.2) {
		g.odd = 0.3
	}

	if r.p(0.3) {
		g.times = pick(r, 0.2, 0.6)
		g.badTime = r.p(0.2)
	}

	if r.p(0.3) {
		g.extract = pick(r, 0.2, 0.5)
	}

	if r.p(0.15) {
		g.prefix = true
		o.Prefix = pick(r, `lvl(\d+)`, `^(\d+):(\d+)`, `(?:(\d+):(\d+) )?lvl(\d)`)
	}

	// Order and names of merged values have conditions of their own.
	concat := r.p(0.15)
	if concat {
		d := pick(r, ",", "|", "")
		o.Cfg.ConcatDelimiter = &d
		g.badTime = false
	}

	if !concat && r.p(0.1) {
		g.caseVar = 0.2
		o.CaseSens = r.p(0.5)
	}

	if !concat && r.p(0.1) {
		g.dups = 0.1
	}

	if g.lines < g.files {
		g.files = 1
	}

	o.CSV = pick(r, "out.csv", "out.csv", "out.csv", "out.csv.gz", "out.csv.zst")

	if r.p(0.3) && !o.CaseSens {
		o.SQLite = "out.sqlite"
		g.oddNum = false
	}

	if r.p(0.3) {
		o.PG = pick(r, "dump.sql", "dump.sql.gz")
	}

	if r.p(0.2) {
		o.Raw = pick(r, "out.raw", "out.raw.zst")
		o.RawDelim = pick(r, "|", "\t", ";;")
		g.plainStr = true
	}

	if r.p(0.3) {
		o.MaxCols = pick(r, 2, 3, 5, 8)
	}

	if r.p(0.3) {
		transposeCfg(r, c, &g)
		c.In = transposeInputs(r, c, g)
		c.Shape += "+transpose"
	} else {
		c.In = newGen(r, g).inputs()
	}

	o.AddSeq = r.p(0.2)
	o.SkipZero = r.p(0.15)
	o.Extract = g.extract > 0 && r.p(0.7)

	if r.p(0.15) {
		o.FieldLimit = r.between(1, 25)
	}

	if len(o.Cfg.Transpose) == 0 || r.p(0.3) {
		o.Children = pick(r, 0, 0, -1, 2, 3, 5)
	}

	if r.p(0.15) {
		compressInputs(r, c)
	}

	if r.p(0.15) {
		window(r, c)
	}

	if r.p(0.1) {
		o.MaxKeys = r.between(1, g.lines+1)
	}

	m := newModel(c)
	names := scalarKeys(m)

	if len(names) == 0 {
		return c
	}

	if g.times > 0 {
		timeCfg(r, c, names)
	}

	if r.p(0.1) {
		for _, k := range names {
			if r.p(0.4) {
				if o.Cfg.ExtractValuesRegex == nil {
					o.Cfg.ExtractValuesRegex = map[string]string{}
				}

				o.Cfg.ExtractValuesRegex["^"+regexp.QuoteMeta(k)+"$"] = pick(r, "JSON", "URL")
			}
		}
	}

	// Concatenated containers are not predictable.
	if concat {
		o.Children = 0
	}

	if conts := containers(m); len(conts) > 0 && !concat {
		if r.p(0.1) {
			o.Cfg.KeepJSON = []string{pick(r, conts...)}
		}

		if r.p(0.1) && o.Children > 0 {
			o.Cfg.AllowCardinality = []string{pick(r, conts...)}
		}
	}

	m = newModel(c)
	seen := map[string]bool{}

	names = slices.DeleteFunc(scalarKeys(m), func(n string) bool {
		dup := seen[o.ck(n)]
		seen[o.ck(n)] = true

		return dup
	})
	if len(names) == 0 {
		return c
	}

	if r.p(0.3) && g.caseVar == 0 {
		c.Shape += "+filters"

		// Keys that are listed explicitly are not transposed if nothing is scanned.
		names := slices.DeleteFunc(slices.Clone(names), func(n string) bool { return m.keys[n].dst != "" })
		if len(names) == 0 {
			return c
		}

		switch r.n(4) {
		case 0:
			filters(r, c, names)
		case 1:
			for _, n := range names {
				if r.p(0.5) {
					o.Cfg.IncludeKeys = append(o.Cfg.IncludeKeys, n)
				}
			}

			o.Cfg.IncludeKeys = append(o.Cfg.IncludeKeys, pick(r, "const:c1", ".not.there", "const:"))
		case 2:
			for _, n := range names {
				if r.p(0.3) {
					o.Cfg.ExcludeKeys = append(o.Cfg.ExcludeKeys, n)
				}
			}
		case 3:
			o.Cfg.ExcludeKeysRegex = []string{"^" + regexp.QuoteMeta(runePrefix(pick(r, names...), 2))}
		}
	}

	if r.p(0.4) && g.caseVar == 0 && g.dups == 0 {
		switch r.n(4) {
		case 0:
			c.Shape += "+rules"
			o.SkipZero = false
			nameRulesCfg(r, c, m)
		case 1:
			if !concat {
				c.Shape += "+short"
				shortNames(r, c, names)

				o.Cfg.IncludeKeys = slices.DeleteFunc(o.Cfg.IncludeKeys, func(k string) bool { return strings.HasPrefix(k, "const:") })
			}
		default:
			c.Shape += "+merge"
			for _, n := range names {
				if r.p(0.5) && n != "._sequence" {
					if o.Cfg.ReplaceKeys == nil {
						o.Cfg.ReplaceKeys = map[string]string{}
					}

					o.Cfg.ReplaceKeys[n] = pick(r, "merged1", "merged2", "own"+strconv.Itoa(len(o.Cfg.ReplaceKeys)))
				}
			}
		}
	}

	return c
}

// containers lists keys of objects and arrays.
func containers(m *Model) []string {
	seen := map[string]bool{}

	var res []string

	for _, k := range scalarKeys(m) {
		p := m.keys[k].path
		for i := 1; i < len(p); i++ {
			n := "." + strings.Join(p[:i], ".")
			if !seen[n] {
				seen[n] = true
				res = append(res, n)
			}
		}
	}

	return res
}

// checkMix compares all that a run has made.
func checkMix(x *ctx, c *Case) *viol {
	m := newModel(c)
	if !hasColumns(m) {
		return nil
	}

	r, vi := x.runOK(c)
	if vi != nil {
		return vi
	}

	if c.O.freeNames() {
		if vi := m.chosenNames(string(r.Out.Stdout)); vi != nil {
			return vi
		}
	}

	if vi := m.checkOutputs(r); vi != nil {
		return vi
	}

	if c.O.Info {
		return m.checkTypes(string(r.Out.Stdout))
	}

	return nil
}

// orMix has a share of cases with freely combined options.
func orMix(gen func(r *rng, idx int, x *ctx) *Case, set func(c *Case) bool) func(r *rng, idx int, x *ctx) *Case {
	return func(r *rng, idx int, x *ctx) *Case {
		if idx%4 != 3 {
			return gen(r, idx, x)
		}

		for {
			if c := genMix(r, idx, x); set(c) {
				return c
			}
		}
	}
}

func orCheckMix(check func(x *ctx, c *Case) *viol) func(x *ctx, c *Case) *viol {
	return func(x *ctx, c *Case) *viol {
		if strings.HasPrefix(c.Shape, "mix") {
			return checkMix(x, c)
		}

		return check(x, c)
	}
}

// anyMix is for all cases, infoMix wants information about keys, multiMix wants several outputs.
func anyMix(*Case) bool { return true }

func infoMix(c *Case) bool {
	if len(c.O.Cfg.ReplaceKeys)+len(c.O.Cfg.ReplaceKeysRegex) == 0 {
		c.O.Info = true
	}

	return true
}

func multiMix(c *Case) bool { return c.O.Raw != "" || c.O.SQLite != "" || c.O.PG != "" }
