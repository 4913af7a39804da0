package main

import (
	"bytes"
	"fmt"
	ros "os"
	"sort"
	"strings"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// genFaulty makes a run with outputs of some size.
func genFaulty(r *rng, idx int, x *ctx) *Case {
	c := genMulti(r, idx, x)
	c.Shape = "faulty"

	if r.p(0.4) {
		// Buffers of outputs are flushed in the middle.
		for i := range c.In {
			for j := range c.In[i].Lines {
				l := c.In[i].Lines[j]
				if strings.HasPrefix(l, "{") && strings.HasSuffix(l, "}") && len(l) > 2 && goodLine(l) {
					c.In[i].Lines[j] = l[:len(l)-1] + `,"fill":"` + noise(r, pick(r, 20, 20, 100, 100, 500, 500, 5000)) + `"}`
				}
			}
		}
	}

	return c
}

func goodLine(l string) bool {
	j, err := parseJSON(l)

	return err == nil && j.T == 'o' && len(j.V) > 0
}

// outNames are the output files of a case.
func (o *Opts) outNames() []string {
	var res []string

	for _, n := range []string{o.CSV, o.Raw, o.PG} {
		if n != "" && n != "<nop>" {
			res = append(res, n)
		}
	}

	return res
}

// probeRun executes the case without faults.
func (x *ctx) probeRun(c *Case) *Result {
	b := c.clone()
	b.P.Faults = nil
	b.P.KillStep = 0
	b.Prev = nil

	return x.run(b)
}

func isInput(c *Case, n string) bool {
	for i := range c.In {
		if simrt.Clean(c.In[i].Name) == n {
			return true
		}
	}

	return n == simrt.Clean(c.cfgName())
}

// outFiles are files a finished run has written.
func outFiles(c *Case, r *Result) []string {
	var res []string

	for _, n := range sortedKeys(r.FS.Files) {
		if !isInput(c, n) && !r.FS.Files[n].DB {
			res = append(res, n)
		}
	}

	return res
}

// outputFaults draws faults of outputs, probe is the same run without faults.
func outputFaults(r *rng, c *Case, probe *Result) []simrt.Fault {
	var res []simrt.Fault

	names := outFiles(c, probe)
	n := pick(r, 1, 1, 1, 2)

	for i := 0; i < n; i++ {
		if c.O.SQLite != "" && (r.p(0.3) || len(names) == 0) {
			f := simrt.Fault{Kind: pick(r, "sqlexec", "sqlexec", "sqlexec", "sqlcommit", "sqlbegin", "sqlclose"), Err: pick(r, "EIO", "ENOSPC"), Nth: 1}

			if f.Kind == "sqlexec" {
				f.Match = pick(r, "", "INSERT", "CREATE", "")
				f.Nth = r.between(1, 30)

				if f.Match == "CREATE" || r.p(0.2) {
					f.Nth = r.between(1, 4)
				}
			}

			if f.Kind == "sqlcommit" && r.p(0.3) {
				f.Nth = 2
			}

			f.Once = r.p(0.3)
			res = append(res, f)

			continue
		}

		if len(names) == 0 {
			continue
		}

		p := pick(r, names...)
		size := len(probe.FS.Files[p].Data)
		f := simrt.Fault{Path: p, Kind: pick(r, "write", "write", "write", "write", "close", "create"), Err: pick(r, "EIO", "ENOSPC", "EDQUOT"), Nth: 1}

		switch f.Kind {
		case "write":
			f.Nth = 0

			switch r.n(4) {
			case 0:
				f.Off = int64(size - 1 - r.n(4))
			case 1:
				f.Off = int64(size) - int64(r.n(5000))
			default:
				f.Off = int64(r.n(size + 1))
			}

			if f.Off < 0 {
				f.Off = 0
			}

			f.Once = r.p(0.15)
		case "create":
			f.Err = pick(r, "EACCES", "ENOSPC", "EMFILE")
		}

		res = append(res, f)
	}

	return res
}

// genLongFaulty has batches and transactions that are written in the middle of a run.
func genLongFaulty(r *rng) *Case {
	c := genLong(r, r.between(10000, 10010)+pick(r, 0, 0, 3000, 10000))
	c.Shape = "longfault"

	if r.p(0.5) {
		c.O.CSV = ""
	}

	f := simrt.Fault{Kind: "write", Path: c.O.PG, Err: pick(r, "EIO", "ENOSPC"), Once: r.p(0.8)}

	switch {
	case c.O.SQLite != "" && r.p(0.5):
		f.Kind = pick(r, "sqlcommit", "sqlbegin", "sqlexec")
		f.Nth = 1

		if f.Kind == "sqlexec" {
			f.Match = "INSERT"
			f.Nth = r.between(9990, len(c.In[0].Lines))
		}
	case r.p(0.7): // First batch.
		f.Off = int64(r.n(170000))
	default:
		f.Off = int64(r.n(len(c.In[0].Lines) * 17))
	}

	c.P.Faults = []simrt.Fault{f}

	return c
}

func genC04(r *rng, idx int, x *ctx) *Case {
	if idx%200 == 5 {
		return genLongFaulty(r)
	}

	c := genFaulty(r, idx, x)

	if len(c.O.Cfg.Transpose) == 0 && r.p(0.1) {
		c.noRows(r) // Nothing is written after headers and tables.
	}

	if len(newModel(c).cols) == 0 {
		return c
	}

	probe := x.probeRun(c)
	if success(probe) != nil {
		return c
	}

	c.P.Faults = outputFaults(r, c, probe)

	return c
}

// failed expects a failure exit with a message.
func failed(r *Result) *viol {
	switch r.Out.End {
	case "panic", "fatal":
		return nil
	case "exit":
	default:
		return v("end:"+r.Out.End, "run did not end: %s", ended(r))
	}

	if r.Out.Exit == 0 {
		return v("silent", "run reported success: %s", ended(r))
	}

	if len(bytes.TrimSpace(r.Out.Stderr)) == 0 {
		return v("nomessage", "run failed with exit status %d and no message", r.Out.Exit)
	}

	return nil
}

func persistent(c *Case) bool {
	for _, f := range c.P.Faults {
		if f.Once {
			return false
		}
	}

	return true
}

func checkC04(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r := x.main(c)
	hit := r.FS.Hit("")

	if hit && (r.Out.End != "exit" || r.Out.Exit != 0) {
		x.probe("failure reported")

		return failed(r)
	}

	if vi := success(r); vi != nil {
		return vi
	}

	if hit && persistent(c) {
		return v("silent", "an output operation failed (%v) and the run reported success: %s", r.Out.Fired, ended(r))
	}

	// A transient failure may be overcome, but then nothing may be missing.
	if vi := m.checkOutputs(r); vi != nil {
		if hit {
			vi.msg = fmt.Sprintf("after a failed output operation (%v) the run reported success: %s", r.Out.Fired, vi.msg)
		}

		return vi
	}

	return nil
}

// genC05 makes inputs that fail in some way.
func genC05(r *rng, idx int, x *ctx) *Case {
	c := genFaulty(r, idx, x)
	c.O.SQLite = ""
	c.Shape = "chunk"

	if c.O.CSV == "" && c.O.PG == "" && c.O.Raw == "" {
		c.O.CSV = "out.csv"
	}

	c.P.ReadChunk = pick(r, 0, 1, 2, 5, 17, 64, 300, 5000)

	if r.p(0.4) {
		compressInputs(r, c)
	}

	i := r.n(len(c.In))
	f := &c.In[i]

	switch r.n(8) {
	case 7:
		c.Shape = "damage"

		if f.Comp == "" {
			f.Comp = pick(r, "gz", "zst", "zst")
			f.Name += "." + f.Comp
			f.Members = pick(r, 1, 1, 1, 2)
		}

		if f.CompOpt = pick(r, "", "stored", "stored", "huffman"); f.Comp == "gz" && r.p(0.5) {
			f.CompOpt = ""
		}

		c.O.MaxLines, c.O.MaxKeys = 0, 0 // Damage is not seen until the end of a frame.
		f.Flip = 1 + r.n(8*len(f.Stored()))
	case 0:
		if f.Comp == "" {
			if f.Comp = pick(r, "gz", "zst"); true {
				f.Name += "." + f.Comp
				f.Members = pick(r, 1, 1, 2, 3)
			}
		}

		if f.CompOpt == "header" {
			f.CompOpt = "" // A frame to skip is complete without content.
		}

		whole := len(f.Stored())
		last := whole - len(firstMembers(f))
		c.Shape = "cut"
		f.Cut = pick(r, 1, 2, 4, 8, 9, r.between(1, last), r.between(1, last), last-1)

		if f.Cut >= last {
			f.Cut = last - 1
		}

		if f.Cut < 1 {
			f.Cut = 1
		}
	case 1, 2, 3:
		c.Shape = "read"
		size := len(f.Stored())
		ft := simrt.Fault{Kind: "read", Path: f.Name, Err: pick(r, "EIO", "EIO", "EACCES"), Off: int64(r.n(size + 1)), Nth: pick(r, 0, 1, 2)}

		if r.p(0.2) {
			ft.Off = int64(size)
		}

		ft.Once = r.p(0.15)
		c.P.Faults = []simrt.Fault{ft}
	case 4:
		c.Shape = "open"
		c.P.Faults = []simrt.Fault{{Kind: pick(r, "open", "open", "stat"), Path: f.Name, Err: pick(r, "EACCES", "ENOENT", "EMFILE", "EIO"), Nth: pick(r, 1, 1, 2)}}
	case 5:
		if r.p(0.5) {
			c.Shape = "missing"

			if r.p(0.5) {
				f.Missing = true
			} else {
				f.Dir = true
			}
		} else {
			c.Shape = "longline"
			longest := 0

			for j := range c.In {
				for _, l := range splitLines(c.In[j].Plain()) {
					if len(l) > longest {
						longest = len(l)
					}
				}
			}

			c.O.BufSize = longest + pick(r, -40, -2, -1, 0, 1, 2, 3, 10, 100)
			if c.O.BufSize < 1 {
				c.O.BufSize = 1
			}
		}
	case 6:
		c.Shape = "config"
		c.O.CfgFile = true

		if !c.O.hasCfg() {
			c.O.Cfg.ExcludeKeys = []string{".not.there"}
		}

		size := len(c.cfgText())
		c.P.Faults = []simrt.Fault{{Kind: pick(r, "read", "read", "open"), Path: c.cfgName(), Err: pick(r, "EIO", "EACCES"), Off: int64(r.n(size + 1)), Nth: r.n(2)}}

		if c.P.Faults[0].Kind == "open" {
			c.P.Faults[0].Nth = 1
		}
	}

	if r.p(0.15) && len(c.O.Cfg.Transpose) == 0 && !c.O.onlyInclude() {
		// Only reports of keys.
		c.Shape += "+reports"
		c.O.CSV, c.O.PG, c.O.Raw, c.O.SQLite = "", "", "", ""
		c.O.MaxKeys = 0
		c.O.GetKey = ""
		c.O.Flat, c.O.Hier, c.O.Info = r.p(0.5), r.p(0.5), true
	}

	return c
}

// firstMembers is what the stored file holds before its last member.
func firstMembers(f *InFile) []byte {
	if f.Members <= 1 {
		return nil
	}

	// Compressed members do not depend on each other.
	last := *f
	last.Cut = 0
	all := last.Stored()
	p := f.Plain()
	one := InFile{Comp: f.Comp, CompOpt: f.CompOpt, Lines: []string{string(p[len(p)*(f.Members-1)/f.Members:])}, NoEOL: true}

	return all[:len(all)-len(one.Stored())]
}

func checkC05(x *ctx, c *Case) *viol {
	clean := c.clone()
	broken, damaged := false, false

	for i := range clean.In {
		if clean.In[i].Flip > 0 {
			damaged, clean.In[i].Flip = true, 0
		}

		if clean.In[i].Missing || clean.In[i].Dir {
			broken = true
		}

		clean.In[i].Missing, clean.In[i].Dir = false, false

		if clean.In[i].Cut > 0 {
			whole := len(clean.In[i].Stored()) + clean.In[i].Cut // Stored ignores a cut that is not inside.
			if clean.In[i].Comp != "" && clean.In[i].Cut < whole-len(firstMembers(&clean.In[i])) {
				broken = true
			}

			clean.In[i].Cut = 0
		}
	}

	m := newModel(clean)
	if len(m.cols) == 0 {
		return nil
	}

	longest := 0

	for i := range clean.In {
		for _, l := range strings.Split(string(clean.In[i].Plain()), "\n") {
			if len(l) > longest {
				longest = len(l)
			}
		}
	}

	tooLong := c.O.BufSize > 0 && longest > c.O.BufSize-3

	r := x.main(c)
	hit := r.FS.Hit("")

	if r.Out.End != "exit" || r.Out.Exit != 0 {
		if !hit && !broken && !tooLong && !damaged {
			return success(r)
		}

		x.probe("failure reported: " + c.Shape)

		return failed(r)
	}

	if broken {
		return v("silent", "an input cannot be read completely and the run reported success: %s", ended(r))
	}

	if hit && persistent(c) && !r.FS.Hit("stat") {
		return v("silent", "an input operation failed (%v) and the run reported success: %s", r.Out.Fired, ended(r))
	}

	if c.O.CSV == "" && c.O.PG == "" && c.O.Raw == "" {
		clean.P.Faults = nil
		clean.O.BufSize = 0

		b := x.run(clean)
		if vi := success(b); vi != nil {
			return vi
		}

		if !bytes.Equal(sortedBytes(r.Out.Stdout), sortedBytes(b.Out.Stdout)) {
			return v("reports", "input failure (%v, longest line %d, buffer %d), the run reported success, its reports differ from those of a run without failures: %s",
				r.Out.Fired, longest, c.O.BufSize, diffAt(string(b.Out.Stdout), string(r.Out.Stdout)))
		}

		return nil
	}

	if vi := m.checkOutputs(r); vi != nil {
		if damaged {
			vi.msg = "a compressed input is damaged, the run reported success: " + vi.msg
		}

		if hit || tooLong {
			vi.msg = fmt.Sprintf("input failure (%v, longest line %d, buffer %d), the run reported success: %s", r.Out.Fired, longest, c.O.BufSize, vi.msg)
		}

		return vi
	}

	return nil
}

// genC06 draws runs that are hard to finish.
func genC06(r *rng, idx int, x *ctx) *Case {
	var c *Case

	switch r.n(7) {
	case 6:
		c = genBadOpts(r, idx, x)
	case 0:
		c = genC05(r, idx, x)
	case 1:
		c = genC04(r, idx, x)
	case 2:
		c = genC12(r, idx, x)
	case 3:
		c = genC13(r, idx, x)
	case 4:
		c = genOdd(r, idx, x)
	default:
		c = genMulti(r, idx, x)
	}

	o := &c.O

	if r.p(0.5) {
		c.P.MemKind = pick(r, "high", "high", "high", "saw", "gc", "rand")
		c.P.MemHigh = uint64(pick(r, 3000, 1200, 64)) << 20
		o.MemLimit = pick(r, 0, 1, 64, 1000, 5000)
	}

	if r.p(0.25) {
		o.ConcSet = true
		o.Conc = pick(r, 0, -1, -5, 1, 2, 3, 64, 200)
	}

	if r.p(0.2) {
		c.P.StallProb = pick(r, 0.01, 0.1)
	}

	if r.p(0.1) {
		o.ReplaceKeys = true
	}

	if r.p(0.1) {
		o.KeyLimit = r.between(1, 12)
	}

	if r.p(0.1) && len(c.In) == 1 {
		window(r, c)
	}

	if r.p(0.05) && c.Shape != "badopts" {
		nopOutputs(r, c)
	}

	return c
}

// nopOutputs replaces outputs with the one that drops data.
func nopOutputs(r *rng, c *Case) {
	o := &c.O

	if len(c.P.Faults) > 0 {
		return // They may be made for these outputs.
	}

	c.Shape += "+nop"

	for _, n := range []*string{&o.CSV, &o.PG, &o.Raw} {
		if (*n != "" && r.p(0.7)) || r.p(0.1) {
			*n = "<nop>"
		}
	}

	if o.Raw != "" && o.RawDelim == "" {
		o.RawDelim = "|"
	}

	if len(o.Cfg.Transpose) == 0 && len(o.Cfg.IncludeKeysRegex) == 0 && r.p(0.5) {
		if ks := newModel(c).order; len(ks) > 0 {
			k := ks[r.n(len(ks))]
			for i := 1; i < len(k); i++ {
				if k[i] == '.' || k[i] == '[' {
					o.Cfg.Transpose = map[string]string{k[:i]: "tr"}

					break
				}
			}
		}
	}
}

// genOdd makes content nobody would write on purpose.
func genOdd(r *rng, idx int, x *ctx) *Case {
	c := &Case{P: params(r), Shape: "odd"}
	baseOpts(r, c)
	c.O.CSV = "out.csv"

	n := r.between(1, 12)
	f := InFile{Name: "in0.jsonl", NoEOL: r.p(0.3), CRLF: r.p(0.1)}

	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, oddLine(r))
	}

	c.In = []InFile{f}

	if r.p(0.1) {
		c.In = append(c.In, InFile{Name: "in1.jsonl"}) // Empty.
	}

	o := &c.O
	o.Extract = r.p(0.4)
	o.SkipZero = r.p(0.2)
	o.ReplaceKeys = r.p(0.3)
	o.AddSeq = r.p(0.3)
	o.CaseSens = r.p(0.2)

	if r.p(0.2) {
		o.KeyLimit = r.between(1, 9)
	}

	if r.p(0.3) {
		o.Children = pick(r, -1, 1, 2, 3)
	}

	if r.p(0.3) {
		o.SQLite = "out.sqlite"
		o.MaxCols = pick(r, 0, 2, 3)
	}

	if r.p(0.3) {
		o.PG = "dump.sql"
		o.MaxCols = pick(r, 0, 2, 3)
	}

	if (o.PG != "" || o.SQLite != "") && r.p(0.1) {
		c.Extra = append(c.Extra, pick(r, "-sql-max-cols=-1", "-sql-max-cols=0", "-sql-max-cols=1", "-sql-max-cols=-500"))
	}

	if r.p(0.2) {
		o.Raw = "out.raw"
	}

	o.Hier, o.Flat, o.Info, o.Schema = r.p(0.3), r.p(0.3), r.p(0.3), r.p(0.3)

	switch r.n(6) {
	case 0:
		o.Prefix = pick(r, `(\d+)`, `^`, `(a)(b)?`, `.*`, `()`)
	case 1:
		o.GetKey = pick(r, ".a", ".", "", ".b.c", ".a.[0]", ".nope", "a", "._prefix.[0]", ".[0]", ".a.")
	case 2:
		o.Cfg.Transpose = map[string]string{pick(r, ".a", ".b", ".", ".a.b", ".arr", ".b.c", ".nope"): pick(r, "t", "x_y")}
	case 3:
		o.Cfg.IncludeKeys = []string{pick(r, ".a", ".", "const:x", ".nope", ""), pick(r, ".b", ".b.c", "._sequence", ".a.[0]")}
	case 4:
		o.Cfg.IncludeKeysRegex = []string{pick(r, ".*", "a$", "*.b", `^$`)}
	}

	return c
}

// genBadOpts has options or a configuration that make no sense.
func genBadOpts(r *rng, idx int, x *ctx) *Case {
	var c *Case

	if r.p(0.5) {
		c = genOdd(r, idx, x)
	} else {
		c = genMulti(r, idx, x)
	}

	c.Shape = "badopts"

	bad := func() string {
		return pick(r, "(", "[", "*", "", " ", `\`, "a(?P<x", ".", "..", "-", ",", "'", `"`, `\x00`, "x{2000}", "Ä", "%", "/", "Nowhere/City", "RFC9999", "../../etc", "a:b", "\n")
	}
	k := func() string {
		return pick(r, ".a", ".b", ".", "", "a", ".a.[0]", ".nope", "*", ".*", "const:", "const", "._sequence", bad())
	}
	o := &c.O

	for n := r.between(1, 3); n > 0; n-- {
		switch r.n(16) {
		case 0:
			o.Prefix = bad()
		case 1:
			o.Cfg.MatchLinePrefix = bad()
		case 2:
			o.Cfg.IncludeKeysRegex = []string{bad(), k()}
		case 3:
			o.Cfg.ExcludeKeysRegex = []string{bad(), k()}
		case 4:
			o.Cfg.ReplaceKeysRegex = map[string]string{bad(): pick(r, "$1", "${9}", "$", "", "x", bad())}
		case 5:
			o.Cfg.ExtractValuesRegex = map[string]string{pick(r, ".*", bad(), k()): pick(r, "URL", "JSON", "", "url", "XML", bad())}
		case 6:
			o.Cfg.ParseTime = map[string]string{k(): pick(r, "RFC3339", "", "UNIX", bad())}
			o.Cfg.OutputTimeFormat = pick(r, "", "RFC1123", bad())
			o.Cfg.OutputTimezone = pick(r, "", "UTC", "Local", bad())
		case 7:
			o.Cfg.OutputTimezone = bad()
		case 8:
			o.Cfg.Transpose = map[string]string{k(): pick(r, "t", "", bad()), k(): pick(r, "t", "", "u")}
		case 9:
			o.Cfg.KeepJSON = []string{k(), bad()}
			o.Cfg.AllowCardinality = []string{k(), bad()}
		case 10:
			o.Cfg.ReplaceKeys = map[string]string{k(): bad(), k(): pick(r, "", "x", "_sequence", k())}
		case 11:
			o.Cfg.IncludeKeys = []string{k(), bad(), k(), "const:" + bad()}
		case 12:
			o.GetKey = pick(r, bad(), k())
		case 13:
			s := bad()
			o.Cfg.ConcatDelimiter = &s
		case 14:
			c.Extra = append(c.Extra, pick(r, "-max-lines=-1", "-offset-lines=-1", "-max-lines-keys=-3", "-field-limit=-1", "-children-limit=-1",
				"-key-limit=-1", "-buf-size=0", "-buf-size=-1", "-buf-size=1", "-concurrency=-9", "-mem-limit=-1", "-sql-max-cols=-1", "-sql-max-cols=0", "-sql-max-cols=1", "-sql-max-cols=2",
				"-verbosity=-1", "-verbosity=9", "-progress-interval=0s", "-progress-interval=-1s", "-sql-table=", "-sql-table=a b",
				"-sql-table=%", "-raw-delim=", "-raw-delim=\n", "-output=x", "-output=,", "-output=a.csv,b.csv,c.raw,d.raw", "-csv=nodir/", "-csv=.", "-csv=", "-pg-dump=.",
				"-raw=in0.jsonl.gz", "-offset-lines=9223372036854775807", "-max-lines=9223372036854775807", "-get-key="))
		default:
			t := string(pick(r, yamlOf(o.Cfg), json5Of(o.Cfg), []byte("includeKeys: .a"), []byte("transpose:\n  .a: t\nincludeKeys:\n  - .b\n"),
				[]byte("{"), []byte("- a\n- b"), []byte("a:"), []byte("x: &a [*a]"), []byte("{\"includeKeys\":[1,null,{}]}"), []byte("replaceKeys: [a]"), []byte("\t"), nil))

			for i := r.n(4); i > 0 && t != ""; i-- {
				p := r.n(len(t))
				q := p + r.n(min(len(t)-p, 12))
				t = strings.ToValidUTF8(t[:p]+pick(r, "", "", ":", "\n", "[", "}", "{", "\"", "'", "//", "- ", "#", "&a", "*a", "!!int ", "1e9", "\x00", "null")+t[q:], "")
			}

			c.CfgRaw = &t
			o.CfgForm = pick(r, "", "yaml", "json5")
		}
	}

	return c
}

func oddLine(r *rng) string {
	switch r.n(14) {
	case 0:
		return ""
	case 1:
		return "{}"
	case 2:
		return pick(r, "null", "true", "12", `"s"`, "[]", "[1,2]", "{", "}", "{{", "\x00", "\xff\xfe", "[{}]")
	case 3:
		return strings.Repeat("[", r.between(1, 400))
	case 4:
		return `{"a":` + strings.Repeat("[", r.between(1, 100)) + strings.Repeat("]", r.between(1, 100)) + `}`
	case 5:
		return `{"":1,"":{"":2},".":3,"a.b":4}`
	case 6:
		return `{"a":"` + pick(r, "{", "[", "{}", "[]", "://", "a://b", "{\\\"", "http://[", "https://%zz/?%") + `"}`
	case 7:
		return `{"a":{"b":{"c":` + pick(r, "1", "null", "[]", "{}", `""`, "[null]", `[{"c":1},2]`) + `}}}`
	case 8:
		return `{"Ä":1,"ä":2,"ǅ":3,"İ":"x","ſ":0}`
	case 9:
		return `{"a":1e999,"b":-0,"c":0.1e-400,"d":123456789012345678901234567890}`
	case 10:
		return `{"a":"\ud800","b":"\u0000","c":"\` + pick(r, "x", "u12", "\\", "") + `"}`
	case 11:
		return `{"[0]":1,"a":{"[1]":2},"arr":[{"[0]":3}],"_":4,"__":5,"-":6," ":7}`
	}

	g := newGen(r, gcfg{lines: 1, fields: r.between(1, 5), depth: r.n(3), arrays: true, nulls: true, emptyCont: true, extract: 0.3, contMix: true, mixed: 0.3})
	in := g.inputs()

	if len(in[0].Lines) == 0 {
		return "{}"
	}

	return in[0].Lines[0]
}

func checkC06(x *ctx, c *Case) *viol {
	r := x.main(c)

	if r.Out.End != "exit" {
		return v("end:"+r.Out.End, "run did not end with success or a reported error: %s", ended(r))
	}

	if r.Out.Exit != 0 {
		x.probe("failure exit")

		if len(bytes.TrimSpace(r.Out.Stderr)) == 0 {
			return v("nomessage", "exit status %d without a message", r.Out.Exit)
		}
	}

	return nil
}

// genC07 interrupts runs.
// genWideDB has rows that fill transactions of a database.
func genWideDB(r *rng) *Case {
	c := genWideTx(r)
	c.O.SQLite = "out.sqlite"
	c.O.MaxCols = pick(r, 20, 27, 51, 101)
	cols, lines := 1000+r.n(40), r.between(4, 16)

	in := &c.In[0]
	in.Lines = nil

	for i := 1; i <= lines; i++ {
		var b strings.Builder

		for k := 0; k < cols-1; k++ {
			if i == 1 || r.p(0.01) {
				fmt.Fprintf(&b, `,"k%d":%d`, k, i*k)
			}
		}

		// Elements of rows of another table.
		for k, n := 0, r.n(60); k < n && lines%2 == 0; k++ {
			if k == 0 {
				b.WriteString(`,"arr":[`)
			} else {
				b.WriteString(",")
			}

			fmt.Fprintf(&b, `{"v":"e%d_%d"}`, i, k)

			if k == n-1 {
				b.WriteString("]")
			}
		}

		in.Lines = append(in.Lines, fmt.Sprintf(`{"id":%d%s}`, i, b.String()))
	}

	if lines%2 == 0 {
		c.O.Cfg.Transpose = map[string]string{".arr": "tarr"}
	}

	return c
}

func genC07(r *rng, idx int, x *ctx) *Case {
	c := genFaulty(r, idx, x)

	if idx%40 == 7 {
		c = genWideDB(r)
	} else if r.p(0.8) {
		c.O.SQLite = ""
	}

	c.Shape = "kill"

	if r.p(0.7) {
		c.O.PG = ""
	}

	c.O.CSV = "out.csv"
	if r.p(0.4) {
		c.O.Raw = "out.raw"
		c.O.RawDelim = pick(r, "|", "\t")
	} else {
		c.O.Raw = ""
	}

	if len(newModel(c).cols) == 0 {
		return c
	}

	probe := x.probeRun(c)
	if success(probe) != nil {
		return c
	}

	switch r.n(4) {
	case 0:
		c.Shape = "outfault"
		c.P.Faults = outputFaults(r, c, probe)
	case 1:
		c.Shape = "infault"
		f := &c.In[r.n(len(c.In))]
		c.P.Faults = []simrt.Fault{{Kind: "read", Path: f.Name, Err: "EIO", Off: int64(r.n(len(f.Stored()) + 1)), Nth: pick(r, 1, 2, 2, 2)}}
	default:
		s := probe.Out.Steps
		c.P.KillStep = 1 + int64(r.u64()%uint64(s))

		if r.p(0.7) {
			// The second half of a run writes.
			c.P.KillStep = s/3 + 1 + int64(r.u64()%uint64(s-s/3))
		}
	}

	return c
}

// dbPrefix checks that an interrupted run left complete rows of the first lines in its database.
func (x *ctx) dbPrefix(c *Case, whole, r *Result) *viol {
	p, ok := r.DBs[simrt.Clean(c.O.SQLite)]
	if !ok {
		return nil
	}

	if _, err := ros.Stat(p); err != nil {
		return nil // The driver makes the file with the first statement.
	}

	got, err := r.sqliteTables(c.O.SQLite)
	if err != nil {
		return v("sqlite", "SQLite output of the interrupted run: %v", err)
	}

	want, err := whole.sqliteTables(c.O.SQLite)
	if err != nil {
		return v("sqlite", "SQLite output: %v", err)
	}

	rows := 0
	for _, t := range got {
		rows += len(t.rows)
	}

	if rows == 0 {
		return nil // Tables may be missing as well.
	}

	x.probe("rows in the database")

	for _, n := range sortedKeys(want) {
		t, w := got[n], want[n]
		if t == nil {
			return v("sqlprefix", "SQLite: table %q of the interrupted run does not exist, others have rows", n)
		}

		main := n
		if i := strings.LastIndex(n, "_part"); i > 0 && want[n[:i]] != nil {
			main = n[:i]
		}

		// A row that failed may lack parts.
		slack := 0
		if r.Out.End != "killed" {
			slack = 1
		}

		if a, b := len(t.rows), len(got[main].rows); a+slack < b || b+slack < a {
			return v("sqlprefix", "SQLite: table %q of the interrupted run has %d rows, %q has %d", main, b, n, a)
		}

		if len(t.rows) > len(w.rows) {
			return v("sqlprefix", "SQLite: table %q of the interrupted run has %d rows, of the complete run %d", n, len(t.rows), len(w.rows))
		}

		// The failure may have changed the schedule and with it the order of columns and parts.
		if fmt.Sprint(t.cols) != fmt.Sprint(w.cols) {
			if r.Out.End == "killed" {
				return v("sqlprefix", "SQLite: table %q of the interrupted run has columns %q, of the complete run %q", n, clip(fmt.Sprint(t.cols)), clip(fmt.Sprint(w.cols)))
			}

			continue
		}

		for i := range t.rows {
			if fmt.Sprint(t.rows[i]) != fmt.Sprint(w.rows[i]) {
				if r.Out.End != "killed" && len(c.O.Cfg.Transpose) > 0 {
					continue // Order of elements.
				}

				return v("sqlprefix", "SQLite: row %d of table %q of the interrupted run is %s, of the complete run %s", i+1, n, clip(fmt.Sprint(t.rows[i])), clip(fmt.Sprint(w.rows[i])))
			}
		}
	}

	return nil
}

func checkC07(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	// The same schedule without interruption.
	whole := x.probeRun(c)

	if vi := success(whole); vi != nil {
		return vi
	}

	if vi := m.checkOutputs(whole); vi != nil {
		return vi
	}

	r := x.main(c)

	if r.Out.End == "killed" {
		x.probe("killed")
	}

	if c.O.SQLite != "" {
		if vi := x.dbPrefix(c, whole, r); vi != nil {
			return vi
		}
	}

	for _, base := range []string{c.O.CSV, c.O.Raw} {
		if base == "" || !(strings.HasSuffix(base, ".csv") || strings.HasSuffix(base, ".raw")) {
			continue
		}

		names := []string{base}
		for _, dst := range sortedKeys(m.tcols) {
			names = append(names, transposedName(base, dst))
		}

		for _, n := range names {
			got := r.File(n)
			if len(got) == 0 || (c.Stale > 0 && bytes.Equal(got, c.staleData())) { // Not created yet.
				continue
			}

			want := whole.File(n)

			if len(got) < len(want) {
				x.probe("partial file")
			}

			if bytes.HasPrefix(want, got) {
				continue
			}

			if r.Out.End == "killed" {
				return v("prefix", "%s of the killed run is not a prefix of the complete file: %s", n, diffAt(string(want), string(got)))
			}

			// The failure may have changed the schedule and with it the order of columns.
			if n != c.O.CSV {
				if permuted(c, n, want, got) {
					continue
				}

				return v("prefix", "%s of the failed run is not a prefix of the complete file: %s", n, diffAt(string(want), string(got)))
			}

			if vi := m.prefixRows(got); vi != nil {
				return vi
			}
		}
	}

	return nil
}

// permuted compares complete records of files whose columns may be in another order.
func permuted(c *Case, name string, want, got []byte) bool {
	recs := func(b []byte) [][]string {
		if strings.HasSuffix(name, ".csv") {
			res, _, err := parseCSVPrefix(b)
			if err != nil {
				return [][]string{{err.Error()}}
			}

			return res
		}

		var res [][]string

		lines := strings.Split(string(b), "\n")
		for _, l := range lines[:len(lines)-1] {
			res = append(res, strings.Split(l, c.O.RawDelim))
		}

		return res
	}

	w, g := recs(want), recs(got)
	if len(g) > len(w) {
		return false
	}

	for i := range g {
		sort.Strings(w[i])
		sort.Strings(g[i])

		if strings.Join(w[i], "\x00") != strings.Join(g[i], "\x00") {
			return false
		}
	}

	return true
}

// prefixRows compares a partial CSV file with the model.
func (m *Model) prefixRows(b []byte) *viol {
	recs, rest, err := parseCSVPrefix(b)
	if err != nil {
		return v("prefix", "partial CSV file: %v", err)
	}

	if len(recs) == 0 {
		return nil
	}

	t := &table{head: recs[0], rows: recs[1:]}
	if vi := m.checkHeader(t); vi != nil {
		return vi
	}

	if len(t.rows) > len(m.lines) {
		return v("prefix", "partial CSV file has %d rows for %d lines", len(t.rows), len(m.lines))
	}

	cut := *m
	cut.lines = m.lines[:len(t.rows)]

	if vi := cut.checkRows(t); vi != nil {
		return vi
	}

	if vi := cut.checkCells(t); vi != nil {
		return vi
	}

	if len(rest) > 0 && len(t.rows) == len(m.lines) {
		return v("prefix", "partial CSV file goes on after the last row: %q", clip(string(rest)))
	}

	return nil
}

// genC16 draws runs of all kinds, many inputs, failures.
func genC16(r *rng, idx int, x *ctx) *Case {
	switch r.n(5) {
	case 0:
		return genC05(r, idx, x)
	case 1, 2:
		return genC04(r, idx, x)
	case 3:
		c := &Case{P: params(r), Shape: "manyfiles"}
		baseOpts(r, c)
		n := r.between(14, 40)
		c.P.MaxFiles = 12
		g := gcfg{lines: n * 2, files: n, fields: 2, ids: true, arrays: true}
		c.In = newGen(r, g).inputs()
		c.O.CSV = "out.csv"

		if r.p(0.5) {
			compressInputs(r, c)
		}

		return c
	}

	c := genMulti(r, idx, x)
	if r.p(0.3) {
		compressInputs(r, c)
	}

	return c
}

func checkC16(x *ctx, c *Case) *viol {
	m := newModel(c)
	if len(m.cols) == 0 {
		return nil
	}

	r := x.main(c)

	if r.Out.End == "panic" {
		return v("panic", "the run ends in a panic with files open: %s", ended(r))
	}

	if r.Out.End != "exit" {
		return nil // C06 decides whether runs end.
	}

	for _, h := range r.FS.Handles {
		if !h.IsClosed() {
			return v("open", "%s is still open when the run ends (%d files opened, %d closed, faults %v): %s", h.Name(), r.FS.Opened, r.FS.Closed, r.Out.Fired, ended(r))
		}
	}

	if r.Out.Exit != 0 {
		x.probe("closed after failure")
	}

	if c.P.MaxFiles > 0 && r.Out.Fired["emfile"] > 0 {
		return v("emfile", "%d files were open at once with %d inputs and one output, the next could not be opened: %s", r.FS.MaxOpen, len(c.In), ended(r))
	}

	return nil
}

func init() {
	register(&property{id: "C04", gen: genC04, check: checkC04, crash: true, rule: "Runs with several outputs, larger than their buffers or not; one or two output operations (create, write at any offset incl. the last byte, close, SQL exec/begin/commit/close) fail for good or once. Success must mean complete outputs, failure must be reported."})
	register(&property{id: "C05", gen: genC05, check: checkC05, crash: true, rule: "Inputs that cannot be opened, fail at any offset in either pass, compressed streams cut inside of the last member, lines around the buffer size, and any chunking of reads."})
	register(&property{id: "C06", gen: genC06, check: checkC06, rule: "All other generators plus odd content and options, under memory pressure that may never end, any concurrency, stalls, and failures of inputs and outputs: each run must end with an exit status."})
	register(&property{id: "C07", gen: genC07, check: checkC07, crash: true, rule: "A run is repeated with a kill at a random step or a failing operation; files left behind must be prefixes of those of the whole run, which are compared with the model."})
	register(&property{id: "C16", gen: genC16, check: checkC16, rule: "Runs of all kinds with and without failures; every file handle opened by the run must be closed when it exits."})
}
