package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// gcfg says what generated inputs may contain.
type gcfg struct {
	lines     int
	files     int
	fields    int
	depth     int
	bad       float64 // Probability of an unusable line.
	badKinds  []string
	nulls     bool
	mixed     float64 // Probability of a value of another type.
	contMix   bool    // Containers and scalars under the same key.
	caseVar   float64
	dups      float64
	dotted    bool
	plainStr  bool // No line feeds, quotes or separators in strings.
	noStyle   bool
	big       bool
	ids       bool
	prefix    bool // Lines start with text before the JSON.
	zeros     float64
	extract   float64 // Probability of string values that hold JSON or URLs.
	surprise  float64 // Probability that a line has a key of its own.
	emptyCont bool
	tails     float64
	empties   bool // Empty strings.
	arrays    bool
	odd       float64 // Probability of an unusual name.
	times     float64 // Probability that a string field holds time.
	badTime   bool    // Time that does not parse.
	oddNum    bool    // Numbers at the edges of formats.
}

type field struct {
	no   int
	name string
	kind string // int, float, bool, str, obj, arr, any.
	prob float64
	sub  []*field
}

var fieldNames = []string{"a", "b", "c", "name", "Value", "user_id", "x1", "tags", "meta", "list", "Sub", "k", "zed", "Ключ", "with space", "dash-ed", "ts", "n0", "deep", "Items"}

// oddNames are names that need care in some place.
var oddNames = []string{`q"t`, "a,b", "it's", `back\slash`, "[1]", "0", " lead", "pipe|", "semi;", "$", "%d", "*", "{x}", "(p)", "a-b-c", "CamelCaseURL", "JSON", "tail_"}

// timeLayouts are layouts of generated time.
var timeLayouts = []string{"2006-01-02 15:04:05", "2006-01-02T15:04:05Z07:00", "2006/01/02 15:04:05.99999", "02/Jan/2006:15:04:05 -0700", "Jan _2 15:04:05", "15:04", "RAW", "02/01/2006", "01/02/2006", "06-01-02 15:04"}

type gen struct {
	r  *rng
	g  gcfg
	no int
	st *jsonStyle
}

func newGen(r *rng, g gcfg) *gen {
	x := &gen{r: r, g: g, st: &jsonStyle{r: r}}

	if !g.noStyle {
		x.st.ws = r.p(0.4)
		x.st.esc = r.p(0.3)
		x.st.keyE = r.p(0.1)
	}

	return x
}

func (x *gen) fields(n, depth int) []*field {
	var res []*field

	used := map[string]bool{"id": true}

	for i := 0; i < n; i++ {
		name := pick(x.r, fieldNames...)

		for used[strings.ToLower(name)] {
			name = fmt.Sprintf("%s%d", pick(x.r, fieldNames...), x.r.n(1000))
		}

		if x.g.big && x.r.p(0.05) {
			name += strings.Repeat("L", x.r.between(50, 3000))
		}

		if x.g.odd > 0 && x.r.p(x.g.odd) {
			if n := pick(x.r, oddNames...); !used[strings.ToLower(n)] {
				name = n
			}
		}

		used[strings.ToLower(name)] = true
		x.no++

		f := &field{no: x.no, name: name, prob: pick(x.r, 1, 1, 0.9, 0.5, 0.2)}

		kinds := []string{"int", "float", "bool", "str", "str", "int"}
		if depth > 0 {
			kinds = append(kinds, "obj", "obj")

			if x.g.arrays {
				kinds = append(kinds, "arr")
			}
		}

		f.kind = pick(x.r, kinds...)

		if f.kind == "str" && x.g.times > 0 && x.r.p(x.g.times) {
			n := x.r.n(len(timeLayouts))
			f.kind = "time" + strconv.Itoa(n)
			f.name = fmt.Sprintf("tm%d_%d", n, x.no)
		}

		switch f.kind {
		case "obj":
			f.sub = x.fields(x.r.between(1, 4), depth-1)
		case "arr":
			f.sub = x.fields(1, depth-1)
		}

		if x.g.dotted && f.kind != "obj" && f.kind != "arr" && x.r.p(0.1) {
			f.name = "dot." + f.name
		}

		res = append(res, f)
	}

	return res
}

func (x *gen) text(line, no int) string {
	r := x.r
	s := fmt.Sprintf("v%d_%d", line, no)

	if x.g.plainStr {
		if r.p(0.2) {
			s += strings.Repeat("p", r.n(60))
		}

		if x.g.big && r.p(0.05) {
			s += strings.Repeat("P", pick(r, 4085, r.between(1000, 9000), 70000))
		}

		return s
	}

	switch r.n(14) {
	case 0:
		s += ", \"quoted\""
	case 1:
		s += "\nsecond line"
	case 2:
		s += " é日本😀"
	case 3:
		s = "  " + s + " "
	case 4:
		s += `\back'slash`
	case 5:
		s += strings.Repeat("x", r.between(10, 400))
	case 6:
		s += "\ttab;semi|pipe"
	case 7:
		if x.g.big {
			s += strings.Repeat("B", r.between(1000, 9000))
		}
	case 8:
		s = strconv.Itoa(line*1000 + no)
	case 9:
		s += "\r"
	case 10:
		if r.p(0.2) {
			s = pick(r, "\x00", s+"\x00", "a\x00b"+s, "\u2028"+s, s+"\x7f\x1b")
		}
	}

	return s
}

func (x *gen) num(line, no int) string {
	r := x.r
	n := line*1000 + no

	switch r.n(12) {
	case 4:
		if x.g.oddNum {
			return pick(r, "-0", "0e0", "-0.0", "1E400", "-1e400", "1e-400", "0.1e1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616", "1e18", "1e19", "123456789012345678", "5e-324", "0.30000000000000004")
		}
	case 0:
		return fmt.Sprintf("-%d", n)
	case 1:
		return fmt.Sprintf("%d0000000", n)
	case 2:
		return fmt.Sprintf("%d.0", n)
	case 3:
		// More digits than a float has.
		if r.p(0.5) {
			return fmt.Sprintf("%s%d%0*d", pick(r, "", "-"), n%9000+1, r.between(12, 14), r.u64()%100000000000)
		}

		if r.p(0.3) {
			return fmt.Sprintf("%d%020d", n+1, r.u64())
		}
	}

	return strconv.Itoa(n)
}

func (x *gen) scalar(kind string, line, no int) *JV {
	r := x.r

	if x.g.nulls && r.p(0.08) {
		return &JV{T: 'n'}
	}

	if x.g.mixed > 0 && r.p(x.g.mixed) {
		kind = pick(r, "int", "float", "bool", "str")
	}

	if x.g.zeros > 0 && r.p(x.g.zeros) {
		switch kind {
		case "int":
			return jnum("0")
		case "float":
			return jnum(pick(r, "0.0", "0"))
		case "bool":
			return &JV{T: 'f'}
		default:
			return jstr("")
		}
	}

	switch kind {
	case "int":
		return jnum(x.num(line, no))
	case "float":
		switch r.n(6) {
		case 0:
			return jnum(fmt.Sprintf("%d.%de-3", line, no))
		case 1:
			return jnum(fmt.Sprintf("-%d.%d5", line, no))
		case 2:
			return jnum(fmt.Sprintf("%d.25E2", line*10+no))
		}

		if r.p(0.1) {
			return jnum(fmt.Sprintf("%d.%d%09d%09d", line, no, r.n(1e9), r.n(1e9)))
		}

		return jnum(fmt.Sprintf("%d.%d5", line, no))
	case "bool":
		return &JV{T: pick(r, byte('t'), byte('f'))}
	}

	if n, ok := strings.CutPrefix(kind, "time"); ok {
		return jstr(x.time(timeLayouts[n[0]-'0'], line, no))
	}

	if x.g.empties && r.p(0.04) {
		return jstr("")
	}

	if x.g.extract > 0 && r.p(x.g.extract) {
		return jstr(x.embedded(line, no))
	}

	return jstr(x.text(line, no))
}

// time tells line and key.
func (x *gen) time(layout string, line, no int) string {
	r := x.r

	if x.g.badTime && r.p(0.1) {
		return fmt.Sprintf("no time %d_%d", line, no)
	}

	if (layout == "02/01/2006" || layout == "01/02/2006") && r.p(0.7) { // The same string is a different time for another layout.
		return fmt.Sprintf("%02d/%02d/%d", line%12+1, r.between(1, 12), pick(r, 2021, 2024))
	}

	if layout == "RAW" {
		layout = "2006-01-02"
	}

	t := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(line)*7*time.Hour + time.Duration(no)*time.Minute + time.Duration(r.n(60000000))*time.Microsecond)

	if r.p(0.4) {
		t = t.In(time.FixedZone("", pick(r, -5, 2, 9, 5)*3600+pick(r, 0, 1800)))
	}

	return t.Format(layout)
}

// timeCfg configures the processing of generated time.
func timeCfg(r *rng, c *Case, names []string) {
	c.O.Cfg.ParseTime = map[string]string{}

	for _, n := range names {
		i := strings.LastIndex(n, ".tm")
		if i >= 0 && len(n) > i+4 && n[i+4] == '_' && r.p(0.85) {
			c.O.Cfg.ParseTime[n] = timeLayouts[n[i+3]-'0']
		}
	}

	c.O.Cfg.OutputTimeFormat = pick(r, "", "2006-01-02 15:04:05", "2006-01-02T15:04:05.000Z07:00", "02.01.06 15:04:05.999999999", "Mon, 02 Jan 2006 15:04:05 -0700")
	c.O.Cfg.OutputTimezone = pick(r, "", "", "UTC", "America/New_York", "Asia/Kolkata", "No/Zone")
}

// embedded is a string that holds JSON or a URL, or looks like it.
func (x *gen) embedded(line, no int) string {
	s := x.embeddable(line, no)

	if !x.r.p(0.08) {
		return s
	}

	// White space around.
	pad := pick(x.r, " ", " ", "\n", "\t", "\r\n", "\u00a0")

	if x.r.p(0.5) || s[0] == '{' || s[0] == '[' {
		return s + pad
	}

	return pad + s
}

func (x *gen) embeddable(line, no int) string {
	r := x.r

	switch r.n(11) {
	case 10: // The shortest ones.
		return pick(r, fmt.Sprintf("[%d]", line%10), fmt.Sprintf("[%d]", line), "[{}]", "[[]]", `[""]`, fmt.Sprintf(`{"":%d}`, line%10), "{}", "[]", "[ ]", "x://", "://", "a://b", "s3://"+strconv.Itoa(line%10),
			fmt.Sprintf(`[%d,%d]`, line%10, no%10), fmt.Sprintf(`{"k":%d}`, line%10), "[true]", "[null]")
	case 9:
		return pick(r, "2021-01-0"+strconv.Itoa(1+line%9), "e"+strconv.Itoa(line), "-", fmt.Sprintf("%d-%d", line, no), fmt.Sprintf("[%d,%d-1]", line, no),
			fmt.Sprintf(`{"id":%d,"x":%de}`, line, no), fmt.Sprintf(`{"x":[1,{"y":%d--}],"z":2}`, line), fmt.Sprintf("%d.%d.1", line, no))
	case 8:
		return fmt.Sprintf("%s://%s%d/p%d", pick(r, "postgres", "s3", "x", "git+ssh", "chrome-extension", "HTTPS"), pick(r, "h", "u:p@h", "h.example:1", "[::1]:"), line, no)
	case 7:
		return fmt.Sprintf(pick(r, "/to?u=http://h%d/p%d", "text %d then http://h/%d", "//h%d/a?b://c%d", "[http://h%d/%d", "{}://h%d/%d", "mailto:a%d@x?u=http://%d"), line, no)
	case 0:
		return fmt.Sprintf("https://u%d:p@host%d.example:8%d/p%d/q?x=%d&x=%d&y=z%%20z#f%d", line, line, no%100, line, line, no, no)
	case 1:
		return fmt.Sprintf("http://h%d.example/only/path%d", line, no)
	case 2:
		return "{not json " + x.text(line, no)
	case 3:
		return "[" + strconv.Itoa(line) + "," + strconv.Itoa(no) + ",\"e" + strconv.Itoa(line) + "\"]"
	case 4:
		return "no scheme:/" + strconv.Itoa(line)
	case 5:
		in := jobj()
		in.add("deepURL", jstr(fmt.Sprintf("https://in%d.example/a%d", line, no)))
		in.add("deepJSON", jstr(fmt.Sprintf(`{"lvl2":"%d","arr":[%d,{"z":%d}]}`, line, no, line)))

		return in.String()
	}

	o := jobj()
	o.add("ei", jint(line*1000+no))
	o.add("es", jstr(fmt.Sprintf("e%d_%d", line, no)))

	if r.p(0.3) {
		o.add("eb", &JV{T: 't'})
	}

	if r.p(0.3) {
		s := jobj()
		s.add("in", jstr(x.text(line, no)))
		o.add("eo", s)
	}

	return o.String()
}

func (x *gen) value(f *field, line int) *JV {
	r := x.r

	switch f.kind {
	case "obj":
		if x.g.contMix && r.p(0.05) {
			return x.scalar("str", line, f.no)
		}

		if x.g.contMix && r.p(0.08) {
			a := &JV{T: 'a'}
			for i := r.between(1, 2); i > 0; i-- {
				a.V = append(a.V, x.value(f.sub[r.n(len(f.sub))], line*10+i))
			}

			return a
		}

		if x.g.nulls && x.g.contMix && r.p(0.1) {
			return &JV{T: 'n'}
		}

		o := jobj()
		x.fill(o, f.sub, line)

		if len(o.V) == 0 && !x.g.emptyCont {
			o.add(f.sub[0].name, x.value(f.sub[0], line))
		}

		return o
	case "arr":
		if x.g.contMix && r.p(0.05) {
			return x.scalar("int", line, f.no)
		}

		if x.g.contMix && r.p(0.08) {
			o := jobj()
			if r.p(0.5) {
				o.add(f.sub[0].name, x.value(f.sub[0], line))
			}

			for i := r.between(1, 3); i > 0; i-- {
				o.add("k"+strconv.Itoa(i), x.value(f.sub[0], line*10+i))
			}

			return o
		}

		a := &JV{T: 'a'}

		n := r.n(4)
		if n == 0 && !x.g.emptyCont {
			n = 1
		}

		for i := 0; i < n; i++ {
			a.V = append(a.V, x.value(f.sub[0], line*10+i))
		}

		return a
	}

	return x.scalar(f.kind, line, f.no)
}

func (x *gen) fill(o *JV, ff []*field, line int) {
	r := x.r

	for _, f := range ff {
		if !r.p(f.prob) {
			continue
		}

		name := f.name

		if x.g.caseVar > 0 && r.p(x.g.caseVar) {
			name = pick(r, strings.ToUpper(name), strings.ToLower(name))
		}

		o.add(name, x.value(f, line))

		if x.g.dups > 0 && r.p(x.g.dups) {
			d := *f
			d.no += 500
			o.add(name, x.value(&d, line))
		}
	}

	if r.p(0.15) {
		// Another order of members.
		for i := range o.V {
			j := r.n(i + 1)
			o.V[i], o.V[j] = o.V[j], o.V[i]
			o.K[i], o.K[j] = o.K[j], o.K[i]
		}
	}
}

var badLineKinds = []string{"blank", "text", "open", "half", "garbage", "array", "tailcomma", "brace"}

func (x *gen) badLine(line int, o *JV) string {
	kinds := x.g.badKinds
	if kinds == nil {
		kinds = badLineKinds
	}

	s := o.String()

	switch pick(x.r, kinds...) {
	case "blank":
		return ""
	case "text":
		return fmt.Sprintf("just text %d", line)
	case "open":
		return fmt.Sprintf(`{"id":%d,"a":`, line)
	case "half":
		if len(s) > 3 {
			s = s[:x.r.between(1, len(s)-1)]
		}

		return s
	case "garbage":
		return fmt.Sprintf(`{"id":%d x}`, line)
	case "array":
		return fmt.Sprintf(`[%d,2]`, line)
	case "tailcomma":
		return fmt.Sprintf(`{"id":%d,}`, line)
	case "brace":
		return "{"
	case "nan":
		return fmt.Sprintf(`{"id":%d,"a":1-2}`, line)
	case "cr":
		return "\r"
	case "sp":
		return "   "
	}

	return "x"
}

// inputs generates the files.
func (x *gen) inputs() []InFile {
	r := x.r
	ff := x.fields(x.g.fields, x.g.depth)
	files := x.g.files

	if files < 1 {
		files = 1
	}

	res := make([]InFile, files)

	for i := range res {
		res[i].Name = fmt.Sprintf("in%d.jsonl", i)
		res[i].NoEOL = r.p(0.25)
		res[i].CRLF = r.p(0.1)
	}

	for n := 1; n <= x.g.lines; n++ {
		// Files get contiguous ranges.
		fi := (n - 1) * files / x.g.lines

		o := jobj()
		if x.g.ids {
			o.add("id", jint(n))
		}

		x.fill(o, ff, n)

		if x.g.surprise > 0 && r.p(x.g.surprise) {
			if r.p(0.5) {
				o.add(fmt.Sprintf("only%d", n), x.scalar("str", n, 999))
			} else {
				s := jobj()
				s.add("own", x.scalar("int", n, 998))
				o.add(fmt.Sprintf("sub%d", n), s)
			}
		}

		if x.g.ids && r.p(0.1) && len(o.V) > 1 {
			// The id comes last.
			o.K = append(o.K[1:], o.K[0])
			o.V = append(o.V[1:], o.V[0])
		}

		var s string

		if r.p(x.g.bad) {
			s = x.badLine(n, o)
		} else {
			var b strings.Builder

			x.st.write(&b, o)
			s = b.String()

			if x.g.prefix {
				switch r.n(4) {
				case 0:
					s = fmt.Sprintf("%02d:%02d lvl%d ", n/60, n%60, n%7) + s
				case 1:
					s = fmt.Sprintf("lvl%d ", n%7) + s
				}
			}

			if x.g.tails > 0 && r.p(x.g.tails) {
				s += pick(r, " trailing", "}", " {\"id\":0}", "\t")
			}
		}

		res[fi].Lines = append(res[fi].Lines, s)
	}

	for i := range res {
		if len(res[i].Plain()) == 0 {
			res[i].Lines = append(res[i].Lines, `{"id":0}`)
			res[i].NoEOL = false
		}

		if x.g.bad > 0 && res[i].NoEOL && r.p(0.3) {
			// A line cut after its first byte.
			res[i].Lines = append(res[i].Lines, pick(r, "{", "x", "7", " ", "\""))
		}

		if res[i].NoEOL && len(res[i].Lines) > 0 && res[i].Lines[len(res[i].Lines)-1] == "" {
			res[i].NoEOL = false // Without a line feed an empty last line does not exist.
		}
	}

	return res
}

const (
	maxSteps = 40_000_000
	maxTime  = int64(10000e9)
)

// params draws a machine.
func params(r *rng) simrt.Params {
	p := simrt.Params{Seed: r.u64() >> 12, MaxSteps: maxSteps, MaxTime: maxTime, MapShuffle: true, SelectRand: true}
	p.Strategy = pick(r, "random", "random", "random", "sticky", "pct", "pct", "lifo", "fifo", "starve", "serial")
	p.Gap = pick(r, 2.0, 5, 15, 40, 100, 300, 1000, 5000)
	p.NumCPU = pick(r, 1, 2, 4, 8, 16)
	p.StepCost = pick(r, int64(20), 100, 100, 1000, 20000)

	if p.Strategy == "pct" {
		p.PCTDepth = r.between(1, 6)
		p.PCTLen = int64(pick(r, 2000, 20000, 200000))
	}

	if r.p(0.15) {
		p.StallProb = pick(r, 0.001, 0.01, 0.05)
	}

	if r.p(0.5) {
		p.ReadChunk = pick(r, 1, 2, 7, 33, 100, 1000, 4096)
	}

	if r.p(0.3) {
		p.IOLatency = pick(r, int64(1000), 1e6, 2e8)
	}

	if r.p(0.4) {
		p.PoolDrop = pick(r, 0.1, 0.5, 1)
	}

	if r.p(0.3) {
		p.MemKind = pick(r, "gc", "saw", "rand")
		p.MemHigh = 3000 << 20
	}

	return p
}

// calm is a machine without any surprises.
func calm(seed uint64) simrt.Params {
	return simrt.Params{Seed: seed, MaxSteps: maxSteps, MaxTime: maxTime, Strategy: "serial", NumCPU: 4, StepCost: 100}
}

// baseOpts draws options that do not change what is expected of the table.
func baseOpts(r *rng, c *Case) {
	o := &c.O

	if r.p(0.8) {
		o.Conc = pick(r, 1, 2, 2, 3, 4, 4, 8, 16, 40)
	}

	switch r.n(10) {
	case 0:
		o.Verbosity = -1
	case 1, 2:
		o.Verbosity = 2
	case 3:
		o.Verbosity = 3
	}

	if r.p(0.2) {
		o.Tick = pick(r, 1, 50, 1000)
	}

	switch r.n(6) {
	case 0:
		o.MemLimit = -1
	case 1:
		o.MemLimit = pick(r, 1, 100, 2000)
	}

	if r.p(0.03) {
		o.BufSize = 10000000
	}

	if r.p(0.2) {
		o.PosInput = true
	}

	if r.p(0.15) {
		o.ViaOutput = true
	}

	o.CfgFile = r.p(0.3)
	if o.CfgFile {
		o.CfgForm = pick(r, "", "yaml", "json5")
	}
}

// nLines draws the number of lines.
func nLines(r *rng) int {
	switch r.n(20) {
	case 0:
		return r.between(100, 260)
	case 1, 2, 3:
		return r.between(30, 100)
	case 4, 5:
		return r.between(1, 3)
	}

	return r.between(3, 30)
}
