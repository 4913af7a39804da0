package main

import (
	"encoding/json"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// ev is one key of one line: a scalar ('s','i','f','b','n'), a container kept as JSON ('j')
// or a container that is walked ('o','a').
type ev struct {
	path []string
	key  string
	kind byte
	text string
	tree *JV
	zero bool
	opt  bool // The line fails half way, it may have given this value or not.
}

// mline is one line of the selected window.
type mline struct {
	seq  int64
	raw  string
	evs  []ev // First element kinds as seen by the writing pass.
	scan []ev // As seen by the scanning pass.
	in   bool // Inside the scanned window.
	bad  string
}

// mkey is one exact-case key of the scanned lines.
type mkey struct {
	path  []string
	key   string
	canon string
	kinds map[byte]bool
	zero  bool
	hc    bool
	dst   string
	idx   string
	trim  string
	first int
}

// mcol is one expected column.
type mcol struct {
	name     string // Replaced name.
	canon    string
	keys     map[string]bool // Exact keys contributing.
	typ      string
	optional bool
	constV   *string
	dst      string
}

// mcell is one expected cell.
type mcell struct {
	set  bool
	null bool
	text string
	tree *JV
	kind byte
	opt  bool
	sub  bool // The text is a part of the cell.
}

// mtrow is one expected row of a transposed table.
type mtrow struct {
	seq   int64
	idx   string
	cells map[string]mcell
	from  map[string]string // Keys of cells.
}

// Model is what the documentation says about a case.
type Model struct {
	c        *Case
	lines    []*mline
	keys     map[string]*mkey
	order    []string
	hc       map[string]bool
	cols     []*mcol // Main table.
	trans    map[string][]mtrow
	tcols    map[string]map[string]map[byte]bool // dst, trimmed: kinds.
	scanned  bool
	canonKey map[string]*mkey
	badScan  int
	badWrite int
	malScan  int
	malWrite int
	nanScan  int // Lines that parse, but cannot be walked.
	nanWrite int
	nanID    bool

	include map[string]bool // Exact keys with a column.

	tnames map[string]string // Names of transposed columns the run has chosen.
	shared bool              // Keys that share a column have values in the same element.

	byCanon map[string]string // Names the run has chosen by canonical key.
	byName  map[string]string // And by name without a limit of length.
	times   timeFmt
}

func (o *Opts) ck(k string) string {
	if o.CaseSens {
		return k
	}

	return strings.ToLower(k)
}

// splitLines mirrors what a text line is: LF separated, one CR before it is not part of it.
func splitLines(b []byte) []string {
	var res []string

	s := string(b)

	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')

		var l string

		if i < 0 {
			l, s = s, ""
		} else {
			l, s = s[:i], s[i+1:]
		}

		res = append(res, strings.TrimSuffix(l, "\r"))
	}

	return res
}

func pathKey(p []string) string { return "." + strings.Join(p, ".") }

func starRegex(reg string) *regexp.Regexp {
	if !strings.HasSuffix(reg, "$") && !strings.HasPrefix(reg, "^") && reg[0] == '.' {
		reg = strings.NewReplacer(".", `\.`, "[", `\[`, "]", `\]`, "{", `\{`, "}", `\}`, "*", "([^.]+)").Replace(reg)
		reg = "^" + reg + "$"
	}

	return regexp.MustCompile(reg)
}

// walk lists the keys of a value in document order.
type walker struct {
	o       *Opts
	keep    map[string]bool
	extract map[*regexp.Regexp]string
	out     []ev
}

func isZeroNum(s string) bool {
	f, err := strconv.ParseFloat(s, 64)

	return err == nil && f == 0
}

func numKind(s string) byte {
	f, _ := strconv.ParseFloat(s, 64)

	if f >= -(1<<63) && f < 1<<63 && float64(int64(f)) == f && !strings.ContainsAny(s, ".eE") {
		return 'i'
	}

	return 'f'
}

func (w *walker) emit(path []string, kind byte, text string, tree *JV, zero bool) {
	p := append([]string(nil), path...)
	w.out = append(w.out, ev{path: p, key: pathKey(p), kind: kind, text: text, tree: tree, zero: zero})
}

func (w *walker) cut(s string) string {
	if w.o.FieldLimit > 0 && len(s) > w.o.FieldLimit {
		n := w.o.FieldLimit
		for n > 0 && !utf8.RuneStart(s[n]) {
			n--
		}

		return s[:n]
	}

	return s
}

func (w *walker) value(path []string, v *JV) {
	key := ""
	if len(path) > 0 {
		key = pathKey(path)
	}

	switch v.T {
	case 'o', 'a':
		if key != "" {
			w.emit(path, v.T, "", nil, false)
		}

		if w.keep[key] {
			w.emit(path, 'j', "", v, false)

			return
		}

		for i, e := range v.V {
			k := "[" + strconv.Itoa(i) + "]"
			if v.T == 'o' {
				k = v.K[i]
			}

			w.value(append(path[:len(path):len(path)], k), e)
		}
	case 'd':
		w.emit(path, numKind(v.S), v.S, nil, isZeroNum(v.S))
	case 't':
		w.emit(path, 'b', "true", nil, false)
	case 'f':
		w.emit(path, 'b', "false", nil, true)
	case 'n':
		w.emit(path, 'n', "", nil, true)
	case 's':
		w.str(path, key, v.S)
	}
}

func (w *walker) str(path []string, key, s string) {
	w.emit(path, 's', w.cut(s), nil, s == "")

	for r, x := range w.extract {
		if !r.MatchString(key) {
			continue
		}

		switch x {
		case "JSON":
			if j, err := parseJSON(s); err == nil {
				w.value(append(path[:len(path):len(path)], "JSON"), j)

				return
			}
		case "URL":
			if u := urlTree(s); u != nil && !(isURLPath(path) && sameURLPath(u, s)) {
				w.value(append(path[:len(path):len(path)], "URL"), u)

				return
			}
		}

		break
	}

	if !w.o.Extract || len(s) <= 2 {
		return
	}

	if s[0] == '{' || s[0] == '[' {
		if j, err := parseJSON(s); err == nil {
			w.value(append(path[:len(path):len(path)], "JSON"), j)

			return
		}
	}

	if strings.Contains(s, "://") {
		if u := urlTree(s); u != nil {
			w.value(append(path[:len(path):len(path)], "URL"), u)
		}
	}
}

// isURLPath tells whether a value is the first element of the path of an extracted URL.
func isURLPath(path []string) bool {
	n := len(path)

	return n > 3 && path[n-3] == "URL" && path[n-2] == "path" && path[n-1] == "[0]"
}

// sameURLPath tells whether extraction gives nothing new.
func sameURLPath(u *JV, s string) bool {
	return len(u.K) == 1 && len(u.V[0].V) == 1 && u.V[0].V[0].S == s
}

// urlTree is the documented decomposition of a URL.
func urlTree(s string) *JV {
	u, err := url.Parse(s)
	if err != nil {
		return nil
	}

	v := jobj()
	str := func(k, s string) {
		if s != "" {
			v.add(k, jstr(s))
		}
	}

	pass, _ := u.User.Password()

	str("scheme", u.Scheme)
	str("user", u.User.Username())
	str("pass", pass)
	str("host", u.Hostname())
	str("port", u.Port())

	if q := u.Query(); len(q) > 0 {
		var names []string
		for n := range q {
			names = append(names, n)
		}

		sort.Strings(names)

		qv := jobj()

		for _, n := range names {
			a := &JV{T: 'a'}
			for _, s := range q[n] {
				a.V = append(a.V, jstr(s))
			}

			qv.add(n, a)
		}

		v.add("query", qv)
	}

	a := &JV{T: 'a'}
	for _, s := range strings.Split(strings.Trim(u.Path, "/"), "/") {
		a.V = append(a.V, jstr(s))
	}

	v.add("path", a)
	str("fragment", u.Fragment)

	return v
}

func (o *Opts) matchPrefix() *regexp.Regexp {
	p := o.Prefix
	if p == "" {
		p = o.Cfg.MatchLinePrefix
	}

	if p == "" {
		return nil
	}

	return regexp.MustCompile(p)
}

func (o *Opts) onlyInclude() bool {
	return len(o.Cfg.IncludeKeysRegex) == 0 && len(o.includeKeys()) > 0
}

func (o *Opts) includeKeys() []string {
	k := append([]string(nil), o.Cfg.IncludeKeys...)
	if o.GetKey != "" {
		k = append(k, o.GetKey)
	}

	return k
}

// nanRe finds lines with a number that is not one, the parser of the tool may notice it late.
var nanRe = regexp.MustCompile(`^\{"id":(\d+),"a":1-2\}$`)

// line lists the keys of one line.
func (m *Model) line(l *mline, keep map[string]bool) ([]ev, string) {
	o := &m.c.O
	w := &walker{o: o, keep: keep, extract: map[*regexp.Regexp]string{}}

	for r, x := range o.Cfg.ExtractValuesRegex {
		w.extract[starRegex(r)] = x
	}

	if o.AddSeq {
		w.emit([]string{"_sequence"}, 'i', strconv.FormatInt(l.seq, 10), nil, false)
	}

	s := l.raw

	if len(s) < 2 || s[0] != '{' {
		pos := strings.IndexByte(s, '{')
		mp := o.matchPrefix()

		if pos < 0 && mp == nil {
			return w.out, "nojson"
		}

		if mp != nil {
			pref := s
			if pos > 0 {
				pref = s[:pos]
			}

			for _, sm := range mp.FindAllStringSubmatch(pref, -1) {
				for j := 1; j < len(sm); j++ {
					w.emit([]string{"_prefix", "[" + strconv.Itoa(j-1) + "]"}, 's', w.cut(sm[j]), nil, sm[j] == "")
				}
			}
		}

		if pos < 0 {
			return w.out, ""
		}

		s = s[pos:]
	}

	v, err := parseJSON(s)
	if sm := nanRe.FindStringSubmatch(s); sm != nil {
		w.emit([]string{"id"}, 'i', sm[1], nil, false)
		w.out[len(w.out)-1].opt = true

		return w.out, "nan"
	}

	if err != nil {
		return w.out, "malformed"
	}

	w.value(nil, v)

	return w.out, ""
}

// newModel evaluates a case.
func newModel(c *Case) *Model {
	m := &Model{c: c, keys: map[string]*mkey{}, hc: map[string]bool{}, trans: map[string][]mtrow{},
		tcols: map[string]map[string]map[byte]bool{}, include: map[string]bool{}}
	o := &c.O

	scanMax := o.MaxLines
	if o.MaxKeys > 0 && (scanMax == 0 || o.MaxKeys < scanMax) {
		scanMax = o.MaxKeys
	}

	seq := int64(0)
	scanSeq := int64(0)

	type scanLine struct {
		raw string
		seq int64
	}

	var scans []scanLine

	for i := range c.In {
		ll := splitLines(c.In[i].Plain())

		for n, l := range ll {
			if n < o.Offset {
				continue
			}

			if scanMax == 0 || n < o.Offset+scanMax {
				scanSeq++
				scans = append(scans, scanLine{raw: l, seq: scanSeq})
			}

			if o.MaxLines > 0 && n >= o.Offset+o.MaxLines {
				continue
			}

			seq++
			m.lines = append(m.lines, &mline{seq: seq, raw: l})
		}
	}

	keep := map[string]bool{}
	for _, k := range o.Cfg.KeepJSON {
		keep[k] = true
	}

	m.scanned = !o.onlyInclude()

	if m.scanned {
		// High cardinality: distinct direct children of every container.
		children := map[string]map[string]bool{}
		evsOf := make([][]ev, len(scans))

		for i, s := range scans {
			evs, bad := m.line(&mline{raw: s.raw, seq: s.seq}, keep)
			evsOf[i] = evs

			switch bad {
			case "nojson":
				m.badScan++
			case "malformed":
				m.malScan++
			case "nan":
				m.nanScan++
			}

			for _, e := range evs {
				if len(e.path) < 2 || e.path[0] == "_prefix" {
					continue
				}

				p := pathKey(e.path[:len(e.path)-1])

				if children[p] == nil {
					children[p] = map[string]bool{}
				}

				children[p][e.path[len(e.path)-1]] = true
			}
		}

		if lim := o.childrenLimit(); lim > 0 {
			allowed := map[string]bool{}
			for _, k := range o.Cfg.AllowCardinality {
				allowed[k] = true
			}

			for p, ch := range children {
				if len(ch) > lim && !allowed[p] {
					m.hc[p] = true
				}
			}
		}

		for i := range scans {
			for _, e := range evsOf[i] {
				if m.underHC(e.path) {
					continue
				}

				if e.opt {
					m.nanID = true

					continue
				}

				m.addKey(e)
			}
		}

		for k := range m.hc {
			keep[k] = true

			if mk := m.keys[k]; mk != nil {
				mk.hc = true
			} else {
				delete(m.hc, k) // Below another collapsed container.
			}
		}
	}

	for _, l := range m.lines {
		l.evs, l.bad = m.line(l, keep)

		switch l.bad {
		case "nojson":
			m.badWrite++
		case "malformed":
			m.malWrite++
		case "nan":
			m.nanWrite++
		}
	}

	m.times = newTimeFmt(&o.Cfg)
	m.columns()
	m.transposed()

	return m
}

// nameRule is one regular expression of key names.
type nameRule struct {
	re  *regexp.Regexp
	rep string
}

func (o *Opts) nameRules() []nameRule {
	var res []nameRule

	for _, r := range sortedKeys(o.Cfg.ReplaceKeysRegex) {
		res = append(res, nameRule{re: starRegex(r), rep: o.Cfg.ReplaceKeysRegex[r]})
	}

	return res
}

// apply is the documented name of a matching key.
func (nr nameRule) apply(key string) (string, bool) {
	sm := nr.re.FindStringSubmatch(key)
	if sm == nil {
		return "", false
	}

	name := nr.rep

	for i := 1; i < len(sm); i++ {
		name = strings.ReplaceAll(name, "${"+strconv.Itoa(i)+"}", strings.Join(strings.Fields(sm[i]), "_"))
	}

	if s, ok := strings.CutSuffix(name, "|to_snake_case"); ok {
		name = snake(s)
	}

	return name, true
}

// snake separates words with underscores and drops the case.
func snake(s string) string {
	var b strings.Builder

	r := []rune(s)
	lower := func(c rune) bool { return c >= 'a' && c <= 'z' }
	upper := func(c rune) bool { return c >= 'A' && c <= 'Z' }
	digit := func(c rune) bool { return c >= '0' && c <= '9' }
	sep := false

	for i, c := range r {
		switch {
		case !lower(c) && !upper(c) && !digit(c) && c != '(' && c != ')':
			sep = true

			continue
		case upper(c) && i > 0 && (lower(r[i-1]) || digit(r[i-1]) || (i+1 < len(r) && lower(r[i+1]))):
			sep = true
		}

		if sep && b.Len() > 0 {
			b.WriteByte('_')
		}

		sep = false

		b.WriteRune(c)
	}

	return strings.ToLower(b.String())
}

// name is the name of a column.
func (m *Model) name(canon, orig string) string {
	if n, ok := m.byCanon[canon]; ok {
		return n
	}

	n := m.natural(canon, orig)

	if l, ok := m.byName[n]; ok {
		return l
	}

	return n
}

// natural is the name by the configured replaces.
func (m *Model) natural(canon, orig string) string {
	o := &m.c.O

	for k, v := range o.Cfg.ReplaceKeys {
		if o.ck(k) == canon {
			return v
		}
	}

	for _, r := range o.nameRules() {
		if n, ok := r.apply(orig); ok && n != orig {
			return n
		}
	}

	return orig
}

// chosenNames takes names that are up to the tool from keys info, and checks what is promised about them.
func (m *Model) chosenNames(out string) *viol {
	o := &m.c.O

	info, _, vi := parseInfo(out)
	if vi != nil {
		return vi
	}

	m.byCanon, m.byName, m.tnames = map[string]string{}, map[string]string{}, map[string]string{}
	given := map[string]bool{}

	for _, n := range o.Cfg.ReplaceKeys {
		given[n] = true
	}

	used := map[string]string{}
	trims := map[string]string{}

	for k, mk := range m.keys {
		if mk.dst != "" {
			trims[o.ck(k)] = mk.trim
		}
	}

	for _, k := range info {
		if k.dst != "" {
			trim, ok := trims[o.ck(k.orig)]
			if !ok {
				return v("infoextra", "keys info lists %q that is not in the scanned lines", k.orig)
			}

			tk := o.ck(trim)
			if n, ok := m.tnames[tk]; ok && n != o.ck(k.name) {
				return v("tnames", "transposed %q is named %q and %q", clip(trim), clip(n), clip(k.name))
			}

			m.tnames[tk] = o.ck(k.name)

			if o.KeyLimit > 0 && len(k.name) > o.KeyLimit {
				return v("namelong", "name %q of %q is longer than %d", clip(k.name), clip(k.orig), o.KeyLimit)
			}

			continue
		}

		canon := o.ck(k.orig)
		nat := m.natural(canon, k.orig)

		if o.AnyRule && !given[nat] {
			var made []string

			for _, r := range o.nameRules() {
				if n, ok := r.apply(k.orig); ok {
					made = append(made, n)
				}
			}

			if len(made) == 0 {
				made = append(made, k.orig)
			}

			if !slices.Contains(made, k.name) {
				return v("namerule", "name %q of %q is not made by any of the rules", clip(k.name), clip(k.orig))
			}

			nat = k.name
		}

		if other, ok := used[o.ck(k.name)]; ok && other != nat {
			return v("namedup", "%q and %q have the same name %q", clip(other), clip(nat), clip(k.name))
		}

		used[o.ck(k.name)] = nat

		switch {
		case given[nat]:
			if k.name != nat {
				return v("namegiven", "%q is replaced with %q, it has to be %q", clip(k.orig), clip(k.name), clip(nat))
			}
		case o.KeyLimit > 0 && len(k.name) > o.KeyLimit:
			return v("namelong", "name %q of %q is longer than %d", clip(k.name), clip(k.orig), o.KeyLimit)
		case o.KeyLimit > 0 && len(nat) > o.KeyLimit && !o.ReplaceKeys && !samePrefix(nat, k.name):
			return v("namecut", "name %q does not start as %q", clip(k.name), clip(nat))
		case o.AnyRule:
		case !o.ReplaceKeys && k.name != nat && (o.KeyLimit == 0 || (len(nat) <= o.KeyLimit && used[o.ck(nat)] == "")):
			return v("name", "%q is named %q, it has to be %q", clip(k.orig), clip(k.name), clip(nat))
		case o.ReplaceKeys && k.name != nat && o.KeyLimit == 0 && !strings.HasSuffix(alnum(nat), alnum(k.name)):
			return v("nametail", "name %q is not a tail of %q", clip(k.name), clip(k.orig))
		}

		m.byCanon[canon] = k.name
		m.byName[nat] = k.name
	}

	m.cols = nil
	m.include = map[string]bool{}
	m.columns()
	m.transposed()

	return nil
}

// samePrefix tells whether a limited name starts as the full one, up to the number at the end.
func samePrefix(full, limited string) bool {
	return strings.HasPrefix(full, strings.TrimRight(limited, "0123456789")) || strings.HasPrefix(full, limited)
}

// alnum drops everything that conversion to snake case may change.
func alnum(s string) string {
	var b strings.Builder

	for _, c := range strings.ToLower(s) {
		if (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') {
			b.WriteRune(c)
		}
	}

	return b.String()
}

// timeFmt is the configured processing of time.
type timeFmt struct {
	in  map[string]string
	out string
	tz  *time.Location
}

func newTimeFmt(c *Config) timeFmt {
	t := timeFmt{in: c.ParseTime, out: c.OutputTimeFormat}

	if t.out == "" {
		t.out = "2006-01-02T15:04:05Z07:00"
	}

	if c.OutputTimezone != "" {
		if tz, err := time.LoadLocation(c.OutputTimezone); err == nil {
			t.tz = tz
		}
	}

	return t
}

// apply reformats the text of a cell.
func (t timeFmt) apply(c *mcell, key string) {
	f, ok := t.in[key]
	if !ok || f == "RAW" {
		return
	}

	tz := t.tz
	if tz == nil {
		tz = time.UTC
	}

	tm, err := time.ParseInLocation(f, c.text, tz)
	if err != nil {
		c.sub = true

		return
	}

	if t.tz != nil {
		tm = tm.In(t.tz)
	}

	c.text = tm.Format(t.out)
}

func (m *Model) underHC(p []string) bool {
	for i := 1; i < len(p); i++ {
		if m.hc[pathKey(p[:i])] {
			return true
		}
	}

	return false
}

func (m *Model) addKey(e ev) {
	k := m.keys[e.key]
	if k == nil {
		k = &mkey{path: e.path, key: e.key, canon: m.c.O.ck(e.key), kinds: map[byte]bool{}, zero: true, first: len(m.order)}
		m.keys[e.key] = k
		m.order = append(m.order, e.key)

		best := -1

		for tk, dst := range m.c.O.Cfg.Transpose {
			if len(e.key) > len(tk) && strings.HasPrefix(e.key, tk) && len(tk) > best {
				best = len(tk)
				k.dst = dst
				k.idx, k.trim = transposeKey(e.key[len(tk):])
			}
		}
	}

	k.kinds[e.kind] = true
	k.zero = k.zero && e.zero
}

var arrIndexRe = regexp.MustCompile(`^\[(0|[1-9][0-9]{0,8})\](?:\.|$)`)

// transposeKey splits what follows the prefix into the index and the column.
func transposeKey(rest string) (string, string) {
	rest = strings.TrimPrefix(rest, ".")
	idx := rest
	trim := ""

	if sm := arrIndexRe.FindStringSubmatch(rest); sm != nil {
		idx, trim = sm[1], rest[len(sm[1])+2:]
	} else if p := strings.Index(rest, "."); p >= 0 {
		idx, trim = rest[:p], rest[p:]
	}

	if trim == "" {
		trim = "._value"
	}

	return idx, trim
}

func (k *mkey) scalar() bool {
	if k.hc {
		return true
	}

	for _, x := range []byte("sifbnj") {
		if k.kinds[x] {
			return true
		}
	}

	return false
}

// lub is the least general type covering the kinds.
func lub(kinds map[byte]bool, hc bool) string {
	if hc {
		return "json"
	}

	s, b := kinds['s'] || kinds['j'], kinds['b']
	i, f := kinds['i'], kinds['f']

	switch {
	case s || (b && (i || f)):
		return "string"
	case b:
		return "bool"
	case f:
		return "float"
	case i:
		return "int"
	case kinds['n']:
		return "null"
	}

	return ""
}

func lubTypes(a, b string) string {
	weak := func(t string) int {
		switch t {
		case "":
			return 0
		case "null":
			return 1
		}

		return 2
	}

	switch {
	case weak(a) < 2 || weak(b) < 2:
		if weak(a) >= weak(b) {
			return a
		}

		return b
	case a == b:
		return a
	case (a == "int" && b == "float") || (a == "float" && b == "int"):
		return "float"
	}

	return "string"
}

// joined is the type of a column that has values of n keys.
func (m *Model) joined(typ string, n int) string {
	if m.c.O.Cfg.ConcatDelimiter != nil && n > 1 {
		return "string"
	}

	return typ
}

// columns computes the expected columns of the main table and the keys of transposed ones.
func (m *Model) columns() {
	o := &m.c.O
	excl := map[string]bool{}

	for _, k := range o.Cfg.ExcludeKeys {
		excl[o.ck(k)] = true
	}

	var exclRe, inclRe []*regexp.Regexp

	for _, r := range o.Cfg.ExcludeKeysRegex {
		exclRe = append(exclRe, starRegex(r))
	}

	for _, r := range o.Cfg.IncludeKeysRegex {
		inclRe = append(inclRe, starRegex(r))
	}

	excluded := func(k string) bool {
		if excl[o.ck(k)] {
			return true
		}

		for _, r := range exclRe {
			if r.MatchString(k) {
				return true
			}
		}

		return false
	}

	byName := map[string]*mcol{}
	add := func(canon, orig, typ string, exact []string, optional bool) *mcol {
		name := m.name(canon, orig)
		c := byName[name]
		if c == nil {
			c = &mcol{name: name, canon: canon, keys: map[string]bool{}, typ: typ, optional: optional}
			byName[name] = c
			m.cols = append(m.cols, c)
		} else {
			c.typ = m.joined(lubTypes(c.typ, typ), 2)
		}

		for _, k := range exact {
			c.keys[k] = true
			m.include[k] = true
		}

		return c
	}

	if !m.scanned {
		spelled := map[string]string{}

		for _, k := range o.includeKeys() {
			if s, ok := spelled[o.ck(k)]; !excluded(k) && (!ok || k < s) {
				spelled[o.ck(k)] = k
			}
		}

		for _, k := range o.includeKeys() {
			if excluded(k) {
				continue
			}

			if strings.HasPrefix(k, "const:") {
				c := add(o.ck(k), k, "", nil, false)
				v := strings.TrimPrefix(k, "const:")
				c.constV = &v

				continue
			}

			add(o.ck(k), spelled[o.ck(k)], "string", []string{k}, false)
		}

		return
	}

	// Case variants are one column.
	groups := map[string][]*mkey{}

	var canons []string

	for _, k := range m.order {
		mk := m.keys[k]

		if groups[mk.canon] == nil {
			canons = append(canons, mk.canon)
		}

		groups[mk.canon] = append(groups[mk.canon], mk)
	}

	listed := map[string]bool{}

	for _, k := range o.includeKeys() {
		if excluded(k) {
			continue
		}

		listed[o.ck(k)] = true

		var (
			exact []string
			typ   string
			n     int
		)

		for _, mk := range groups[o.ck(k)] {
			exact = append(exact, mk.key)
			typ = lubTypes(typ, lub(mk.kinds, mk.hc))

			if mk.scalar() {
				n++
			}
		}

		// Keys that are listed explicitly do not have to be in the scanned lines.
		if !slices.Contains(exact, k) {
			exact = append(exact, k)
		}

		c := add(o.ck(k), k, m.joined(typ, n), exact, false)

		if strings.HasPrefix(k, "const:") {
			v := strings.TrimPrefix(k, "const:")
			c.constV = &v
		}
	}

	for _, canon := range canons {
		var (
			exact   []string
			typ     string
			scalar  bool
			zero    = true
			mixed   bool
			matched = len(inclRe) == 0 && len(o.includeKeys()) == 0
			orig    = ""
			dst     string
			n       int
		)

		for _, mk := range groups[canon] {
			exact = append(exact, mk.key)
			zero = zero && mk.zero
			typ = lubTypes(typ, lub(mk.kinds, mk.hc))
			scalar = scalar || mk.scalar()

			if mk.scalar() {
				n++
			}

			mixed = mixed || mk.kinds['o'] || mk.kinds['a']
			dst = mk.dst

			if mk.scalar() && (orig == "" || mk.key < orig) {
				orig = mk.key
			}
		}

		for _, r := range inclRe {
			matched = matched || r.MatchString(orig)
		}

		if !scalar || listed[canon] || !matched || excluded(orig) {
			continue
		}

		optional := false

		if o.SkipZero {
			if zero {
				continue
			}

			optional = mixed && zero
		}

		if dst != "" {
			for _, k := range exact {
				m.include[k] = true
			}

			continue
		}

		add(canon, orig, m.joined(typ, n), exact, optional)
	}

	// Lines that fail half way may have shown their first key.
	if m.nanID && groups[".id"] == nil && len(inclRe) == 0 && len(o.includeKeys()) == 0 && !excluded(".id") {
		add(".id", ".id", "int", []string{".id"}, true)
	}
}

func (m *Model) cellOf(e ev) mcell {
	c := mcell{set: true, null: e.kind == 'n', text: e.text, tree: e.tree, kind: e.kind, opt: e.opt}

	if c.kind == 's' && len(m.times.in) > 0 {
		m.times.apply(&c, e.key)
	}

	return c
}

// row is the expected content of a line by column.
func (m *Model) row(l *mline) []mcell {
	return m.rowIdx(l, m.colIdx())
}

// colIdx finds columns by spelling of a key, spellings that were not scanned are found by the
// canonical key.
func (m *Model) colIdx() colIdx {
	idx := colIdx{exact: map[string]int{}, canon: map[string]int{}, ck: m.c.O.ck}
	for i, c := range m.cols {
		for k := range c.keys {
			idx.exact[k] = i
			idx.canon[m.c.O.ck(k)] = i
		}
	}

	return idx
}

type colIdx struct {
	exact, canon map[string]int
	ck           func(string) string
}

func (x colIdx) find(key string) (int, bool) {
	i, ok := x.exact[key]
	if !ok {
		i, ok = x.canon[x.ck(key)]
	}

	return i, ok
}

func (m *Model) rowIdx(l *mline, idx colIdx) []mcell {
	res := make([]mcell, len(m.cols))

	for _, e := range l.evs {
		if e.kind == 'o' || e.kind == 'a' {
			continue
		}

		i, ok := idx.find(e.key)
		if !ok {
			continue
		}

		if mk := m.spelled(e.key); mk != nil && mk.dst != "" {
			continue
		}

		m.put(&res[i], e)
	}

	for i, c := range m.cols {
		if c.constV != nil {
			res[i] = mcell{set: true, text: *c.constV, kind: 's'}
		}
	}

	return res
}

// spelled finds a scanned key that differs only in case.
func (m *Model) spelled(key string) *mkey {
	if mk := m.keys[key]; mk != nil {
		return mk
	}

	if m.canonKey == nil {
		m.canonKey = map[string]*mkey{}

		for _, mk := range m.keys {
			if cur := m.canonKey[mk.canon]; mk.scalar() && (cur == nil || mk.key < cur.key) {
				m.canonKey[mk.canon] = mk
			}
		}
	}

	return m.canonKey[m.c.O.ck(key)]
}

func (m *Model) put(c *mcell, e ev) {
	n := m.cellOf(e)

	if !c.set {
		*c = n

		return
	}

	if d := m.c.O.Cfg.ConcatDelimiter; d != nil {
		switch {
		case n.sub:
			c.text, c.sub = n.text, true
		case !c.sub:
			c.text = fmtCell(*c) + *d + fmtCell(n)
		}

		c.kind = 's'
		c.null = false
		c.tree = nil
	}
}

func fmtCell(c mcell) string {
	if c.null {
		return "NULL"
	}

	return c.text
}

// tname is the name of a column in a transposed table.
func (m *Model) tname(trim string) string {
	canon := m.c.O.ck(trim)

	if n, ok := m.tnames[canon]; ok {
		return n
	}

	return m.natural(canon, trim)
}

// transposed computes the rows of the transposed tables.
func (m *Model) transposed() {
	if len(m.c.O.Cfg.Transpose) == 0 || !m.scanned {
		return
	}

	m.trans = map[string][]mtrow{}
	m.tcols = map[string]map[string]map[byte]bool{}
	first := map[string]string{}

	for _, k := range m.order {
		mk := m.keys[k]
		if mk.dst == "" || !m.include[k] {
			continue
		}

		if m.tcols[mk.dst] == nil {
			m.tcols[mk.dst] = map[string]map[byte]bool{}
		}

		trim := m.c.O.ck(m.tname(mk.trim))

		if m.tcols[mk.dst][trim] == nil {
			m.tcols[mk.dst][trim] = map[byte]bool{}
			first[mk.dst+"/"+trim] = m.c.O.ck(mk.trim)
		}

		if first[mk.dst+"/"+trim] != m.c.O.ck(mk.trim) && m.c.O.Cfg.ConcatDelimiter != nil {
			m.tcols[mk.dst][trim]['s'] = true
		}

		for kk := range mk.kinds {
			m.tcols[mk.dst][trim][kk] = true
		}

		if mk.hc {
			m.tcols[mk.dst][trim]['J'] = true
		}
	}

	for _, l := range m.lines {
		rows := map[string]map[string]*mtrow{}

		for _, e := range l.evs {
			mk := m.spelled(e.key)
			if mk == nil || mk.dst == "" || !m.include[mk.key] || e.kind == 'o' || e.kind == 'a' {
				continue
			}

			if rows[mk.dst] == nil {
				rows[mk.dst] = map[string]*mtrow{}
			}

			idx, trim := m.c.O.ck(mk.idx), m.c.O.ck(m.tname(mk.trim))

			r := rows[mk.dst][idx]
			if r == nil {
				r = &mtrow{seq: l.seq, idx: idx, cells: map[string]mcell{}, from: map[string]string{}}
				rows[mk.dst][idx] = r
			}

			c := r.cells[trim]
			if c.set && r.from[trim] != e.key {
				m.shared = true
			}

			r.from[trim] = e.key
			m.put(&c, e)
			r.cells[trim] = c
		}

		for dst, rr := range rows {
			var ids []string
			for id := range rr {
				ids = append(ids, id)
			}

			sort.Strings(ids)

			for _, id := range ids {
				m.trans[dst] = append(m.trans[dst], *rr[id])
			}
		}
	}
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return string(b)
}
