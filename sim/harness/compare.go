package main

import (
	"errors"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// viol is a broken expectation: class groups what is the same failure.
type viol struct{ class, msg string }

func v(class, f string, a ...any) *viol {
	return &viol{class: class, msg: fmt.Sprintf(f, a...)}
}

func ended(r *Result) string {
	return fmt.Sprintf("end=%s exit=%d %s; stderr: %s", r.Out.End, r.Out.Exit, r.Out.Message, tailOf(r.Out.Stderr))
}

func tailOf(b []byte) string {
	if len(b) > 600 {
		b = b[len(b)-600:]
	}

	return string(b)
}

// success expects a run that reports success.
func success(r *Result) *viol {
	if r.Out.End != "exit" {
		return v("end:"+r.Out.End, "run did not end normally: %s", ended(r))
	}

	if r.Out.Exit != 0 {
		return v("exit", "run failed: %s", ended(r))
	}

	return nil
}

// colMap finds the column of the table for every expected column.
type colMap struct {
	pos     []int // Expected column to position, -1 is missing.
	extra   []string
	missing []*mcol
	dup     []string
}

func (m *Model) match(head []string) colMap {
	o := &m.c.O
	at := map[string]int{}
	res := colMap{}

	for i, h := range head {
		k := o.ck(h)
		if _, ok := at[k]; ok {
			res.dup = append(res.dup, h)
		}

		at[k] = i
	}

	for _, c := range m.cols {
		k := o.ck(c.name)
		p, ok := at[k]

		if !ok {
			p = -1

			if !c.optional {
				res.missing = append(res.missing, c)
			}
		} else {
			delete(at, k)
		}

		res.pos = append(res.pos, p)
	}

	for k := range at {
		res.extra = append(res.extra, head[at[k]])
	}

	sort.Strings(res.extra)

	return res
}

func cellOK(o *Opts, want mcell, got string) bool {
	if want.opt && got == "" {
		return true
	}

	if !want.set || want.null {
		return got == ""
	}

	if want.tree != nil {
		if o.FieldLimit > 0 {
			return len(got) <= o.FieldLimit
		}

		j, err := parseJSON(got)

		return err == nil && sameJSON(want.tree, j)
	}

	if want.sub {
		return strings.Contains(got, want.text)
	}

	return got == want.text
}

func wantText(w mcell) string {
	switch {
	case !w.set:
		return "(absent)"
	case w.null:
		return "(null)"
	case w.tree != nil:
		return clip(w.tree.String())
	}

	return fmt.Sprintf("%q", clip(w.text))
}

// checkHeader compares the set of columns.
func (m *Model) checkHeader(t *table) *viol {
	cm := m.match(t.head)

	switch {
	case len(cm.dup) > 0:
		return v("dupcol", "columns appear twice: %q", clipAll(cm.dup))
	case len(cm.missing) > 0:
		return v("misscol", "column for key %q is missing, header has %q", clip(cm.missing[0].name), clipAll(t.head))
	case len(cm.extra) > 0:
		return v("extracol", "column %q is not expected", clip(cm.extra[0]))
	}

	return nil
}

func clipAll(s []string) string { return clip(fmt.Sprint(s)) }

// checkRows compares number, width and order of rows.
func (m *Model) checkRows(t *table) *viol {
	if len(m.cols) > 0 && len(t.head) > 0 {
		for i, r := range t.rows {
			if len(r) != len(t.head) {
				return v("width", "row %d has %d fields, header has %d", i+1, len(r), len(t.head))
			}
		}
	}

	cm := m.match(t.head)
	idx := m.colIdx()
	n := len(t.rows)

	if len(m.lines) < n {
		n = len(m.lines)
	}

	// The id (or sequence number) tells which line a row is from.
	for j, c := range m.cols {
		if cm.pos[j] < 0 || (c.canon != ".id" && c.canon != "._sequence") {
			continue
		}

		for i := 0; i < n; i++ {
			w := m.rowIdx(m.lines[i], idx)[j]
			if !cellOK(&m.c.O, w, t.rows[i][cm.pos[j]]) {
				return v("order", "row %d has %s %q, line %d of the window has %s: rows are missing, repeated or out of order (%d rows for %d lines)",
					i+1, c.name, clip(t.rows[i][cm.pos[j]]), i+1, wantText(w), len(t.rows), len(m.lines))
			}
		}
	}

	if len(t.rows) != len(m.lines) {
		return v("rowcount", "%d rows for %d lines", len(t.rows), len(m.lines))
	}

	return nil
}

// checkCells compares every cell of rows that exist.
func (m *Model) checkCells(t *table) *viol {
	cm := m.match(t.head)
	idx := m.colIdx()

	for i, l := range m.lines {
		if i >= len(t.rows) {
			return v("rowcount", "row of line %d is missing (%d rows for %d lines)", i+1, len(t.rows), len(m.lines))
		}

		w := m.rowIdx(l, idx)

		for j, c := range m.cols {
			p := cm.pos[j]

			if p < 0 {
				if w[j].set && !w[j].null && !c.optional {
					return v("lost", "line %d has %s at %q, there is no such column", i+1, wantText(w[j]), clip(c.name))
				}

				continue
			}

			if p >= len(t.rows[i]) {
				return v("width", "row %d has %d fields", i+1, len(t.rows[i]))
			}

			if !cellOK(&m.c.O, w[j], t.rows[i][p]) {
				return v("cell", "row %d column %q holds %q, its line has %s", i+1, clip(c.name), clip(t.rows[i][p]), wantText(w[j]))
			}
		}
	}

	return nil
}

// checkTable compares everything of the main table.
func (m *Model) checkTable(t *table) *viol {
	if x := m.checkHeader(t); x != nil {
		return x
	}

	if x := m.checkRows(t); x != nil {
		return x
	}

	return m.checkCells(t)
}

// transposedName is the file of a transposed table.
func transposedName(base, dst string) string {
	dir, fn := path.Split(base)
	ext := path.Ext(fn)

	return path.Join(dir, strings.TrimSuffix(fn, ext)+"_"+dst+ext)
}

// tcolNames lists expected value columns of a transposed table.
func (m *Model) tcolNames(dst string) []string {
	var res []string

	for n, kinds := range m.tcols[dst] {
		if lub(kinds, kinds['J']) != "" {
			res = append(res, n)
		}
	}

	sort.Strings(res)

	return res
}

// checkTransposedTable compares rows of a transposed table. The cells are compared with eq.
func (m *Model) checkTransposedTable(dst string, head []string, rows [][]any, eq func(want mcell, got any) bool) *viol {
	o := &m.c.O
	at := map[string]int{}

	for i, h := range head {
		h = o.ck(h)
		if _, ok := at[h]; ok {
			return v("tdupcol", "table %s: column %q appears twice", dst, h)
		}

		at[h] = i
	}

	// Names of the first two columns are up to the tool, as the other ones.
	if o.freeNames() && len(head) > 2 {
		head = append([]string{"._sequence", "._index"}, head[2:]...)

		for i, h := range head {
			at[o.ck(h)] = i
		}
	}

	seqName, idxName := o.ck(m.tname("._sequence")), o.ck(m.tname("._index"))
	want := append([]string{seqName, idxName}, m.tcolNames(dst)...)

	for _, n := range want {
		if _, ok := at[n]; !ok {
			return v("tmisscol", "table %s: column %q is missing, there are %q", dst, n, head)
		}
	}

	if len(head) != len(want) {
		return v("textracol", "table %s: columns %q, expected %q", dst, head, want)
	}

	exp := map[string]mtrow{}

	for _, r := range m.trans[dst] {
		exp[fmt.Sprintf("%d/%s", r.seq, r.idx)] = r
	}

	seen := map[string]bool{}
	last := int64(0)

	for _, r := range rows {
		id := o.ck(fmt.Sprintf("%v/%v", r[at[seqName]], r[at[idxName]]))

		w, ok := exp[id]
		if !ok {
			return v("textra", "table %s: row %v does not stand for any element (sequence/index %s)", dst, clip(fmt.Sprint(r)), id)
		}

		if seen[id] {
			return v("tdup", "table %s: element %s has two rows", dst, id)
		}

		seen[id] = true

		if w.seq < last {
			return v("torder", "table %s: row of line %d follows line %d", dst, w.seq, last)
		}

		last = w.seq

		for _, n := range want[2:] {
			if !eq(w.cells[n], r[at[n]]) {
				return v("tcell", "table %s: element %s column %q holds %q, the element has %s", dst, id, n, clip(dbText(r[at[n]])), wantText(w.cells[n]))
			}
		}
	}

	for _, id := range sortedKeys(exp) {
		if !seen[id] {
			return v("tlost", "table %s: element %s has no row (%d rows for %d elements)", dst, id, len(rows), len(exp))
		}
	}

	return nil
}

func anyRows(rows [][]string) [][]any {
	res := make([][]any, len(rows))

	for i, r := range rows {
		res[i] = make([]any, len(r))
		for j := range r {
			res[i][j] = r[j]
		}
	}

	return res
}

// checkCSVTransposed compares the companions of a CSV output.
func (m *Model) checkCSVTransposed(r *Result, name string) *viol {
	for _, dst := range sortedKeys(m.tcols) {
		if len(m.tcolNames(dst)) == 0 {
			continue
		}

		t, err := r.csvTable(transposedName(name, dst))
		if err != nil {
			return v("tfile", "transposed CSV table %s: %v", dst, err)
		}

		for i, row := range t.rows {
			if len(row) != len(t.head) {
				return v("twidth", "table %s: row %d has %d fields", dst, i+1, len(row))
			}
		}

		x := m.checkTransposedTable(dst, t.head, anyRows(t.rows), func(w mcell, got any) bool {
			return cellOK(&m.c.O, w, got.(string)) //nolint
		})
		if x != nil {
			return x
		}
	}

	return nil
}

// joinParts puts the part tables of a table together.
func joinParts(tabs map[string]*dbTable, name string) (*dbTable, *viol) {
	t := tabs[name]
	if t == nil {
		return nil, v("sqltable", "table %q does not exist", name)
	}

	if len(t.cols) == 0 || t.cols[0] != "_seq_id" {
		return nil, v("sqltable", "table %q has no _seq_id", name)
	}

	res := &dbTable{name: name, cols: append([]string{}, t.cols...), typs: append([]string{}, t.typs...)}

	for _, r := range t.rows {
		res.rows = append(res.rows, append([]any{}, r...))
	}

	for i := 2; ; i++ {
		p := tabs[fmt.Sprintf("%s_part%d", name, i)]
		if p == nil {
			return res, nil
		}

		if len(p.rows) != len(t.rows) {
			return nil, v("sqlparts", "table %q has %d rows, part %d has %d", name, len(t.rows), i, len(p.rows))
		}

		if len(p.cols) < 2 {
			return nil, v("sqlparts", "part %d of table %q has no columns", i, name)
		}

		res.cols = append(res.cols, p.cols[1:]...)
		res.typs = append(res.typs, p.typs[1:]...)

		for j, r := range p.rows {
			if fmt.Sprint(r[0]) != fmt.Sprint(t.rows[j][0]) {
				return nil, v("sqlparts", "row %d of table %q is %v, of part %d %v", j+1, name, t.rows[j][0], i, r[0])
			}

			res.rows[j] = append(res.rows[j], r[1:]...)
		}
	}
}

// pgTypes checks that values can be loaded into columns.
func (m *Model) pgTypes(tabs map[string]*pgTable) *viol {
	o := &m.c.O

	if o.MaxKeys > 0 {
		return nil // Types of lines that were not scanned are not known.
	}

	if o.Cfg.ConcatDelimiter != nil {
		for _, l := range m.lines {
			seen := map[string]bool{}

			for _, e := range l.evs {
				if seen[e.key] && e.kind != 'o' && e.kind != 'a' {
					return nil // Values of a repeated key are joined.
				}

				seen[e.key] = true
			}
		}
	}

	for _, n := range sortedKeys(tabs) {
		t := tabs[n]

		for j, ty := range t.typs {
			w, _, _ := strings.Cut(strings.ToUpper(ty), " ")

			for i, r := range t.rows {
				if j >= len(r) || r[j] == "" {
					continue
				}

				ok := true

				switch w {
				case "INT8", "BIGINT", "INTEGER", "INT":
					_, err := strconv.ParseInt(r[j], 10, 64)
					ok = err == nil
				case "FLOAT8", "DOUBLE", "REAL":
					_, err := strconv.ParseFloat(r[j], 64)
					ok = err == nil || errors.Is(err, strconv.ErrRange)
				case "BOOL", "BOOLEAN":
					ok = r[j] == "true" || r[j] == "false" || r[j] == "t" || r[j] == "f"
				}

				if !ok {
					return v("pgtype", "PostgreSQL: table %q row %d has %q in column %q of type %s", n, i+1, clip(r[j]), t.cols[j], ty)
				}
			}
		}
	}

	return nil
}

// pgAsDB converts tables of a dump.
func pgAsDB(in map[string]*pgTable) map[string]*dbTable {
	res := map[string]*dbTable{}

	for n, t := range in {
		res[n] = &dbTable{name: n, cols: t.cols, typs: t.typs, rows: anyRows(t.rows)}
	}

	return res
}

// dbCellOK compares a database value with what the line has.
func dbCellOK(o *Opts, want mcell, got any) bool {
	if want.opt && got == nil {
		return true
	}

	if !want.set || want.null {
		return got == nil
	}

	if want.tree != nil {
		s, ok := got.(string)

		return ok && cellOK(o, want, s)
	}

	if want.sub {
		s, ok := got.(string)

		return ok && strings.Contains(s, want.text)
	}

	return sameText(got, want.text, false)
}

// pgCellOK compares a dump cell, where an empty field is NULL or an empty string.
func pgCellOK(o *Opts, want mcell, got any) bool {
	s, ok := got.(string)

	return ok && cellOK(o, want, s)
}

func isFloat(v any) bool {
	_, ok := v.(float64)

	return ok
}

func isInt64(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)

	return err == nil
}

// pgTimes checks that columns of configured times, and only they, are declared to hold times.
func (m *Model) pgTimes(tabs map[string]*pgTable) *viol {
	o := &m.c.O

	if o.MaxKeys > 0 || o.Cfg.ConcatDelimiter != nil {
		return nil
	}

	name := o.Table
	if name == "" {
		name = "flatjsonl"
	}

	t, x := joinParts(pgAsDB(tabs), name)
	if x != nil {
		return x
	}

	cm := m.match(t.cols[1:])

	for j, c := range m.cols {
		p := cm.pos[j]
		if p < 0 || c.typ != "string" || len(c.keys) != 1 || c.constV != nil {
			continue
		}

		f, ok := "", false
		for k := range c.keys {
			f, ok = o.Cfg.ParseTime[k]
		}

		if ok && f == "RAW" {
			continue
		}

		if is := strings.HasPrefix(strings.ToUpper(t.typs[p+1]), "TIMESTAMP"); is != ok {
			return v("pgtime", "PostgreSQL: column %q has type %s, a time layout for it: %v", c.name, t.typs[p+1], ok)
		}
	}

	return nil
}

// declared checks that columns of numbers are declared to hold numbers, and whole numbers for
// integers.
func (m *Model) declared(kind string, t *dbTable, cm colMap) *viol {
	o := &m.c.O

	if o.MaxKeys > 0 || o.Cfg.ConcatDelimiter != nil {
		return nil // Types of lines that were not scanned are not known, joined values are texts.
	}

	for j, c := range m.cols {
		p := cm.pos[j]
		if p < 0 || c.constV != nil {
			continue
		}

		timed := false
		for k := range c.keys {
			_, ok := o.Cfg.ParseTime[k]
			timed = timed || ok
		}

		if timed {
			continue
		}

		var words []string

		switch c.typ {
		case "int":
			words = []string{"INT", "NUMERIC", "DECIMAL"}
		case "float":
			words = []string{"REAL", "FLOA", "DOUB", "NUMERIC", "DECIMAL"}
		case "bool":
			words = []string{"INT", "BOOL", "NUMERIC"}
		default:
			continue
		}

		ok, ty := false, strings.ToUpper(t.typs[p+1])
		for _, w := range words {
			ok = ok || strings.Contains(ty, w)
		}

		if !ok {
			return v("sqltype", "%s: column %q of type %s is declared as %q", kind, c.name, c.typ, t.typs[p+1])
		}
	}

	return nil
}

// checkDB compares all tables of a database or dump with the model.
func (m *Model) checkDB(kind string, tabs map[string]*dbTable, eq func(*Opts, mcell, any) bool) *viol {
	o := &m.c.O
	name := o.Table

	if name == "" {
		name = "flatjsonl"
	}

	t, x := joinParts(tabs, name)
	if x != nil {
		x.msg = kind + ": " + x.msg

		return x
	}

	cm := m.match(t.cols[1:])

	switch {
	case len(cm.dup) > 0:
		return v("sqldupcol", "%s: columns appear twice: %q", kind, cm.dup)
	case len(cm.missing) > 0:
		return v("sqlmisscol", "%s: no column for %q", kind, cm.missing[0].name)
	case len(cm.extra) > 0:
		return v("sqlextracol", "%s: unexpected column %q", kind, cm.extra[0])
	}

	if x := m.declared(kind, t, cm); x != nil {
		return x
	}

	if len(t.rows) != len(m.lines) {
		return v("sqlrows", "%s: %d rows for %d lines", kind, len(t.rows), len(m.lines))
	}

	idx := m.colIdx()

	for i, l := range m.lines {
		r := t.rows[i]

		if len(r) != len(t.cols) {
			return v("sqlwidth", "%s: row %d has %d values", kind, i+1, len(r))
		}

		if fmt.Sprint(r[0]) != fmt.Sprint(l.seq) {
			return v("sqlseq", "%s: row %d has _seq_id %v", kind, i+1, r[0])
		}

		w := m.rowIdx(l, idx)

		for j, c := range m.cols {
			p := cm.pos[j]

			if p >= 0 && c.typ == "int" && o.MaxKeys == 0 && w[j].set && isFloat(r[p+1]) && isInt64(w[j].text) {
				return v("sqlcell", "%s: row %d column %q of integers holds floating point %v, its line has %s", kind, i+1, c.name, r[p+1], wantText(w[j]))
			}

			if p >= 0 && !eq(o, w[j], r[p+1]) {
				return v("sqlcell", "%s: row %d column %q holds %q, its line has %s", kind, i+1, c.name, clip(dbText(r[p+1])), wantText(w[j]))
			}
		}
	}

	for _, dst := range sortedKeys(m.tcols) {
		if len(m.tcolNames(dst)) == 0 {
			continue
		}

		t, x := joinParts(tabs, name+"_"+dst)
		if x != nil {
			x.msg = kind + ": " + x.msg

			return x
		}

		rows := make([][]any, len(t.rows))

		for i, r := range t.rows {
			if len(r) != len(t.cols) {
				return v("sqlwidth", "%s: table %s: row %d has %d values", kind, dst, i+1, len(r))
			}

			rows[i] = r[1:]
		}

		seq := -1

		for i, c := range t.cols {
			if c == m.tname("._sequence") {
				seq = i
			}
		}

		for i, r := range t.rows {
			if seq >= 0 && fmt.Sprint(r[0]) != fmt.Sprint(r[seq]) {
				return v("sqltseq", "%s: table %s: row %d has _seq_id %v and sequence %v", kind, dst, i+1, r[0], r[seq])
			}
		}

		x = m.checkTransposedTable(dst, t.cols[1:], rows, func(w mcell, got any) bool { return eq(o, w, got) })
		if x != nil {
			x.msg = kind + ": " + x.msg

			return x
		}
	}

	return nil
}

// rawLine is the RAW row of a CSV row.
func rawText(rows [][]string, delim string) string {
	var b strings.Builder

	for _, r := range rows {
		b.WriteString(strings.Join(r, delim))
		b.WriteByte('\n')
	}

	return b.String()
}

// texts tells whether all values are valid texts, values that are decoded from others may not be.
func (c *Case) texts() bool {
	if c.O.Extract || len(c.O.Cfg.ExtractValuesRegex) > 0 || c.O.Prefix != "" || c.O.Cfg.MatchLinePrefix != "" {
		return false
	}

	for i := range c.In {
		if !utf8.Valid(c.In[i].Plain()) {
			return false
		}
	}

	return true
}

// checkOutputs compares every output of a run with the model.
func (m *Model) checkOutputs(r *Result) *viol {
	o := &m.c.O

	var t *table

	if o.CSV != "" {
		var err error

		t, err = r.csvTable(o.CSV)
		if err != nil {
			return v("csv", "CSV output: %v", err)
		}

		if x := m.checkTable(t); x != nil {
			return x
		}

		if x := m.checkCSVTransposed(r, o.CSV); x != nil {
			return x
		}
	}

	if o.SQLite != "" {
		tabs, err := r.sqliteTables(o.SQLite)
		if err != nil {
			return v("sqlite", "SQLite output: %v", err)
		}

		if x := m.checkDB("SQLite", tabs, dbCellOK); x != nil {
			return x
		}
	}

	if o.PG != "" {
		b, err := r.plain(o.PG)
		if err != nil {
			return v("pg", "PostgreSQL dump: %v", err)
		}

		tabs, err := parsePG(b)
		if err != nil {
			return v("pgform", "PostgreSQL dump: %v", err)
		}

		if !utf8.Valid(b) && m.c.texts() {
			return v("pgutf8", "PostgreSQL dump: not a valid UTF-8 text")
		}

		if x := m.pgTypes(tabs); x != nil {
			return x
		}

		if x := m.checkDB("PostgreSQL dump", pgAsDB(tabs), pgCellOK); x != nil {
			return x
		}

		if x := m.pgTimes(tabs); x != nil {
			return x
		}
	}

	if o.Raw != "" {
		return m.checkRaw(r, t)
	}

	return nil
}

// checkRaw compares the RAW output with the rows of the CSV output of the same run, or
// with the model when the order of columns is known.
func (m *Model) checkRaw(r *Result, t *table) *viol {
	o := &m.c.O

	b, err := r.plain(o.Raw)
	if err != nil {
		return v("raw", "RAW output: %v", err)
	}

	switch {
	case t != nil:
		want := rawText(t.rows, o.RawDelim)

		if want != string(b) {
			return v("rawdiff", "RAW output differs from the CSV rows at %s", diffAt(want, string(b)))
		}

		for _, dst := range sortedKeys(m.tcols) {
			if len(m.tcolNames(dst)) == 0 {
				continue
			}

			ct, err := r.csvTable(transposedName(o.CSV, dst))
			if err != nil {
				return v("tfile", "transposed CSV table %s: %v", dst, err)
			}

			b, err := r.plain(transposedName(o.Raw, dst))
			if err != nil {
				return v("rawtfile", "transposed RAW table %s: %v", dst, err)
			}

			if x := sameRawTransposed(m, dst, ct, string(b)); x != nil {
				return x
			}
		}
	case !m.scanned || len(m.cols) == 1:
		var rows [][]string

		idx := m.colIdx()

		for _, l := range m.lines {
			var row []string
			for _, c := range m.rowIdx(l, idx) {
				s := c.text
				if c.null {
					s = ""
				}

				row = append(row, s)
			}

			rows = append(rows, row)
		}

		if want := rawText(rows, o.RawDelim); want != string(b) {
			return v("rawdiff", "RAW output is wrong at %s", diffAt(want, string(b)))
		}
	default:
		n := strings.Count(string(b), "\n")
		if n != len(m.lines) {
			return v("rawrows", "RAW output has %d rows for %d lines", n, len(m.lines))
		}
	}

	return nil
}

// sameRawTransposed compares transposed RAW rows with those of the CSV companion. Each file may
// have its own order of columns: rows hold the same multiset of values.
func sameRawTransposed(m *Model, dst string, ct *table, raw string) *viol {
	o := &m.c.O

	if want := rawText(ct.rows, o.RawDelim); want == raw {
		return nil
	}

	if o.RawDelim == "" {
		return v("rawtdiff", "transposed RAW table %s differs from CSV", dst)
	}

	lines := strings.Split(strings.TrimSuffix(raw, "\n"), "\n")
	if raw == "" {
		lines = nil
	}

	if len(lines) != len(ct.rows) {
		return v("rawtdiff", "transposed RAW table %s has %d rows, CSV has %d", dst, len(lines), len(ct.rows))
	}

	var a, b []string

	for i := range lines {
		x := strings.Split(lines[i], o.RawDelim)
		y := append([]string{}, ct.rows[i]...)

		if len(x) < 2 || len(y) < 2 {
			return v("rawtdiff", "transposed RAW table %s: row %q", dst, lines[i])
		}

		sort.Strings(x[2:])
		sort.Strings(y[2:])
		a = append(a, strings.Join(x, "\x00"))
		b = append(b, strings.Join(y, "\x00"))
	}

	sort.Strings(a)
	sort.Strings(b)

	for i := range a {
		if a[i] != b[i] {
			return v("rawtdiff", "transposed RAW table %s: %q is not a CSV row (%q)", dst, clip(a[i]), clip(b[i]))
		}
	}

	return nil
}

func diffAt(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}

	from := n - 40
	if from < 0 {
		from = 0
	}

	cut := func(s string) string {
		e := n + 60
		if e > len(s) {
			e = len(s)
		}

		if from > len(s) {
			return ""
		}

		return s[from:e]
	}

	return fmt.Sprintf("byte %d: expected %q, got %q", n, cut(a), cut(b))
}
