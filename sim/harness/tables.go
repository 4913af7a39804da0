package main

import (
	"bytes"
	"database/sql"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"compress/gzip"
	"io"

	"github.com/klauspost/compress/zstd"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// table is what an output holds.
type table struct {
	head []string
	rows [][]string
}

// parseCSV is a strict reader: an empty line is a record with one empty field.
func parseCSV(b []byte) ([][]string, error) {
	recs, rest, err := parseCSVPrefix(b)
	if err != nil {
		return nil, err
	}

	if len(rest) > 0 {
		return nil, fmt.Errorf("unterminated record %q", clip(string(rest)))
	}

	return recs, nil
}

// parseCSVPrefix returns complete records and what is left of an incomplete one.
func parseCSVPrefix(b []byte) (recs [][]string, rest []byte, err error) {
	var (
		rec   []string
		field []byte
		start int
	)

	i := 0

	for i < len(b) {
		field = field[:0]

		if b[i] == '"' {
			i++

			closed := false

			for i < len(b) {
				if b[i] == '"' {
					if i+1 < len(b) && b[i+1] == '"' {
						field = append(field, '"')
						i += 2

						continue
					}

					closed = true
					i++

					break
				}

				field = append(field, b[i])
				i++
			}

			if !closed || i >= len(b) {
				return recs, b[start:], nil
			}

			if b[i] != ',' && b[i] != '\n' {
				return recs, b[start:], fmt.Errorf("garbage after quoted field: %q", clip(string(b[start:])))
			}
		} else {
			for i < len(b) && b[i] != ',' && b[i] != '\n' {
				if b[i] == '"' {
					return recs, b[start:], fmt.Errorf("bare quote: %q", clip(string(b[start:])))
				}

				field = append(field, b[i])
				i++
			}

			if i >= len(b) {
				return recs, b[start:], nil
			}
		}

		rec = append(rec, string(field))

		if b[i] == '\n' {
			recs = append(recs, rec)
			rec = nil
			i++
			start = i

			continue
		}

		i++

		if i >= len(b) {
			return recs, b[start:], nil
		}

		// A trailing comma is followed by one more field, possibly empty.
		if b[i] == '\n' {
			rec = append(rec, "")
			recs = append(recs, rec)
			rec = nil
			i++
			start = i
		}
	}

	return recs, b[start:], nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}

	return s
}

// decode undoes the compression given by the file name.
func decode(name string, b []byte) ([]byte, error) {
	switch {
	case strings.HasSuffix(name, ".gz"):
		g, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}

		return io.ReadAll(g)
	case strings.HasSuffix(name, ".zst"):
		z, err := zstd.NewReader(bytes.NewReader(b), zstd.WithDecoderConcurrency(1))
		if err != nil {
			return nil, err
		}

		defer z.Close()

		return io.ReadAll(z)
	}

	return b, nil
}

var errNoFile = errors.New("no file")

func (r *Result) plain(name string) ([]byte, error) {
	if !r.Exists(name) {
		return nil, errNoFile
	}

	return decode(name, r.File(name))
}

// csvTable reads a CSV output.
func (r *Result) csvTable(name string) (*table, error) {
	b, err := r.plain(name)
	if err != nil {
		return nil, err
	}

	recs, err := parseCSV(b)
	if err != nil {
		return nil, err
	}

	if len(recs) == 0 {
		return nil, errors.New("no header")
	}

	return &table{head: recs[0], rows: recs[1:]}, nil
}

// dbCell is a database value: nil, int64, float64 or string.
type dbTable struct {
	name string
	cols []string
	typs []string
	rows [][]any
}

func (r *Result) sqliteTables(name string) (map[string]*dbTable, error) {
	p, ok := r.DBs[simrt.Clean(name)]
	if !ok {
	}

	if !ok {
		return nil, errNoFile
	}

	db, err := sql.Open("sqlite", "file:"+p+"?mode=ro")
	if err != nil {
		return nil, err
	}

	defer db.Close()

	names, err := queryStrings(db, "select name from sqlite_master where type='table' order by rowid")
	if err != nil {
		return nil, err
	}

	res := map[string]*dbTable{}

	for _, n := range names {
		t := &dbTable{name: n}

		rows, err := db.Query(`select name, type from pragma_table_info(?)`, n)
		if err != nil {
			return nil, err
		}

		for rows.Next() {
			var c, ty string
			if err := rows.Scan(&c, &ty); err != nil {
				return nil, err
			}

			t.cols = append(t.cols, c)
			t.typs = append(t.typs, ty)
		}

		rows.Close()

		rows, err = db.Query(`select * from "` + strings.ReplaceAll(n, `"`, `""`) + `" order by rowid`)
		if err != nil {
			return nil, err
		}

		for rows.Next() {
			row := make([]any, len(t.cols))
			ptr := make([]any, len(t.cols))

			for i := range row {
				ptr[i] = &row[i]
			}

			if err := rows.Scan(ptr...); err != nil {
				return nil, err
			}

			for i := range row {
				if b, ok := row[i].([]byte); ok {
					row[i] = string(b)
				}
			}

			t.rows = append(t.rows, row)
		}

		err = rows.Err()
		rows.Close()

		if err != nil {
			return nil, err
		}

		res[n] = t
	}

	return res, nil
}

func queryStrings(db *sql.DB, q string) ([]string, error) {
	rows, err := db.Query(q)
	if err != nil {
		return nil, err
	}

	defer rows.Close()

	var res []string

	for rows.Next() {
		var s string
		if err := rows.Scan(&s); err != nil {
			return nil, err
		}

		res = append(res, s)
	}

	return res, rows.Err()
}

// pgTable is a table of a dump.
type pgTable struct {
	cols []string
	typs []string
	rows [][]string
}

// parsePG reads a dump strictly.
func parsePG(b []byte) (map[string]*pgTable, error) {
	res := map[string]*pgTable{}
	s := string(b)

	line := func() (string, bool) {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return "", false
		}

		l := s[:i]
		s = s[i+1:]

		return l, true
	}

	for len(s) > 0 {
		l, ok := line()
		if !ok {
			return nil, fmt.Errorf("incomplete statement %q", clip(s))
		}

		switch {
		case strings.TrimSpace(l) == "":
		case strings.HasPrefix(l, "SELECT '") && strings.HasSuffix(l, "' AS status;"):
		case strings.HasPrefix(l, "CREATE TABLE "):
			name, rest, err := pgIdent(strings.TrimPrefix(l, "CREATE TABLE "))
			if err != nil || strings.TrimSpace(rest) != "(" {
				return nil, fmt.Errorf("bad create %q", l)
			}

			if res[name] != nil {
				return nil, fmt.Errorf("table %q created twice", name)
			}

			t := &pgTable{}
			last := false

			for {
				// Column names may hold line feeds, they are not generated.
				l, ok := line()
				if !ok {
					return nil, fmt.Errorf("incomplete create of %q", name)
				}

				tl := strings.TrimSpace(l)

				if tl == "" {
					continue
				}

				if tl == ");" {
					break
				}

				if last {
					return nil, fmt.Errorf("missing comma before %q in %q", l, name)
				}

				id, rest, err := pgIdent(tl)
				if err != nil {
					return nil, fmt.Errorf("bad column %q in %q", l, name)
				}

				last = !strings.HasSuffix(rest, ",")
				ty := strings.TrimSpace(strings.TrimSuffix(rest, ","))

				if ty == "" {
					return nil, fmt.Errorf("column %q of %q has no type", id, name)
				}

				for _, c := range t.cols {
					if c == id {
						return nil, fmt.Errorf("duplicate column %q in %q", id, name)
					}
				}

				t.cols = append(t.cols, id)
				t.typs = append(t.typs, ty)
			}

			if !last {
				return nil, fmt.Errorf("trailing comma in create of %q", name)
			}

			res[name] = t
		case strings.HasPrefix(l, "COPY "):
			name, rest, err := pgIdent(strings.TrimPrefix(l, "COPY "))
			if err != nil {
				return nil, fmt.Errorf("bad copy %q", clip(l))
			}

			t := res[name]
			if t == nil {
				return nil, fmt.Errorf("copy into table %q that is not created", name)
			}

			rest = strings.TrimSpace(rest)

			if !strings.HasPrefix(rest, "(") {
				return nil, fmt.Errorf("bad copy %q", clip(l))
			}

			rest = rest[1:]

			var pos []int

			for {
				var id string

				id, rest, err = pgIdent(rest)
				if err != nil {
					return nil, fmt.Errorf("bad copy %q", clip(l))
				}

				p := -1

				for i, c := range t.cols {
					if c == id {
						p = i
					}
				}

				if p < 0 {
					return nil, fmt.Errorf("copy into %q names column %q that does not exist", name, id)
				}

				for _, q := range pos {
					if q == p {
						return nil, fmt.Errorf("copy into %q names column %q twice", name, id)
					}
				}

				pos = append(pos, p)

				if strings.HasPrefix(rest, ",") {
					rest = strings.TrimSpace(rest[1:])

					continue
				}

				break
			}

			if !strings.HasPrefix(rest, ")") || !strings.Contains(rest, "FORMAT csv") || !strings.HasSuffix(rest, ";") {
				return nil, fmt.Errorf("bad copy %q", clip(l))
			}

			for {
				if strings.HasPrefix(s, "\\.\n") {
					s = s[3:]

					break
				}

				rec, n, err := oneRecord(s)
				if err != nil {
					return nil, fmt.Errorf("copy data of %q: %w", name, err)
				}

				s = s[n:]

				if len(rec) != len(pos) {
					return nil, fmt.Errorf("copy data of %q has %d fields for %d columns: %q", name, len(rec), len(pos), clip(fmt.Sprint(rec)))
				}

				row := make([]string, len(t.cols))
				for i, p := range pos {
					row[p] = rec[i]
				}

				t.rows = append(t.rows, row)
			}
		default:
			return nil, fmt.Errorf("unexpected %q", clip(l))
		}
	}

	return res, nil
}

func pgIdent(s string) (id, rest string, err error) {
	if !strings.HasPrefix(s, `"`) {
		i := 0
		for i < len(s) && (s[i] == '_' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= '0' && s[i] <= '9') {
			i++
		}

		if i == 0 {
			return "", "", errors.New("no identifier")
		}

		return s[:i], s[i:], nil
	}

	var b strings.Builder

	for i := 1; i < len(s); i++ {
		if s[i] == '"' {
			if i+1 < len(s) && s[i+1] == '"' {
				b.WriteByte('"')
				i++

				continue
			}

			return b.String(), s[i+1:], nil
		}

		b.WriteByte(s[i])
	}

	return "", "", errors.New("unterminated identifier")
}

// oneRecord parses the first CSV record of s.
func oneRecord(s string) ([]string, int, error) {
	i := 0
	q := false

	for ; i < len(s); i++ {
		if s[i] == '"' {
			q = !q
		}

		if s[i] == '\n' && !q {
			recs, err := parseCSV([]byte(s[:i+1]))
			if err != nil {
				return nil, 0, err
			}

			return recs[0], i + 1, nil
		}
	}

	return nil, 0, fmt.Errorf("incomplete record %q", clip(s))
}

// sameText tells whether a database value stands for the text of a cell.
func sameText(db any, text string, null bool) bool {
	switch v := db.(type) {
	case nil:
		return null
	case string:
		if null {
			return false
		}

		return v == text
	case int64, float64:
		if null {
			return false
		}

		f, err := strconv.ParseFloat(text, 64)
		if err != nil {
			return false
		}

		if n, ok := v.(int64); ok {
			if m, err := strconv.ParseInt(text, 10, 64); err == nil {
				return n == m
			}

			return float64(n) == f
		}

		g := v.(float64) //nolint

		return f == g || math.Abs(f-g) <= 1e-14*math.Abs(f)
	}

	return false
}

func dbText(v any) string {
	if v == nil {
		return "NULL"
	}

	return fmt.Sprint(v)
}

func sortedKeys[V any](m map[string]V) []string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, k)
	}

	sort.Strings(res)

	return res
}
