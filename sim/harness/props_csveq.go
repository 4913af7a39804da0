package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// csvText writes records in some style.
func csvText(r *rng, recs [][]string, quote float64) string {
	var b strings.Builder

	for _, rec := range recs {
		for i, f := range rec {
			if i > 0 {
				b.WriteByte(',')
			}

			if f == "" && len(rec) == 1 || strings.ContainsAny(f, ",\"\n\r") || r.p(quote) {
				b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
			} else {
				b.WriteString(f)
			}
		}

		b.WriteByte('\n')
	}

	return b.String()
}

func asFile(name, text string) InFile {
	f := InFile{Name: name}

	if !strings.HasSuffix(text, "\n") {
		f.NoEOL = true
	} else {
		text = text[:len(text)-1]
	}

	if text == "" && f.NoEOL {
		f.NoEOL = false

		return f
	}

	f.Lines = strings.Split(text, "\n")

	return f
}

// genC17 makes two tables that are equal or nearly so.
func genC17(r *rng, idx int, x *ctx) *Case {
	c := &Case{Tool: "csvequals", P: params(r), Shape: "equal"}

	cols := r.between(1, 6)
	rows := r.between(0, 12)

	if r.p(0.05) {
		rows = r.between(100, 1500)
	}

	head := []string{}
	for i := 0; i < cols; i++ {
		head = append(head, pick(r, "c", "Col ", "x,", "é", `q"`, "")+fmt.Sprint(i))
	}

	if r.p(0.05) {
		head[0] = ""
	}

	if r.p(0.08) && cols > 1 {
		head[r.n(cols)] = head[r.n(cols)] // May share a name.
	}

	a := [][]string{head}

	for i := 0; i < rows; i++ {
		var rec []string

		for j := range head {
			rec = append(rec, pick(r, "", fmt.Sprint(i), fmt.Sprint(j), "same", "same", "a,b", `say "hi"`, "two\nlines", pick(r, "k|l", "k;l", "k\tl", "1,2,3", "k\x00l", "k\x1fl", "k:l", "k=l"), " sp ", "#note", "1.0", "NULL", fmt.Sprintf("v%d_%d", i, j)))
		}

		a = append(a, rec)
	}

	// The same table with its columns in another order.
	perm := make([]int, cols)
	for i := range perm {
		perm[i] = i
	}

	if r.p(0.7) {
		for i := range perm {
			j := r.n(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}

	b := make([][]string, len(a))
	for i := range a {
		b[i] = make([]string, cols)
		for j := range perm {
			b[i][j] = a[i][perm[j]]
		}
	}

	n := 1
	if r.p(0.2) {
		n = 2
	}

	if r.p(0.6) {
		for ; n > 0; n-- {
			b = change(r, c, b)
		}
	}

	if r.p(0.5) {
		a, b = b, a
	}

	if r.p(0.12) {
		raggedRows(r, c, a, b)
	}

	quote := pick(r, 0.0, 0, 0.3, 1)
	ta, tb := csvText(r, a, pick(r, 0.0, quote)), csvText(r, b, quote)

	if r.p(0.2) {
		ta = strings.TrimSuffix(ta, "\n")
	}

	if r.p(0.1) {
		tb = strings.TrimSuffix(tb, "\n")
	}

	if r.p(0.03) {
		tb = ""
		c.Shape = "empty"
	}

	c.In = []InFile{asFile("a.csv", ta), asFile("b.csv", tb)}

	for i := range c.In {
		if r.p(0.1) {
			c.In[i].CRLF = true
		}
	}

	if r.p(0.25) {
		i := r.n(2)
		c.Shape += "+fault"
		size := len(c.In[i].Stored())
		f := simrt.Fault{Kind: pick(r, "read", "read", "read", "open", "stat"), Path: c.In[i].Name, Err: pick(r, "EIO", "EACCES", "ENOENT"), Off: int64(r.n(size + 1)), Nth: 1}

		if f.Kind == "read" {
			f.Nth = 0
		}

		c.P.Faults = []simrt.Fault{f}
	}

	if r.p(0.05) {
		i := r.n(2)
		c.Shape = "missing"

		if r.p(0.5) {
			c.In[i].Missing = true
		} else {
			c.In[i].Dir = true
		}
	}

	return c
}

// raggedRows makes records short or long.
func raggedRows(r *rng, c *Case, a, b [][]string) {
	c.Shape = "ragged"
	both := r.p(0.5)

	for i := 1; i < len(a) && i < len(b); i++ {
		if !r.p(0.4) {
			continue
		}

		tabs := [][][]string{a, b}
		if !both {
			tabs = tabs[r.n(2):][:1]
		}

		for _, t := range tabs {
			rec := append([]string(nil), t[i]...)
			if r.p(0.7) && len(rec) > 1 {
				rec = rec[:len(rec)-1]
			} else {
				rec = append(rec, pick(r, "", "more"))
			}

			t[i] = rec
		}
	}
}

const cellSeps = ",|;\t\n\x00\x1f:="

// change makes tables differ.
func change(r *rng, c *Case, b [][]string) [][]string {
	if len(b[len(b)-1]) != len(b[0]) {
		return b
	}

	cols := len(b[0])

	switch k := r.n(10); k {
	case 9:
		if len(b) > 1 && cols > 1 {
			// The same characters are cut into cells at another place.
			c.Shape = "moved"
			i, j := 1+r.n(len(b)-1), r.n(cols-1)

			for n := 0; n < 20 && !strings.ContainsAny(b[i][j], cellSeps); n++ {
				i, j = 1+r.n(len(b)-1), r.n(cols-1)
			}

			v, w := b[i][j], b[i][j+1]

			switch at := strings.IndexAny(v, cellSeps); {
			case at >= 0:
				b[i][j], b[i][j+1] = v[:at], v[at+1:]+v[at:at+1]+w
			case v != "":
				b[i][j], b[i][j+1] = v[:len(v)-1], v[len(v)-1:]+w
			}
		}
	case 0, 1, 2:
		if len(b) > 1 {
			c.Shape = "cell"
			i := 1 + r.n(len(b)-1)

			if r.p(0.4) {
				i = len(b) - 1
			}

			j := r.n(cols)
			v := b[i][j]
			b[i][j] = pick(r, "", v+" ", strings.ToUpper(v), v+"x", "0"+v, " "+v, "\t"+v, "#"+v, v+"\n", v+".0", "+"+v, `"`+v+`"`, "'"+v+"'", v+"\u00a0",
				"NULL", "null", "\ufeff"+v, strings.TrimSpace(v), strings.ReplaceAll(v, " ", ""), v+","+v, v+"\x00")
		}
	case 3:
		c.Shape = "fewer"
		b = b[:len(b)-1]

		if len(b) == 0 {
			b = [][]string{{"x"}}
		}
	case 4:
		c.Shape = "more"
		b = append(b, append([]string(nil), b[len(b)-1]...))
	case 5:
		c.Shape = "header"
		j := r.n(cols)
		h := b[0][j]
		b[0][j] = pick(r, h+"x", h+" ", " "+h, "#"+h, strings.ToUpper(h), "\ufeff"+h)
	case 6:
		if len(b) > 1 && cols > 1 {
			c.Shape = "swapped"
			i := 1 + r.n(len(b)-1)
			b[i][0], b[i][1] = b[i][1], b[i][0]
		}
	case 7:
		if len(b) > 2 {
			c.Shape = "rows"
			i := 1 + r.n(len(b)-2)
			b[i], b[i+1] = b[i+1], b[i]
		}
	case 8:
		c.Shape = "column"

		if r.p(0.3) && cols > 1 {
			for i := range b {
				b[i] = b[i][:cols-1]
			}

			break
		}

		for i := range b {
			val := ""
			if i == 0 {
				val = "extra"
			}

			b[i] = append(b[i], val)
		}

		if r.p(0.3) && len(b) > 1 {
			c.Shape = "ragged"
			b[len(b)-1] = b[len(b)-1][:cols]
		}
	}

	return b
}

func readAllCSV(b []byte) ([][]string, error) {
	cr := csv.NewReader(bytes.NewReader(b))

	var res [][]string

	for {
		rec, err := cr.Read()
		if errors.Is(err, io.EOF) {
			return res, nil
		}

		if err != nil {
			return nil, err
		}

		res = append(res, rec)
	}
}

// sameTables is the documented comparison; ok is false when it is not defined: values of columns that share a name
// are the same in another order.
func sameTables(a, b [][]string) (same, ok bool) {
	if len(a) != len(b) {
		return false, true
	}

	ok = true

	for i := range a {
		ma, mb := map[string][]string{}, map[string][]string{}

		for j, s := range a[i] {
			ma[a[0][j]] = append(ma[a[0][j]], s)
		}

		for j, s := range b[i] {
			mb[b[0][j]] = append(mb[b[0][j]], s)
		}

		if len(ma) != len(mb) {
			return false, true
		}

		for _, k := range sortedKeys(ma) {
			va, vb := ma[k], mb[k]

			if slices.Equal(va, vb) {
				continue
			}

			slices.Sort(va)
			slices.Sort(vb)

			if !slices.Equal(va, vb) {
				return false, true
			}

			ok = false
		}
	}

	return true, ok
}

func checkC17(x *ctx, c *Case) *viol {
	if len(c.In) != 2 {
		return nil
	}

	r := x.main(c)

	if r.Out.End != "exit" {
		return v("end:"+r.Out.End, "comparison did not end: %s", ended(r))
	}

	a, errA := readAllCSV(c.In[0].Stored())
	b, errB := readAllCSV(c.In[1].Stored())
	broken := errA != nil || errB != nil || c.In[0].Missing || c.In[0].Dir || c.In[1].Missing || c.In[1].Dir
	same, defined := sameTables(a, b)

	claim := r.Out.Exit == 0 || strings.Contains(string(r.Out.Stdout)+string(r.Out.Stderr), "files are equal")

	switch {
	case broken && r.Out.Exit == 0:
		return v("claim", "a file is not readable as CSV (%v, %v), equality was claimed", errA, errB)
	case broken:
		return nil
	case (r.FS.Hit("read") || r.FS.Hit("open")) && r.Out.Exit == 0:
		return v("claim", "reading failed (%v), equality was claimed", r.Out.Fired)
	case r.FS.Hit("") && r.Out.Exit != 0:
		x.probe("failure reported")

		return nil
	case !defined:
		return nil
	case !same && claim:
		return v("claim", "files differ and equality was claimed: %s", ended(r))
	case same && r.Out.Exit != 0:
		return v("differ", "files are equal and a difference was claimed: %s", ended(r))
	}

	if same {
		x.probe("equal")
	} else {
		x.probe("different")
	}

	return nil
}

func init() {
	register(&property{id: "C17", gen: genC17, check: checkC17, rule: "Pairs of tables that are equal up to column order and quoting, or differ in one cell, row, column, header or width; any chunking of reads, failing opens and reads; the verdict is compared with an independent comparison."})
}
