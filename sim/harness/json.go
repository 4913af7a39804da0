package main

import (
	"errors"
	"strconv"
	"strings"
	"unicode/utf8"
)

// JV is a JSON value of the reference model: ordered, duplicates kept, numbers verbatim.
type JV struct {
	T byte // n, t, f, d (number), s, o, a.
	S string
	K []string
	V []*JV
}

var errJSON = errors.New("malformed")

type jparser struct {
	s string
	i int
}

// parseJSON reads one value, what follows it is ignored.
func parseJSON(s string) (*JV, error) {
	p := &jparser{s: s}
	p.ws()

	return p.value(0)
}

func (p *jparser) ws() {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case ' ', '\t', '\r', '\n':
			p.i++
		default:
			return
		}
	}
}

func (p *jparser) lit(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)

		return true
	}

	return false
}

func (p *jparser) value(depth int) (*JV, error) {
	if depth > 290 || p.i >= len(p.s) {
		return nil, errJSON
	}

	switch c := p.s[p.i]; {
	case c == '{':
		p.i++
		v := &JV{T: 'o'}

		p.ws()

		if p.lit("}") {
			return v, nil
		}

		for {
			p.ws()

			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return nil, errJSON
			}

			k, err := p.str()
			if err != nil {
				return nil, err
			}

			p.ws()

			if !p.lit(":") {
				return nil, errJSON
			}

			p.ws()

			e, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}

			v.K = append(v.K, k)
			v.V = append(v.V, e)

			p.ws()

			if p.lit(",") {
				continue
			}

			if p.lit("}") {
				return v, nil
			}

			return nil, errJSON
		}
	case c == '[':
		p.i++
		v := &JV{T: 'a'}

		p.ws()

		if p.lit("]") {
			return v, nil
		}

		for {
			p.ws()

			e, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}

			v.V = append(v.V, e)

			p.ws()

			if p.lit(",") {
				continue
			}

			if p.lit("]") {
				return v, nil
			}

			return nil, errJSON
		}
	case c == '"':
		s, err := p.str()

		return &JV{T: 's', S: s}, err
	case c == '-' || (c >= '0' && c <= '9'):
		return p.num()
	}

	switch {
	case p.lit("true"):
		return &JV{T: 't'}, nil
	case p.lit("false"):
		return &JV{T: 'f'}, nil
	case p.lit("null"):
		return &JV{T: 'n'}, nil
	}

	return nil, errJSON
}

func (p *jparser) digits() bool {
	n := p.i

	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		p.i++
	}

	return p.i > n
}

func (p *jparser) num() (*JV, error) {
	b := p.i

	p.lit("-")

	if !p.digits() {
		return nil, errJSON
	}

	if p.lit(".") && !p.digits() {
		return nil, errJSON
	}

	if p.lit("e") || p.lit("E") {
		if !p.lit("+") {
			p.lit("-")
		}

		if !p.digits() {
			return nil, errJSON
		}
	}

	// Whatever follows a value, "2021-01-01" is not the number 2021.
	if p.i < len(p.s) && strings.IndexByte("0123456789.+-eE", p.s[p.i]) >= 0 {
		return nil, errJSON
	}

	return &JV{T: 'd', S: p.s[b:p.i]}, nil
}

func (p *jparser) hex() (rune, bool) {
	if p.i+4 > len(p.s) {
		return 0, false
	}

	n, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
	if err != nil {
		return 0, false
	}

	p.i += 4

	return rune(n), true
}

func (p *jparser) str() (string, error) {
	p.i++

	var b strings.Builder

	for p.i < len(p.s) {
		c := p.s[p.i]

		switch {
		case c == '"':
			p.i++

			return b.String(), nil
		case c < 0x20:
			return "", errJSON
		case c == '\\':
			p.i++

			if p.i >= len(p.s) {
				return "", errJSON
			}

			e := p.s[p.i]
			p.i++

			switch e {
			case '"', '\\', '/':
				b.WriteByte(e)
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'u':
				r, ok := p.hex()
				if !ok {
					return "", errJSON
				}

				if r >= 0xd800 && r < 0xdc00 && p.lit("\\u") {
					r2, ok := p.hex()
					if !ok {
						return "", errJSON
					}

					r = (r-0xd800)<<10 + (r2 - 0xdc00) + 0x10000
				}

				b.WriteRune(r)
			default:
				return "", errJSON
			}
		default:
			b.WriteByte(c)
			p.i++
		}
	}

	return "", errJSON
}

// get returns a direct member.
func (v *JV) get(k string) *JV {
	for i := range v.K {
		if v.K[i] == k {
			return v.V[i]
		}
	}

	return nil
}

func (v *JV) add(k string, e *JV) {
	v.K = append(v.K, k)
	v.V = append(v.V, e)
}

func jstr(s string) *JV { return &JV{T: 's', S: s} }
func jnum(s string) *JV { return &JV{T: 'd', S: s} }
func jint(n int) *JV    { return &JV{T: 'd', S: strconv.Itoa(n)} }
func jobj() *JV         { return &JV{T: 'o'} }

// sameJSON compares two values exactly, numbers verbatim and members in order.
func sameJSON(a, b *JV) bool {
	if a.T != b.T || a.S != b.S || len(a.V) != len(b.V) || len(a.K) != len(b.K) {
		return false
	}

	for i := range a.K {
		if a.K[i] != b.K[i] {
			return false
		}
	}

	for i := range a.V {
		if !sameJSON(a.V[i], b.V[i]) {
			return false
		}
	}

	return true
}

// jsonStyle controls how values are written.
type jsonStyle struct {
	r    *rng
	ws   bool // Random white space.
	esc  bool // Random escapes.
	keyE bool // Escapes in keys as well.
}

func (st *jsonStyle) sp(b *strings.Builder) {
	if st.ws && st.r.p(0.3) {
		b.WriteString([]string{" ", "  ", "\t"}[st.r.n(3)])
	}
}

func (st *jsonStyle) str(b *strings.Builder, s string, esc bool) {
	b.WriteByte('"')

	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])

		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20:
			b.WriteString(`\u00`)
			b.WriteString(string("0123456789abcdef"[r>>4]) + string("0123456789abcdef"[r&15]))
		case esc && r < 0x10000 && st.r.p(0.1):
			h := strconv.FormatInt(int64(r), 16)
			b.WriteString(`\u` + strings.Repeat("0", 4-len(h)) + h)
		case esc && r >= 0x10000 && st.r.p(0.5):
			q := r - 0x10000
			b.WriteString(`\u` + strconv.FormatInt(int64(0xd800+q>>10), 16) + `\u` + strconv.FormatInt(int64(0xdc00+q&0x3ff), 16))
		case esc && r == '/' && st.r.p(0.5):
			b.WriteString(`\/`)
		default:
			b.WriteString(s[i : i+n])
		}

		i += n
	}

	b.WriteByte('"')
}

func (st *jsonStyle) write(b *strings.Builder, v *JV) {
	switch v.T {
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	case 'd':
		b.WriteString(v.S)
	case 's':
		st.str(b, v.S, st.esc)
	case 'a':
		b.WriteByte('[')

		for i, e := range v.V {
			if i > 0 {
				b.WriteByte(',')
			}

			st.sp(b)
			st.write(b, e)
			st.sp(b)
		}

		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')

		for i, e := range v.V {
			if i > 0 {
				b.WriteByte(',')
			}

			st.sp(b)
			st.str(b, v.K[i], st.keyE)
			st.sp(b)
			b.WriteByte(':')
			st.sp(b)
			st.write(b, e)
			st.sp(b)
		}

		b.WriteByte('}')
	}
}

func (v *JV) String() string {
	var b strings.Builder

	(&jsonStyle{}).write(&b, v)

	return b.String()
}

// rng is a splitmix64 generator.
type rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15

	return mix64(r.s)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}

	return int(r.u64() % uint64(n))
}

func (r *rng) p(p float64) bool { return float64(r.u64()>>11)/(1<<53) < p }

func (r *rng) between(a, b int) int { return a + r.n(b-a+1) }

func pick[T any](r *rng, v ...T) T { return v[r.n(len(v))] }

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)

	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}

	return h
}
