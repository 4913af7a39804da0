package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"io"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/klauspost/compress/zstd"
	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// InFile is one input file of a case.
type InFile struct {
	Name    string   `json:"name"`
	Lines   []string `json:"lines"`
	NoEOL   bool     `json:"noEOL,omitempty"` // The last line has no line feed.
	CRLF    bool     `json:"crlf,omitempty"`
	Comp    string   `json:"comp,omitempty"`    // gz, zst.
	Members int      `json:"members,omitempty"` // Compressed frames the content is split into.
	CompOpt string   `json:"compOpt,omitempty"` // How the content is compressed.
	Cut     int      `json:"cut,omitempty"`     // Bytes missing at the end of the stored file.
	Flip    int      `json:"flip,omitempty"`    // Number of a damaged bit of the stored file, from 1.
	Missing bool     `json:"missing,omitempty"`
	Dir     bool     `json:"dir,omitempty"`
}

// inFileJSON keeps bytes that JSON strings cannot hold.
type inFileJSON struct {
	*inFileAlias
	Lines []any `json:"lines"`
}

type inFileAlias InFile

// MarshalJSON is exact for any bytes.
func (f InFile) MarshalJSON() ([]byte, error) {
	x := inFileJSON{inFileAlias: (*inFileAlias)(&f)}

	for _, l := range f.Lines {
		if utf8.ValidString(l) {
			x.Lines = append(x.Lines, l)
		} else {
			x.Lines = append(x.Lines, map[string]any{"b64": []byte(l)})
		}
	}

	return json.Marshal(x)
}

// UnmarshalJSON is the counterpart of MarshalJSON.
func (f *InFile) UnmarshalJSON(b []byte) error {
	x := inFileJSON{inFileAlias: (*inFileAlias)(f)}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}

	f.Lines = nil

	for _, l := range x.Lines {
		switch t := l.(type) {
		case string:
			f.Lines = append(f.Lines, t)
		case map[string]any:
			s, _ := t["b64"].(string)

			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return err
			}

			f.Lines = append(f.Lines, string(d))
		}
	}

	return nil
}

// Plain is the uncompressed content.
func (f *InFile) Plain() []byte {
	var b bytes.Buffer

	for i, l := range f.Lines {
		b.WriteString(l)

		if i == len(f.Lines)-1 && f.NoEOL {
			break
		}

		if f.CRLF {
			b.WriteByte('\r')
		}

		b.WriteByte('\n')
	}

	return b.Bytes()
}

// Stored is what the simulated file holds.
func (f *InFile) Stored() []byte {
	p := f.Plain()
	m := f.Members

	if m < 1 {
		m = 1
	}

	if f.Comp != "" {
		var b bytes.Buffer

		for i := 0; i < m; i++ {
			f.compress(&b, p[len(p)*i/m:len(p)*(i+1)/m])
		}

		p = b.Bytes()
	}

	if f.Cut > 0 && f.Cut < len(p) {
		p = p[:len(p)-f.Cut]
	}

	if bit := f.Flip - 1; bit >= 0 && bit < 8*len(p) {
		p[bit/8] ^= 1 << (bit % 8)
	}

	return p
}

// compress writes one member, formats let compressors choose many ways to do that.
func (f *InFile) compress(b *bytes.Buffer, p []byte) {
	var (
		w     io.WriteCloser
		flush func() error
	)

	switch f.Comp {
	case "gz":
		level := gzip.DefaultCompression

		switch f.CompOpt {
		case "stored":
			level = gzip.NoCompression
		case "huffman":
			level = gzip.HuffmanOnly
		}

		g, _ := gzip.NewWriterLevel(b, level)
		if f.CompOpt == "header" {
			g.Name, g.Comment, g.Extra = "input.jsonl", "made by a tool", []byte("\x01\x02\x04\x00abcd")
			g.ModTime = time.Unix(1700000000, 0)
		}

		w, flush = g, g.Flush
	case "zst":
		o := []zstd.EOption{zstd.WithEncoderConcurrency(1)}

		switch f.CompOpt {
		case "window":
			o = append(o, zstd.WithWindowSize(zstdWindow), zstd.WithSingleSegment(false))
		case "header":
			b.Write([]byte("\x50\x2a\x4d\x18\x05\x00\x00\x00hello")) // A frame to skip.
			o = append(o, zstd.WithEncoderCRC(false))
		case "huffman":
			o = append(o, zstd.WithEncoderLevel(zstd.SpeedBestCompression))
		case "stored":
			o = append(o, zstd.WithAllLitEntropyCompression(false), zstd.WithNoEntropyCompression(true))
		}

		z, _ := zstd.NewWriter(b, o...)
		w, flush = z, z.Flush
	}

	n := 0

	if f.CompOpt == "window" {
		n = len(p) / 2
		_, _ = w.Write(p[:n])
		_ = flush()
	}

	_, _ = w.Write(p[n:])
	_ = w.Close()
}

// zstdWindow is the largest that every decompressor has to support.
const zstdWindow = 8 << 20

// Config mirrors the documented configuration file.
type Config struct {
	MatchLinePrefix    string            `json:"matchLinePrefix,omitempty"`
	IncludeKeys        []string          `json:"includeKeys,omitempty"`
	IncludeKeysRegex   []string          `json:"includeKeysRegex,omitempty"`
	ExcludeKeys        []string          `json:"excludeKeys,omitempty"`
	ExcludeKeysRegex   []string          `json:"excludeKeysRegex,omitempty"`
	ReplaceKeys        map[string]string `json:"replaceKeys,omitempty"`
	ReplaceKeysRegex   map[string]string `json:"replaceKeysRegex,omitempty"`
	ParseTime          map[string]string `json:"parseTime,omitempty"`
	OutputTimeFormat   string            `json:"outputTimeFormat,omitempty"`
	OutputTimezone     string            `json:"outputTZ,omitempty"`
	ConcatDelimiter    *string           `json:"concatDelimiter,omitempty"`
	Transpose          map[string]string `json:"transpose,omitempty"`
	ExtractValuesRegex map[string]string `json:"extractValuesRegex,omitempty"`
	KeepJSON           []string          `json:"keepJSON,omitempty"`
	AllowCardinality   []string          `json:"allowCardinality,omitempty"`
}

// Opts are the command line options of a case.
type Opts struct {
	CSV      string `json:"csv,omitempty"`
	Raw      string `json:"raw,omitempty"`
	RawDelim string `json:"rawDelim,omitempty"`
	SQLite   string `json:"sqlite,omitempty"`
	PG       string `json:"pg,omitempty"`
	MaxCols  int    `json:"maxCols,omitempty"`
	Table    string `json:"table,omitempty"`

	Conc        int  `json:"conc,omitempty"`
	ConcSet     bool `json:"concSet,omitempty"`
	MemLimit    int  `json:"memLimit,omitempty"` // 0 is default, -1 disables.
	BufSize     int  `json:"bufSize,omitempty"`
	Verbosity   int  `json:"verbosity,omitempty"` // 0 is default, -1 is quiet.
	MaxLines    int  `json:"maxLines,omitempty"`
	Offset      int  `json:"offset,omitempty"`
	MaxKeys     int  `json:"maxKeys,omitempty"`
	FieldLimit  int  `json:"fieldLimit,omitempty"`
	Children    int  `json:"children,omitempty"` // 0 is default (100), -1 unlimited.
	AddSeq      bool `json:"addSeq,omitempty"`
	Extract     bool `json:"extract,omitempty"`
	SkipZero    bool `json:"skipZero,omitempty"`
	CaseSens    bool `json:"caseSens,omitempty"`
	ReplaceKeys bool `json:"replaceKeys,omitempty"`
	KeyLimit    int  `json:"keyLimit,omitempty"`
	AnyRule     bool `json:"anyRule,omitempty"` // Rules of names overlap, any of them may be used.

	GetKey string `json:"getKey,omitempty"`
	Prefix string `json:"prefix,omitempty"`
	Flat   bool   `json:"flat,omitempty"`
	Hier   bool   `json:"hier,omitempty"`
	Info   bool   `json:"info,omitempty"`
	Schema bool   `json:"schema,omitempty"`

	ViaOutput bool `json:"viaOutput,omitempty"` // Outputs are given with -output.
	PosInput  bool `json:"posInput,omitempty"`  // Inputs are positional arguments.
	BothInput bool `json:"bothInput,omitempty"` // The first input is a positional argument, others are a list.
	DefOut    bool `json:"defOut,omitempty"`    // No output is given, CSV goes to the default place.
	Tick      int  `json:"tick,omitempty"`      // Progress interval, ms.

	Cfg     Config `json:"cfg"`
	CfgFile bool   `json:"cfgFile,omitempty"` // Configuration comes from a file.
	CfgForm string `json:"cfgForm,omitempty"` // Form of the file: JSON, yaml, json5.
}

// Case is one simulated execution, completely.
type Case struct {
	Prop  string       `json:"prop"`
	Tool  string       `json:"tool,omitempty"` // "" is flatjsonl, csvequals.
	Shape string       `json:"shape,omitempty"`
	In    []InFile     `json:"in"`
	O     Opts         `json:"o"`
	P     simrt.Params `json:"p"`
	Stale int          `json:"stale,omitempty"` // Size of output files that exist before the run.

	Prev   []Prev   `json:"prev,omitempty"`   // Earlier runs in the same place.
	Others []string `json:"others,omitempty"` // Files that have nothing to do with the run.
	Extra  []string `json:"extra,omitempty"`  // More arguments.
	CfgRaw *string  `json:"cfgRaw,omitempty"` // Text of the configuration file.

	Library int `json:"library,omitempty"` // The package is used by a program that gives readers instead of files: 1 all, 2 some.

	Seed  uint64 `json:"seed"`
	Index int    `json:"index"`
}

// Prev is an earlier run of the same command.
type Prev struct {
	P  simrt.Params `json:"p"`
	In []InFile     `json:"in,omitempty"` // Inputs that are replaced before the next run.
}

func otherData(i int) []byte { return bytes.Repeat([]byte("other file "+strconv.Itoa(i)+"\n"), 1+i*7) }

// cfgName is the name of the configuration file.
func (c *Case) cfgName() string {
	switch c.O.CfgForm {
	case "yaml":
		return "cfg.yaml"
	case "json5":
		return "cfg.json5"
	}

	return "cfg.json"
}

// cfgText is the content of the configuration file.
func (c *Case) cfgText() []byte {
	if c.CfgRaw != nil {
		return []byte(*c.CfgRaw)
	}

	switch c.O.CfgForm {
	case "yaml":
		return yamlOf(c.O.Cfg)
	case "json5":
		return json5Of(c.O.Cfg)
	}

	b, _ := json.Marshal(c.O.Cfg)

	return b
}

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}

	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}

	return n
}

func (o *Opts) childrenLimit() int {
	switch {
	case o.Children < 0:
		return 0
	case o.Children == 0:
		return 100
	}

	return o.Children
}

func (o *Opts) hasCfg() bool {
	b, _ := json.Marshal(o.Cfg)

	return string(b) != "{}"
}

// Args is the command line.
func (c *Case) Args() []string {
	var a []string

	o := &c.O
	str := func(n, v string) {
		if v != "" {
			a = append(a, n, v)
		}
	}
	num := func(n string, v int) {
		if v != 0 {
			a = append(a, n, strconv.Itoa(v))
		}
	}
	flg := func(n string, v bool) {
		if v {
			a = append(a, n)
		}
	}

	if c.Tool == "csvequals" {
		for _, f := range c.In {
			a = append(a, f.Name)
		}

		return a
	}

	switch {
	case o.DefOut:
	case o.ViaOutput:
		var out []string

		for _, n := range []string{o.CSV, o.Raw, o.SQLite} {
			if n != "" {
				out = append(out, n)
			}
		}

		str("-output", strings.Join(out, ","))
	default:
		str("-csv", o.CSV)
		str("-raw", o.Raw)
		str("-sqlite", o.SQLite)
	}

	str("-raw-delim", o.RawDelim)
	str("-pg-dump", o.PG)
	num("-sql-max-cols", o.MaxCols)
	str("-sql-table", o.Table)

	if o.ConcSet || o.Conc != 0 {
		a = append(a, "-concurrency", strconv.Itoa(o.Conc))
	}

	switch {
	case o.MemLimit > 0:
		num("-mem-limit", o.MemLimit)
	case o.MemLimit < 0:
		a = append(a, "-mem-limit", "0")
	}

	switch {
	case o.BufSize > 0:
		num("-buf-size", o.BufSize)
	default:
		num("-buf-size", 1<<20)
	}

	switch {
	case o.Verbosity > 0:
		num("-verbosity", o.Verbosity)
	case o.Verbosity < 0:
		a = append(a, "-verbosity", "0")
	}

	num("-max-lines", o.MaxLines)
	num("-offset-lines", o.Offset)
	num("-max-lines-keys", o.MaxKeys)
	num("-field-limit", o.FieldLimit)

	switch {
	case o.Children > 0:
		num("-children-limit", o.Children)
	case o.Children < 0:
		a = append(a, "-children-limit", "0")
	}

	flg("-add-sequence", o.AddSeq)
	flg("-extract-strings", o.Extract)
	flg("-skip-zero-cols", o.SkipZero)
	flg("-case-sensitive-keys", o.CaseSens)
	flg("-replace-keys", o.ReplaceKeys)
	num("-key-limit", o.KeyLimit)
	str("-get-key", o.GetKey)
	str("-match-line-prefix", o.Prefix)
	flg("-show-keys-flat", o.Flat)
	flg("-show-keys-hier", o.Hier)
	flg("-show-keys-info", o.Info)
	flg("-show-json-schema", o.Schema)
	if o.Tick > 0 {
		a = append(a, "-progress-interval", strconv.Itoa(o.Tick)+"ms")
	}

	if c.CfgRaw != nil || o.hasCfg() {
		if c.CfgRaw != nil || o.CfgFile {
			a = append(a, "-config", c.cfgName())
		} else {
			b, _ := json.Marshal(o.Cfg)
			a = append(a, "-config", string(b))
		}
	}

	a = append(a, c.Extra...)

	var names []string
	for _, f := range c.In {
		names = append(names, f.Name)
	}

	if o.PosInput {
		return append(a, names...)
	}

	if o.BothInput && len(names) > 1 {
		return append(a, "-input", strings.Join(names[1:], ","), names[0])
	}

	return append(a, "-input", strings.Join(names, ","))
}
