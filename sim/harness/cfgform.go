package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
)

// The same configuration in the documented forms of a file.

// quoted is a string that JSON, JSON5 and YAML read in the same way.
func quoted(s string) string {
	var b bytes.Buffer

	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)

	return strings.TrimSuffix(b.String(), "\n")
}

// yamlFits tells whether keys are short enough for a YAML parser.
func yamlFits(c Config) bool {
	for _, m := range []map[string]string{c.ReplaceKeys, c.ReplaceKeysRegex, c.ParseTime, c.Transpose, c.ExtractValuesRegex} {
		for k := range m {
			if len(quoted(k)) > 500 {
				return false
			}
		}
	}

	return true
}

// yamlOf is a YAML document in block style.
func yamlOf(c Config) []byte {
	var b strings.Builder

	b.WriteString("# configuration\n---\n")

	list := func(name string, l []string) {
		if len(l) == 0 {
			return
		}

		b.WriteString(name + ":\n")

		for i, s := range l {
			if i == 1 {
				b.WriteString("  # next\n")
			}

			b.WriteString("  - " + quoted(s) + "\n")
		}
	}
	mapping := func(name string, m map[string]string) {
		if len(m) == 0 {
			return
		}

		b.WriteString(name + ":\n")

		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&b, "  %s: %s\n", quoted(k), quoted(m[k]))
		}
	}
	str := func(name, s string) {
		if s != "" {
			fmt.Fprintf(&b, "%s: %s # %s\n", name, quoted(s), name)
		}
	}

	str("matchLinePrefix", c.MatchLinePrefix)
	list("includeKeys", c.IncludeKeys)
	list("includeKeysRegex", c.IncludeKeysRegex)
	list("excludeKeys", c.ExcludeKeys)
	list("excludeKeysRegex", c.ExcludeKeysRegex)
	mapping("replaceKeys", c.ReplaceKeys)
	mapping("replaceKeysRegex", c.ReplaceKeysRegex)
	mapping("parseTime", c.ParseTime)
	str("outputTimeFormat", c.OutputTimeFormat)
	str("outputTZ", c.OutputTimezone)

	if c.ConcatDelimiter != nil {
		fmt.Fprintf(&b, "concatDelimiter: %s\n", quoted(*c.ConcatDelimiter))
	}

	mapping("transpose", c.Transpose)
	mapping("extractValuesRegex", c.ExtractValuesRegex)
	list("keepJSON", c.KeepJSON)
	list("allowCardinality", c.AllowCardinality)

	return []byte(b.String())
}

// json5Of has comments and trailing commas.
func json5Of(c Config) []byte {
	d, _ := json.MarshalIndent(c, "", "  ")

	var b strings.Builder

	lines := strings.Split(string(d), "\n")

	for i, l := range lines {
		last := l[len(l)-1]

		switch {
		case last == '{' || last == '[' || last == ',':
			b.WriteString(l)

			if hashStr(l)%3 == 0 {
				fmt.Fprintf(&b, " // line %d", i)
			}
		case i+1 < len(lines) && hashStr(l)%3 == 0:
			b.WriteString(l + ",")
		default:
			b.WriteString(l)
		}

		b.WriteByte('\n')
	}

	return []byte(b.String())
}
