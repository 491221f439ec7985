package props

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// Y is a YAML node together with how it is written.
type Y struct {
	T string `json:"t"`           // map seq scalar
	V h.S    `json:"v,omitempty"` // literal text of a scalar (one line) or of a block scalar header + lines
	B []h.S  `json:"b,omitempty"` // lines of a block scalar; V is then its header, e.g. "|-"
	A []Y    `json:"a,omitempty"`
	K []h.S  `json:"k,omitempty"`
	C h.S    `json:"c,omitempty"` // comment on the line before
	E h.S    `json:"e,omitempty"` // comment at the end of the line (scalars)
	F bool   `json:"f,omitempty"` // flow style
}

func (y Y) clone() Y {
	c := y
	c.A = nil
	for _, e := range y.A {
		c.A = append(c.A, e.clone())
	}
	c.K = append([]h.S(nil), y.K...)
	c.B = append([]h.S(nil), y.B...)
	return c
}

func (y Y) flow(b *strings.Builder) {
	switch y.T {
	case "map":
		b.WriteByte('{')
		for i, e := range y.A {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(string(y.K[i]) + ": ")
			e.flow(b)
		}
		b.WriteByte('}')
	case "seq":
		b.WriteByte('[')
		for i, e := range y.A {
			if i > 0 {
				b.WriteString(", ")
			}
			e.flow(b)
		}
		b.WriteByte(']')
	default:
		if v := string(y.V); strings.Contains(v, ":") && !strings.ContainsAny(v, `"'`) {
			b.WriteString(`"` + v + `"`) // goccy/go-yaml reads x:y in flow style as a mapping
		} else {
			b.WriteString(v)
		}
	}
}

// block writes the node as the value after "key:" or "-" at the given indentation.
func (y Y) block(b *strings.Builder, indent int, afterDash bool) {
	pad := strings.Repeat(" ", indent)
	if y.F || len(y.A) == 0 && y.T != "scalar" {
		b.WriteByte(' ')
		y.flow(b)
		b.WriteByte('\n')
		return
	}
	switch y.T {
	case "scalar":
		if y.V != "" {
			b.WriteString(" " + string(y.V))
		}
		if len(y.B) > 0 {
			b.WriteByte('\n')
			for _, l := range y.B {
				if l != "" {
					b.WriteString(pad + "  " + string(l))
				}
				b.WriteByte('\n')
			}
			return
		}
		if y.E != "" {
			b.WriteString(" #" + string(y.E))
		}
		b.WriteByte('\n')
	case "map":
		for i, e := range y.A {
			p := pad
			if i == 0 && afterDash {
				p = " "
			} else {
				if i == 0 {
					b.WriteByte('\n')
				}
				if e.C != "" {
					b.WriteString(pad + "#" + string(e.C) + "\n")
				}
			}
			b.WriteString(p + string(y.K[i]) + ":")
			e.block(b, indent+2, false)
		}
	case "seq":
		b.WriteByte('\n')
		for _, e := range y.A {
			if e.C != "" {
				b.WriteString(pad + "#" + string(e.C) + "\n")
			}
			b.WriteString(pad + "-")
			e.block(b, indent+2, true)
		}
	}
}

// Doc renders the node as a document.
func (y Y) Doc() string {
	var b strings.Builder
	y.block(&b, 0, false)
	s := b.String()
	return strings.TrimPrefix(strings.TrimPrefix(s, " "), "\n")
}

var yamlScalars = []string{
	"1", "0", "-5", "1.5", "1e3", "true", "false", "null", "~", "hello", "hello world", "mock@email.com", `"quoted"`, `'single'`,
	`"with \"escapes\" \n"`, `'it''s'`, `"---"`, `"#no comment"`, "a#b", "2024-01-02", "0x1F", "é", "日本", `""`, `''`, "yes", "x:y", "http://a.b/c",
	`"é\u00e9"`, "12e", "1_000", ".5", "v1.2.3",
}

type yopts struct {
	depth, maxLen   int
	comments, block bool
	keys            []string
}

func genY(o yopts) *rapid.Generator[Y] {
	return rapid.Custom(func(t *rapid.T) Y {
		hi := 9
		if o.depth <= 0 {
			hi = 4
		}
		var y Y
		switch k := rapid.IntRange(0, hi).Draw(t, "kind"); {
		case k == 0 && o.block:
			y = Y{T: "scalar", V: h.S(rapid.SampledFrom([]string{"|", "|-", "|+", ">", ">-"}).Draw(t, "header"))}
			n := rapid.IntRange(1, 3).Draw(t, "lines")
			for i := 0; i < n; i++ {
				y.B = append(y.B, h.S(rapid.SampledFrom([]string{"text", "more text", "- dash", "key: value", "# hash", "é", "\"q\""}).Draw(t, "bl")))
			}
		case k <= 4:
			y = Y{T: "scalar", V: h.S(rapid.SampledFrom(yamlScalars).Draw(t, "scalar"))}
		case k <= 6:
			y = Y{T: "seq"}
			n := rapid.IntRange(0, o.maxLen).Draw(t, "n")
			oo := o
			oo.depth--
			if y.F = rapid.IntRange(0, 4).Draw(t, "flow") == 0; y.F {
				oo.comments, oo.block = false, false
			}
			for i := 0; i < n; i++ {
				y.A = append(y.A, genY(oo).Draw(t, "elem"))
			}
		default:
			oo := o
			oo.depth--
			f := rapid.IntRange(0, 4).Draw(t, "flow") == 0
			if f {
				oo.comments, oo.block = false, false
			}
			y = genYMap(t, oo)
			y.F = f
		}
		if o.comments && y.T == "scalar" && len(y.B) == 0 && rapid.IntRange(0, 3).Draw(t, "eol") == 0 {
			y.E = h.S(rapid.SampledFrom([]string{" c", " eol comment", "", " é"}).Draw(t, "e"))
		}
		if o.comments && rapid.IntRange(0, 4).Draw(t, "cmt") == 0 {
			y.C = h.S(rapid.SampledFrom([]string{" c", " a longer comment", " TODO: x", " ---"}).Draw(t, "c"))
		}
		return y
	})
}

// growY nests a document in others or repeats it, now and then.
func growY(t *rapid.T, y Y) Y {
	if len(y.A) == 0 {
		return y
	}
	if !h.Rare(t, 4, "grow?") {
		return y
	}
	switch how := rapid.IntRange(0, 2).Draw(t, "grow"); {
	case how == 0:
		for i, n := 0, rapid.IntRange(3, 12).Draw(t, "deeper"); i < n; i++ {
			y = Y{T: "map", K: []h.S{"side", h.S(rapid.SampledFrom(plainKeys).Draw(t, "key"))}, A: []Y{{T: "scalar", V: "true"}, y}}
		}
	case how == 1:
		a := Y{T: "seq"}
		for i, n := 0, rapid.SampledFrom([]int{9, 17, 33, 130}).Draw(t, "elements"); i < n; i++ {
			a.A = append(a.A, y.clone())
		}
		return Y{T: "map", K: []h.S{"items"}, A: []Y{a}}
	case how == 2:
		a := Y{T: "map"}
		for i, n := 0, rapid.SampledFrom([]int{9, 17, 33, 130}).Draw(t, "members"); i < n; i++ {
			a.K = append(a.K, h.S(fmt.Sprintf("k%d", i)))
			a.A = append(a.A, y.clone())
		}
		return a
	}
	return y
}

func genYMap(t *rapid.T, o yopts) Y {
	y := Y{T: "map"}
	keys := o.keys
	if keys == nil {
		keys = plainKeys
	}
	n := rapid.IntRange(0, o.maxLen).Draw(t, "n")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(t, "key")
		if seen[k] {
			continue
		}
		seen[k] = true
		y.K = append(y.K, h.S(k))
		y.A = append(y.A, genY(o).Draw(t, "val"))
	}
	return y
}

// genYAMLText is a valid YAML text: one or more documents, with or without a final newline.
func genYAMLText() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 7).Draw(t, "sampled") == 0 {
			return rapid.SampledFrom([]string{
				"a: 1", "a: 1\n", "- a\n- b\n", "hello", "---\na: 1\n---\nb: 2\n", "---\na: 1\n---\n", "# only a comment\n", "a: |\n  x\n  y\n",
				"a: 1\n---\nb: 2", "\n\na: 1\n\n", "a: 1\n\n\n", "\"---\"", "a: \"x\"   \nb: 2\n", "a:\n  - 1\n  - 2\nb: {c: d}\n", "1", "",
			}).Draw(t, "doc")
		}
		docs := rapid.IntRange(1, 3).Draw(t, "docs")
		var b strings.Builder
		if rapid.IntRange(0, 4).Draw(t, "start") == 0 {
			b.WriteString("---\n")
		}
		for i := 0; i < docs; i++ {
			if i > 0 {
				b.WriteString("---\n")
			}
			y := genYMap(t, yopts{depth: 2, maxLen: 4, comments: true, block: true})
			if len(y.A) == 0 {
				b.WriteString("z: 1\n")
				continue
			}
			b.WriteString(y.Doc())
		}
		s := b.String()
		switch rapid.IntRange(0, 3).Draw(t, "tail") {
		case 0:
			s = strings.TrimRight(s, "\n")
		case 1:
			s += "\n"
		}
		return s
	})
}
