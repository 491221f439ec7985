package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// J is a JSON value with the literal text of its numbers.
type J struct {
	T string `json:"t"` // null true false num str arr obj
	V h.S    `json:"v,omitempty"`
	A []J    `json:"a,omitempty"`
	K []h.S  `json:"k,omitempty"` // object keys, parallel to A
}

func (j J) clone() J {
	c := j
	c.A = nil
	for _, e := range j.A {
		c.A = append(c.A, e.clone())
	}
	c.K = append([]h.S(nil), j.K...)
	return c
}

// quoteStyle: 0 minimal escapes, 1 encoding/json style, 2 everything non-ASCII escaped,
// 3 also escapes of plain letters and solidus.
func quoteJSON(s string, style int) string {
	if style == 1 {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n' && style != 2:
			b.WriteString(`\n`)
		case r == '\t' && style == 3:
			b.WriteString(`\t`)
		case r == '/' && style == 3:
			b.WriteString(`\/`)
		case r == 'a' && style == 3:
			b.WriteString(`\u0061`)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		case r > 0x7e && style == 2:
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04X\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Layout is how a document is written: whitespace, string escapes and member order.
type Layout struct {
	WS    []int `json:"ws,omitempty"`    // cycled: whitespace between tokens
	Quote int   `json:"quote,omitempty"` // escape style of strings
	Perm  []int `json:"perm,omitempty"`  // cycled: member rotations
}

var wsPool = []string{"", " ", "\n", "\t", "  ", "\r\n", " \n\t "}

func (j J) Render(l Layout) string {
	var b strings.Builder
	n, p := 0, 0
	ws := func() {
		if len(l.WS) > 0 {
			b.WriteString(wsPool[l.WS[n%len(l.WS)]%len(wsPool)])
			n++
		}
	}
	var rec func(j J)
	rec = func(j J) {
		switch j.T {
		case "num", "numf":
			b.WriteString(string(j.V))
		case "str":
			b.WriteString(quoteJSON(string(j.V), l.Quote))
		case "arr":
			b.WriteByte('[')
			ws()
			for i, e := range j.A {
				if i > 0 {
					b.WriteByte(',')
					ws()
				}
				rec(e)
				ws()
			}
			b.WriteByte(']')
		case "obj":
			idx := make([]int, len(j.A))
			for i := range idx {
				idx[i] = i
			}
			if len(l.Perm) > 0 && len(idx) > 1 {
				// a rotation and maybe a swap
				r := l.Perm[p%len(l.Perm)]
				p++
				k := r % len(idx)
				idx = append(append([]int(nil), idx[k:]...), idx[:k]...)
				if r%2 == 1 {
					idx[0], idx[len(idx)-1] = idx[len(idx)-1], idx[0]
				}
			}
			b.WriteByte('{')
			ws()
			for i, x := range idx {
				if i > 0 {
					b.WriteByte(',')
					ws()
				}
				b.WriteString(quoteJSON(string(j.K[x]), l.Quote))
				ws()
				b.WriteByte(':')
				ws()
				rec(j.A[x])
				ws()
			}
			b.WriteByte('}')
		default:
			b.WriteString(j.T)
		}
	}
	ws()
	rec(j)
	ws()
	return b.String()
}

// Go is the value as a marshalable Go value; numbers keep their literal.
func (j J) Go() any {
	switch j.T {
	case "null":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "num", "numf":
		return json.Number(j.V)
	case "str":
		return string(j.V)
	case "arr":
		l := []any{}
		for _, e := range j.A {
			l = append(l, e.Go())
		}
		return l
	}
	m := map[string]any{}
	for i, e := range j.A {
		m[string(j.K[i])] = e.Go()
	}
	return m
}

var jsonKeys = []string{
	"a", "b", "c", "user", "name", "id", "A", "a b", "a.b", "a*", "?", "#", "0", "1", "-1", "@k", "|", "", "é", "日本",
	"q\"", "\\", "<k>", ":x", ":0", "~", "$", "!", "a/b", "\n", "---", "long_key_with_underscores", "%d", "(x)", "[0]", "{", "}", "'",
}

var plainKeys = []string{"a", "b", "c", "d", "user", "name", "id", "items", "email", "createdAt", "x_y", "k1"}

var jsonNums = []string{
	"0", "1", "-1", "10", "1.5", "-0", "0.0", "1e3", "1E+3", "1.50", "100000000000000000000", "12345678901234567890",
	"9007199254740993", "0.1", "1e-7", "-2.5E-3", "3.141592653589793238",
}

type jopts struct {
	keys   []string
	depth  int
	maxLen int
	text   *rapid.Generator[string]
}

func validText(s string) string {
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

func genJ(o jopts) *rapid.Generator[J] {
	if o.text == nil {
		base := h.Text(true, "TestA")
		o.text = rapid.Custom(func(t *rapid.T) string {
			if rapid.Bool().Draw(t, "short") {
				return rapid.SampledFrom([]string{"", "x", "<Any value>", "<&>", "é\u2028", "a\tb", "\x7f", "\"q\"", "\\", "null", "1", "mock@email.com"}).Draw(t, "s")
			}
			return validText(base.Draw(t, "s"))
		})
	}
	return rapid.Custom(func(t *rapid.T) J {
		hi := 9
		if o.depth <= 0 {
			hi = 5
		}
		switch k := rapid.IntRange(0, hi).Draw(t, "kind"); k {
		case 0:
			return J{T: rapid.SampledFrom([]string{"null", "true", "false"}).Draw(t, "lit")}
		case 1, 2:
			return J{T: "num", V: h.S(rapid.SampledFrom(jsonNums).Draw(t, "num"))}
		case 3, 4, 5:
			return J{T: "str", V: h.S(o.text.Draw(t, "str"))}
		case 6, 7:
			return genArr(t, o)
		default:
			return genObj(t, o)
		}
	})
}

func genArr(t *rapid.T, o jopts) J {
	n := rapid.IntRange(0, o.maxLen).Draw(t, "len")
	j := J{T: "arr"}
	o.depth--
	for i := 0; i < n; i++ {
		j.A = append(j.A, genJ(o).Draw(t, "elem"))
	}
	return j
}

func genObj(t *rapid.T, o jopts) J {
	n := rapid.IntRange(0, o.maxLen).Draw(t, "len")
	j := J{T: "obj"}
	seen := map[string]bool{}
	o.depth--
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(o.keys).Draw(t, "key")
		if seen[k] {
			continue
		}
		seen[k] = true
		j.K = append(j.K, h.S(k))
		j.A = append(j.A, genJ(o).Draw(t, "member"))
	}
	return j
}

// size is about the number of bytes of a document.
func (j J) size() int {
	n := len(j.V) + 4
	for _, k := range j.K {
		n += len(k) + 4
	}
	for _, a := range j.A {
		n += a.size()
	}
	return n
}

// growJ nests a document in others or repeats it, now and then.
func growJ(t *rapid.T, j J, keys []string) J {
	if !h.Rare(t, 4, "grow?") {
		return j
	}
	switch how := rapid.IntRange(0, 2).Draw(t, "grow"); {
	case how == 0:
		for i, n := 0, rapid.IntRange(3, 12).Draw(t, "deeper"); i < n; i++ {
			if rapid.IntRange(0, 2).Draw(t, "in array") == 0 {
				j = J{T: "arr", A: []J{{T: "num", V: "7"}, j}}
			} else {
				j = J{T: "obj", K: []h.S{"side", h.S(rapid.SampledFrom(keys).Draw(t, "key"))}, A: []J{{T: "true"}, j}}
				if j.K[0] == j.K[1] {
					j.K, j.A = j.K[1:], j.A[1:]
				}
			}
		}
	case how == 1:
		a := J{T: "arr"}
		for i, n := 0, rapid.SampledFrom([]int{9, 17, 33, 130}).Draw(t, "elements"); i < n && i*j.size() < 200000; i++ {
			a.A = append(a.A, j.clone())
		}
		return J{T: "obj", K: []h.S{"items"}, A: []J{a}}
	case how == 2:
		a := J{T: "obj"}
		for i, n := 0, rapid.SampledFrom([]int{9, 17, 33, 130}).Draw(t, "members"); i < n && i*j.size() < 200000; i++ {
			a.K = append(a.K, h.S(fmt.Sprintf("k%d", i)))
			a.A = append(a.A, j.clone())
		}
		return a
	}
	return j
}

func genLayout() *rapid.Generator[Layout] {
	return rapid.Custom(func(t *rapid.T) Layout {
		return Layout{
			WS:    rapid.SliceOfN(rapid.IntRange(0, len(wsPool)-1), 0, 5).Draw(t, "ws"),
			Quote: rapid.IntRange(0, 3).Draw(t, "quote"),
			Perm:  rapid.SliceOfN(rapid.IntRange(0, 7), 0, 3).Draw(t, "perm"),
		}
	})
}
