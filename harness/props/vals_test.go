package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"github.com/kr/pretty"
	"pgregory.net/rapid"
)

// Val is a serialisable description of a Go value passed to MatchSnapshot.
type Val struct {
	K string `json:"k"`
	S h.S    `json:"s,omitempty"`
	I int64  `json:"i,omitempty"`
	L []Val  `json:"l,omitempty"`
	N int    `json:"n,omitempty"` // S is repeated that often
}

type inner struct {
	Name string
	Tags []string
	Next *inner
}

type outer struct {
	ID     int
	Any    any
	Raw    []byte
	M      map[string]any
	hidden string
}

type stringerVal struct{ s string }

func (s stringerVal) String() string { return s.s }

type goStringerVal struct{ s string }

func (s goStringerVal) GoString() string { return s.s }

type namedStr string

func (v Val) Build() any {
	s := string(v.S)
	if v.N > 0 {
		s = strings.Repeat(s, v.N)
	}
	switch v.K {
	case "str":
		return s
	case "lines": // N different lines; the I-th is S
		ls := make([]string, v.N)
		for i := range ls {
			ls[i] = fmt.Sprintf("line %d", i+1)
		}
		if v.I > 0 {
			ls[v.I-1] = string(v.S)
		}
		return strings.Join(ls, "\n")
	case "xs": // a line of N x, the I-th is y
		b := bytes.Repeat([]byte("x"), v.N)
		if v.I > 0 {
			b[v.I-1] = 'y'
		}
		return string(b)
	case "named":
		return namedStr(s)
	case "int":
		return int(v.I)
	case "uint8":
		return uint8(v.I)
	case "float":
		return float64(v.I) / 8
	case "bool":
		return v.I != 0
	case "nil":
		return nil
	case "bytes":
		return []byte(s)
	case "err":
		return errors.New(s)
	case "stringer":
		return stringerVal{s}
	case "gostringer":
		return goStringerVal{s}
	case "strs":
		var l []string
		for _, e := range v.L {
			l = append(l, string(e.S))
		}
		return l
	case "list":
		l := []any{}
		for _, e := range v.L {
			l = append(l, e.Build())
		}
		return l
	case "map":
		m := map[string]any{}
		for i, e := range v.L {
			m[fmt.Sprintf("%s%d", s, i)] = e.Build()
		}
		return m
	case "imap":
		m := map[int]string{}
		for i, e := range v.L {
			m[i*3] = string(e.S)
		}
		return m
	case "struct":
		var a any
		if len(v.L) > 0 {
			a = v.L[0].Build()
		}
		return outer{ID: int(v.I), Any: a, Raw: []byte(s), M: map[string]any{s: v.I}, hidden: s}
	case "ptr":
		return &inner{Name: s, Tags: []string{s, ""}, Next: &inner{Name: s}}
	case "strptr":
		return &s
	case "nilptr":
		return (*inner)(nil)
	case "emptymap":
		return map[string]int{}
	}
	panic(h.Infra{Err: fmt.Errorf("unknown value kind %q", v.K)})
}

func build(vals []Val) []any {
	out := make([]any, len(vals))
	for i, v := range vals {
		out[i] = v.Build()
	}
	return out
}

// formatValues is the text a MatchSnapshot call stands for: each value formatted by kr/pretty,
// joined by newlines.
func formatValues(vals []Val) string {
	var ss []string
	for _, v := range build(vals) {
		ss = append(ss, pretty.Sprint(v))
	}
	return strings.Join(ss, "\n")
}

func genVal(cr bool, names ...string) *rapid.Generator[Val] {
	text := h.TallText(cr, names...)
	return rapid.Custom(func(t *rapid.T) Val {
		if rapid.IntRange(0, 9).Draw(t, "str?") < 7 {
			return Val{K: "str", S: h.S(text.Draw(t, "text"))}
		}
		return genScalar(text, 2).Draw(t, "val")
	})
}

func genScalar(text *rapid.Generator[string], depth int) *rapid.Generator[Val] {
	kinds := []string{
		"str", "named", "int", "uint8", "float", "bool", "nil", "bytes", "err", "stringer", "gostringer",
		"strptr", "nilptr", "emptymap", "ptr",
	}
	if depth > 0 {
		kinds = append(kinds, "strs", "list", "map", "imap", "struct")
	}
	return rapid.Custom(func(t *rapid.T) Val {
		v := Val{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch v.K {
		case "int", "float":
			v.I = rapid.Int64Range(-1000, 1000).Draw(t, "i")
		case "uint8", "bool":
			v.I = rapid.Int64Range(0, 1).Draw(t, "i")
		case "nil", "nilptr", "emptymap":
		case "strs", "list", "map", "imap":
			if v.K == "map" {
				v.S = h.S(rapid.SampledFrom([]string{"k", "", "---", "é"}).Draw(t, "key"))
			}
			v.L = rapid.SliceOfN(genScalar(text, depth-1), 0, 3).Draw(t, "l")
		case "struct":
			v.S = h.S(text.Draw(t, "s"))
			v.I = rapid.Int64Range(-5, 5).Draw(t, "i")
			v.L = rapid.SliceOfN(genScalar(text, depth-1), 0, 1).Draw(t, "l")
		default:
			v.S = h.S(text.Draw(t, "s"))
		}
		return v
	})
}
