package props

import (
	"encoding/json"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// swaps are pairs of texts that something on the way to the store or the report could conflate.
var swaps = [][2]string{
	{"---", "/-/-/-/"}, {"/-/-/-/", "//-/-/-/"}, {"---", "//-/-/-/"}, {"/-/-/-/", "---"}, {"---", "----"}, {"---", "--- "},
	{"\xff", "\xfe"}, {"\xff", "\xef\xbf\xbd"}, {"\xc3", "\xc2"}, {"\xed\xa0\x80", "\xed\xb0\x80"}, {" ", "\t"}, {" ", "\u00a0"},
	{"a", "A"}, {"é", "e\u0301"}, {"", "\x00"}, {"", "\ufeff"}, {"", "\u200b"}, {"", " "}, {"", "\n"}, {"\n", "\n\n"}, {"\n", " \n"},
	{"\n", "\r"}, {"↵", "\n"}, {"\n", "↵\n"}, {"\\n", "\n"}, {"a", "b"}, {"1", "2"}, {"", "x"}, {"%", "%%"}, {"\x1b[0m", ""},
	{"\"", "'"}, {"- ", "+ "}, {"[", "("}, {"\u2028", "\n"}, {"\u0085", "\n"}, {"\v", "\n"}, {"", "\r"},
}

// editText makes a text near s. It may return s itself.
func editText(t *rapid.T, s string) string {
	lines := func() []string { return strings.Split(s, "\n") }
	switch rapid.IntRange(0, 12).Draw(t, "edit") {
	case 0:
		return s
	case 1:
		return s + rapid.SampledFrom([]string{"\n", " ", "\n\n", "\t", "\x00", "\n---", "\r", "x", "\n ", "---", "\xff"}).Draw(t, "suffix")
	case 2:
		return rapid.SampledFrom([]string{"\n", " ", "\n\n", "x", "\ufeff", "---\n", "\n---\n"}).Draw(t, "prefix") + s
	case 3:
		if s == "" {
			return "\n"
		}
		return s[:len(s)-1]
	case 4:
		if s == "" {
			return " "
		}
		return s[1:]
	case 5, 6, 7: // a swap at one of the places where it applies
		perm := rapid.Permutation(swaps).Draw(t, "swaps")
		for _, p := range perm {
			a, b := p[0], p[1]
			if rapid.Bool().Draw(t, "dir") {
				a, b = b, a
			}
			if a == "" {
				i := rapid.IntRange(0, len(s)).Draw(t, "at")
				return s[:i] + b + s[i:]
			}
			if n := strings.Count(s, a); n > 0 {
				k := rapid.IntRange(0, n-1).Draw(t, "which")
				parts := strings.SplitAfterN(s, a, k+2)
				parts[k] = strings.TrimSuffix(parts[k], a) + b
				return strings.Join(parts, "")
			}
		}
		return s + "x"
	case 8: // one byte
		if s == "" {
			return "\x00"
		}
		i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		b := []byte(s)
		b[i] = rapid.Byte().Draw(t, "byte")
		return string(b)
	case 9: // a line is deleted, doubled or moved
		l := lines()
		i := rapid.IntRange(0, len(l)-1).Draw(t, "line")
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			l = append(l[:i+1:i+1], l[i:]...)
		default:
			j := rapid.IntRange(0, len(l)-1).Draw(t, "line2")
			l[i], l[j] = l[j], l[i]
		}
		return strings.Join(l, "\n")
	case 10: // a line becomes a nasty one
		l := lines()
		i := rapid.IntRange(0, len(l)-1).Draw(t, "line")
		l[i] = rapid.SampledFrom(h.NastyLines).Draw(t, "nasty")
		return strings.Join(l, "\n")
	case 11: // whitespace at the end of a line
		l := lines()
		i := rapid.IntRange(0, len(l)-1).Draw(t, "line")
		if tr := strings.TrimRight(l[i], " \t"); tr != l[i] {
			l[i] = tr
		} else {
			l[i] += rapid.SampledFrom([]string{" ", "\t", "  "}).Draw(t, "ws")
		}
		return strings.Join(l, "\n")
	default:
		return h.Text(true, "TestA").Draw(t, "other")
	}
}

// editJ changes one node of a document; it may return an equal one.
func editJ(t *rapid.T, j J, o jopts) J {
	j = j.clone()
	if len(j.A) > 0 && rapid.IntRange(0, 3).Draw(t, "deeper") > 0 {
		i := rapid.IntRange(0, len(j.A)-1).Draw(t, "child")
		j.A[i] = editJ(t, j.A[i], o)
		return j
	}
	switch k := rapid.IntRange(0, 7).Draw(t, "edit"); {
	case k == 0:
		return j
	case k == 1 && j.T == "str":
		j.V = h.S(validText(editText(t, string(j.V))))
		return j
	case k == 1 && j.T == "num":
		j.V = h.S(rapid.SampledFrom(jsonNums).Draw(t, "num"))
		return j
	case k == 2 && len(j.A) > 0: // drop
		i := rapid.IntRange(0, len(j.A)-1).Draw(t, "drop")
		j.A = append(j.A[:i:i], j.A[i+1:]...)
		if j.T == "obj" {
			j.K = append(j.K[:i:i], j.K[i+1:]...)
		}
		return j
	case k == 3 && j.T == "arr":
		i := rapid.IntRange(0, len(j.A)).Draw(t, "at")
		e := rapid.SampledFrom([]J{{T: "null"}, {T: "arr"}, {T: "obj"}, {T: "str"}, {T: "num", V: "0"}}).Draw(t, "new")
		j.A = append(j.A[:i:i], append([]J{e}, j.A[i:]...)...)
		return j
	case k <= 4 && j.T == "obj":
		for _, key := range []h.S{"new", "a ", "", "A", "---"} {
			ok := true
			for _, x := range j.K {
				if x == key {
					ok = false
				}
			}
			if ok {
				if k == 4 && len(j.K) > 0 { // rename
					j.K[0] = key
				} else {
					j.K = append(j.K, key)
					j.A = append(j.A, J{T: "null"})
				}
				return j
			}
		}
		return j
	case k == 5 && j.T == "str": // a string that looks like another literal
		for _, lit := range []string{"null", "true", "false"} {
			if string(j.V) == lit {
				return J{T: lit}
			}
		}
		return J{T: "str", V: j.V + "\u200b"}
	case k == 6 && j.T != "str" && len(j.A) == 0:
		return J{T: "str", V: h.S(j.T)}
	}
	return genJ(o).Draw(t, "other node")
}

// canon is an order-independent, literal-preserving key of a JSON value (numbers as written).
func (j J) canon() string {
	b, err := json.Marshal(j.Go())
	if err != nil {
		panic(h.Infra{Err: err})
	}
	return string(b)
}
