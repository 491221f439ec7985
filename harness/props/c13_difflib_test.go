//go:build difflib

package props

import (
	"fmt"

	"github.com/gkampitakis/go-snaps/internal/difflib"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c13d struct {
	A   []h.S `json:"a"`
	B   []h.S `json:"b"`
	All int   `json:"all,omitempty"`
	N   int   `json:"n"`
}

// checkGroups checks the hunks with n lines of context, and the whole script when n is huge.
func checkGroups(a, b []string, n int) error {
	groups := difflib.NewMatcher(a, b).GetGroupedOpCodes(n)
	i, j := 0, 0
	var out []string // b, rebuilt from a and the script
	same := func(i2, j2 int) error {
		// everything between hunks is common
		if i2-i != j2-j || i2 < i || j2 < j {
			return fmt.Errorf("the lines left out before (%d,%d) do not correspond", i2, j2)
		}
		if i2 > len(a) || j2 > len(b) {
			return fmt.Errorf("an op starts behind the end")
		}
		for k := 0; i+k < i2; k++ {
			if a[i+k] != b[j+k] {
				return fmt.Errorf("changed lines %d/%d are in no hunk", i+k, j+k)
			}
			out = append(out, a[i+k])
		}
		i, j = i2, j2
		return nil
	}
	for gi, g := range groups {
		for oi, c := range g {
			if oi == 0 {
				if n > len(a)+len(b) && gi == 0 && (c.I1 != 0 || c.J1 != 0) {
					return fmt.Errorf("with unlimited context the script starts at (%d,%d)", c.I1, c.J1)
				}
				if err := same(c.I1, c.J1); err != nil {
					return err
				}
			}
			if c.I1 != i || c.J1 != j || c.I2 < c.I1 || c.J2 < c.J1 || c.I2 > len(a) || c.J2 > len(b) {
				return fmt.Errorf("op %+v of group %d does not continue at (%d,%d)", c, gi, i, j)
			}
			switch c.Tag {
			case difflib.OpEqual:
				if c.I2-c.I1 != c.J2-c.J1 {
					return fmt.Errorf("equal op %+v of different lengths", c)
				}
				for k := 0; k < c.I2-c.I1; k++ {
					if a[c.I1+k] != b[c.J1+k] {
						return fmt.Errorf("equal op %+v over different lines", c)
					}
				}
				out = append(out, a[c.I1:c.I2]...)
			case difflib.OpInsert, difflib.OpDelete, difflib.OpReplace:
				if (c.Tag == difflib.OpInsert) != (c.I1 == c.I2) || (c.Tag == difflib.OpDelete) != (c.J1 == c.J2) {
					return fmt.Errorf("op %+v has the wrong tag", c)
				}
				out = append(out, b[c.J1:c.J2]...)
			default:
				return fmt.Errorf("unknown op %+v", c)
			}
			i, j = c.I2, c.J2
		}
	}
	if err := same(len(a), len(b)); err != nil {
		return err
	}
	if fmt.Sprintf("%q", out) != fmt.Sprintf("%q", b) {
		return fmt.Errorf("replaying the script gives another text")
	}
	return nil
}

func strs(s []h.S) []string {
	out := make([]string, len(s))
	for i := range s {
		out[i] = string(s[i])
	}
	return out
}

func allSeqs(n int) [][]string {
	out := [][]string{nil}
	last := [][]string{nil}
	for k := 0; k < n; k++ {
		var next [][]string
		for _, p := range last {
			for _, l := range []string{"a\n", "b\n", "\n"} {
				next = append(next, append(p[:len(p):len(p)], l))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func checkC13d(c *h.C, sc c13d) error {
	bs := [][]string{strs(sc.B)}
	if sc.All > 0 {
		bs = allSeqs(sc.All)
	}
	for _, b := range bs {
		for _, n := range []int{sc.N, 1 << 20} {
			if err := checkGroups(strs(sc.A), b, n); err != nil {
				return fmt.Errorf("%q -> %q, context %d: %w", sc.A, b, n, err)
			}
		}
	}
	c.Evaluations(len(bs))
	c.NonTrivial()
	return nil
}

func init() {
	var corpus []c13d
	for _, s := range allSeqs(5) {
		x := c13d{All: 5, N: 3}
		for _, l := range s {
			x.A = append(x.A, h.S(l))
		}
		corpus = append(corpus, x)
	}
	gen := func(t *rapid.T) c13d {
		sc := c13d{N: rapid.SampledFrom([]int{3, 3, 3, 1, 2, 5}).Draw(t, "context")}
		a := genLines(t)
		for _, l := range a {
			sc.A = append(sc.A, h.S(l))
		}
		b := append([]string(nil), a...)
		for k, n := 0, rapid.IntRange(0, 6).Draw(t, "edits"); k < n && len(b) > 0; k++ {
			x := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			y := rapid.IntRange(x, len(b)-1).Draw(t, "to")
			switch rapid.IntRange(0, 3).Draw(t, "edit") {
			case 0:
				b = append(b[:x:x], b[min(y, x+5):]...)
			case 1:
				b[x] = "new"
			case 2:
				b[x], b[y] = b[y], b[x]
			default:
				b = append(b[:y:y], b[x:]...)
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "independent") == 0 {
			b = genLines(t)
		}
		for _, l := range b {
			sc.B = append(sc.B, h.S(l))
		}
		return sc
	}
	h.Register("C13", "script",
		"edit scripts of the line differ: all pairs of up to 5 lines over a 3-letter alphabet and generated sequences of up to 420 lines; ops tile both sequences, equal ops are over identical lines, replaying gives the second sequence, hunks leave out common lines only; every case is non-trivial",
		6000, 100000, gen, checkC13d, corpus...).In("nocolor")
}
