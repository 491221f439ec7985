package props

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c02 struct {
	Kind   string `json:"kind"`
	Cfg    Cfg    `json:"cfg"`
	Before []Call `json:"before,omitempty"` // calls of another test stored before the slot
	After  []Call `json:"after,omitempty"`
	A      Call   `json:"a"`
	B      Call   `json:"b"`
	Update *bool  `json:"update,omitempty"` // nil or false
	Far    bool   `json:"far,omitempty"`    // matched by another process first
}

func genC02(t *rapid.T) c02 {
	sc := c02{Kind: rapid.SampledFrom([]string{"snap", "snap", "snap", "ssnap", "ssnap", "json", "sjson", "yaml"}).Draw(t, "kind")}
	if rapid.Bool().Draw(t, "update false") {
		sc.Update = ptr(false)
	}
	sc.Far = rapid.IntRange(0, 11).Draw(t, "far") == 0
	sc.Before = rapid.SliceOfN(genCall(false, "TestN"), 0, 2).Draw(t, "before")
	sc.After = rapid.SliceOfN(genCall(false, "TestN"), 0, 1).Draw(t, "after")
	cr := sc.Kind == "ssnap"
	switch sc.Kind {
	case "snap", "ssnap":
		if rapid.IntRange(0, 4).Draw(t, "structured") == 0 {
			sc.A = genCallOf(t, sc.Kind, "TestN")
			if rapid.Bool().Draw(t, "same") {
				sc.B = sc.A
			} else {
				sc.B = genCallOf(t, sc.Kind, "TestN")
			}
			break
		}
		a := h.TallText(cr, "TestN", "TestO").Draw(t, "a")
		if rapid.IntRange(0, 40).Draw(t, "big") == 0 {
			// long texts take other paths of the diff: many lines, popular lines, one long line
			n := rapid.SampledFrom([]int{12, 120, 260}).Draw(t, "n")
			unit := rapid.SampledFrom([]string{"a\n", "a\nb\n", "x ", "line\n\n", "é"}).Draw(t, "unit")
			a = strings.Repeat(unit, n) + a
		}
		b := editText(t, a)
		if rapid.IntRange(0, 3).Draw(t, "twice") == 0 {
			b = editText(t, b)
		}
		if !cr {
			a, b = h.NoCR(a), h.NoCR(b)
		}
		sc.A = Call{Kind: sc.Kind, Vals: []Val{{K: "str", S: h.S(a)}}}
		sc.B = Call{Kind: sc.Kind, Vals: []Val{{K: "str", S: h.S(b)}}}
		if sc.Kind == "snap" && rapid.IntRange(0, 3).Draw(t, "split") == 0 {
			sc.B.Vals = nil
			for _, l := range strings.Split(b, "\n") {
				sc.B.Vals = append(sc.B.Vals, Val{K: "str", S: h.S(l)})
			}
		}
		if !cr {
			fixCR(sc.A.Vals)
			fixCR(sc.B.Vals)
		}
	case "json", "sjson":
		o := jopts{keys: jsonKeys, depth: 2, maxLen: 4}
		j := genJ(o).Draw(t, "json")
		if rapid.IntRange(0, 5).Draw(t, "config") == 0 {
			sc.Cfg.JSON = &JSONCfg{
				Width: rapid.SampledFrom([]int{0, 1, 20, 80, 500}).Draw(t, "width"), Indent: h.S(rapid.SampledFrom([]string{"", " ", "\t"}).Draw(t, "indent")),
				SortKeys: rapid.Bool().Draw(t, "sort"),
			}
		}
		k := editJ(t, j, o)
		sc.A = Call{Kind: sc.Kind, Form: "str", Doc: h.S(j.Render(genLayout().Draw(t, "la"))), J: &j}
		sc.B = Call{Kind: sc.Kind, Form: rapid.SampledFrom([]string{"str", "bytes", "go"}).Draw(t, "form"), Doc: h.S(k.Render(genLayout().Draw(t, "lb"))), J: &k}
		if k.T == "str" && sc.B.Form == "go" {
			sc.B.Form = "str"
		}
	case "yaml":
		a := genYAMLText().Draw(t, "yaml")
		b := h.NoCR(editText(t, a))
		sc.A = Call{Kind: sc.Kind, Form: "str", Doc: h.S(a)}
		sc.B = Call{Kind: sc.Kind, Form: rapid.SampledFrom([]string{"str", "bytes"}).Draw(t, "form"), Doc: h.S(b)}
	}
	return sc
}

// jsonText is the formatted text of a JSON call: what its standalone file holds.
func jsonText(c *h.C, k Cfg, call Call) (string, error) {
	dir := c.Dir()
	k.Dir = sdir(dir)
	k.Update = nil
	call.Kind = "sjson"
	t := h.NewT("TestFormat")
	o, ev, err := step(t, k.Build(), call)
	if err != nil {
		return "", err
	}
	if o != h.Added {
		return "", fmt.Errorf("a standalone JSON snapshot of the value could not be recorded: %s %s", o, h.ShowEvents(ev))
	}
	for _, f := range h.ReadTree(dir).Files() {
		return f, nil
	}
	return "", fmt.Errorf("no standalone JSON file was written")
}

func checkC02(c *h.C, sc c02) error {
	same := false
	switch sc.Kind {
	case "snap", "ssnap":
		same = formatValues(sc.A.Vals) == formatValues(sc.B.Vals)
	case "yaml":
		same = sc.A.Doc == sc.B.Doc
	default:
		x, err := jsonText(c, sc.Cfg, sc.A)
		if err != nil {
			return err
		}
		y, err := jsonText(c, sc.Cfg, sc.B)
		if err != nil {
			return err
		}
		same = x == y
		if same && sc.A.J.canon() != sc.B.J.canon() {
			return fmt.Errorf("different JSON values are formatted the same: %s", h.Show(x))
		}
	}
	dir := c.Dir()
	k := sc.Cfg
	k.Dir = sdir(dir)
	k.File = "f"
	seq := func(slot *Call, cfg *snaps.Config, record bool) error {
		o := h.NewT("TestO")
		n := h.NewT("TestN")
		defer o.RunCleanups()
		defer n.RunCleanups()
		for i, call := range sc.Before {
			out, ev, err := step(o, cfg, call)
			if err != nil || (record && out != h.Added) || (!record && out != h.Passed) {
				return fmt.Errorf("unrelated call %d: %s %s %v", i, out, h.ShowEvents(ev), err)
			}
		}
		if slot != nil {
			out, ev, err := step(n, cfg, *slot)
			if err != nil {
				return err
			}
			switch {
			case record && out != h.Added:
				return fmt.Errorf("recording: %s %s", out, h.ShowEvents(ev))
			case !record && slot == &sc.A && out != h.Passed:
				return fmt.Errorf("the recorded value does not pass: %s %s", out, h.ShowEvents(ev))
			case !record && slot == &sc.B && same && out != h.Passed:
				return fmt.Errorf("a value with the same format does not pass: %s %s", out, h.ShowEvents(ev))
			case !record && slot == &sc.B && !same && out != h.Failed:
				return fmt.Errorf("a value with another format was not reported: %s %s", out, h.ShowEvents(ev))
			}
		}
		for i, call := range sc.After {
			out, ev, err := step(o, cfg, call)
			if err != nil || (record && out != h.Added) || (!record && out != h.Passed) {
				return fmt.Errorf("unrelated call %d: %s %s %v", i, out, h.ShowEvents(ev), err)
			}
		}
		return nil
	}
	if err := seq(&sc.A, k.Build(), true); err != nil {
		return err
	}
	before := h.Age(dir)
	k.Update = sc.Update
	if sc.Far {
		want := h.Failed
		if same {
			want = h.Passed
		}
		if err := farAll(c, "the other value", []farCall{{"TestN", k, sc.B}}, func(int) string { return want }); err != nil {
			return err
		}
		if err := farAll(c, "the recorded value", []farCall{{"TestN", k, sc.A}}, func(int) string { return h.Passed }); err != nil {
			return err
		}
		if err := h.Untouched(before, h.ReadTree(dir)); err != nil {
			return fmt.Errorf("without updating another process changed the directory: %w", err)
		}
	}
	for _, slot := range []*Call{&sc.B, &sc.A, &sc.B} {
		if err := seq(slot, k.Build(), false); err != nil {
			return err
		}
		if err := h.Untouched(before, h.ReadTree(dir)); err != nil {
			return fmt.Errorf("without updating the directory changed: %w", err)
		}
	}
	if !same {
		c.NonTrivial()
		c.Label("%s differs", sc.Kind)
	} else {
		c.Label("%s equal", sc.Kind)
	}
	return nil
}

func init() {
	var corpus []c02
	for _, kind := range []string{"snap", "ssnap"} {
		for _, p := range swaps {
			for _, w := range [][2]string{{"", ""}, {"x", "y"}, {"a\n", "\nb"}, {"---\n", "\n---"}} {
				a, b := w[0]+p[0]+w[1], w[0]+p[1]+w[1]
				if kind == "snap" {
					a, b = h.NoCR(a), h.NoCR(b)
				}
				corpus = append(corpus, c02{
					Kind: kind,
					A:    Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(a)}}}, B: Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(b)}}},
				}, c02{
					Kind: kind,
					A:    Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(b)}}}, B: Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(a)}}},
				})
			}
		}
	}
	for _, p := range swaps {
		a, b := "a: |\n  x\n# "+strings.ReplaceAll(h.NoCR(p[0]), "\n", "\n# ")+"\n", "a: |\n  x\n# "+strings.ReplaceAll(h.NoCR(p[1]), "\n", "\n# ")+"\n"
		corpus = append(corpus, c02{Kind: "yaml", A: Call{Kind: "yaml", Form: "str", Doc: h.S(a)}, B: Call{Kind: "yaml", Form: "bytes", Doc: h.S(b)}})
	}
	// large texts: one line of many differs, or one byte of a long line
	for _, kind := range []string{"snap", "ssnap"} {
		for _, n := range []int{300, 3000} {
			lines := func(at int64, as string) Call {
				return Call{Kind: kind, Vals: []Val{{K: "lines", N: n, I: at, S: h.S(as)}}}
			}
			for _, at := range []int{1, n / 2, n - 1, n} {
				corpus = append(corpus, c02{Kind: kind, A: lines(0, ""), B: lines(int64(at), "x")}, c02{Kind: kind, A: lines(int64(at), "x"), B: lines(int64(at), "y")})
			}
		}
		for _, n := range []int{1 << 12, 1 << 16, 1 << 20, 3 << 20} {
			long := func(n int) Call { return Call{Kind: kind, Vals: []Val{{K: "str", S: "x", N: n}}} }
			at := func(i int64) Call { return Call{Kind: kind, Vals: []Val{{K: "xs", N: n, I: i}}} }
			corpus = append(corpus, c02{Kind: kind, A: long(n), B: long(n + 1)}, c02{Kind: kind, A: long(n + 1), B: long(n)},
				c02{Kind: kind, A: long(n), B: at(1)}, c02{Kind: kind, A: at(int64(n / 2)), B: long(n)}, c02{Kind: kind, A: long(n), B: at(int64(n))})
		}
	}
	h.Register("C02", "pairs",
		"a value is recorded between entries of another test, then a value at a small edit distance (byte, line, newline, whitespace, terminator/escape, invalid UTF-8 swaps; JSON node edits; YAML text edits) is matched without updating, colours on and off; non-trivial: the formatted texts differ",
		1500, 60000, genC02, checkC02, corpus...).In("plain", "nocolor")
}
