package props

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// stored is a store that was written by hand, not by recording.
type stored struct {
	A      Call  `json:"a"`
	Cfg    Cfg   `json:"cfg"`
	Before []Pre `json:"before,omitempty"`
	After  []Pre `json:"after,omitempty"`
	Ord    int   `json:"ord"` // which slot of the test; the ones before it hold A
	// what is done to the text that recording A stores
	Same   bool `json:"same,omitempty"`
	Body   *h.S `json:"body,omitempty"` // another text altogether
	Prefix h.S  `json:"prefix,omitempty"`
	Suffix h.S  `json:"suffix,omitempty"`
	Cut    int  `json:"cut,omitempty"`
	From   h.S  `json:"from,omitempty"` // the occurrence At of From becomes To
	To     h.S  `json:"to,omitempty"`
	At     int  `json:"at,omitempty"`
	Update bool `json:"update,omitempty"` // Update(false) rather than no option (C02)
}

var escapeLine = regexp.MustCompile(`^/*-/-/-/$`)

func genStored(t *rapid.T) stored {
	kind := rapid.SampledFrom([]string{"snap", "snap", "ssnap", "json", "json", "sjson", "sjson", "yaml", "yaml"}).Draw(t, "kind")
	sc := stored{A: genCallOf(t, kind, "TestN", "TestO"), Ord: rapid.SampledFrom([]int{1, 1, 2, 3, 10}).Draw(t, "ord")}
	sc.Before = genPre(t, []string{"TestO", "TestNa", "TestN/a", "Test", "TestN - 1"}, 3, 3)
	sc.After = genPre(t, []string{"TestP", "TestN1", "TestN/b", "TestM", "TestN - 2"}, 2, 3)
	sc.Update = rapid.Bool().Draw(t, "update false")
	switch rapid.IntRange(0, 11).Draw(t, "what") {
	case 0:
		sc.Same = true
	case 1, 2:
		sc.Suffix = h.S(rapid.SampledFrom([]string{"\n", " ", "\t", "\n\n", "\n ", "x", ",", "\x00", "\u00a0", "\ufeff", "\n#", "\n[TestN - 1]", "\n[TestO - 1]\nx", "\v", "\f", "\u2028"}).Draw(t, "suffix"))
	case 3:
		sc.Prefix = h.S(rapid.SampledFrom([]string{"\n", " ", "\t", "\n\n", "x", "\ufeff", "\x00", "[TestN - 1]\n", "#\n", "\u200b"}).Draw(t, "prefix"))
	case 4:
		sc.Cut = rapid.IntRange(1, 3).Draw(t, "cut")
	case 5:
		sc.Body = ptr(h.S(genBody("TestN", "TestO").Draw(t, "body")))
	case 6, 7:
		if sc.A.J != nil {
			// the same value in another layout
			sc.Body = ptr(h.S(sc.A.J.Render(genLayout().Draw(t, "layout"))))
			break
		}
		fallthrough
	default:
		p := rapid.SampledFrom(append([][2]string{
			{"\n", " \n"}, {"\n", "\t\n"}, {"\n", "\n\n"}, {"\n", ""}, {" ", ""}, {" ", "  "}, {": ", ":"}, {":", " :"}, {",", ", "}, {"\"", "'"}, {"{", "{ "}, {"0", "0.0"}, {"1", "1e0"}, {"1", "1.0"}, {"e", "E"},
			{"a", "\\u0061"}, {"null", "~"}, {"true", "True"}, {"- ", "-  "}, {"  ", "\t"}, {"<", "\\u003c"}, {"/", "\\/"}, {"\\u", "\\U"}, {"\"\"", "null"}, {"[]", "null"}, {"{}", "[]"},
		}, swaps...)).Draw(t, "swap")
		if rapid.Bool().Draw(t, "dir") {
			p[0], p[1] = p[1], p[0]
		}
		if p[0] == "" {
			p = [2]string{"\n", "\n "}
		}
		sc.From, sc.To, sc.At = h.S(p[0]), h.S(p[1]), rapid.IntRange(0, 5).Draw(t, "at")
	}
	return sc
}

// text is what the store holds in place of x.
func (sc stored) text(x string) string {
	y := x
	switch {
	case sc.Same:
		return x
	case sc.Body != nil:
		y = string(*sc.Body)
	case sc.Cut > 0:
		y = x[:max(0, len(x)-sc.Cut)]
	case sc.From != "":
		parts := strings.Split(x, string(sc.From))
		if len(parts) == 1 {
			y = x + string(sc.To)
			break
		}
		k := sc.At%(len(parts)-1) + 1
		y = strings.Join(parts[:k], string(sc.From)) + string(sc.To) + strings.Join(parts[k:], string(sc.From))
	}
	y = string(sc.Prefix) + y + string(sc.Suffix)
	if sc.A.Kind == "ssnap" || sc.A.Kind == "sjson" || y == x {
		return y
	}
	// an entry holds lines that are neither a terminator nor, so that the text is what it says, an escape
	ls := strings.Split(h.NoCR(y), "\n")
	xs := map[string]bool{}
	for _, l := range strings.Split(x, "\n") {
		xs[l] = true
	}
	for i, l := range ls {
		if l == "---" || escapeLine.MatchString(l) && !xs[l] {
			ls[i] = "z"
		}
	}
	return strings.Join(ls, "\n")
}

func (sc stored) check(c *h.C, update bool) error {
	alone := sc.A.Kind == "ssnap" || sc.A.Kind == "sjson"
	var x string
	var err error
	if alone {
		dir := c.Dir()
		k := sc.Cfg
		k.Dir = sdir(dir)
		o, ev, err := step(h.NewT("TestFormat"), k.Build(), sc.A)
		if err != nil || o != h.Added {
			return fmt.Errorf("recording: %s %s %v", o, h.ShowEvents(ev), err)
		}
		for _, x = range h.ReadTree(dir).Files() {
		}
	} else {
		dir := c.Dir()
		k := sc.Cfg
		k.Dir, k.File = sdir(dir), "f"
		o, ev, err := step(h.NewT("TestFormat"), k.Build(), sc.A)
		if err != nil || o != h.Added {
			return fmt.Errorf("recording: %s %s %v", o, h.ShowEvents(ev), err)
		}
		es, err := h.ParseStore(h.ReadTree(dir)["f.snap"].Data)
		if err != nil || len(es) != 1 {
			return fmt.Errorf("recording one value made %d entries (%v)", len(es), err)
		}
		x = es[0].Body
	}
	y := sc.text(x)
	same := x == y
	dir := c.Dir()
	k := sc.Cfg
	k.Dir, k.File = sdir(dir), "f"
	name := "TestN"
	file := func(last string) map[string]h.S {
		fs := map[string]h.S{}
		if alone {
			for i := 1; i < sc.Ord; i++ {
				fs[fmt.Sprintf("f_%d.snap%s", i, sextension(sc.A, k))] = h.S(x)
			}
			fs[fmt.Sprintf("f_%d.snap%s", sc.Ord, sextension(sc.A, k))] = h.S(last)
			return fs
		}
		var b strings.Builder
		b.WriteString(string(renderPre(sc.Before)))
		for i := 1; i < sc.Ord; i++ {
			b.WriteString(h.Entry{ID: fmt.Sprintf("%s - %d", name, i), Body: x}.Render())
		}
		b.WriteString(h.Entry{ID: fmt.Sprintf("%s - %d", name, sc.Ord), Body: last}.Render())
		b.WriteString(string(renderPre(sc.After)))
		fs["f.snap"+string(k.Ext)] = h.S(b.String())
		return fs
	}
	if err := h.WriteFiles(dir, file(y)); err != nil {
		panic(h.Infra{Err: err})
	}
	before := h.Age(dir)
	round := func(want string) error {
		t := h.NewT(name)
		defer t.RunCleanups()
		for i := 1; i <= sc.Ord; i++ {
			o, ev, err := step(t, k.Build(), sc.A)
			w := h.Passed
			if i == sc.Ord {
				w = want
			}
			if err != nil || o != w {
				return fmt.Errorf("call %d of %d (%s): the store holds %s, the value is formatted as %s: outcome %s, want %s %s %v", i, sc.Ord, sc.A.Kind, h.Show(y), h.Show(x), o, w, h.ShowEvents(ev), err)
			}
		}
		return nil
	}
	if !update {
		if sc.Update {
			k.Update = ptr(false)
		}
		want := h.Failed
		if same {
			want = h.Passed
		}
		if err = round(want); err != nil {
			return err
		}
		if err := h.Untouched(before, h.ReadTree(dir)); err != nil {
			return fmt.Errorf("without updating the directory changed: %w", err)
		}
	} else {
		if os.Getenv("UPDATE_SNAPS") != "true" {
			k.Update = ptr(true)
		}
		want := h.Updated
		if same {
			want = h.Passed
		}
		if err = round(want); err != nil {
			return err
		}
		now := h.ReadTree(dir)
		if same {
			if err := h.Untouched(before, now); err != nil {
				return fmt.Errorf("nothing differed, but %w", err)
			}
		}
		for f, data := range file(x) {
			if st, ok := now[f]; !ok || st.Data != string(data) {
				return fmt.Errorf("after updating %s from %s the file %s holds %s, want %s", sc.A.Kind, h.Show(y), f, h.Show(st.Data), h.Show(string(data)))
			}
		}
		if len(now.Files()) != len(file(x)) {
			return fmt.Errorf("the update made the files %v", now.Names())
		}
		tree := h.Age(dir)
		for _, u := range []*bool{ptr(false), ptr(true)} {
			k.Update = u
			if err := round(h.Passed); err != nil {
				return fmt.Errorf("after the update: %w", err)
			}
			if err := h.Untouched(tree, h.ReadTree(dir)); err != nil {
				return fmt.Errorf("a run after the update wrote: %w", err)
			}
		}
	}
	if !same {
		c.NonTrivial()
		c.Label("%s differs", sc.A.Kind)
	} else {
		c.Label("%s equal", sc.A.Kind)
	}
	return nil
}

func sextension(a Call, k Cfg) string {
	if a.Kind == "sjson" && k.Ext == "" {
		return ".json"
	}
	return string(k.Ext)
}

func init() {
	var corpus []stored
	for _, kind := range []string{"snap", "ssnap", "json", "sjson", "yaml"} {
		a := Call{Kind: kind, Vals: []Val{{K: "str", S: "a: \n  b"}}}
		switch kind {
		case "json", "sjson":
			j := J{T: "obj", K: []h.S{"a"}, A: []J{{T: "arr", A: []J{{T: "num", V: "1"}, {T: "str", V: "x y"}}}}}
			a = Call{Kind: kind, Form: "str", Doc: `{"a":[1,"x y"]}`, J: &j}
		case "yaml":
			a = Call{Kind: kind, Form: "str", Doc: "a:\n  - b\n# c\n"}
		}
		for _, s := range []string{"\n", " ", "\t", "\n\n", " \n", "\x00", "\n ", "\u00a0"} {
			corpus = append(corpus, stored{A: a, Ord: 1, Suffix: h.S(s)}, stored{A: a, Ord: 2, Prefix: h.S(s), Update: true}, stored{A: a, Ord: 1, From: "\n", To: h.S(s + "\n"), At: 1})
		}
		corpus = append(corpus, stored{A: a, Ord: 1, Cut: 1}, stored{A: a, Ord: 1, Same: true}, stored{A: a, Ord: 1, From: "\n", To: ""}, stored{A: a, Ord: 1, From: " ", To: ""})
	}
	h.Register("C02", "stored",
		"a store written by hand: the text that recording a value stores, with bytes added at either end, cut, swapped for similar ones, blanks at line ends, the same JSON value in another layout, or another text, in slot 1-10 among entries of other tests; without updating, the call passes exactly if the stored text is the formatted one, and writes nothing; non-trivial: the texts differ",
		2500, 60000, genStored, func(c *h.C, sc stored) error { return sc.check(c, false) }, corpus...).In("plain", "nocolor")
	h.Register("C04", "stored",
		"the same hand-written stores with updating enabled: the slot is rewritten exactly if its text is not the formatted one, every other byte of the directory stays, and the following runs pass and write nothing; non-trivial: the slot was rewritten",
		1500, 40000, genStored, func(c *h.C, sc stored) error { return sc.check(c, true) }, corpus...).In("plain", "updenv")
}
