package props

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// A report in NO_COLOR mode.
type report struct {
	Minus, Plus int
	Hunks       []hunk
}

type hunk struct {
	Ranged         bool
	A1, AL, B1, BL int // as printed
	Lines          []rline
}

type rline struct {
	Sign byte
	Text string
}

var (
	headRe  = regexp.MustCompile(`(?s)^\n- Snapshot +- ([0-9]+)\n\+ Received +\+ ([0-9]+)\n\n(.*)$`)
	rangeRe = regexp.MustCompile(`^@@ -([0-9]+)(?:,([0-9]+))? \+([0-9]+)(?:,([0-9]+))? @@$`)
)

func parseReport(s string) (report, error) {
	var r report
	m := headRe.FindStringSubmatch(s)
	if m == nil {
		return r, fmt.Errorf("the report has no header: %s", h.Show(s))
	}
	r.Minus, _ = strconv.Atoi(m[1])
	r.Plus, _ = strconv.Atoi(m[2])
	lines := strings.Split(m[3], "\n")
	cur := -1
	for i := 0; ; i++ {
		if i >= len(lines) {
			return r, fmt.Errorf("the body of the report does not end with a blank line: %s", h.Show(s))
		}
		l := lines[i]
		if l == "" {
			break // end of the body; the footer follows
		}
		if g := rangeRe.FindStringSubmatch(l); g != nil {
			n := func(k, def int) int {
				if g[k] == "" {
					return def
				}
				v, _ := strconv.Atoi(g[k])
				return v
			}
			r.Hunks = append(r.Hunks, hunk{Ranged: true, A1: n(1, 0), AL: n(2, 1), B1: n(3, 0), BL: n(4, 1)})
			cur = len(r.Hunks) - 1
			if i++; i >= len(lines) || lines[i] != "" {
				return r, fmt.Errorf("no blank line after the range %s", l)
			}
			continue
		}
		if len(l) < 2 || l[1] != ' ' || strings.IndexByte(" -+", l[0]) < 0 {
			return r, fmt.Errorf("line %d of the body is not a diff line: %s", i, h.Show(l))
		}
		if cur < 0 {
			r.Hunks = append(r.Hunks, hunk{})
			cur = 0
		}
		r.Hunks[cur].Lines = append(r.Hunks[cur].Lines, rline{l[0], l[2:]})
	}
	return r, nil
}

// checkReport decides whether the report is a true edit of a into b: there is a walk through
// both texts that consumes every line, in which everything not shown is common to both.
func checkReport(rep, a, b string) error {
	r, err := parseReport(rep)
	if err != nil {
		return err
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	minus, plus := 0, 0
	var flat []rline
	var hunkOf []int // hunk starting at this index of flat, or -1
	for i, k := range r.Hunks {
		na, nb := 0, 0
		for j, l := range k.Lines {
			flat = append(flat, l)
			if j == 0 {
				hunkOf = append(hunkOf, i)
			} else {
				hunkOf = append(hunkOf, -1)
			}
			switch l.Sign {
			case '-':
				minus++
				na++
			case '+':
				plus++
				nb++
			default:
				na++
				nb++
			}
		}
		if k.Ranged && (k.AL != na || k.BL != nb) {
			return fmt.Errorf("the range of hunk %d says %d and %d lines, it shows %d and %d", i, k.AL, k.BL, na, nb)
		}
		if len(k.Lines) == 0 {
			return fmt.Errorf("hunk %d is empty", i)
		}
	}
	if minus != r.Minus || plus != r.Plus {
		return fmt.Errorf("the header counts %d and %d, the body shows %d and %d", r.Minus, r.Plus, minus, plus)
	}
	if minus+plus == 0 {
		return fmt.Errorf("the report shows no changed line")
	}
	// states: how many common lines are skipped so far
	skip := map[int]bool{0: true}
	ca, cb := 0, 0 // lines of a and b consumed by flat[:i]
	spread := func() {
		// more lines may be skipped here: consecutive common lines
		for s := 0; s <= len(la); s++ {
			if skip[s] && ca+s < len(la) && cb+s < len(lb) && la[ca+s] == lb[cb+s] {
				skip[s+1] = true
			}
		}
	}
	for i, l := range flat {
		if len(r.Hunks) == 1 && !r.Hunks[0].Ranged {
			spread() // short texts show no ranges, the hunks are not told apart
		}
		if hunkOf[i] >= 0 {
			spread()
			if k := r.Hunks[hunkOf[i]]; k.Ranged {
				for s := range skip {
					a1, b1 := ca+s+1, cb+s+1
					if k.AL == 0 {
						a1--
					}
					if k.BL == 0 {
						b1--
					}
					if a1 != k.A1 || b1 != k.B1 {
						delete(skip, s)
					}
				}
			}
		}
		next := map[int]bool{}
		for s := range skip {
			x, y := ca+s, cb+s
			switch l.Sign {
			case '-':
				if x < len(la) && la[x] == l.Text {
					next[s] = true
				}
			case '+':
				if y < len(lb) && lb[y] == l.Text {
					next[s] = true
				}
			default:
				if x < len(la) && y < len(lb) && la[x] == lb[y] && (la[x] == l.Text || la[x] == "" && l.Text == "↵") {
					next[s] = true
				}
			}
		}
		if len(next) == 0 {
			return fmt.Errorf("line %d of the report (%c %s) does not fit the texts", i, l.Sign, h.Show(l.Text))
		}
		skip = next
		if l.Sign != '+' {
			ca++
		}
		if l.Sign != '-' {
			cb++
		}
	}
	spread()
	for s := range skip {
		if ca+s == len(la) && cb+s == len(lb) {
			return nil
		}
	}
	return fmt.Errorf("the report omits changed lines")
}

type c13 struct {
	Multi bool  `json:"multi,omitempty"` // through MatchSnapshot instead of a standalone file
	A     h.S   `json:"a"`
	B     []h.S `json:"b"`
	All   int   `json:"all,omitempty"` // B is every text of up to this many lines over the alphabet
}

var c13Alphabet = []string{"a", "b", ""}

func allTexts(n int) []string {
	var out []string
	var rec func(prefix []string)
	rec = func(prefix []string) {
		if len(prefix) > 0 {
			out = append(out, strings.Join(prefix, "\n"))
		}
		if len(prefix) == n {
			return
		}
		for _, l := range c13Alphabet {
			rec(append(prefix[:len(prefix):len(prefix)], l))
		}
	}
	rec(nil)
	return out
}

func genLines(t *rapid.T) []string {
	n := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 11, 12, 15, 24, 40, 40, 199, 200, 201, 230, 420, 1100}).Draw(t, "n")
	var pool []string
	switch rapid.IntRange(0, 3).Draw(t, "pool") {
	case 0:
		pool = []string{"a", "b", ""}
	case 1:
		pool = h.NastyLines
	case 2: // mostly distinct lines
		for i := 0; i < 2*n; i++ {
			pool = append(pool, fmt.Sprintf("line %d", i))
		}
	default: // popular lines among distinct ones
		for i := 0; i < n; i++ {
			pool = append(pool, fmt.Sprintf("line %d", i), "}", "")
		}
	}
	l := make([]string, n)
	at := rapid.IntRange(0, len(pool)-1).Draw(t, "start")
	step := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 7}).Draw(t, "step")
	for i := range l {
		l[i] = pool[(at+i*step)%len(pool)]
	}
	return l
}

func genC13(t *rapid.T) c13 {
	sc := c13{Multi: rapid.IntRange(0, 3).Draw(t, "multi") == 0}
	a := genLines(t)
	sc.A = h.S(strings.Join(a, "\n"))
	n := rapid.IntRange(1, 3).Draw(t, "variants")
	for i := 0; i < n; i++ {
		b := append([]string(nil), a...)
		for k, edits := 0, rapid.IntRange(0, 4).Draw(t, "edits"); k < edits && len(b) > 0; k++ {
			x := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			m := rapid.IntRange(1, min(len(b)-x, rapid.SampledFrom([]int{1, 1, 1, 3, 30}).Draw(t, "span"))).Draw(t, "len")
			switch rapid.IntRange(0, 5).Draw(t, "edit") {
			case 0:
				b = append(b[:x:x], b[x+m:]...)
			case 1:
				b = append(b[:x:x], append(append([]string(nil), rapid.SliceOfN(rapid.SampledFrom(h.NastyLines), 1, 4).Draw(t, "new")...), b[x:]...)...)
			case 2:
				b[x] = h.NoCR(strings.ReplaceAll(editText(t, b[x]), "\n", " "))
			case 3: // move a block to the end
				blk := append([]string(nil), b[x:x+m]...)
				b = append(append(b[:x:x], b[x+m:]...), blk...)
			case 4: // lines all over the text
				p, q := rapid.SampledFrom([]int{7, 8, 9, 11, 20, 2}).Draw(t, "period"), rapid.IntRange(0, 2).Draw(t, "how")
				var nb []string
				for j, l := range b {
					switch {
					case j%p != x%p:
						nb = append(nb, l)
					case q == 0:
						nb = append(nb, l+"!")
					case q == 1:
						nb = append(nb, l, fmt.Sprint("new ", j))
					}
				}
				if len(nb) > 0 {
					b = nb
				}
			default: // double a block
				b = append(b[:x+m:x+m], b[x:]...)
			}
		}
		sc.B = append(sc.B, h.S(strings.Join(b, "\n")))
	}
	if rapid.IntRange(0, 3).Draw(t, "free text") == 0 {
		sc.A = h.S(h.TallText(!sc.Multi, "TestA").Draw(t, "a"))
		sc.B = []h.S{h.S(editText(t, string(sc.A)))}
	}
	if sc.Multi {
		fix := func(s h.S) h.S {
			v := []Val{{K: "str", S: s}}
			fixCR(v)
			return v[0].S
		}
		sc.A = fix(sc.A)
		for i := range sc.B {
			sc.B[i] = fix(sc.B[i])
		}
	}
	return sc
}

// c13doc compares documents made of the lines of the texts.
type c13doc struct {
	Kind string `json:"kind"`
	c13
}

var plainWord = regexp.MustCompile(`^[a-z0-9 !]+$`)

// docOf makes a document in which every line of the text is one line, equal lines equal ones.
func (sc c13doc) docOf(text h.S) Call {
	c := Call{Kind: sc.Kind, Form: "str"}
	var out []string
	for _, l := range strings.Split(string(text), "\n") {
		word := l
		if !plainWord.MatchString(l) {
			word = fmt.Sprintf("x%x", l)
		}
		switch {
		case sc.Kind != "yaml":
			out = append(out, fmt.Sprintf(`{"%s":[]}`, word))
		case l == "" || l == "---":
			out = append(out, l)
		default:
			out = append(out, fmt.Sprintf(`- "%s"`, word))
		}
	}
	if sc.Kind == "yaml" {
		c.Doc = h.S(strings.Join(out, "\n"))
	} else {
		c.Doc = h.S("[" + strings.Join(out, ",") + "]")
	}
	return c
}

func (sc c13doc) text(c *h.C, call Call) (string, error) {
	if sc.Kind == "sjson" {
		return jsonText(c, Cfg{}, call)
	}
	return fmtText(c, Cfg{}, call)
}

func checkC13doc(c *h.C, sc c13doc) error {
	_, noColor := os.LookupEnv("NO_COLOR")
	cfg := Cfg{Dir: sdir(c.Dir()), File: "f"}
	t := h.NewT("TestA")
	ca := sc.docOf(sc.A)
	if o, ev, err := step(t, cfg.Build(), ca); o != h.Added {
		return fmt.Errorf("recording: %s %s %v", o, h.ShowEvents(ev), err)
	}
	t.RunCleanups()
	a, err := sc.text(c, ca)
	if err != nil {
		return err
	}
	cfg.Update = ptr(false)
	k := cfg.Build()
	for _, vb := range sc.B {
		cb := sc.docOf(vb)
		b, err := sc.text(c, cb)
		if err != nil {
			return err
		}
		t := h.NewT("TestA")
		o, ev, err := step(t, k, cb)
		t.RunCleanups()
		if err != nil {
			return err
		}
		if (o == h.Failed) != (a != b) || (o != h.Failed && o != h.Passed) {
			return fmt.Errorf("stored %s, received %s: %s %s", h.Show(a), h.Show(b), o, h.ShowEvents(ev))
		}
		if a == b {
			continue
		}
		c.NonTrivial()
		c.Label("%s", sc.Kind)
		rep := string(ev[0].Text)
		if strings.TrimSpace(rep) == "" {
			return fmt.Errorf("stored %s, received %s: the report is empty", h.Show(a), h.Show(b))
		}
		if noColor {
			if err := checkReport(rep, a, b); err != nil {
				return fmt.Errorf("stored %s, received %s: %w\n%s", h.Show(a), h.Show(b), err, rep)
			}
		}
	}
	return nil
}

func checkC13(c *h.C, sc c13) error {
	_, noColor := os.LookupEnv("NO_COLOR")
	dir := c.Dir()
	kind := "ssnap"
	if sc.Multi {
		kind = "snap"
	}
	val := func(s h.S) Call { return Call{Kind: kind, Vals: []Val{{K: "str", S: s}}} }
	cfg := Cfg{Dir: sdir(dir), File: "f"}
	t := h.NewT("TestA")
	if o, ev, err := step(t, cfg.Build(), val(sc.A)); o != h.Added {
		return fmt.Errorf("recording: %s %s %v", o, h.ShowEvents(ev), err)
	}
	t.RunCleanups()
	a := formatValues(val(sc.A).Vals)
	bs := sc.B
	if sc.All > 0 {
		for _, s := range allTexts(sc.All) {
			bs = append(bs, h.S(s))
		}
	}
	cfg.Update = ptr(false)
	k := cfg.Build()
	differs := 0
	for _, vb := range bs {
		b := formatValues(val(vb).Vals)
		t := h.NewT("TestA")
		o, ev, err := step(t, k, val(vb))
		t.RunCleanups()
		if err != nil {
			return err
		}
		if (o == h.Failed) != (a != b) || (o != h.Failed && o != h.Passed) {
			return fmt.Errorf("stored %s, received %s: %s %s", h.Show(a), h.Show(b), o, h.ShowEvents(ev))
		}
		if a == b {
			continue
		}
		differs++
		rep := string(ev[0].Text)
		if strings.TrimSpace(rep) == "" {
			return fmt.Errorf("stored %s, received %s: the report is empty", h.Show(a), h.Show(b))
		}
		if noColor {
			if err := checkReport(rep, a, b); err != nil {
				return fmt.Errorf("stored %s, received %s: %w\n%s", h.Show(a), h.Show(b), err, rep)
			}
			if n := strings.Count(a, "\n"); n > 10 {
				c.Label("with hunk ranges")
			}
			if n := strings.Count(b, "\n"); n >= 200 {
				c.Label("received text of 200 lines or more")
			}
		}
	}
	c.Evaluations(len(bs))
	if differs > 0 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	var corpus []c13
	for _, s := range allTexts(5) {
		corpus = append(corpus, c13{A: h.S(s), All: 5})
	}
	for _, p := range swaps {
		for _, w := range [][2]string{{"", ""}, {"x", "y"}, {"a\n", "\nb"}, {"1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n", "\n12"}} {
			corpus = append(corpus, c13{A: h.S(w[0] + p[0] + w[1]), B: []h.S{h.S(w[0] + p[1] + w[1])}})
		}
	}
	h.Register("C13", "report",
		"text pairs through the public API: all pairs of 1..5 lines over the alphabet {a, b, empty}, texts of 1..1100 lines over few, hostile, distinct or popular lines with block edits and edits all over the text, and free text edits; the report must be empty iff the texts are equal and, without colours, parse as an edit script that consumes both texts; non-trivial: at least one pair differs",
		12000, 80000, genC13, checkC13, corpus...).In("plain", "nocolor")
	h.Register("C13", "documents",
		"pairs of YAML and JSON documents made of the lines of such texts (MatchYAML, MatchJSON, MatchStandaloneJSON), judged the same way; non-trivial: at least one pair differs",
		1200, 10000, func(t *rapid.T) c13doc {
			sc := c13doc{Kind: rapid.SampledFrom([]string{"yaml", "json", "sjson"}).Draw(t, "kind"), c13: genC13(t)}
			return sc
		}, checkC13doc).In("plain", "nocolor")
}
