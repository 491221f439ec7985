package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"github.com/goccy/go-yaml"
	"github.com/goccy/go-yaml/parser"
	"pgregory.net/rapid"
)

// c18Doc is a document given to MatchYAML, and the one that takes its place later.
type c18Doc struct {
	Form    string `json:"form"` // str bytes
	Doc     h.S    `json:"doc"`
	New     *h.S   `json:"new,omitempty"`
	NewForm string `json:"newform,omitempty"`
	Missing []M    `json:"missing,omitempty"` // matchers whose paths are not there, allowed to be missing
	Other   *Call  `json:"other,omitempty"`   // another kind of call in front of it
}

type c18 struct {
	Pre  []Pre    `json:"pre,omitempty"`
	Docs []c18Doc `json:"docs"`
	Pkg  bool     `json:"pkg,omitempty"` // through the defaults of WithConfig with Ext
	Reps int      `json:"reps"`
}

// docs that the grammar does not make.
var yamlSpecials = []string{
	"---", "---\n", "---\n---\n", "a: 1\n---\n", "---\na: 1\n---\n---\nb: 2\n", "a: 1\n...\n", "a: 1\n...\n---\nb: 2\n", "...\n",
	"[TestY - 1]\n", "[TestY - 1]", "[\n[TestY - 1]\n]\n", "- x\n---\n[TestY - 2]\n---\n- y\n", "[Other - 1]\n---\n", "[TestY - 2]\n---\n[TestY - 1]",
	"a: |\n  ---\n  x\n", "a: |+\n  x\n\n\n", "a: |+\n  x\n\n\nb: 1\n", "a: >\n  /-/-/-/\n  y\n\n  z\n", "/-/-/-/\n", "//-/-/-/", "/-/-/-/\n---\n/-/-/-/\n---\n//-/-/-/\n",
	"# only\n# comments\n", "# c\n---\n# d\na: 1 # e\n# f\n", "\n\n\na: 1\n\n\n", " a: 1\n b: 2\n", "a:   1   \nb:\t2\n", "a: \"x\\\n  y\"\n", "%YAML 1.2\n---\na: 1\n",
	"b: 1\na: 2\nc: 0\n", "{a: 1, b: [1, 2], \"c\": 'd'}", "[1,2,  3]\n", "x: &a [1, 2]\ny: *a\n", "base: &b {k: 1}\nd:\n  <<: *b\n  z: 2\n", "!!str 12\n", "a: !!int \"3\"\n",
	"? a\n: b\n", "\"---\"\n", "'---'", "a: '---'\n", "- - - 1\n", "null\n", "~", " ", "\n", "", "\t", "# é\nk: 日本\n", "k: \"\\u00e9\\n\"\n", "a: 1 #no\n", "a: [ ]\nb: { }\n",
	"1: a\n2: b\n", "true: x\n", "a: 1e3\nb: 0x10\nc: 1_0\n", "a: 2001-12-14t21:59:43.10-05:00\n", "multi: line\n  plain\n  scalar\n", "\ufeffa: 1\n", "a: \"\\0\"\n",
	"a: 1\n\n---\n\nb: 2\n\n", "---\n\n---\n", "--- # c\na: 1\n", "--- |\n  x\n  y\n--- >-\n z\n", "a: 'it''s'\n", "-\n-\n- x\n", "a:\n- 1\n- 2\nb:\n    - 3\n",
}

// not YAML by the YAML specification.
var yamlBad = []string{
	"a: [1", "a: {b: 1", "a: \"x", "a: 'x", "a: 1\n b: 2\n", "]", "a: b: c\n", "a: *nope\n", "a: 1\na: 2\n", "- a\nb: 1\n", "key: [a, b\nc: d\n", "a: 1\n---\nb: [\n",
	"[1, 2", "{a: 1", "a: &\n", "\"x", "- [\n", "a: 1\n---\n- x\ny: [1\n", "a: |x\n  b\n",
	"a: 1\n---\nb: 'x", "a: 1\n---\n]\n", "\t- a", "a: 1\n\tb: 2\n", "a: 'x' y\n", "a: \"x\" y\n", "a: @b\n", "a: `b`\n", "%YAML 1.2\na: 1\n", "a: \"\\q\"\n", "a:\n  b\n c: 1\n",
	"a: 1\n- b\n", "[a]]", "{a: 1}}", "a: [1]]\n", "*x", "- *x", "a: b\n  c: d\n",
}

// validYAML is the reference: the decoder of goccy/go-yaml, which reads the whole stream.
func validYAML(doc string) (ok, known bool) {
	for _, b := range yamlBad {
		if b == doc {
			return false, true // whatever the decoder thinks of it
		}
	}
	defer func() {
		if recover() != nil {
			ok, known = false, false
		}
	}()
	var v any
	return yaml.Unmarshal([]byte(doc), &v) == nil, true
}

// bigYAML is a document beyond the sizes the others have.
func bigYAML(t *rapid.T) string {
	n := rapid.SampledFrom([]int{20, 70, 300}).Draw(t, "size")
	var b strings.Builder
	switch rapid.IntRange(0, 6).Draw(t, "big") {
	case 0:
		return "a: " + strings.Repeat("word ", n*50) + "\n"
	case 1:
		return "a: \"" + strings.Repeat("é", n*300) + "\"\nb: 1\n"
	case 2:
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "key%d:   value %d   # c\n", i, i)
		}
	case 3:
		for i := 0; i < n/2; i++ {
			fmt.Fprintf(&b, "---\na: %d\n", i)
		}
	case 4:
		for i := 0; i < min(n, 70); i++ {
			b.WriteString(strings.Repeat(" ", i) + "a:\n")
		}
		b.WriteString(strings.Repeat(" ", n) + "b\n")
	case 5:
		b.WriteString("a: |\n")
		ls := rapid.SliceOfN(rapid.SampledFrom([]string{"  x\n", "\n", "  ---\n", "   y \n"}), 3, 7).Draw(t, "lines")
		for i := 0; i < n*10; i++ {
			b.WriteString(ls[i%len(ls)])
		}
	default:
		b.WriteString("a: " + strings.Repeat("[", min(n, 70)) + "1" + strings.Repeat("]", min(n, 70)) + "\n")
		b.WriteString(strings.Repeat("\n", n))
		b.WriteString("b: 1")
	}
	return b.String()
}

func genC18Text(t *rapid.T) string {
	if h.Rare(t, 5, "big?") {
		return bigYAML(t)
	}
	switch rapid.IntRange(0, 9).Draw(t, "text kind") {
	case 0, 1:
		return rapid.SampledFrom(yamlSpecials).Draw(t, "special")
	case 2:
		return rapid.SampledFrom(yamlBad).Draw(t, "bad")
	case 3:
		return h.NoCR(h.Text(false, "TestY", "TestY/a").Draw(t, "hostile"))
	case 4:
		// two documents of any kind, one after the other
		return rapid.SampledFrom(yamlSpecials).Draw(t, "s1") + rapid.SampledFrom([]string{"---\n", "\n---\n", "...\n---\n", "\n"}).Draw(t, "sep") + rapid.SampledFrom(yamlSpecials).Draw(t, "s2")
	case 5:
		s := genYAMLText().Draw(t, "base")
		return h.NoCR(editText(t, s))
	default:
		return genYAMLText().Draw(t, "doc")
	}
}

var missingPaths = []string{"$.zz_nope", "$.zz_nope.b", "$.zz_nope[0]", "$.zz_nope[*].c", "$.a.zz_nope", "$.zz.zz.zz", "$.zz_nope.b[1].c"}

func genMissing(t *rapid.T) []M {
	var out []M
	n := rapid.IntRange(1, 3).Draw(t, "missing")
	for i := 0; i < n; i++ {
		m := M{Kind: rapid.SampledFrom([]string{"any", "type", "custom"}).Draw(t, "m"), NoErr: true, Type: "string"}
		k := rapid.IntRange(1, 2).Draw(t, "paths")
		if m.Kind == "custom" {
			k = 1
		}
		for j := 0; j < k; j++ {
			m.Paths = append(m.Paths, h.S(rapid.SampledFrom(missingPaths).Draw(t, "path")))
		}
		out = append(out, m)
	}
	return out
}

func genC18(t *rapid.T) c18 {
	sc := c18{Pre: genPre(t, []string{"TestY", "TestYY", "TestA", "TestY/a"}, 3, 1), Pkg: rapid.IntRange(0, 3).Draw(t, "ext") == 0, Reps: rapid.IntRange(1, 2).Draw(t, "reps")}
	// the slots of the test itself start empty
	pre := sc.Pre[:0]
	for _, p := range sc.Pre {
		if !strings.HasPrefix(string(p.ID), "TestY - ") {
			pre = append(pre, p)
		}
	}
	sc.Pre = pre
	n := rapid.IntRange(1, 4).Draw(t, "docs")
	for i := 0; i < n; i++ {
		d := c18Doc{Form: rapid.SampledFrom([]string{"str", "bytes"}).Draw(t, "form"), Doc: h.S(genC18Text(t))}
		switch rapid.IntRange(0, 4).Draw(t, "new") {
		case 0, 1:
			d.New = ptr(h.S(h.NoCR(editText(t, string(d.Doc)))))
		case 2:
			d.New = ptr(h.S(genC18Text(t)))
		}
		if d.New != nil {
			d.NewForm = rapid.SampledFrom([]string{"str", "bytes"}).Draw(t, "new form")
		}
		if rapid.IntRange(0, 3).Draw(t, "missing?") == 0 {
			d.Missing = genMissing(t)
		}
		if rapid.IntRange(0, 4).Draw(t, "other?") == 0 {
			d.Other = ptr(genCallOf(t, rapid.SampledFrom([]string{"snap", "json"}).Draw(t, "other kind"), "TestY"))
		}
		sc.Docs = append(sc.Docs, d)
	}
	return sc
}

type c18Slot struct {
	name  string
	calls []Call // one call per run
	text  []string
	ok    []bool
}

func checkC18(c *h.C, sc c18) error {
	ci, upd := modeOf()
	base := c.Dir()
	k := Cfg{Dir: sdir(join(base, "d")), File: "f"}
	file := "d/f.snap"
	if sc.Pkg {
		k.Ext = ".yaml"
		file += ".yaml"
	}
	if len(sc.Pre) > 0 {
		if err := h.WriteFiles(base, map[string]h.S{file: renderPre(sc.Pre)}); err != nil {
			return err
		}
	}

	// runs: record, replay, update, replay
	type run struct {
		update *bool
		second bool
	}
	runs := []run{{nil, false}}
	for i := 0; i < sc.Reps; i++ {
		runs = append(runs, run{ptr(false), false})
	}
	runs = append(runs, run{ptr(true), true}, run{ptr(false), true}, run{nil, true})

	model := map[int]string{} // slot -> value
	var order []int
	for r, ru := range runs {
		k.Update = ru.update
		t := h.NewT("TestY")
		ord := 0
		for _, d := range sc.Docs {
			if d.Other != nil {
				// what it stores is not of interest here, only that it keeps away from the others
				ord++
				before := onlyFiles(h.Age(base))
				do(t, k.Build(), *d.Other)
				ev := t.Take()
				o, err := h.Classify(ev)
				if err != nil {
					return err
				}
				if _, had := model[ord]; !had && o == h.Added {
					order = append(order, ord)
					model[ord] = "other"
				}
				if o != h.Added && o != h.Updated {
					if err := h.Untouched(before, onlyFiles(h.ReadTree(base))); err != nil {
						return fmt.Errorf("run %d: a call that %s wrote: %w", r, o, err)
					}
				}
			}
			ord++
			doc, form := d.Doc, d.Form
			if ru.second && d.New != nil {
				doc, form = *d.New, d.NewForm
			}
			ok, known := validYAML(string(doc))
			if !known {
				c.Label("the yaml decoder panics")
				return nil
			}
			call := Call{Kind: "yaml", Form: form, Doc: doc, M: d.Missing}
			if _, err := parser.ParseBytes([]byte(doc), parser.ParseComments); ok && err != nil {
				call.M = nil // goccy/go-yaml cannot read the comments of this one, so no matcher can apply
			}
			var buf []byte
			where := func() string {
				return fmt.Sprintf("run %d (update %s) slot %d: MatchYAML of %s as %s", r, showBool(ru.update), ord, h.Show(string(doc)), form)
			}
			before := onlyFiles(h.Age(base))
			if form == "bytes" {
				buf = append(make([]byte, 0, len(doc)+8), doc...)
			}
			doYAML(t, k, call, buf)
			ev := t.Take()
			o, err := h.Classify(ev)
			if err != nil {
				return fmt.Errorf("%s: %w", where(), err)
			}
			if buf != nil && !bytes.Equal(buf, []byte(doc)) {
				return fmt.Errorf("%s changed the caller's bytes to %s", where(), h.Show(string(buf)))
			}
			after := onlyFiles(h.ReadTree(base))
			cur, have := model[ord]
			want := h.Passed
			switch {
			case !ok:
				want = h.Failed
				c.Label("not yaml")
				c.NonTrivial()
			case !have && mayCreate(ru.update):
				want = h.Added
				order = append(order, ord)
				model[ord] = string(doc)
			case !have:
				want = h.Failed
			case cur != string(doc) && (mayUpdate(ru.update)):
				want = h.Updated
				model[ord] = string(doc)
			case cur != string(doc):
				want = h.Failed
			}
			if o != want {
				return fmt.Errorf("%s: %s, expected %s: %s", where(), o, want, h.ShowEvents(ev))
			}
			c.Label("%s", want)
			if strings.Contains(string(doc), "\n---\n") || strings.HasPrefix(string(doc), "---\n") {
				c.Label("document separators")
				c.NonTrivial()
			}
			if strings.Contains(string(doc), "#") {
				c.NonTrivial()
			}
			if want == h.Failed || want == h.Passed {
				if err := h.Untouched(before, after); err != nil {
					return fmt.Errorf("%s %s, but %w", where(), want, err)
				}
				continue
			}
			// the whole file: the entries that were there, then the slots in the order they were added
			es, err := h.ParseLoose(after[file].Data)
			if err != nil {
				return fmt.Errorf("%s: %w", where(), err)
			}
			if len(es) != len(sc.Pre)+len(order) {
				return fmt.Errorf("%s: %d entries in the file, expected %d: %s", where(), len(es), len(sc.Pre)+len(order), h.Show(after[file].Data))
			}
			for i, e := range es {
				if i < len(sc.Pre) {
					if p := sc.Pre[i]; e.ID != string(p.ID) || e.Body != string(p.Body) {
						return fmt.Errorf("%s changed the entry [%s] to [%s] %s", where(), p.ID, e.ID, h.Show(e.Body))
					}
					continue
				}
				slot := order[i-len(sc.Pre)]
				if id := fmt.Sprintf("TestY - %d", slot); e.ID != id {
					return fmt.Errorf("%s: entry [%s] where [%s] should be", where(), e.ID, id)
				}
				if isOther(sc, slot) {
					continue
				}
				if got := unescapeBody(e.Body); got != model[slot] {
					return fmt.Errorf("%s stored\n  %s\ninstead of\n  %s", where(), h.Show(got), h.Show(model[slot]))
				}
			}
			if len(d.Missing) > 0 {
				c.Label("stored with missing paths allowed")
			}
		}
		t.RunCleanups()
	}
	_ = ci
	_ = upd
	return nil
}

func isOther(sc c18, slot int) bool {
	ord := 0
	for _, d := range sc.Docs {
		if d.Other != nil {
			if ord++; ord == slot {
				return true
			}
		}
		if ord++; ord == slot {
			return false
		}
	}
	return false
}

func showBool(b *bool) string {
	if b == nil {
		return "unset"
	}
	return fmt.Sprint(*b)
}

func doYAML(t *h.T, k Cfg, c Call, buf []byte) {
	var ms []anyMatcher
	for _, m := range c.M {
		ms = append(ms, m.Build(nil))
	}
	var in any = string(c.Doc)
	if c.Form == "bytes" {
		in = buf
	}
	callM(t, "yaml", k.Build(), in, ms)
}

// --- documents with carriage returns are stored as given as well ---

type c18CR struct {
	Form string `json:"form"`
	Doc  h.S    `json:"doc"`
}

func checkC18CR(c *h.C, sc c18CR) error {
	ok, known := validYAML(string(sc.Doc))
	if !known {
		return nil
	}
	dir := c.Dir()
	t := h.NewT("TestY")
	k := Cfg{Dir: sdir(dir), File: "f"}
	o, ev, err := step(t, k.Build(), Call{Kind: "yaml", Form: sc.Form, Doc: sc.Doc})
	if err != nil {
		return err
	}
	got, there := h.ReadTree(dir)["f.snap"]
	if !ok {
		if o != h.Failed || there {
			return fmt.Errorf("%s is not YAML, but %s (file: %v)", h.Show(string(sc.Doc)), o, there)
		}
		return nil
	}
	if o != h.Added {
		return fmt.Errorf("%s: %s %s", h.Show(string(sc.Doc)), o, h.ShowEvents(ev))
	}
	body, found := strings.CutPrefix(got.Data, "\n[TestY - 1]\n")
	body, found2 := strings.CutSuffix(body, "\n---\n")
	if !found || !found2 {
		return fmt.Errorf("not an entry: %s", h.Show(got.Data))
	}
	if unescapeBody(body) != string(sc.Doc) {
		return fmt.Errorf("%s is stored as %s", h.Show(string(sc.Doc)), h.Show(body))
	}
	if strings.Contains(string(sc.Doc), "\r") {
		c.NonTrivial()
	}
	return nil
}

// --- Go values ---

type yInner struct {
	Name  string            `yaml:"name"`
	Tags  []string          `yaml:"tags,omitempty"`
	Attrs map[string]string `yaml:"attrs"`
	At    time.Time         `yaml:"at"`
	Ptr   *int              `yaml:"ptr"`
	Plain int
	Any   any   `yaml:"any"`
	F     []any `yaml:"f,flow"`
	skip  int
}

type yMarshaler struct{ s string }

func (m yMarshaler) MarshalYAML() (any, error) { return map[string]any{"m": m.s, "z": 1, "a": 2}, nil }

type yGo struct {
	Kind string `json:"kind"`
	J    J      `json:"j"`
	S    h.S    `json:"s,omitempty"`
	N    int    `json:"n,omitempty"`
}

// make builds the value; rot rotates the order in which maps are filled.
func (g yGo) make(rot int) any {
	s := string(g.S)
	m := map[string]any{}
	ks := g.J.K
	for i := range ks {
		x := (i + rot) % len(ks)
		m[string(ks[x])] = plainGo(g.J.A[x], rot)
	}
	switch g.Kind {
	case "map":
		return m
	case "any":
		return plainGo(g.J, rot)
	case "wide":
		w := map[string]int{}
		for i := 0; i < g.N; i++ {
			x := (i + rot) % g.N
			w[fmt.Sprintf("k%d", x)] = x
		}
		return w
	case "intkeys":
		w := map[int]any{}
		for i := 0; i < g.N; i++ {
			x := (i + rot) % g.N
			w[x*7-3] = m
		}
		return w
	case "mixedkeys":
		w := map[any]any{}
		for i := 0; i < g.N; i++ {
			x := (i + rot) % g.N
			if x%2 == 0 {
				w[x] = s
			} else {
				w[fmt.Sprint("k", x)] = x
			}
		}
		return w
	case "struct", "ptr", "list":
		attrs := map[string]string{}
		for i := range ks {
			x := (i + rot) % len(ks)
			attrs[string(ks[x])] = s
		}
		v := yInner{Name: s, Tags: []string{s, "t"}, Attrs: attrs, At: time.Unix(1700000000, 5).UTC(), Plain: g.N, Any: m, F: []any{1, s, m}}
		if g.Kind == "ptr" {
			v.Ptr = &g.N
			return &v
		}
		if g.Kind == "list" {
			return []yInner{v, {}, v}
		}
		return v
	case "slice":
		ms := yaml.MapSlice{}
		for i, key := range ks {
			ms = append(ms, yaml.MapItem{Key: string(key), Value: plainGo(g.J.A[i], rot)})
		}
		return ms
	case "marshaler":
		return []any{yMarshaler{s}, m, yMarshaler{"x"}}
	case "named":
		return namedStr(s)
	case "int":
		return g.N
	case "nil":
		return nil
	case "float":
		return float64(g.N) / 3
	case "time":
		return time.Unix(int64(g.N), 0).UTC()
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	}
	panic(h.Infra{Err: fmt.Errorf("unknown go value %q", g.Kind)})
}

func plainGo(j J, rot int) any {
	switch j.T {
	case "null":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "num", "numf":
		return len(j.V)
	case "str":
		return string(j.V)
	case "arr":
		l := []any{}
		for _, e := range j.A {
			l = append(l, plainGo(e, rot))
		}
		return l
	}
	m := map[string]any{}
	for i := range j.K {
		x := (i + rot) % len(j.K)
		m[string(j.K[x])] = plainGo(j.A[x], rot)
	}
	return m
}

type c18Go struct {
	V    yGo  `json:"v"`
	Par  bool `json:"par,omitempty"`
	Miss []M  `json:"miss,omitempty"`
}

func genC18Go(t *rapid.T) c18Go {
	text := rapid.Custom(func(t *rapid.T) string {
		return strings.ReplaceAll(validText(h.Text(false, "TestY").Draw(t, "raw")), "\r", "")
	})
	o := jopts{keys: append(append([]string{}, plainKeys...), jsonKeys...), depth: 3, maxLen: 8, text: text}
	g := yGo{
		Kind: rapid.SampledFrom([]string{
			"map", "map", "any", "wide", "intkeys", "mixedkeys", "struct", "ptr", "list", "slice", "marshaler", "named", "int", "nil", "float", "time", "chan", "func",
		}).Draw(t, "kind"),
		J: genObj(t, o), S: h.S(text.Draw(t, "s")), N: rapid.IntRange(0, 30).Draw(t, "n"),
	}
	sc := c18Go{V: g, Par: rapid.Bool().Draw(t, "par")}
	if rapid.IntRange(0, 3).Draw(t, "missing?") == 0 {
		sc.Miss = genMissing(t)
	}
	return sc
}

func marshalYAML(v any) (b []byte, err error, known bool) {
	defer func() {
		if recover() != nil {
			known = false
		}
	}()
	b, err = yaml.MarshalWithOptions(v, yaml.Indent(2), yaml.IndentSequence(true))
	return b, err, true
}

func checkC18Go(c *h.C, sc c18Go) error {
	ci, _ := modeOf()
	base := c.Dir()
	ref, err, known := marshalYAML(sc.V.make(0))
	if !known {
		c.Label("the yaml encoder panics")
		return nil
	}
	if strings.Contains(string(ref)+"\n", "\r\n") {
		return nil
	}
	if _, err := parser.ParseBytes(ref, parser.ParseComments); err != nil {
		sc.Miss = nil // goccy/go-yaml cannot read what it wrote
	}
	type rec struct {
		where string
		body  string
	}
	var recs []rec
	var mu sync.Mutex
	var firstErr error
	one := func(i int, name, file string, update *bool, want string) {
		e := func() (e error) {
			defer func() {
				if p := recover(); p != nil {
					e = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
				}
			}()
			t := h.NewT(name)
			defer t.RunCleanups()
			k := Cfg{Dir: sdir(base), File: h.S(file), Update: update}
			var ms []anyMatcher
			for _, m := range sc.Miss {
				ms = append(ms, m.Build(nil))
			}
			for rot := 0; rot < 2; rot++ {
				t.Take()
				callM(t, "yaml", k.Build(), sc.V.make(i+rot), ms)
				ev := t.Take()
				o, cerr := h.Classify(ev)
				if cerr != nil {
					return cerr
				}
				if err != nil {
					want = h.Failed
				}
				if o != want {
					return fmt.Errorf("%s in %s (update %s): %s, expected %s: %s", name, file, showBool(update), o, want, h.ShowEvents(ev))
				}
			}
			return nil
		}()
		mu.Lock()
		if e != nil && firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
	}
	first := h.Added
	if ci {
		first = h.Failed
	}
	spread := func(update *bool, want string) {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			i := i
			f := func() { one(i, fmt.Sprintf("TestG%d", i), fmt.Sprintf("f%d", i%2), update, want) }
			if sc.Par {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			} else {
				f()
			}
		}
		wg.Wait()
	}
	spread(nil, first)
	if firstErr != nil {
		return firstErr
	}
	t0 := onlyFiles(h.Age(base))
	for p, s := range t0 {
		es, perr := h.ParseStore(s.Data)
		if perr != nil {
			return fmt.Errorf("%s: %w: %s", p, perr, h.Show(s.Data))
		}
		for _, e := range es {
			recs = append(recs, rec{p + " [" + e.ID + "]", unescapeBody(e.Body)})
		}
	}
	want := 8
	if ci || err != nil {
		want = 0
	}
	if len(recs) != want {
		return fmt.Errorf("%d snapshots of a Go value, expected %d", len(recs), want)
	}
	for _, r := range recs {
		if r.body != recs[0].body {
			return fmt.Errorf("the same Go value is stored differently\n  %s: %s\n  %s: %s", r.where, h.Show(r.body), recs[0].where, h.Show(recs[0].body))
		}
	}
	if len(recs) > 0 {
		c.Label("go value %s", sc.V.Kind)
		if sc.V.Kind != "int" && sc.V.Kind != "nil" && len(ref) > 20 {
			c.NonTrivial()
		}
		// it is the value that is stored: it decodes to what a marshalled value decodes to
		var x, y any
		if yaml.Unmarshal(ref, &x) == nil {
			if e := yaml.Unmarshal([]byte(recs[0].body), &y); e != nil {
				return fmt.Errorf("a Go value is stored as something that is not YAML (%v): %s", e, h.Show(recs[0].body))
			}
			if !reflect.DeepEqual(x, y) && fmt.Sprintf("%#v", x) != fmt.Sprintf("%#v", y) {
				return fmt.Errorf("the stored YAML %s does not hold the value %s", h.Show(recs[0].body), h.Show(string(ref)))
			}
		}
		if nl := bytes.HasSuffix(ref, []byte("\n")); nl != strings.HasSuffix(recs[0].body, "\n") {
			return fmt.Errorf("the final newline of the marshalled value: %s stored as %s", h.Show(string(ref)), h.Show(recs[0].body))
		}
	} else {
		c.Label("go value that can't be marshalled (or CI)")
	}
	// and again, without and with the permission to write
	for _, u := range []*bool{ptr(false), nil, ptr(true)} {
		if ci {
			spread(u, h.Failed)
		} else {
			spread(u, h.Passed)
		}
		if firstErr != nil {
			return firstErr
		}
		if err := h.Untouched(t0, onlyFiles(h.ReadTree(base))); err != nil {
			return fmt.Errorf("replaying a Go value: %w", err)
		}
	}
	c.Evaluations(32)
	return nil
}

func init() {
	rule := "1-4 documents (string or bytes; generated, special, near-valid and hostile text, multi-document streams, comments, header and terminator look-alikes, matchers whose paths are allowed to be missing) recorded next to other entries, replayed, updated by changed or invalid documents and replayed; the stored text must be the document byte for byte and every call have the modelled outcome; non-trivial: a document with a separator or a comment, or text that is not YAML"
	var corpus []c18
	for i, s := range yamlSpecials {
		for _, f := range []string{"str", "bytes"} {
			n := h.S(yamlSpecials[(i+7)%len(yamlSpecials)])
			corpus = append(corpus, c18{Reps: 1, Docs: []c18Doc{
				{Form: f, Doc: h.S(s), New: &n, NewForm: f}, {Form: f, Doc: n, New: ptr(h.S(s)), NewForm: "str"}, {Form: f, Doc: h.S(s + "\n")}, {Form: f, Doc: h.S(strings.TrimSuffix(s, "\n")), Missing: []M{{Kind: "any", Paths: []h.S{"$.zz_nope"}, NoErr: true}}},
			}})
		}
	}
	for _, s := range yamlBad {
		for _, f := range []string{"str", "bytes"} {
			corpus = append(corpus, c18{Reps: 1, Docs: []c18Doc{
				{Form: f, Doc: h.S(s)}, {Form: f, Doc: "a: 1\n", New: ptr(h.S(s)), NewForm: f}, {Form: f, Doc: h.S(s), New: ptr(h.S("b: 2")), NewForm: f},
			}})
		}
	}
	// large texts, of which only the end is not YAML
	for i, n := range []int{5 << 10, 70 << 10, 300 << 10, 1100 << 10} {
		if !h.Wanted("C18") {
			break
		}
		f := []string{"str", "bytes"}[i%2]
		doc := strings.Repeat("- word # "+strings.Repeat("x", 990)+"\n", n/1000)
		for _, bad := range []string{"- [\n", "b: 1\n", "- 'x", "- \"x\n"} {
			corpus = append(corpus, c18{Reps: 1, Docs: []c18Doc{{Form: f, Doc: h.S(doc), New: ptr(h.S(doc + bad)), NewForm: f}, {Form: f, Doc: h.S(doc + bad), New: ptr(h.S(doc + "- end")), NewForm: f}}})
			if n > 1<<20 {
				break
			}
		}
	}
	h.Register("C18", "documents", rule, 4500, 250000, genC18, checkC18, corpus...).In("plain", "updenv", "ci", "ciupd")
	h.Register("C18", "cr", "one document with carriage returns, stored as given; non-trivial: it has one", 2500, 60000, func(t *rapid.T) c18CR {
		s := genC18Text(t)
		switch rapid.IntRange(0, 2).Draw(t, "cr") {
		case 0:
			s = strings.ReplaceAll(s, "\n", "\r\n")
		case 1:
			s += "\r\n"
		case 2:
			s = h.Text(true, "TestY").Draw(t, "hostile")
		}
		return c18CR{Form: rapid.SampledFrom([]string{"str", "bytes"}).Draw(t, "form"), Doc: h.S(s)}
	}, checkC18CR)
	h.Register("C18", "values", "one Go value (maps filled in different orders, structs, marshalers, multi-line strings) recorded 8 times by 4 tests in 2 files, also concurrently, and replayed in all modes: the same text every time; non-trivial: a text of more than 20 bytes", 700, 40000, genC18Go, checkC18Go).In("plain", "ci")
}
