package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"github.com/goccy/go-yaml"
	"pgregory.net/rapid"
)

// c15 is one call with matchers.
type c15 struct {
	Kind   string `json:"kind"` // json sjson yaml
	Form   string `json:"form"` // str bytes go
	Doc    h.S    `json:"doc"`
	J      *J     `json:"j,omitempty"` // the value for form go
	NoSort bool   `json:"noSort,omitempty"`
	Exotic bool   `json:"exotic,omitempty"` // reporting an error is acceptable
	Ms     []TM   `json:"ms"`
}

var phStrings = []string{
	"", "x", "<Any value>", "<é&>", "\"q\"", "\\", "a\nb", "a\nb\n", "\n", "---", "# no", ": y", "- y", "-", "?", "~", "null", "1", "true", "a: b", "{x", "[1", "'",
	"*x", "&x", "!x", "|", ">", "@x", "`", "%", " lead", "trail ", "a #b", "yes", "0x1", "1e3", ".5", "2024-01-02", "<<", "...", "\t", "\r\n x", "é\u2028", "\x00", "\x07", "12345678901234567890",
	"value", "key: |", "a\n---\nb", "a\n\n  b", "\u0085", "long long long long long long long long long long long long long long long long long long long long",
}

// callM makes the call with already built matchers.
func callM(t *h.T, kind string, cfg *snaps.Config, in any, ms []anyMatcher) {
	var js []match.JSONMatcher
	var ys []match.YAMLMatcher
	for _, m := range ms {
		js = append(js, m)
		ys = append(ys, m)
	}
	switch kind {
	case "json":
		cfg.MatchJSON(t, in, js...)
	case "sjson":
		cfg.MatchStandaloneJSON(t, in, js...)
	case "yaml":
		cfg.MatchYAML(t, in, ys...)
	}
}

// singleValue is the value text of the only snapshot in dir, "" and false if there is none.
func singleValue(dir, kind string) (string, bool, error) {
	files := h.ReadTree(dir).Files()
	if len(files) == 0 {
		return "", false, nil
	}
	if len(files) > 1 {
		return "", false, fmt.Errorf("%d files", len(files))
	}
	for _, data := range files {
		if kind == "sjson" {
			return data, true, nil
		}
		es, err := h.ParseStore(data)
		if err != nil || len(es) != 1 {
			return "", false, fmt.Errorf("the snapshot is not one entry: %s (%v)", h.Show(data), err)
		}
		return unescapeBody(es[0].Body), true, nil
	}
	return "", false, nil
}

// jOfY turns a decoded YAML value into a tree to draw paths from.
func jOfY(v any) J {
	switch x := v.(type) {
	case yaml.MapSlice:
		j := J{T: "obj"}
		for _, it := range x {
			j.K = append(j.K, h.S(it.Key.(string)))
			j.A = append(j.A, jOfY(it.Value))
		}
		return j
	case []any:
		j := J{T: "arr"}
		for _, e := range x {
			j.A = append(j.A, jOfY(e))
		}
		return j
	case string:
		return J{T: "str", V: h.S(x)}
	case bool:
		return J{T: fmt.Sprint(x)}
	case nil:
		return J{T: "null"}
	}
	return J{T: "num", V: h.S(fmt.Sprint(v))}
}

func dropNil(ds []any) []any {
	var out []any
	for _, d := range ds {
		if d != nil {
			out = append(out, d)
		}
	}
	return out
}

// yamlRaw are documents with syntax the generator does not write.
var yamlRaw = []string{
	"a: &x foo\nb: *x\n", "a: &x {c: 1}\nb: *x\nd: 2\n", "a: &x\n  c: 1\nb:\n  <<: *x\n  d: 1\n", "a: !!str 1\nb: 1", "a: 1\n---\n", "---\n---\na: 1\n", "a: 1\r\nb: 2\r\n",
	"a:\r\n  b: 1\r\nc: 3\r\n", "%YAML 1.2\n---\na: 1\nb: 2\n...\n", "a: 'x\n  y'\nb: 1\n", "a: x\n  y\nb: 1\n", "a: \"x\\\n  y\"\nb: 1\n", "? a\n: b\n", "a: >-\n  x\n\n  y\nb: |2\n    z\n",
	"a:\n- 1\n- 2\nb: 3\n", "a:\n- x: 1\n  y: 2\n- 2\nb: 3\n", "a:\n- - 1\n  - 2\n- 2\nb: 3\n", "- 1\n---\na: 1\n", "a: 1\n---\n- 1\n", "a: 1\n---\nb: 1\n---\na: 2\nb: 3\n", "[1, {a: 2}]", "{a: 1, b: [1, 2]}\n",
	"a: [\n  1,\n  2\n]\nb: 1\n", "a: 1 # c\n# d\nb: 2 # e\n", "# head\na: 1\n", "a:\n\n\n  b: 1\n\n\nc: 3\n\n", "a: &x 1\nb: &x 2\nc: *x\n", "a: {}\nb: []\n", "a:\nb: 1\n", "a: |\n  x\n  y\nb: 1", "hello\n", "1", "a: 1\n...\n", "a: \"\\u00e9\"\nb: '''x'''\n",
	"a: !custom 1\nb: 2\n", "a: .nan\nb: 1\n", "a: 0o17\nb: 0x1F\nc: 1_000\nd: 12e03\n", "a: |+\n  x\n\nb: 1\n", "a:\n    b:\n        c: 1\n    d: 2\n", "a:\n    - b: 1\n      c: 2\n    - 3\n",
	"a:\n  - |\n    x\n    y\n  - >\n    z\nb: 2\n", "a: - b\n", "\"a\\\"b\": 1\nc: 2\n", "a: \"x # y\" # z\nb: 2\n",
}

func genC15YAML(t *rapid.T, exotic bool) (doc string, j J, isRaw bool) {
	if exotic {
		doc = rapid.SampledFrom(yamlRaw).Draw(t, "raw")
		isRaw = true
	} else {
		n := 1
		if rapid.IntRange(0, 5).Draw(t, "multi") == 0 {
			n = rapid.IntRange(2, 3).Draw(t, "docs")
		}
		o := yopts{depth: 3, maxLen: 4, comments: rapid.Bool().Draw(t, "comments"), block: rapid.IntRange(0, 2).Draw(t, "block") == 0}
		if rapid.IntRange(0, 3).Draw(t, "keys") == 0 {
			o.keys = []string{"a", "b", `"a b"`, `'c'`, "a.b", "1", "true", "x-y", "é", "user", "a/b", `"q\"x"`, "A", "k$"}
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				doc += "---\n"
			}
			y := growY(t, genYMap(t, o))
			if len(y.A) == 0 {
				doc += "z: 1\n"
			} else {
				doc += y.Doc()
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "no nl") == 0 {
			doc = doc[:len(doc)-1]
		}
	}
	docs, err := decodeYAML(doc)
	if err != nil || len(dropNil(docs)) == 0 {
		return doc, J{T: "null"}, isRaw
	}
	docs = dropNil(docs)
	return doc, jOfY(docs[rapid.IntRange(0, len(docs)-1).Draw(t, "doc")]), isRaw
}

func genC15(kinds ...string) func(t *rapid.T) c15 {
	return func(t *rapid.T) c15 {
		sc := c15{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		return genC15Of(t, sc, mopts{missing: 1, strs: phStrings, specials: specialPH, errs: false, wild: true})
	}
}

func genC15Of(t *rapid.T, sc c15, o mopts) c15 {
	sc.Form = rapid.SampledFrom([]string{"bytes", "bytes", "str", "go"}).Draw(t, "form")
	var doc J
	if sc.Kind == "yaml" {
		o.yml = true
		if sc.Form == "go" {
			sc.Form = "str"
		}
		var s string
		s, doc, sc.Exotic = genC15YAML(t, rapid.IntRange(0, 4).Draw(t, "raw doc") == 0)
		sc.Doc = h.S(s)
	} else {
		keys := plainKeys
		if rapid.IntRange(0, 2).Draw(t, "hostile keys") == 0 {
			keys = jsonKeys
		}
		jo := jopts{keys: keys, depth: 3, maxLen: 5}
		if rapid.IntRange(0, 5).Draw(t, "array") == 0 {
			doc = genArr(t, jo)
		} else {
			doc = genObj(t, jo)
		}
		doc = growJ(t, doc, keys)
		if sc.Form == "go" {
			d := doc.clone()
			sc.J = &d
		} else {
			sc.Doc = h.S(doc.Render(genLayout().Draw(t, "layout")))
		}
		sc.NoSort = rapid.Bool().Draw(t, "no sort")
	}
	n := rapid.IntRange(1, 3).Draw(t, "matchers")
	if h.Rare(t, 5, "many matchers") {
		n = rapid.SampledFrom([]int{9, 17, 40}).Draw(t, "how many matchers")
	}
	for i := 0; i < n; i++ {
		m := genTM(t, doc, o)
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "again") == 0 {
			// a path an earlier matcher may have changed
			m.Paths[0] = append([]Comp(nil), sc.Ms[0].Paths[0]...)
			if m.Kind == "type" {
				m.Type = "string"
			}
		}
		sc.Ms = append(sc.Ms, m)
	}
	return sc
}

// text of the document as matchers see it.
func (sc c15) text() string {
	if sc.Form == "go" {
		b, err := json.Marshal(sc.J.Go())
		if err != nil {
			panic(h.Infra{Err: err})
		}
		return string(b)
	}
	return string(sc.Doc)
}

// model returns what the matchers make of the document; ok is false if the document is outside
// of the domain.
func (sc c15) model(keep bool) (MResult, bool) {
	if sc.Kind == "yaml" {
		docs, err := decodeYAML(sc.text())
		if err != nil || len(dropNil(docs)) == 0 {
			return MResult{}, false
		}
		r := applyY(dropNil(docs), sc.Ms, keep)
		r.Exotic = r.Exotic || sc.Exotic
		return r, true
	}
	j, err := parseJ(sc.text())
	if err != nil {
		panic(h.Infra{Err: fmt.Errorf("generated %s: %w", h.Show(sc.text()), err)})
	}
	r := applyJ(j, sc.Ms, keep)
	r.Exotic = r.Exotic || sc.Exotic
	return r, true
}

// in is the input of a call. check tells whether the caller's data is still what it was.
func (sc c15) in() (in any, check func() error) {
	switch sc.Form {
	case "bytes":
		// spare capacity with known content behind the slice
		text := []byte(sc.Doc)
		buf := bytes.Repeat([]byte{'~'}, len(text)+64)
		copy(buf, text)
		want := append([]byte(nil), buf...)
		return buf[:len(text)], func() error {
			if !bytes.Equal(buf, want) {
				return fmt.Errorf("the caller's bytes changed from %s to %s", h.Show(string(want)), h.Show(string(buf)))
			}
			return nil
		}
	case "go":
		v := sc.J.Go()
		return v, func() error {
			if !reflect.DeepEqual(v, sc.J.Go()) {
				return fmt.Errorf("the caller's value changed")
			}
			return nil
		}
	}
	return string(sc.Doc), func() error { return nil }
}

func checkC15(c *h.C, sc c15) error {
	r, ok := sc.model(false)
	if !ok {
		c.Label("outside of the domain")
		return nil
	}
	dir := c.Dir()
	cfg := Cfg{Dir: sdir(dir)}
	if sc.NoSort {
		cfg.JSON = &JSONCfg{Width: 80, Indent: " "}
	}
	var seen []any
	var ms []anyMatcher
	for _, m := range sc.Ms {
		ms = append(ms, m.Build(sc.Kind == "yaml", &seen))
	}
	in, unchanged := sc.in()
	t := h.NewT("TestMatchers")
	callM(t, sc.Kind, cfg.Build(), in, ms)
	ev := t.Take()
	t.RunCleanups()
	if err := unchanged(); err != nil {
		return err
	}
	o, err := h.Classify(ev)
	if err != nil {
		return err
	}
	text, stored, err := singleValue(dir, sc.Kind)
	if err != nil {
		return err
	}
	if stored != (o == h.Added) {
		return fmt.Errorf("outcome %s, stored: %v", o, stored)
	}
	switch {
	case r.Vague:
	case len(r.Errs) > 0 && o != h.Failed:
		return fmt.Errorf("matchers %s on %s fail by %+v but the call ended as %s: %s", sc.showMs(), h.Show(sc.text()), r.Errs, o, h.Show(text))
	case len(r.Errs) == 0 && !r.Exotic && o != h.Added:
		return fmt.Errorf("matchers %s on %s should apply but: %s %s", sc.showMs(), h.Show(sc.text()), o, h.ShowEvents(ev))
	}
	if o != h.Added {
		c.Label("%s: reported", sc.Kind)
		if len(r.Errs) == 0 {
			c.Label("%s: reported a possible replacement", sc.Kind)
		}
		return nil
	}
	if sc.Kind == "yaml" {
		got, err := decodeYAML(text)
		if err != nil {
			return fmt.Errorf("matchers %s turn %s into %s which is not YAML: %w", sc.showMs(), h.Show(sc.text()), h.Show(text), err)
		}
		if !r.Vague && !yEq(dropNil(got), dropNil(r.Y)) {
			return fmt.Errorf("matchers %s turn %s into %s\n which is %v\n expected %v", sc.showMs(), h.Show(sc.text()), h.Show(text), got, r.Y)
		}
		if r.Touched > 0 && !sc.Exotic {
			// the end of the document
			if bytes.HasSuffix([]byte(sc.text()), []byte("\n")) != bytes.HasSuffix([]byte(text), []byte("\n")) {
				c.Label("final newline changed")
			}
		}
	} else {
		got, err := parseJ(text)
		if err != nil {
			return fmt.Errorf("matchers %s turn %s into %s which is not JSON: %w", sc.showMs(), h.Show(sc.text()), h.Show(text), err)
		}
		if !r.Vague && !eqJ(got, r.J, sc.NoSort) {
			return fmt.Errorf("matchers %s turn %s into %s\n expected %s", sc.showMs(), h.Show(sc.text()), h.Show(text), r.J.Render(Layout{}))
		}
	}
	if !r.Vague && !seenEq(seen, r.Seen) {
		return fmt.Errorf("matchers %s on %s: callbacks received %#v, expected %#v", sc.showMs(), h.Show(sc.text()), seen, r.Seen)
	}
	// the same matchers and input once more
	before := h.Age(dir)
	t = h.NewT("TestMatchers")
	callM(t, sc.Kind, cfg.Build(), in, ms)
	ev = t.Take()
	t.RunCleanups()
	if err := unchanged(); err != nil {
		return err
	}
	if strings.Contains(text+"\n", "\r\n") {
		return nil // outside of the domain of multi-entry files
	}
	if len(ev) != 0 {
		return fmt.Errorf("matchers %s on %s: the same call does not pass: %s", sc.showMs(), h.Show(sc.text()), h.ShowEvents(ev))
	}
	if err := h.Untouched(before, h.ReadTree(dir)); err != nil {
		return err
	}
	if r.Touched > 0 {
		c.NonTrivial()
		c.Label("%s: replaced", sc.Kind)
	}
	return nil
}

func seenEq(a []any, b [][]any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !yEq(a[i], b[i][0]) {
			return false
		}
	}
	return true
}

func (sc c15) showMs() string {
	s := ""
	for _, m := range sc.Ms {
		s += m.Kind + "("
		for i := range m.Paths {
			s += fmt.Sprintf("%q ", m.path(i, sc.Kind == "yaml"))
		}
		s += m.Type + m.PH + fmt.Sprintf("%q", string(m.S)) + ") "
	}
	return s
}

func init() {
	var corpus []c15
	for _, doc := range yamlRaw {
		for _, p := range [][]Comp{{key("a")}, {key("b")}, {key("a"), key("b")}, {key("a"), {I: 0}}, {key("a"), {All: true}}, {{I: 1}, key("a")}, {}} {
			corpus = append(corpus, c15{Kind: "yaml", Form: "bytes", Doc: h.S(doc), Exotic: true, Ms: []TM{{Kind: "any", PH: "default", Paths: [][]Comp{p}}}})
		}
	}
	for _, s := range phStrings {
		m := TM{Kind: "any", S: h.S(s), Paths: [][]Comp{{key("a"), key("b")}}}
		corpus = append(corpus,
			c15{Kind: "json", Form: "bytes", Doc: `{"z":1,"a":{"b":"x","c":[]}}`, NoSort: true, Ms: []TM{m}},
			c15{Kind: "yaml", Form: "bytes", Doc: "z: 1\na:\n  b: x\n  c: []\nd: 2\n", Ms: []TM{m}},
			c15{Kind: "yaml", Form: "bytes", Doc: "a: {b: x, c: 1}\nd: 2\n", Ms: []TM{m}})
	}
	for _, k := range specialPH {
		for _, p := range [][]Comp{{key("a"), key("b")}, {key("l"), {I: 1}}, {key("l"), {All: true}, key("n")}} {
			m := TM{Kind: "custom", PH: k, Paths: [][]Comp{p}}
			corpus = append(corpus,
				c15{Kind: "json", Form: "bytes", Doc: `{"z":1,"a":{"b":"x","c":[]},"l":[{"n":1},{"n":2,"m":3}]}`, NoSort: true, Ms: []TM{m}},
				c15{Kind: "yaml", Form: "bytes", Doc: "z: 1\na:\n  b: x\n  c: []\nd: 2\nl:\n  - n: 1\n  - n: 2\n    m: 3\n", Ms: []TM{m}},
				c15{Kind: "yaml", Form: "bytes", Doc: "a: {b: x, c: 1}\nd: 2\nl: [{n: 1}, {n: 2, m: 3}]\n", Ms: []TM{m}})
		}
	}
	split := map[bool][]c15{}
	for _, sc := range corpus {
		split[sc.Kind == "yaml"] = append(split[sc.Kind == "yaml"], sc)
	}
	h.Register("C15", "json",
		"JSON documents x lists of Any/Type/Custom with structurally drawn paths (escaped keys, indexes, one or more wildcard levels, repeated and missing paths) and placeholders (hostile strings, numbers, collections, values without a JSON form); the stored document must equal the model's tree in value and position, byte inputs have sentinel-filled spare capacity; non-trivial: at least one value was replaced and recorded",
		18000, 400000, genC15("json", "json", "sjson"), checkC15, split[false]...)
	h.Register("C15", "yaml",
		"YAML documents (block and flow collections, comments, block scalars, several documents, quoted keys) and a corpus with anchors, tags, directives, CRLF, empty documents x lists of Any/Type/Custom with hostile placeholders; the stored text must decode to the model's values; non-trivial: at least one value was replaced and recorded",
		14000, 300000, genC15("yaml"), checkC15, split[true]...)
}

// unescapeBody is the value of a stored body: the documented escape of terminator lines undone.
func unescapeBody(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l == "/-/-/-/" {
			ls[i] = "---"
		} else if strings.HasPrefix(l, "//") && strings.Trim(l, "/") == "-/-/-" && strings.HasSuffix(l, "/-/-/-/") {
			ls[i] = l[1:]
		}
	}
	return strings.Join(ls, "\n")
}
