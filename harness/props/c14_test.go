package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"maps"
	"math"
	"math/big"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c14 struct {
	Kind    string   `json:"kind"` // json sjson
	JSON    *JSONCfg `json:"json,omitempty"`
	J       J        `json:"j"`
	Quote   int      `json:"quote,omitempty"`
	Layouts []Layout `json:"layouts"`
	Raw     []h.S    `json:"raw,omitempty"` // texts that may or may not be JSON
	BadGo   string   `json:"badGo,omitempty"`
	Pick    int      `json:"pick,omitempty"` // which Go types
}

// storeJSON makes one call in a fresh directory and returns the bytes of the only file.
func storeJSON(c *h.C, kind string, jc *JSONCfg, input any) (outcome, data string, err error) {
	dir := c.Dir()
	t := h.NewT("TestJSON")
	defer t.RunCleanups()
	cfg := Cfg{Dir: sdir(dir), JSON: jc}.Build()
	if kind == "json" {
		cfg.MatchJSON(t, input)
	} else {
		cfg.MatchStandaloneJSON(t, input)
	}
	ev := t.Take()
	outcome, err = h.Classify(ev)
	if err != nil {
		return "", "", err
	}
	files := h.ReadTree(dir)
	switch {
	case outcome == h.Added && len(files) == 1:
		for _, f := range files {
			data = f.Data
		}
	case outcome == h.Added || len(files) > 0:
		return "", "", fmt.Errorf("outcome %s with %d files %s", outcome, len(files), h.ShowEvents(ev))
	}
	if kind == "json" && outcome == h.Added {
		es, err := h.ParseStore(data)
		if err != nil || len(es) != 1 {
			return "", "", fmt.Errorf("the snapshot is not one entry: %s (%v)", h.Show(data), err)
		}
		data = es[0].Body
	}
	return outcome, data, nil
}

func decodeJSON(s string) (any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func genC14(t *rapid.T) c14 {
	sc := c14{Kind: rapid.SampledFrom([]string{"json", "sjson"}).Draw(t, "kind")}
	if rapid.IntRange(0, 1).Draw(t, "config") == 0 {
		sc.JSON = &JSONCfg{
			Width: rapid.SampledFrom([]int{0, 1, 20, 80, 1000}).Draw(t, "width"), Indent: h.S(rapid.SampledFrom([]string{"", " ", "\t", "    "}).Draw(t, "indent")),
			SortKeys: rapid.Bool().Draw(t, "sort"),
		}
	}
	keys := append(append([]string(nil), jsonKeys...), plainKeys...)
	if rapid.IntRange(0, 3).Draw(t, "more keys") == 0 {
		keys = rapid.SliceOfNDistinct(rapid.StringN(0, 4, -1), 3, 8, rapid.ID[string]).Draw(t, "keys")
	}
	sc.J = genJ(jopts{keys: keys, depth: 4, maxLen: 6}).Draw(t, "json")
	if rapid.IntRange(0, 3).Draw(t, "top object") > 0 && sc.J.T != "obj" {
		sc.J = genObj(t, jopts{keys: keys, depth: 3, maxLen: 6})
	}
	large := -1
	if h.Rare(t, 4, "large?") {
		large = rapid.IntRange(0, 3).Draw(t, "large")
	}
	switch large {
	case 0: // many members
		n := rapid.SampledFrom([]int{50, 300, 1000}).Draw(t, "n")
		a := J{T: "arr"}
		for i := 0; i < n; i++ {
			a.A = append(a.A, sc.J)
			if len(a.A)*len(sc.J.Render(Layout{})) > 1<<16 {
				break
			}
		}
		sc.J = a
	case 1: // deep
		for i, n := 0, rapid.SampledFrom([]int{10, 60, 300}).Draw(t, "depth"); i < n; i++ {
			if i%3 == 0 {
				sc.J = J{T: "obj", K: []h.S{"d", "a"}, A: []J{sc.J, {T: "num", V: "1"}}}
			} else {
				sc.J = J{T: "arr", A: []J{sc.J}}
			}
		}
	case 2: // long strings
		sc.J = J{T: "obj", K: []h.S{h.S(strings.Repeat("k", rapid.SampledFrom([]int{300, 70000}).Draw(t, "key length"))), "b"}, A: []J{{T: "str", V: h.S(strings.Repeat("é\n<", rapid.SampledFrom([]int{100, 30000}).Draw(t, "length")))}, sc.J}}
	case 3: // many keys
		o := J{T: "obj"}
		for i, n := 0, rapid.SampledFrom([]int{30, 700}).Draw(t, "keys"); i < n; i++ {
			o.K = append(o.K, h.S(fmt.Sprintf("k%d", i*7919%1000)))
			o.A = append(o.A, J{T: "num", V: h.S(fmt.Sprint(i))})
		}
		sc.J = o
	}
	sc.Pick = rapid.IntRange(0, 5).Draw(t, "pick")
	sc.Quote = rapid.IntRange(0, 3).Draw(t, "quote")
	sc.Layouts = rapid.SliceOfN(genLayout(), 1, 3).Draw(t, "layouts")
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "raw"); i < n; i++ {
		s := sc.J.Render(sc.Layouts[0])
		if len(s) > 0 {
			b := []byte(s)
			for k, m := 0, rapid.IntRange(1, 2).Draw(t, "muts"); k < m && len(b) > 0; k++ {
				x := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				ins := rapid.SampledFrom([]string{",", "]", "}", "\"", "\\", "\x00", "\n", "0", "-", ".", "e", "\\u00", "\\x", "tru", "nul", "NaN", "'", "/**/", "\xff", "\t", "{", "[", ":", "+", " ", "\ufeff", "\v", "\u00a0"}).Draw(t, "tok")
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					b = append(b[:x:x], b[x+1:]...)
				case 1:
					b = append(b[:x:x], append([]byte(ins), b[x:]...)...)
				default:
					b = append(b[:x:x], append([]byte(ins), b[x+1:]...)...)
				}
			}
			s = string(b)
		}
		sc.Raw = append(sc.Raw, h.S(s))
	}
	sc.BadGo = rapid.SampledFrom([]string{"", "", "chan", "func", "nan", "err"}).Draw(t, "bad go")
	return sc
}

type badMarshal struct{}

func (badMarshal) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("no json for you") }

// typedJSON is a Go value of static types whose standard encoding is a given document.
type typedDoc struct {
	Name  string            `json:"name"`
	Count int               `json:"count,omitempty"`
	Attrs map[string]string `json:"attrs"`
	Skip  string            `json:"-"`
	Inner *typedDoc         `json:"inner,omitempty"`
	Raw   json.RawMessage   `json:"raw"`
	Bytes []byte            `json:"bytes"`
	F     float64
}

type (
	myBytes  []byte
	myString string
	myMap    map[string]any
	// its encoding is the text, compacted
	marshaler struct{ text string }
	texter    struct{ text string }
	embedded  struct {
		typedDoc
		myString
		Num  json.Number `json:"num"`
		Any  any         `json:"any"`
		Keys map[int]string
		T    map[texter]bool
		Q    int `json:",string"`
		Arr  [3]byte
		Ptr  *float32
		Time time.Time
		Big  *big.Int
	}
)

func (m marshaler) MarshalJSON() ([]byte, error) { return []byte(m.text), nil }
func (m texter) MarshalText() ([]byte, error)    { return []byte(m.text), nil }

// goValues are Go values made of a text; some cannot be marshalled if it is not JSON.
func goValues(s string, go1 any) map[string]any {
	f := float32(len(s)) / 7
	return map[string]any{
		"json.RawMessage": json.RawMessage(s), "*json.RawMessage": ptr(json.RawMessage(s)), "[]json.RawMessage": []json.RawMessage{json.RawMessage(s), json.RawMessage("1")},
		"named []byte": myBytes(s), "named string": myString(s), "*string": &s, "*[]byte": ptr([]byte(s)), "[]string": []string{s, ""}, "[1]string": [1]string{s},
		"Marshaler": marshaler{s}, "map of Marshaler": map[string]any{s: &marshaler{s}, "a": 1}, "TextMarshaler": texter{s}, "*TextMarshaler": &texter{s},
		"struct": &embedded{
			typedDoc: typedDoc{Name: s, Raw: json.RawMessage("[1 , 2]")}, myString: myString(s), Num: "1.50", Any: go1, Keys: map[int]string{10: "a", 9: s}, T: map[texter]bool{{s}: true},
			Q: -len(s), Arr: [3]byte{1, 2, 3}, Ptr: &f, Time: time.Unix(int64(len(s)), 5).UTC(), Big: new(big.Int).Lsh(big.NewInt(3), 200),
		},
		"json.Number": json.Number(s), "bytes.Buffer": bytes.NewBufferString(s), "error": fmt.Errorf("%s", s), "nil": nil, "nil map": myMap(nil), "nil pointer": (*typedDoc)(nil), "nil slice": []string(nil), "nil RawMessage": json.RawMessage(nil),
		"rune": 'x', "uint64": ^uint64(0), "float32": f, "bool": len(s) > 5, "any slice": []any{go1, s, nil}, "map": myMap{s: go1, "<": nil}, "chan": make(chan int), "complex": complex(1, 2),
	}
}

// quoteLayouts gives every layout the same escapes: only whitespace and member order vary.
func (sc c14) render(i int, perm bool) string {
	l := sc.Layouts[i]
	l.Quote = sc.Quote
	if !perm {
		l.Perm = nil
	}
	return sc.J.Render(l)
}

func checkC14(c *h.C, sc c14) error {
	store := func(what string, input any) (string, error) {
		o, data, err := storeJSON(c, sc.Kind, sc.JSON, input)
		if err == nil && o != h.Added {
			err = fmt.Errorf("outcome %s", o)
		}
		if err != nil {
			return "", fmt.Errorf("%s: %w", what, err)
		}
		return data, nil
	}
	base := sc.J.Render(Layout{Quote: sc.Quote})
	ref, err := store("compact text", base)
	if err != nil {
		return err
	}
	// lossless
	x, err := decodeJSON(base)
	if err != nil {
		panic(h.Infra{Err: fmt.Errorf("the generator made invalid JSON %s: %w", base, err)})
	}
	y, err := decodeJSON(ref)
	if err != nil {
		return fmt.Errorf("the stored text of %s is not JSON: %w\n%s", h.Show(base), err, ref)
	}
	if !reflect.DeepEqual(x, y) {
		return fmt.Errorf("%s is stored as another value: %s", h.Show(base), h.Show(ref))
	}
	sorts := sc.JSON == nil || sc.JSON.SortKeys
	if !sorts {
		var a, b bytes.Buffer
		_ = json.Compact(&a, []byte(base))
		if err := json.Compact(&b, []byte(ref)); err != nil || a.String() != b.String() {
			return fmt.Errorf("without SortKeys %s is stored as %s", h.Show(a.String()), h.Show(b.String()))
		}
	}
	// forms
	for _, f := range []struct {
		what string
		in   any
	}{{"bytes", []byte(base)}, {"named bytes", json.RawMessage(base)}} {
		if f.what == "named bytes" {
			// the encoding of a RawMessage escapes HTML: only the same document if there is none
			enc, err := json.Marshal(f.in)
			if err != nil || string(enc) != base {
				continue
			}
		}
		got, err := store(f.what, f.in)
		if err != nil {
			return err
		}
		if got != ref {
			return fmt.Errorf("%s is stored as %s, as a string it is stored as %s", f.what, h.Show(got), h.Show(ref))
		}
	}
	goVals := []any{&typedDoc{
		Name: string(sc.J.V), Attrs: map[string]string{"z": "1", "a": sc.J.T, "<": "&"}, Inner: &typedDoc{Count: len(base)},
		Raw: json.RawMessage(base), Bytes: []byte(base), F: 1e21,
	}}
	if sc.J.T != "str" {
		goVals = append(goVals, sc.J.Go())
	}
	names := make([]string, len(goVals))
	texts := append([]h.S{h.S(base), h.S(sc.render(0, true))}, sc.Raw...)
	for _, s := range texts[:min(len(texts), 4)] {
		vs := goValues(string(s), sc.J.V)
		// some of them, which is decided by the scenario
		pick := 0
		for _, n := range slices.Sorted(maps.Keys(vs)) {
			if pick++; sc.Pick >= 0 && (pick+sc.Pick)%6 == 0 {
				goVals = append(goVals, vs[n])
				names = append(names, n)
			}
		}
	}
	for i, v := range goVals {
		enc, err := json.Marshal(v)
		if err != nil {
			o, _, err2 := storeJSON(c, sc.Kind, sc.JSON, v)
			if err2 != nil || o != h.Failed {
				return fmt.Errorf("a value that cannot be marshalled (%s %T: %v): outcome %s %v", names[i], v, err, o, err2)
			}
			continue
		}
		if s, ok := v.(string); ok {
			v = &s
		}
		asGo, err := store("Go value "+names[i], v)
		if err != nil {
			return err
		}
		for _, in := range []any{string(enc), enc} {
			asText, err := store("its encoding", in)
			if err != nil {
				return err
			}
			if asText != asGo {
				return fmt.Errorf("a Go value (%T) is stored as %s, its encoding as %s", v, h.Show(asGo), h.Show(asText))
			}
		}
	}
	// presentations
	for i := range sc.Layouts {
		text := sc.render(i, sorts)
		got, err := store("other presentation", text)
		if err != nil {
			return err
		}
		if got != ref {
			return fmt.Errorf("%s is stored as %s\nbut %s is stored as %s", h.Show(base), h.Show(ref), h.Show(text), h.Show(got))
		}
	}
	// not JSON
	for _, s := range sc.Raw {
		valid := json.Valid([]byte(s))
		for _, in := range []any{string(s), []byte(s)} {
			o, _, err := storeJSON(c, sc.Kind, sc.JSON, in)
			if err != nil {
				return fmt.Errorf("%s: %w", h.Show(string(s)), err)
			}
			if (o == h.Added) != valid || (o == h.Failed) == valid {
				return fmt.Errorf("text %s (valid JSON: %v) as %T: outcome %s", h.Show(string(s)), valid, in, o)
			}
		}
		c.Label("edited text, valid: %v", valid)
	}
	if sc.BadGo != "" {
		v := map[string]any{"chan": make(chan int), "func": func() {}, "nan": math.NaN(), "err": badMarshal{}}[sc.BadGo]
		for _, in := range []any{v, map[string]any{"a": v}, []any{1, v}} {
			o, _, err := storeJSON(c, sc.Kind, sc.JSON, in)
			if err != nil || o != h.Failed {
				return fmt.Errorf("a value that cannot be marshalled (%s): outcome %s %v", sc.BadGo, o, err)
			}
		}
	}
	if len(sc.J.A) > 1 {
		c.NonTrivial()
	}
	c.Label("default order: %v", sorts)
	return nil
}

func init() {
	var corpus []c14
	raw := []h.S{
		"", " ", "{", "}", "[1,]", `{"a":1,}`, `{"a" 1}`, `{a:1}`, "01", "-", "-01", "1.", ".5", "1e", "1e+", "+1", "0x1", "nul", "nullx", "true false", "1 2", "\"\n\"", "\"\\x\"",
		"\"\\u12\"", "'a'", "[1 2]", "// c\n1", "{\"a\":1}x", "\ufeff1", "\"\t\"", "\"\x7f\"", "\"\xff\"", "\x00", "1\x00", "[[[[", "{}{}", "NaN", "Infinity", "\"a", "a\"", "[,1]", "{,}", "\v1", "\u00a01", "1e5", "-0", "\"\\ud800\"", "[]", "{}", "\"\"", "null", " null ", "{\"a\":1 \"b\":2}", "[\"a\":1]", "{\"a\"}", "{1:2}", "{null:1}", "{\"a\":}",
	}
	for _, k := range []string{"json", "sjson"} {
		corpus = append(corpus, c14{Kind: k, J: J{T: "null"}, Raw: raw, BadGo: "nan", Layouts: []Layout{{WS: []int{1, 2}}}})
		for _, n := range jsonNums {
			corpus = append(corpus, c14{Kind: k, J: J{T: "arr", A: []J{{T: "num", V: h.S(n)}, {T: "obj"}}}, Layouts: []Layout{{WS: []int{3}}}})
		}
	}
	// large texts, of which only the end is not JSON
	for i, n := range []int{1 << 10, 5 << 10, 40 << 10, 70 << 10, 300 << 10, 1100 << 10, 5 << 20} {
		if !h.Wanted("C14") {
			break
		}
		doc := "[" + strings.Repeat(`"word",`, n/7)
		sc := c14{Kind: []string{"json", "sjson"}[i%2], J: J{T: "null"}, Raw: []h.S{h.S(doc + "1]"), h.S(doc + "]"), h.S(doc + "1] x"), h.S(doc + "1"), h.S("]" + doc + "1]")}, Layouts: []Layout{{WS: []int{3}}}}
		if n > 1<<20 {
			sc.Pick = -1
		}
		corpus = append(corpus, sc)
	}
	h.Register("C14", "canonical",
		"JSON documents (all literal kinds, number shapes, unicode and escaped keys, nesting up to 5) x escape styles x whitespace and member-order presentations x {string, bytes, Go value} x JSON options x MatchJSON/MatchStandaloneJSON; texts damaged by token edits and unmarshalable values; encoding/json decides validity and value equality; non-trivial: the top value has at least two members",
		4000, 60000, genC14, checkC14, corpus...)
}
