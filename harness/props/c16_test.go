package props

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// c16 is a pair of documents for the same matchers.
type c16 struct {
	Kind   string `json:"kind"` // json sjson yaml
	Form   string `json:"form"` // str bytes go
	A      h.S    `json:"a"`
	B      h.S    `json:"b"`
	JA     *J     `json:"ja,omitempty"`
	JB     *J     `json:"jb,omitempty"`
	Masked bool   `json:"masked"` // only covered values differ
	NoSort bool   `json:"noSort,omitempty"`
	Ms     []TM   `json:"ms"`
	Update bool   `json:"update,omitempty"` // the second call may update
	Before int    `json:"before,omitempty"` // other calls of the test before this one
	Reuse  bool   `json:"reuse,omitempty"`  // the same matchers for all calls
}

// cover returns the nodes the paths of the matchers select in the document, with the matcher.
func cover(doc *J, ms []TM) map[*J]*TM {
	out := map[*J]*TM{}
	for i := range ms {
		for _, p := range ms[i].Paths {
			ns, _, _ := doc.find(p)
			for _, n := range ns {
				out[n] = &ms[i]
			}
		}
	}
	return out
}

func isWild(p []Comp) bool {
	for _, c := range p {
		if c.All {
			return true
		}
	}
	return false
}

// otherValue draws a value for a covered node.
func otherValue(t *rapid.T, j J, m *TM, keys []string) J {
	same := m.Kind == "type" && !isWild(m.Paths[0])
	switch {
	case same && j.T == "null":
		return j
	case same && (j.T == "true" || j.T == "false"):
		return J{T: rapid.SampledFrom([]string{"true", "false"}).Draw(t, "bool")}
	}
	want := rapid.SampledFrom([]string{"null", "true", "num", "str", "str", "arr", "obj"}).Draw(t, "new kind")
	if same || rapid.Bool().Draw(t, "same kind") {
		want = j.T
	}
	o := jopts{keys: keys, depth: 1, maxLen: 3}
	switch want {
	case "num":
		return J{T: "num", V: h.S(rapid.SampledFrom(jsonNums).Draw(t, "num"))}
	case "str":
		return J{T: "str", V: h.S(validText(h.Text(true, "TestA").Draw(t, "str")))}
	case "arr":
		return genArr(t, o)
	case "obj":
		return genObj(t, o)
	}
	return J{T: want}
}

// mutate changes something outside of the covered nodes; false if there is no place.
func mutate(t *rapid.T, doc *J, covered map[*J]*TM, keys []string) bool {
	type place struct {
		j  *J
		op int
		i  int
	}
	var places []place
	var rec func(j *J) bool
	rec = func(j *J) bool { // whether j or something in it is covered
		if covered[j] != nil {
			return true
		}
		inside := false
		for i := range j.A {
			c := rec(&j.A[i])
			inside = inside || c
			if !c {
				places = append(places, place{j, 1, i}) // drop the element
				if j.T == "obj" {
					places = append(places, place{j, 2, i}) // rename the key
				} else if i > 0 && covered[&j.A[i-1]] == nil {
					places = append(places, place{j, 3, i}) // swap with the one before
				}
			}
		}
		if !inside {
			places = append(places, place{j, 0, 0}, place{j, 0, 0}) // another value
		}
		if j.T == "obj" || j.T == "arr" {
			places = append(places, place{j, 4, 0}) // one more
		}
		return inside
	}
	rec(doc)
	if len(places) == 0 {
		return false
	}
	p := rapid.SampledFrom(places).Draw(t, "place")
	switch p.op {
	case 0:
		*p.j = mutant(t, *p.j, keys)
	case 1:
		p.j.A = append(append([]J(nil), p.j.A[:p.i]...), p.j.A[p.i+1:]...)
		if p.j.T == "obj" {
			p.j.K = append(append([]h.S(nil), p.j.K[:p.i]...), p.j.K[p.i+1:]...)
		}
	case 2:
		p.j.K[p.i] += "x"
	case 3:
		p.j.A[p.i], p.j.A[p.i-1] = p.j.A[p.i-1], p.j.A[p.i]
	case 4:
		p.j.A = append(p.j.A, J{T: rapid.SampledFrom([]string{"null", "true", "arr"}).Draw(t, "added")})
		if p.j.T == "obj" {
			p.j.K = append(p.j.K, "zz new")
		}
	}
	return true
}

// mutant is a value close to j.
func mutant(t *rapid.T, j J, keys []string) J {
	if j.T == "str" {
		switch rapid.IntRange(0, 6).Draw(t, "near") {
		case 0:
			return J{T: "str", V: j.V + " "}
		case 1:
			return J{T: "str", V: j.V + "\n"}
		case 2:
			return J{T: "str", V: "<Any value>"}
		case 3:
			return J{T: "num", V: "1"}
		case 4:
			return J{T: "str", V: " " + j.V}
		}
	}
	if j.T == "num" {
		switch rapid.IntRange(0, 3).Draw(t, "near") {
		case 0:
			return J{T: "str", V: j.V}
		case 1:
			if j.V[0] == '-' {
				return J{T: "num", V: j.V[1:]}
			}
			return J{T: "num", V: "-" + j.V}
		}
	}
	switch j.T {
	case "null":
		return rapid.SampledFrom([]J{{T: "str", V: "null"}, {T: "false"}, {T: "obj"}, {T: "arr"}, {T: "str"}, {T: "num", V: "0"}}).Draw(t, "near")
	case "true":
		return rapid.SampledFrom([]J{{T: "str", V: "true"}, {T: "false"}}).Draw(t, "near")
	}
	return genJ(jopts{keys: keys, depth: 1, maxLen: 3}).Draw(t, "other")
}

func genC16(kinds ...string) func(t *rapid.T) c16 {
	return func(t *rapid.T) c16 {
		sc := c16{
			Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Form: rapid.SampledFrom([]string{"bytes", "str", "go"}).Draw(t, "form"),
			Masked: rapid.Bool().Draw(t, "masked"), Update: rapid.IntRange(0, 3).Draw(t, "update") == 0, Before: rapid.IntRange(0, 2).Draw(t, "before"),
			Reuse: rapid.Bool().Draw(t, "reuse"),
		}
		o := mopts{strs: phStrings, specials: specialPH, wild: true}
		if sc.Kind == "yaml" {
			if sc.Form == "go" {
				sc.Form = "str"
			}
			return genC16Y(t, sc, o)
		}
		keys := plainKeys
		if rapid.IntRange(0, 3).Draw(t, "hostile keys") == 0 {
			keys = jsonKeys
		}
		jo := jopts{keys: keys, depth: 3, maxLen: 5}
		var a J
		if rapid.IntRange(0, 5).Draw(t, "array") == 0 {
			a = genArr(t, jo)
		} else {
			a = genObj(t, jo)
		}
		a = growJ(t, a, keys)
		sc.Ms = genCover(t, a, o)
		b := a.clone()
		cov := cover(&b, sc.Ms)
		if !sc.Masked {
			mutate(t, &b, cov, keys)
		}
		if sc.Masked || rapid.Bool().Draw(t, "masked too") {
			for _, m := range sc.Ms {
				for _, p := range m.Paths {
					ns, _, _ := b.find(p)
					for _, n := range ns {
						if cov[n] != nil && rapid.IntRange(0, 4).Draw(t, "keep value") > 0 {
							*n = otherValue(t, *n, cov[n], keys)
						}
					}
				}
			}
		}
		sc.JA, sc.JB = &a, &b
		lay := genLayout().Draw(t, "layout")
		lay.Perm = nil
		sc.A, sc.B = h.S(a.Render(lay)), h.S(b.Render(lay))
		sc.NoSort = rapid.Bool().Draw(t, "no sort")
		return sc
	}
}

// genCover draws matchers whose result does not depend on what they find.
func genCover(t *rapid.T, a J, o mopts) []TM {
	var ms []TM
	n := rapid.IntRange(1, 3).Draw(t, "matchers")
	if h.Rare(t, 5, "many matchers") {
		n = rapid.SampledFrom([]int{9, 17, 40}).Draw(t, "how many matchers")
	}
	for i := 0; i < n; i++ {
		m := genTM(t, a, o)
		if m.PH == "echo" {
			m.PH = "default"
			if m.Kind == "custom" {
				m.PH, m.S = "", "masked"
			}
		}
		ms = append(ms, m)
	}
	return ms
}

func checkC16(c *h.C, sc c16) error {
	// what the matchers make of the two documents
	var ra, rb MResult
	equal := false
	if sc.Kind == "yaml" {
		da, err := decodeYAML(string(sc.A))
		if err != nil {
			c.Label("not decodable")
			return nil
		}
		db, err := decodeYAML(string(sc.B))
		if err != nil {
			c.Label("not decodable")
			return nil
		}
		ra, rb = applyY(dropNil(da), sc.Ms, false), applyY(dropNil(db), sc.Ms, false)
		equal = yEq(ra.Y, rb.Y)
	} else {
		ra, rb = applyJ(*sc.JA, sc.Ms, false), applyJ(*sc.JB, sc.Ms, false)
		equal = eqJ(ra.J, rb.J, sc.NoSort)
	}
	if len(ra.Errs)+len(rb.Errs) > 0 || ra.Vague || rb.Vague || ra.Touched == 0 {
		c.Label("%s: the matchers do not apply to both documents", sc.Kind)
		return nil
	}
	if equal != sc.Masked {
		c.Label("%s: the change has the other effect", sc.Kind)
		return nil
	}
	exotic := ra.Exotic || rb.Exotic

	for _, order := range []struct {
		first, second   h.S
		jFirst, jSecond *J
	}{{sc.A, sc.B, sc.JA, sc.JB}, {sc.B, sc.A, sc.JB, sc.JA}} {
		dirs := [2]string{c.Dir(), c.Dir()}
		var texts [2]string
		var ms []anyMatcher
		in := func(doc h.S, j *J) any {
			switch sc.Form {
			case "bytes":
				return []byte(doc)
			case "go":
				return j.Go()
			}
			return string(doc)
		}
		cfg := func(dir string, update *bool) *snaps.Config {
			k := Cfg{Dir: sdir(dir), File: "f", Update: update}
			if sc.NoSort {
				k.JSON = &JSONCfg{Width: 80, Indent: " "}
			}
			return k.Build()
		}
		run := func(dir string, update *bool, input any) (string, []h.Event, error) {
			t := h.NewT("TestMasked")
			defer t.RunCleanups()
			for i := 0; i < sc.Before; i++ {
				cfg(dir, nil).MatchSnapshot(t, "before")
				if o, err := h.Classify(t.Take()); err != nil || o == h.Failed {
					return "", nil, fmt.Errorf("a call before: %s %v", o, err)
				}
			}
			if ms == nil || !sc.Reuse {
				ms = nil
				for _, m := range sc.Ms {
					ms = append(ms, m.Build(sc.Kind == "yaml", nil))
				}
			}
			callM(t, sc.Kind, cfg(dir, update), input, ms)
			ev := t.Take()
			o, err := h.Classify(ev)
			return o, ev, err
		}
		last := func(dir string) string {
			for p, data := range h.ReadTree(dir).Files() {
				if sc.Kind == "sjson" && strings.HasPrefix(p, "f_1.snap") {
					return data
				}
				if sc.Kind != "sjson" {
					if es, err := h.ParseStore(data); err == nil && len(es) == sc.Before+1 {
						return es[sc.Before].Body
					}
					return "not a store: " + data
				}
			}
			return "nothing"
		}
		for i, d := range []struct {
			doc h.S
			j   *J
		}{{order.first, order.jFirst}, {order.second, order.jSecond}} {
			o, ev, err := run(dirs[i], nil, in(d.doc, d.j))
			if err != nil {
				return err
			}
			if o == h.Failed && exotic {
				c.Label("%s: an unusual path is reported", sc.Kind)
				return nil
			}
			if o != h.Added {
				return fmt.Errorf("matchers %s on %s: %s %s", c15{Kind: sc.Kind, Ms: sc.Ms}.showMs(), h.Show(string(d.doc)), o, h.ShowEvents(ev))
			}
			texts[i] = last(dirs[i])
		}
		show := func() string {
			return fmt.Sprintf("matchers %s, recorded %s as %s, then %s (alone: %s)", c15{Kind: sc.Kind, Ms: sc.Ms}.showMs(), h.Show(string(order.first)), h.Show(texts[0]), h.Show(string(order.second)), h.Show(texts[1]))
		}
		if (texts[0] == texts[1]) != sc.Masked {
			return fmt.Errorf("%s\n only masked values differ: %v", show(), sc.Masked)
		}
		before := h.Age(dirs[0])
		var up *bool
		if sc.Update {
			up = ptr(true)
		}
		o, ev, err := run(dirs[0], up, in(order.second, order.jSecond))
		if err != nil {
			return err
		}
		want := h.Passed
		if !sc.Masked {
			want = h.Failed
			if sc.Update {
				want = h.Updated
			}
		}
		if o != want {
			return fmt.Errorf("%s\n the call %s, expected %s: %s", show(), o, want, h.ShowEvents(ev))
		}
		if want != h.Updated {
			if err := h.Untouched(before, h.ReadTree(dirs[0])); err != nil {
				return fmt.Errorf("%s\n %w", show(), err)
			}
		} else if got := last(dirs[0]); got != texts[1] {
			return fmt.Errorf("%s\n updated to %s", show(), h.Show(got))
		}
	}
	c.Evaluations(2)
	c.NonTrivial()
	if sc.Masked {
		c.Label("%s: only masked values differ", sc.Kind)
	} else {
		c.Label("%s: something else differs", sc.Kind)
	}
	return nil
}

// findYNode returns the nodes of the written document a path selects; j is the decoded document.
func findYNode(y *Y, j *J, p []Comp) (out []*Y) {
	if len(p) == 0 {
		return []*Y{y}
	}
	if len(y.A) != len(j.A) {
		return nil
	}
	for i := range j.A {
		c := p[0]
		if c.All && j.T == "arr" || c.K == nil && j.T == "arr" && c.I == i || c.K != nil && j.T == "obj" && string(j.K[i]) == string(*c.K) {
			out = append(out, findYNode(&y.A[i], &j.A[i], p[1:])...)
		}
	}
	return out
}

// noSeqHead drops the comment of the first element of a sequence inside of a sequence, which
// goccy/go-yaml attaches to the outer element.
func noSeqHead(y *Y, inSeq bool) {
	for i := range y.A {
		if y.T == "seq" && inSeq && i == 0 {
			y.A[i].C = ""
		}
		noSeqHead(&y.A[i], y.T == "seq")
	}
}

func renderDocs(ys []Y, nl bool) h.S {
	s := ""
	for i, y := range ys {
		if i > 0 {
			s += "---\n"
		}
		if len(y.A) == 0 {
			s += "z: 1\n"
		} else {
			s += y.Doc()
		}
	}
	if !nl {
		s = s[:len(s)-1]
	}
	return h.S(s)
}

func genC16Y(t *rapid.T, sc c16, o mopts) c16 {
	o.yml = true
	n := 1
	if rapid.IntRange(0, 5).Draw(t, "multi") == 0 {
		n = rapid.IntRange(2, 3).Draw(t, "docs")
	}
	yo := yopts{depth: 3, maxLen: 4, comments: rapid.IntRange(0, 2).Draw(t, "comments") == 0, block: rapid.Bool().Draw(t, "block")}
	if rapid.IntRange(0, 4).Draw(t, "keys") == 0 {
		yo.keys = []string{"a", "b", `"a b"`, `'c'`, "a.b", "1", "true", "x-y", "é", "user", "a/b", "A", "k$"}
	}
	nl := rapid.IntRange(0, 2).Draw(t, "no nl") > 0
	var as, bs []Y
	for i := 0; i < n; i++ {
		as = append(as, growY(t, genYMap(t, yo)))
		noSeqHead(&as[i], false)
		bs = append(bs, as[i].clone())
	}
	sc.A = renderDocs(as, nl)
	docs, err := decodeYAML(string(sc.A))
	if err != nil || len(docs) != len(as) {
		sc.B = sc.A
		return sc
	}
	var js []J
	for _, d := range docs {
		js = append(js, jOfY(d))
	}
	sc.Ms = genCover(t, js[rapid.IntRange(0, n-1).Draw(t, "doc")], o)
	covered := map[*Y]*TM{}
	var order []*Y
	for i := range sc.Ms {
		for _, p := range sc.Ms[i].Paths {
			for d := range bs {
				for _, y := range findYNode(&bs[d], &js[d], p) {
					if covered[y] == nil {
						order = append(order, y)
					}
					covered[y] = &sc.Ms[i]
				}
			}
		}
	}
	if !sc.Masked {
		mutateY(t, bs, covered)
	}
	if sc.Masked || rapid.Bool().Draw(t, "masked too") {
		for _, y := range order {
			if rapid.IntRange(0, 4).Draw(t, "keep value") == 0 {
				continue
			}
			if covered[y].Kind == "type" && y.T != "scalar" {
				continue
			}
			if y.T == "scalar" && len(y.B) == 0 && (y.E != "" || covered[y].Kind == "type" || rapid.Bool().Draw(t, "scalar")) {
				y.V = h.S(rapid.SampledFrom(yamlScalars).Draw(t, "scalar"))
				continue
			}
			c := y.C
			*y = genY(yopts{depth: 1, maxLen: 3, block: yo.block && !insideFlow(bs, y)}).Draw(t, "new value")
			y.C, y.E = c, ""
		}
	}
	sc.B = renderDocs(bs, nl)
	return sc
}

// insideFlow tells whether the node is written in flow style.
func insideFlow(ys []Y, n *Y) bool {
	var rec func(y *Y, flow bool) bool
	rec = func(y *Y, flow bool) bool {
		if y == n {
			return flow
		}
		for i := range y.A {
			if rec(&y.A[i], flow || y.F) {
				return true
			}
		}
		return false
	}
	for i := range ys {
		if rec(&ys[i], false) {
			return true
		}
	}
	return false
}

func mutateY(t *rapid.T, ys []Y, covered map[*Y]*TM) {
	type place struct {
		y  *Y
		op int
		i  int
	}
	var places []place
	var rec func(y *Y)
	rec = func(y *Y) {
		if covered[y] != nil {
			return
		}
		if y.T == "scalar" {
			places = append(places, place{y, 0, 0}, place{y, 0, 0}, place{y, 0, 0})
		}
		for i := range y.A {
			rec(&y.A[i])
			if y.T == "map" && covered[&y.A[i]] == nil {
				places = append(places, place{y, 1, i}, place{y, 2, i})
			}
		}
	}
	for i := range ys {
		rec(&ys[i])
	}
	if len(places) == 0 {
		return
	}
	p := rapid.SampledFrom(places).Draw(t, "place")
	switch p.op {
	case 0:
		if len(p.y.B) > 0 {
			p.y.B[rapid.IntRange(0, len(p.y.B)-1).Draw(t, "line")] += "x"
		} else {
			p.y.V = h.S(rapid.SampledFrom(yamlScalars).Draw(t, "other"))
		}
	case 1:
		p.y.A = append(append([]Y(nil), p.y.A[:p.i]...), p.y.A[p.i+1:]...)
		p.y.K = append(append([]h.S(nil), p.y.K[:p.i]...), p.y.K[p.i+1:]...)
	case 2:
		p.y.K[p.i] = "zz_" + h.S("new")
	}
}

func init() {
	h.Register("C16", "json",
		"pairs of JSON documents x lists of Any/Type/Custom (nested keys, indexes, wildcards) that differ only in covered values, or also elsewhere (values, types, keys, order, missing and additional elements), for multi-entry and standalone files and inputs as string, bytes and Go values; both orders; non-trivial: the matchers apply to both documents and the model says the pair is of the drawn kind",
		8000, 250000, genC16("json", "json", "sjson"), checkC16)
	h.Register("C16", "yaml",
		"pairs of YAML documents (block, flow, comments, block scalars, several documents) x matchers, as for json; non-trivial: the matchers apply to both documents and the pair is of the drawn kind",
		8000, 250000, genC16("yaml"), checkC16)
}
