package props

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// c17 is a test making calls with matchers that apply or fail.
type c17 struct {
	Update *bool     `json:"update,omitempty"`
	Rounds int       `json:"rounds"` // executions of the test
	Nested bool      `json:"nested,omitempty"`
	Reuse  bool      `json:"reuse,omitempty"` // every round uses the same matchers
	Steps  []c17Step `json:"steps"`
}

type c17Step struct {
	Call c15    `json:"call"`
	Pre  string `json:"pre,omitempty"` // what the slot holds before: "", same, other
	Same int    `json:"same,omitempty"` // the steps of a number use the same matchers
}

func genC17(t *rapid.T) c17 {
	sc := c17{
		Update: rapid.SampledFrom([]*bool{nil, nil, ptr(true), ptr(false)}).Draw(t, "update"), Rounds: rapid.IntRange(1, 2).Draw(t, "rounds"), Reuse: rapid.Bool().Draw(t, "reuse"),
		Nested: rapid.IntRange(0, 3).Draw(t, "nested") == 0,
	}
	n := rapid.IntRange(1, 4).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := c17Step{Pre: rapid.SampledFrom([]string{"", "same", "other"}).Draw(t, "pre")}
		s.Call = c15{Kind: rapid.SampledFrom([]string{"json", "yaml", "sjson"}).Draw(t, "kind")}
		o := mopts{
			missing: rapid.SampledFrom([]int{0, 2, 5}).Draw(t, "missing"), strs: phStrings[:20], specials: specialPH,
			errs: rapid.Bool().Draw(t, "errors"), wild: true,
		}
		s.Call = genC15Of(t, s.Call, o)
		if rapid.IntRange(0, 9).Draw(t, "many failures") == 0 {
			m := manyMissing(rapid.SampledFrom([]int{12, 33, 64, 130}).Draw(t, "how many"))
			if rapid.Bool().Draw(t, "first") {
				s.Call.Ms = append([]TM{m}, s.Call.Ms...)
			} else {
				s.Call.Ms = append(s.Call.Ms, m)
			}
		}
		sc.Steps = append(sc.Steps, s)
	}
	if sc.Reuse && rapid.Bool().Draw(t, "same matchers") {
		// the matchers of a step, on another document before or after it
		i := rapid.IntRange(0, len(sc.Steps)-1).Draw(t, "of step")
		sc.Steps[i].Same = 1
		s := sc.Steps[i]
		s.Pre = rapid.SampledFrom([]string{"", "same", "other"}).Draw(t, "pre")
		s.Call = s.Call.otherDoc(t)
		if at := i + rapid.IntRange(0, 1).Draw(t, "after"); at <= len(sc.Steps) {
			sc.Steps = append(sc.Steps[:at:at], append([]c17Step{s}, sc.Steps[at:]...)...)
		}
	}
	return sc
}

var yamlScalar = regexp.MustCompile(`(?m)(: |- )([0-9]+|true|false|null|[a-z]+)$`)

// otherDoc is the call with a document like its one, with other values and members.
func (sc c15) otherDoc(t *rapid.T) c15 {
	if sc.Kind == "yaml" {
		switch rapid.IntRange(0, 3).Draw(t, "other doc") {
		case 0:
			sc.Doc = "zz: 1\n"
		case 1:
			to := rapid.SampledFrom([]string{"7", "x", "true", "[x]", "{x: 1}"}).Draw(t, "to")
			sc.Doc = h.S(yamlScalar.ReplaceAllString(string(sc.Doc), "${1}"+to))
		case 2:
			s, _, exotic := genC15YAML(t, false)
			sc.Doc, sc.Exotic = h.S(s), exotic || sc.Exotic
		}
		return sc
	}
	sc.Kind = rapid.SampledFrom([]string{"json", "sjson"}).Draw(t, "other kind")
	var j J
	if sc.Form == "go" {
		j = *sc.J
	} else {
		var err error
		if j, err = parseJ(string(sc.Doc)); err != nil {
			panic(h.Infra{Err: err})
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "other doc") {
	case 0:
		j = J{T: "obj", K: []h.S{"zz"}, A: []J{{T: "true"}}}
	case 1:
		j = retypeJ(j, rapid.SampledFrom([]J{{T: "num", V: "7"}, {T: "str", V: "x"}, {T: "null"}, {T: "true"}, {T: "arr"}}).Draw(t, "to"))
	case 2:
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "edits"); i < n; i++ {
			j = editJ(t, j, jopts{keys: plainKeys, depth: 2, maxLen: 3})
		}
	}
	if j.T != "arr" && j.T != "obj" {
		// a string would be a document itself
		j = J{T: "arr", A: []J{j}}
	}
	if sc.Form == "go" {
		sc.J = &j
	} else {
		sc.Doc = h.S(j.Render(genLayout().Draw(t, "layout")))
	}
	return sc
}

// retypeJ is j with every leaf replaced.
func retypeJ(j, to J) J {
	if len(j.A) == 0 {
		return to
	}
	j = j.clone()
	for i := range j.A {
		j.A[i] = retypeJ(j.A[i], to)
	}
	return j
}

// manyMissing is a matcher that fails at n paths.
func manyMissing(n int) TM {
	m := TM{Kind: "any", PH: "default"}
	for i := 0; i < n; i++ {
		m.Paths = append(m.Paths, []Comp{key(fmt.Sprintf("zz%03d", i))})
	}
	return m
}

// mode of this process.
func modeOf() (ci, upd bool) {
	v := os.Getenv("VERIF_VARIANT")
	return v == "ci" || v == "ciupd", v == "updenv" || v == "ciupd"
}

func mayCreate(u *bool) bool {
	ci, _ := modeOf()
	return !ci && (u == nil || *u)
}

func mayUpdate(u *bool) bool {
	ci, upd := modeOf()
	return !ci && (u == nil && upd || u != nil && *u)
}

// named tells whether the report names the matcher and the path together.
func named(report string, e MErr) bool {
	for i := 0; i < len(report); i++ {
		j := strings.Index(report[i:], e.Matcher)
		if j < 0 {
			return false
		}
		i += j
		rest := report[i+len(e.Matcher):]
		if k := strings.Index(rest, e.Path); k >= 0 && k <= 12 {
			return true
		}
	}
	return false
}

// onlyFiles drops directories, which are no snapshots.
func onlyFiles(t h.Tree) h.Tree {
	out := h.Tree{}
	for p, s := range t {
		if !s.Dir {
			out[p] = s
		}
	}
	return out
}

// record makes the call alone in an empty directory. ok is false if it reports a failure.
func (sc c15) record(c *h.C) (text string, name string, ok bool, report string, err error) {
	dir := c.Dir()
	k := Cfg{Dir: sdir(dir), File: "f"}
	if sc.NoSort {
		k.JSON = &JSONCfg{Width: 80, Indent: " "}
	}
	in, _ := sc.in()
	t := h.NewT("TestAlone")
	callM(t, sc.Kind, k.Build(), in, sc.build(nil))
	ev := t.Take()
	t.RunCleanups()
	o, err := h.Classify(ev)
	if err != nil {
		return "", "", false, "", err
	}
	files := h.ReadTree(dir).Files()
	if o == h.Failed {
		if len(files) > 0 {
			return "", "", false, "", fmt.Errorf("a failing call created a snapshot: matchers %s on %s: %s", sc.showMs(), h.Show(sc.text()), h.ShowEvents(ev))
		}
		return "", "", false, string(ev[0].Text), nil
	}
	if o != h.Added || len(files) != 1 {
		return "", "", false, "", fmt.Errorf("%s with %d files", o, len(files))
	}
	for p, data := range files {
		if sc.Kind == "sjson" {
			return data, p, true, "", nil
		}
		es, err := h.ParseStore(data)
		if err != nil || len(es) != 1 {
			return "", "", false, "", fmt.Errorf("not one entry: %s", h.Show(data))
		}
		return es[0].Body, p, true, "", nil
	}
	return
}

func (sc c15) build(seen *[]any) (ms []anyMatcher) {
	for _, m := range sc.Ms {
		ms = append(ms, m.Build(sc.Kind == "yaml", seen))
	}
	return
}

func checkC17(c *h.C, sc c17) error {
	ci, _ := modeOf()
	base := c.Dir()
	dir := base
	if sc.Nested {
		dir = join(base, "not/there/yet")
	}
	type slot struct {
		must     []MErr // failing matchers the report has to name
		fails    bool   // must fail
		sure     bool   // the model decides about failing
		rec      string
		recOK    bool
		multi    bool
		ord      int
		fileName string
	}
	var slots []slot
	nm, ns := 0, 0
	// the store before
	store := []h.Entry{{ID: "TestOther - 1", Body: "other"}}
	standalone := map[string]string{}
	for _, s := range sc.Steps {
		sl := slot{multi: s.Call.Kind != "sjson"}
		if sl.multi {
			nm++
			sl.ord = nm
		} else {
			ns++
			sl.ord = ns
		}
		drop, ok := s.Call.model(false)
		keep, _ := s.Call.model(true)
		if ok && !drop.Vague && !keep.Vague {
			sl.sure = fmt.Sprint(drop.Errs) == fmt.Sprint(keep.Errs)
			sl.fails = sl.sure && len(drop.Errs) > 0
			if sl.fails && !drop.Exotic && !keep.Exotic {
				sl.must = drop.Errs
			}
		}
		if !ci {
			text, name, ok, _, err := s.Call.record(c)
			if err != nil {
				return err
			}
			sl.rec, sl.recOK = text, ok
			sl.fileName = name
			if ok && sl.fails {
				return fmt.Errorf("matchers %s on %s fail by %+v but a snapshot was recorded: %s", s.Call.showMs(), h.Show(s.Call.text()), sl.must, h.Show(text))
			}
			if !ok && sl.sure && !sl.fails && !drop.Exotic {
				return fmt.Errorf("matchers %s on %s should apply but fail", s.Call.showMs(), h.Show(s.Call.text()))
			}
		}
		if !sl.multi {
			sl.fileName = fmt.Sprintf("f_%d.snap.json", sl.ord)
		}
		body := ""
		switch {
		case s.Pre == "other":
			body = fmt.Sprintf("old %d", sl.ord)
		case s.Pre == "same" && sl.recOK && !(sl.multi && strings.Contains(sl.rec+"\n", "\r\n")):
			body = sl.rec
		}
		if body != "" {
			if sl.multi {
				store = append(store, h.Entry{ID: fmt.Sprintf("TestM - %d", sl.ord), Body: body})
			} else {
				standalone[sl.fileName] = body
			}
		}
		slots = append(slots, sl)
	}
	store = append(store, h.Entry{ID: "TestZ - 1", Body: "z"})
	if !sc.Nested {
		files := map[string]h.S{"f.snap": h.S(h.Render(store))}
		for p, d := range standalone {
			files[p] = h.S(d)
		}
		if err := h.WriteFiles(dir, files); err != nil {
			return err
		}
	} else {
		store, standalone = nil, map[string]string{}
	}
	find := func(id string) *h.Entry {
		for i := range store {
			if store[i].ID == id {
				return &store[i]
			}
		}
		return nil
	}

	failedBefore := false
	matchers := make([][]anyMatcher, len(sc.Steps))
	var shared []anyMatcher
	for round := 0; round < sc.Rounds; round++ {
		t := h.NewT("TestM")
		for i, s := range sc.Steps {
			sl := slots[i]
			k := Cfg{Dir: sdir(dir), File: "f", Update: sc.Update}
			if s.Call.NoSort {
				k.JSON = &JSONCfg{Width: 80, Indent: " "}
			}
			in, unchanged := s.Call.in()
			before := onlyFiles(h.Age(base))
			ms := matchers[i]
			if s.Same > 0 && sc.Reuse {
				ms = shared
			}
			if ms == nil || !sc.Reuse {
				ms = s.Call.build(nil)
				matchers[i] = ms
				if s.Same > 0 {
					shared = ms
				}
			}
			callM(t, s.Call.Kind, k.Build(), in, ms)
			ev := t.Take()
			o, err := h.Classify(ev)
			where := func() string {
				return fmt.Sprintf("round %d step %d: %s matchers %s on %s", round, i, s.Call.Kind, s.Call.showMs(), h.Show(s.Call.text()))
			}
			if err != nil {
				return fmt.Errorf("%s: %w", where(), err)
			}
			if err := unchanged(); err != nil {
				return fmt.Errorf("%s: %w", where(), err)
			}
			after := onlyFiles(h.ReadTree(base))
			if sl.fails || !ci && !sl.recOK {
				if o != h.Failed {
					return fmt.Errorf("%s must fail by %+v but %s", where(), sl.must, o)
				}
				for _, e := range sl.must {
					if !named(string(ev[0].Text), e) {
						return fmt.Errorf("%s: the report does not name match.%s for path %q: %s", where(), e.Matcher, e.Path, h.ShowEvents(ev))
					}
				}
				if err := h.Untouched(before, after); err != nil {
					return fmt.Errorf("%s failed, but %w", where(), err)
				}
				c.Label("failing matchers")
				failedBefore = true
				c.NonTrivial()
				continue
			}
			if ci {
				if err := h.Untouched(before, after); err != nil {
					return fmt.Errorf("%s on CI, but %w", where(), err)
				}
				if o != h.Failed && o != h.Passed {
					return fmt.Errorf("%s on CI: %s", where(), o)
				}
				continue
			}
			// the comparison proceeds normally, in the slot of the call
			want := h.Passed
			var cur *string
			if sl.multi {
				if e := find(fmt.Sprintf("TestM - %d", sl.ord)); e != nil {
					cur = &e.Body
				}
			} else if d, ok := standalone[sl.fileName]; ok {
				cur = &d
			}
			switch {
			case cur == nil && mayCreate(sc.Update):
				want = h.Added
				if sl.multi {
					store = append(store, h.Entry{ID: fmt.Sprintf("TestM - %d", sl.ord), Body: sl.rec})
				} else {
					standalone[sl.fileName] = sl.rec
				}
			case cur == nil:
				want = h.Failed
			case *cur != sl.rec && !(sl.multi && strings.Contains(sl.rec+"\n", "\r\n")) && mayUpdate(sc.Update):
				want = h.Updated
				if sl.multi {
					*cur = sl.rec
				} else {
					standalone[sl.fileName] = sl.rec
				}
			case *cur != sl.rec:
				want = h.Failed
			}
			if sl.multi && strings.Contains(sl.rec+"\n", "\r\n") {
				return nil // outside of the domain
			}
			if o != want {
				return fmt.Errorf("%s: %s, expected %s: %s", where(), o, want, h.ShowEvents(ev))
			}
			if want == h.Passed || want == h.Failed {
				if err := h.Untouched(before, after); err != nil {
					return fmt.Errorf("%s %s, but %w", where(), o, err)
				}
			}
			if failedBefore {
				c.Label("%s after a failing call", want)
			} else {
				c.Label("%s", want)
			}
			got := after.Files()
			wantFiles := map[string]string{}
			for p, d := range standalone {
				wantFiles[p] = d
			}
			if len(store) > 0 {
				wantFiles["f.snap"] = h.Render(store)
			}
			for p, d := range got {
				q := rel(rel(base, dir), p)
				if sc.Nested {
					q = strings.TrimPrefix(p, "not/there/yet/")
				}
				w, ok := wantFiles[q]
				if !ok || w != d {
					return fmt.Errorf("%s: %s is %s, expected %s", where(), q, h.Show(d), h.Show(w))
				}
				delete(wantFiles, q)
			}
			for q, w := range wantFiles {
				return fmt.Errorf("%s: no file %s with %s", where(), q, h.Show(w))
			}
		}
		t.RunCleanups()
	}
	return nil
}

func init() {
	rule := "1-4 calls (MatchJSON, MatchYAML, MatchStandaloneJSON) of one test, executed once or twice, each with 1-3 matchers of which paths are missing, types are wrong or callbacks fail (or are allowed to be missing), on slots that are empty, equal or different, with Update unset/true/false, UPDATE_SNAPS=true and CI; every call must have the modelled outcome and leave exactly the modelled files; non-trivial: at least one matcher failed"
	corpus := []c17{}
	for _, kind := range []string{"json", "sjson", "yaml"} {
		doc := h.S(`{"a":1,"b":{"c":"x"},"l":[1]}`)
		if kind == "yaml" {
			doc = "a: 1\nb:\n  c: x\nl: [1]\n"
		}
		good := TM{Kind: "any", Paths: [][]Comp{{key("a")}}, PH: "default"}
		bads := []TM{
			{Kind: "any", Paths: [][]Comp{{key("nope")}, {key("b")}, {key("b"), key("nope")}}, PH: "default"},
			{Kind: "type", Type: "bool", Paths: [][]Comp{{key("b"), key("c")}, {key("nope")}}},
			{Kind: "custom", Err: "no way", Paths: [][]Comp{{key("b")}}},
			{Kind: "custom", Paths: [][]Comp{{key("nope")}}, S: "x"},
		}
		for _, u := range []*bool{nil, ptr(true), ptr(false)} {
			for _, pre := range []string{"", "same", "other"} {
				for _, ms := range [][]TM{{good, bads[0]}, {bads[0], good}, {bads[1], bads[0], good}, {bads[2], bads[3]}, {good, bads[2], good}, {bads[3]}} {
					corpus = append(corpus, c17{Update: u, Rounds: 2, Steps: []c17Step{
						{Call: c15{Kind: kind, Form: "bytes", Doc: doc, Ms: []TM{good}}, Pre: pre},
						{Call: c15{Kind: kind, Form: "bytes", Doc: doc, Ms: ms}, Pre: "other"},
						{Call: c15{Kind: kind, Form: "str", Doc: doc, Ms: []TM{good}}, Pre: pre},
					}})
				}
			}
		}
	}
	for _, kind := range []string{"json", "sjson", "yaml"} {
		corpus = append(corpus, c17{Rounds: 1, Steps: []c17Step{{Call: c15{Kind: kind, Form: "bytes", Doc: map[bool]h.S{false: `{"a":1}`, true: "a: 1\n"}[kind == "yaml"], Ms: []TM{manyMissing(200)}}}}})
	}
	h.Register("C17", "matchers", rule, 9000, 200000, genC17, checkC17, corpus...).In("plain", "updenv", "ci", "ciupd")
}
