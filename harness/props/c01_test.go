package props

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// testNames has no two names that map to the same standalone file.
var testNames = []string{
	"TestA", "TestA/sub", "TestA/sub#01", "TestAB", "TestB", "TestB/x_y", "FuzzX/seed#0", "Test/100%", "Test/[x]", "TestÜ/é", "Spec does - a thing", "Test", "TestA/---",
	"TestC/[TestA_-_1]", "TestA/sub/deep", "TestD/1/2/3/4/5/6/7/8",
}

// nearNames are pairs that a careless comparison could take for each other.
var nearNames = func() [][2]string {
	long := "Test" + strings.Repeat("Long", 31)     // 128 bytes
	longer := "Test/" + strings.Repeat("very_", 39) // 200 bytes
	return [][2]string{
		{"TestA", "TESTA"}, {"TestA/sub", "TestA/Sub"}, {long, long + "1"}, {long + "/a", long + "/b"}, {longer + "a", longer + "b"}, {longer, longer + "#01"},
		{"TestÜ/é", "TestÜ/e\u0301"}, {"TestA/sub", "TestA/sub#01"}, {"TestA/sub", "TestA/sub/deep"}, {"Test", "TestA"}, {"TestA", "TestA/---"}, {"TestA", "TestA - 1"},
		{"TestA/1", "TestA/01"}, {"TestA/\u212a", "TestA/K"}, {"TestA/ſ", "TestA/s"}, {"TestA/x.y", "TestA/xzy"}, {"TestA/(x)", "TestA/x"}, {"TestA/[x]", "TestA/x"}, {"TestA/a%d", "TestA/a1"},
		{"TestA/]", "TestA/["}, {"TestA/x\u200b", "TestA/x"}, {"TestA/$1", "TestA/1"},
	}
}()

// genNames gives n different names that no two of map to the same standalone file.
func genNames(t *rapid.T, n int) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if f := strings.ReplaceAll(s, "/", "_"); !seen[f] && len(out) < n {
			seen[f] = true
			out = append(out, s)
		}
	}
	if n > 1 && rapid.Bool().Draw(t, "near") {
		p := rapid.SampledFrom(nearNames).Draw(t, "near names")
		i := rapid.IntRange(0, 1).Draw(t, "first")
		add(p[i])
		add(p[1-i])
	}
	for _, s := range rapid.Permutation(testNames).Draw(t, "names") {
		add(s)
	}
	return out
}

type c01Test struct {
	Name  string `json:"name"`
	Cfg   Cfg    `json:"cfg"`
	Calls []Call `json:"calls"`
}

type c01 struct {
	Tests  []c01Test `json:"tests"`
	Order1 []int     `json:"order1"`
	Order2 []int     `json:"order2"`
	Upd    int       `json:"upd"`           // Update option of the replay: 0 none 1 true 2 false
	Far    int       `json:"far,omitempty"` // 1: replayed, 2: recorded by another process as well
}

func genOrder(t *rapid.T, tests []c01Test, label string) []int {
	var seq []int
	for i, tt := range tests {
		for range tt.Calls {
			seq = append(seq, i)
		}
	}
	return rapid.Permutation(seq).Draw(t, label)
}

func genTests(t *rapid.T, standalone bool, maxTests, maxCalls int) []c01Test {
	n := rapid.IntRange(1, maxTests).Draw(t, "tests")
	names := genNames(t, n)
	var tests []c01Test
	if h.Rare(t, 6, "many") {
		// one more test, with many calls
		tt := c01Test{Name: "TestMany", Cfg: Cfg{File: "shared"}}
		for i, m := 0, rapid.SampledFrom([]int{20, 70, 140}).Draw(t, "many calls"); i < m; i++ {
			tt.Calls = append(tt.Calls, Call{Kind: "snap", Vals: []Val{{K: "str", S: h.S(fmt.Sprintf("[TestMany - %d]\nvalue %d", i+2, i))}}})
		}
		tests = append(tests, tt)
	}
	for i := 0; i < n; i++ {
		tt := c01Test{Name: names[i]}
		tt.Cfg.File = h.S(rapid.SampledFrom([]string{"", "", "shared", "shared", "my file", "x%dy"}).Draw(t, "file"))
		tt.Cfg.Ext = h.S(rapid.SampledFrom([]string{"", "", "", ".txt"}).Draw(t, "ext"))
		if standalone && tt.Cfg.File != "" {
			// a standalone file shared by two tests is one slot with two owners: out of the domain
			tt.Calls = rapid.SliceOfN(genCall(false, names...), 1, maxCalls).Draw(t, "calls")
		} else {
			tt.Calls = rapid.SliceOfN(genCall(standalone, names...), 1, maxCalls).Draw(t, "calls")
		}
		tests = append(tests, tt)
	}
	return tests
}

// farCalls are the calls of the tests in that order.
func farCalls(tests []c01Test, order []int, dir string, upd *bool) []farCall {
	next := make([]int, len(tests))
	var out []farCall
	for _, i := range order {
		k := tests[i].Cfg
		k.Dir, k.Update = sdir(dir), upd
		out = append(out, farCall{h.S(tests[i].Name), k, tests[i].Calls[next[i]]})
		next[i]++
	}
	return out
}

func genC01(t *rapid.T) c01 {
	sc := c01{Tests: genTests(t, true, 4, 4)}
	sc.Order1 = genOrder(t, sc.Tests, "order1")
	sc.Order2 = genOrder(t, sc.Tests, "order2")
	sc.Upd = rapid.IntRange(0, 2).Draw(t, "upd")
	if rapid.IntRange(0, 11).Draw(t, "far?") == 0 {
		sc.Far = rapid.IntRange(1, 2).Draw(t, "far")
	}
	return sc
}

func checkC01(c *h.C, sc c01) error {
	dir := c.Dir()
	calls := 0
	run := func(order []int, upd *bool, what string, expect func(o string) bool) error {
		ts := make([]*h.T, len(sc.Tests))
		cfgs := make([]*snaps.Config, len(sc.Tests))
		next := make([]int, len(sc.Tests))
		for i, tt := range sc.Tests {
			ts[i] = h.NewT(tt.Name)
			k := tt.Cfg
			k.Dir = sdir(dir)
			k.Update = upd
			cfgs[i] = k.Build()
		}
		for _, i := range order {
			call := sc.Tests[i].Calls[next[i]]
			o, ev, err := step(ts[i], cfgs[i], call)
			if err != nil {
				return fmt.Errorf("%s: test %s call %d (%s): %w", what, sc.Tests[i].Name, next[i]+1, call.Kind, err)
			}
			if !expect(o) {
				return fmt.Errorf("%s: test %s call %d (%s): outcome %s %s", what, sc.Tests[i].Name, next[i]+1, call.Kind, o, h.ShowEvents(ev))
			}
			next[i]++
			calls++
		}
		for _, t := range ts {
			t.RunCleanups()
		}
		return nil
	}
	away := func(order []int, upd *bool, what, want string) error {
		return farAll(c, what, farCalls(sc.Tests, order, dir, upd), func(int) string { return want })
	}
	if sc.Far == 2 {
		if err := away(sc.Order1, nil, "record", h.Added); err != nil {
			return err
		}
	} else if err := run(sc.Order1, nil, "record", func(o string) bool { return o == h.Added }); err != nil {
		return err
	}
	upd := []*bool{nil, ptr(true), ptr(false)}[sc.Upd]
	for n, order := range [][]int{sc.Order1, sc.Order2} {
		before := h.Age(dir)
		what := fmt.Sprintf("replay %d", n+1)
		if sc.Far > 0 && n == 0 {
			if err := away(order, upd, what, h.Passed); err != nil {
				return err
			}
		}
		if err := run(order, upd, what, func(o string) bool { return o == h.Passed }); err != nil {
			return err
		}
		if err := h.Untouched(before, h.ReadTree(dir)); err != nil {
			return fmt.Errorf("%s changed the directory: %w", what, err)
		}
	}
	if calls/3 >= 2 {
		c.NonTrivial()
	}
	for _, tt := range sc.Tests {
		for _, call := range tt.Calls {
			c.Label("call %s", call.Kind)
		}
	}
	return nil
}

func init() {
	snap := func(ss ...string) Call {
		c := Call{Kind: "snap"}
		for _, s := range ss {
			c.Vals = append(c.Vals, Val{K: "str", S: h.S(s)})
		}
		return c
	}
	var corpus []c01
	for _, s := range h.NastyLines {
		for _, v := range []string{s, s + "\n", "\n" + s, s + "\n" + s, "x\n" + s + "\ny", s + "\n\n", "---\n" + s + "\n---"} {
			v = h.NoCR(v)
			corpus = append(corpus, c01{
				Tests: []c01Test{
					{Name: "TestA", Calls: []Call{snap(v), snap("second")}},
					{Name: "TestB", Calls: []Call{snap("b"), snap(v)}},
				},
				Order1: []int{0, 1, 0, 1}, Order2: []int{1, 0, 0, 1},
			})
		}
	}
	for _, n := range []int{65535, 65536, 1<<20 + 1, 1<<24 + 1} {
		corpus = append(corpus, c01{
			Tests: []c01Test{
				{Name: "TestA", Calls: []Call{{Kind: "snap", Vals: []Val{{K: "str", S: "x", N: n}}}, snap("second")}},
				{Name: "TestB", Calls: []Call{snap("b"), {Kind: "json", Form: "str", Long: n}, {Kind: "yaml", Form: "str", Long: n}, {Kind: "ssnap", Vals: []Val{{K: "bytes", S: "\xff", N: n >> 4}}}}},
				{Name: "TestC", Calls: []Call{{Kind: "snap", Vals: []Val{{K: "str", S: "a\n", N: n >> 4}}}, snap("c")}},
			},
			Order1: []int{1, 0, 2, 1, 0, 2, 1, 1}, Order2: []int{0, 0, 2, 1, 1, 2, 1, 1},
		})
	}
	// values of very many hostile lines
	for _, n := range []int{300, 3000, 70000} {
		corpus = append(corpus, c01{
			Tests: []c01Test{
				{Name: "TestA", Calls: []Call{{Kind: "snap", Vals: []Val{{K: "str", S: "---\n/-/-/-/\nx\n", N: n}}}, snap("second"), {Kind: "snap", Vals: []Val{{K: "str", S: "[TestA - 2]\n//-/-/-/\n---\n\n", N: n}}}}},
				{Name: "TestB", Calls: []Call{snap("b"), {Kind: "yaml", Form: "str", Doc: h.S(strings.Repeat("a: 1\n---\n", min(n, 3000)))}}},
			},
			Order1: []int{0, 1, 0, 1, 0}, Order2: []int{1, 0, 0, 0, 1},
		})
	}
	// a file of very many entries
	many := c01{Tests: []c01Test{{Name: "TestA", Cfg: Cfg{File: "shared"}, Calls: []Call{snap("first")}}, {Name: "TestB", Cfg: Cfg{File: "shared"}}, {Name: "TestC", Cfg: Cfg{File: "shared"}, Calls: []Call{snap("last")}}}, Order1: []int{0}, Order2: []int{2, 0}}
	for i := 0; i < 1100; i++ {
		many.Tests[1].Calls = append(many.Tests[1].Calls, snap(fmt.Sprintf("line\n[TestB - %d]\n%d", i, i*i)))
		many.Order1, many.Order2 = append(many.Order1, 1), append(many.Order2, 1)
	}
	many.Order1 = append(many.Order1, 2)
	corpus = append(corpus, many)
	h.Register("C01", "replay",
		"1-4 tests with 1-4 calls each (MatchSnapshot, MatchJSON, MatchYAML, standalone) with hostile values over shared files; recorded once, replayed twice in different interleavings of the tests; non-trivial: at least 2 calls",
		3500, 60000, genC01, checkC01, corpus...)
}
