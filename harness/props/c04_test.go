package props

import (
	"fmt"
	"os"
	"slices"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c04 struct {
	Tests  []c01Test        `json:"tests"`
	New    map[string]Call  `json:"new"` // "test/call" -> new value
	Pre    map[string][]Pre `json:"pre,omitempty"`
	Order1 []int            `json:"order1"`
	Order2 []int            `json:"order2"`
	Far    bool             `json:"far,omitempty"` // the read-only run is made by another process as well
}

func genC04(t *rapid.T) c04 {
	sc := c04{Tests: genTests(t, true, 3, 4), New: map[string]Call{}}
	var names []string
	for _, tt := range sc.Tests {
		names = append(names, tt.Name)
	}
	for i := range sc.Tests {
		tt := &sc.Tests[i]
		for j, call := range tt.Calls {
			if rapid.IntRange(0, 1).Draw(t, "changed") == 0 {
				continue
			}
			var n Call
			switch {
			case call.Kind == "snap" || call.Kind == "ssnap":
				n = call
				if rapid.Bool().Draw(t, "near") {
					s := editText(t, formatValues(call.Vals))
					n.Vals = []Val{{K: "str", S: h.S(s)}}
				} else {
					n = genCallOf(t, call.Kind, names...)
				}
				if call.Kind == "snap" {
					fixCR(n.Vals)
				}
			default:
				n = genCallOf(t, call.Kind, names...)
				if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
					n = rapid.SampledFrom(badDocs).Draw(t, "bad doc")
					if call.Kind == "sjson" {
						n = badDocs[0]
						n.Kind = "sjson"
					}
				}
			}
			sc.New[fmt.Sprintf("%d/%d", i, j)] = n
		}
	}
	sc.Pre = map[string][]Pre{}
	preNames := []string{"TestZ", "TestZ/a", "Test - x"}
	if !slices.Contains(names, "TestA - 1") {
		preNames = append(preNames, "TestA - 1")
	}
	for _, tt := range sc.Tests {
		f := multiFile(tt.Cfg)
		if sc.Pre[f] == nil && rapid.IntRange(0, 2).Draw(t, "pre?") == 0 {
			sc.Pre[f] = genPre(t, preNames, 3, 12)
		}
	}
	sc.Order1 = genOrder(t, sc.Tests, "order1")
	sc.Order2 = genOrder(t, sc.Tests, "order2")
	sc.Far = rapid.IntRange(0, 11).Draw(t, "far") == 0
	return sc
}

// multiFile is the name of the multi-entry file of a config; calls are made in exec_test.go.
func multiFile(k Cfg) string {
	f := string(k.File)
	if f == "" {
		f = "exec_test"
	}
	return f + ".snap" + string(k.Ext)
}

func checkC04(c *h.C, sc c04) error {
	envUpdate := os.Getenv("UPDATE_SNAPS") == "true"
	textOf := func(call Call, k Cfg) (string, error) {
		if call.Kind == "sjson" {
			return jsonText(c, k, call)
		}
		return fmtText(c, k, call)
	}
	newOf := func(i, j int) (Call, bool) {
		n, ok := sc.New[fmt.Sprintf("%d/%d", i, j)]
		if !ok {
			return sc.Tests[i].Calls[j], false
		}
		return n, true
	}
	pre := map[string]h.S{}
	for f, ps := range sc.Pre {
		pre[f] = renderPre(ps)
	}
	// run makes the calls in order; value chooses the call, want the outcomes allowed
	run := func(dir string, order []int, upd *bool, what string, value func(i, j int) Call, want func(i, j int, o string) error) error {
		ts := make([]*h.T, len(sc.Tests))
		cfgs := make([]*snaps.Config, len(sc.Tests))
		next := make([]int, len(sc.Tests))
		for i, tt := range sc.Tests {
			ts[i] = h.NewT(tt.Name)
			k := tt.Cfg
			k.Dir = sdir(dir)
			k.Update = upd
			cfgs[i] = k.Build()
		}
		for _, i := range order {
			j := next[i]
			next[i]++
			o, ev, err := step(ts[i], cfgs[i], value(i, j))
			if err == nil {
				err = want(i, j, o)
			}
			if err != nil {
				return fmt.Errorf("%s: %s call %d (%s): %w %s", what, sc.Tests[i].Name, j+1, value(i, j).Kind, err, h.ShowEvents(ev))
			}
		}
		for _, t := range ts {
			t.RunCleanups()
		}
		return nil
	}
	exactly := func(w string) func(i, j int, o string) error {
		return func(i, j int, o string) error {
			if o != w {
				return fmt.Errorf("outcome %s instead of %s", o, w)
			}
			return nil
		}
	}
	// what should be in the store after the update: the old value where the new call is bad
	final := func(i, j int) Call {
		n, _ := newOf(i, j)
		if isBad(n) || n.Doc == "{bad" {
			return sc.Tests[i].Calls[j]
		}
		return n
	}
	dir, ref := c.Dir(), c.Dir()
	for _, d := range []string{dir, ref} {
		if err := h.WriteFiles(d, pre); err != nil {
			panic(h.Infra{Err: err})
		}
	}
	if err := run(dir, sc.Order1, nil, "record", func(i, j int) Call { return sc.Tests[i].Calls[j] }, exactly(h.Added)); err != nil {
		return err
	}
	if err := run(ref, sc.Order1, nil, "record new values", final, exactly(h.Added)); err != nil {
		return err
	}
	upd := ptr(true)
	if envUpdate {
		upd = nil
	}
	changed, kept := 0, 0
	tree := h.Age(dir)
	err := run(dir, sc.Order2, upd, "update", func(i, j int) Call { n, _ := newOf(i, j); return n }, func(i, j int, o string) error {
		n, _ := newOf(i, j)
		want := h.Passed
		if isBad(n) || n.Doc == "{bad" {
			want = h.Failed
		} else {
			x, err := textOf(sc.Tests[i].Calls[j], sc.Tests[i].Cfg)
			if err != nil {
				return err
			}
			y, err := textOf(n, sc.Tests[i].Cfg)
			if err != nil {
				return err
			}
			if x != y {
				want = h.Updated
			}
		}
		if o != want {
			return fmt.Errorf("outcome %s, want %s", o, want)
		}
		now := h.ReadTree(dir)
		if o != h.Updated {
			kept++
			if err := h.Untouched(tree, now); err != nil {
				return fmt.Errorf("a call that %s wrote: %w", o, err)
			}
			return nil
		}
		changed++
		// only the file of this call may change
		written := 0
		for p, s := range now {
			if old, ok := tree[p]; !ok || old.MTime != s.MTime {
				written++
			}
		}
		if written > 1 {
			return fmt.Errorf("updating one entry wrote %d files", written)
		}
		tree = h.Age(dir)
		return nil
	})
	if err != nil {
		return err
	}
	if err := h.SameBytes(h.ReadTree(ref), h.ReadTree(dir)); err != nil {
		return fmt.Errorf("the updated store is not what recording the new values gives: %w", err)
	}
	before := h.Age(dir)
	// as the mode allows writing the first time round, nothing may be left to write
	for _, u := range []*bool{ptr(false), upd} {
		if sc.Far {
			next := make([]int, len(sc.Tests))
			calls := farCalls(sc.Tests, sc.Order2, dir, u)
			for n, i := range sc.Order2 {
				calls[n].Call = final(i, next[i])
				next[i]++
			}
			if err := farAll(c, "after the update", calls, func(int) string { return h.Passed }); err != nil {
				return err
			}
		}
		err = run(dir, sc.Order2, u, "after the update", final, exactly(h.Passed))
		if err != nil {
			return err
		}
		if err := h.Untouched(before, h.ReadTree(dir)); err != nil {
			return fmt.Errorf("a run after the update wrote: %w", err)
		}
	}
	if changed > 0 {
		c.NonTrivial()
	}
	c.Label("changed and kept entries: %v", changed > 0 && kept > 0)
	c.Label("several changed: %v", changed > 1)
	return nil
}

func init() {
	one := func(old, new string, kind string) c04 {
		mk := func(s string) Call { return Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(s)}}} }
		return c04{
			Tests:  []c01Test{{Name: "TestA", Calls: []Call{mk("first"), mk(old), mk("last")}}, {Name: "TestB", Calls: []Call{mk(old)}}},
			New:    map[string]Call{"0/1": mk(new), "1/0": mk(new)},
			Order1: []int{0, 0, 1, 0}, Order2: []int{1, 0, 0, 0},
		}
	}
	var corpus []c04
	for _, kind := range []string{"snap", "ssnap"} {
		for _, p := range [][2]string{
			{"", "x"}, {"x", ""}, {strings.Repeat("long line\n", 50), "s"}, {"s", strings.Repeat("long line\n", 50)}, {"a\n---\nb", "a"}, {"a", "a\n---\nb\n"},
			{"[TestA - 1]", "[TestA - 3]\nfirst\n---"}, {"\n\n", "\n"}, {"x\n", "x"}, {strings.Repeat("x", 70000), "x"}, {"x", strings.Repeat("x", 70000)},
		} {
			corpus = append(corpus, one(p[0], p[1], kind))
		}
	}
	h.Register("C04", "update",
		"1-3 tests with 1-4 calls of all five kinds over shared files with pre-existing entries; recorded, then run again with updating enabled (option, or UPDATE_SNAPS=true) and a random subset of the values changed (near edits, independent values, invalid documents), then read-only; the store must equal a fresh recording of the new values; non-trivial: at least one entry was rewritten",
		1300, 30000, genC04, checkC04, corpus...).In("plain", "updenv")
}
