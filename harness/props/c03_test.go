package props

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c03op struct {
	Op string `json:"op"` // call, end, defer (a call made by a t.Cleanup registered here)
	T  int    `json:"t"`
	F  int    `json:"f,omitempty"`
	V  int    `json:"v,omitempty"`
	U  int    `json:"u,omitempty"` // 0 no option, 1 update, 2 no update
}

type c03 struct {
	Names []h.S   `json:"names"`
	Files []h.S   `json:"files"`
	Pre   [][]Pre `json:"pre"`
	Vals  []Call  `json:"vals"`
	Ops   []c03op `json:"ops"`
	Far   bool    `json:"far,omitempty"` // the final replay is made by another process as well
	// known findings are judged as well
	Strict bool `json:"strict,omitempty"`
}

func genC03(t *rapid.T) c03 {
	names := genNames(t, rapid.IntRange(1, 4).Draw(t, "n names"))
	all := append([]string{"TestA - 1", "TestZ"}, names...)
	sc := c03{}
	for _, n := range names {
		sc.Names = append(sc.Names, h.S(n))
	}
	// paths of files are told apart by the directory, the name and the extension
	files := rapid.SampledFrom([][]string{{"one.snap", "one two.snap"}, {"one.snap", "d/one.snap"}, {"one.snap", "one.snap.txt"}, {"d/one.snap", "e/one.snap"}, {"one.snap", "One.snap"}, {"d/e.snap", "d_e.snap"}}).Draw(t, "paths")
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "files"); i < n; i++ {
		sc.Files = append(sc.Files, h.S(files[i]))
		sc.Pre = append(sc.Pre, genPre(t, all, 5, 3))
		if k := len(sc.Pre[i]); k > 0 {
			sc.Pre[i][k-1].Chop = rapid.IntRange(0, 7).Draw(t, "chop") == 0
		}
	}
	sc.Vals = rapid.SliceOfN(genCall(false, names...), 1, 3).Draw(t, "vals")
	for _, p := range sc.Pre {
		if len(p) > 0 && rapid.Bool().Draw(t, "pre value") {
			sc.Vals = append(sc.Vals, Call{Kind: "snap", Vals: []Val{{K: "str", S: p[0].Body}}})
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "bad") == 0 {
		sc.Vals = append(sc.Vals, rapid.SampledFrom(badDocs).Draw(t, "bad doc"))
	}
	sc.Far = rapid.IntRange(0, 11).Draw(t, "far") == 0
	open := map[int]bool{}
	n := rapid.IntRange(1, 24).Draw(t, "n ops")
	many := rapid.IntRange(0, 5).Draw(t, "many") == 0 // more than nine calls of one test
	for i := 0; i < n; i++ {
		op := c03op{Op: "call", T: rapid.IntRange(0, len(names)-1).Draw(t, "t"), F: rapid.IntRange(0, len(sc.Files)-1).Draw(t, "f"), V: rapid.IntRange(0, len(sc.Vals)-1).Draw(t, "v"), U: rapid.IntRange(0, 2).Draw(t, "u")}
		if many && i == 0 {
			for k, n := 0, rapid.SampledFrom([]int{11, 11, 11, 11, 101, 260}).Draw(t, "how many"); k < n; k++ {
				o := op
				o.V = (op.V + k) % len(sc.Vals)
				sc.Ops = append(sc.Ops, o)
			}
		}
		if open[op.T] {
			switch rapid.IntRange(0, 9).Draw(t, "what") {
			case 0, 1:
				op.Op = "end"
			case 2:
				op.Op = "defer"
			}
		}
		open[op.T] = op.Op != "end"
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

type c03slot struct {
	id   string
	text string
}

func checkC03(c *h.C, sc c03) error {
	dir := c.Dir()
	model := make([][]c03slot, len(sc.Files)) // per file, in file order
	for i, f := range sc.Files {
		for _, p := range sc.Pre[i] {
			model[i] = append(model[i], c03slot{string(p.ID), string(p.Body)})
		}
		if len(sc.Pre[i]) > 0 {
			if err := h.WriteFiles(dir, map[string]h.S{string(f): renderPre(sc.Pre[i])}); err != nil {
				panic(h.Infra{Err: err})
			}
		}
	}
	find := func(f int, id string) *c03slot {
		for i := range model[f] {
			if model[f][i].id == id {
				return &model[f][i]
			}
		}
		return nil
	}
	texts := make([]string, len(sc.Vals))
	for i, v := range sc.Vals {
		if !isBad(v) {
			s, err := fmtText(c, Cfg{}, v)
			if err != nil {
				return err
			}
			texts[i] = s
		}
	}
	cfgOf := func(f, u int) Cfg {
		base, ext, _ := strings.Cut(filepath.Base(string(sc.Files[f])), ".snap")
		return Cfg{Dir: sdir(filepath.Dir(join(dir, string(sc.Files[f])))), File: h.S(base), Ext: h.S(ext), Update: []*bool{nil, ptr(true), ptr(false)}[u]}
	}
	cfg := func(f, u int) *snaps.Config { return cfgOf(f, u).Build() }
	parsed := func() ([][]h.Entry, error) {
		out := make([][]h.Entry, len(sc.Files))
		tree := h.ReadTree(dir)
		for i, f := range sc.Files {
			if st, ok := tree[string(f)]; ok {
				es, err := h.ParseLoose(st.Data)
				if err != nil {
					return nil, fmt.Errorf("file %s is not well formed: %w", f, err)
				}
				out[i] = es
				delete(tree, string(f))
			}
		}
		for f, st := range tree {
			if st.Dir && (f == "d" || f == "e") {
				delete(tree, f)
			}
		}
		if len(tree) > 0 {
			return nil, fmt.Errorf("unexpected files %v", tree.Names())
		}
		return out, nil
	}
	before, err := parsed()
	if err != nil {
		panic(h.Infra{Err: err})
	}

	type exec struct {
		t   *h.T
		ord map[int]int
	}
	open := map[int]*exec{}
	nAdded, nUpdated, reps, ended := 0, 0, 0, map[int]bool{}
	call := func(n int, op c03op, e *exec) error {
		e.ord[op.F]++
		id := fmt.Sprintf("%s - %d", sc.Names[op.T], e.ord[op.F])
		what := fmt.Sprintf("op %d (%s %s, value %d, update option %d)", n, op.Op, id, op.V, op.U)
		slot := find(op.F, id)
		want := h.Passed
		switch {
		case isBad(sc.Vals[op.V]):
			want = h.Failed
		case slot == nil && op.U == 2:
			want = h.Failed
		case slot == nil:
			want = h.Added
		case slot.text != texts[op.V] && op.U == 1:
			want = h.Updated
		case slot.text != texts[op.V]:
			want = h.Failed
		}
		o, ev, err := step(e.t, cfg(op.F, op.U), sc.Vals[op.V])
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if o != want {
			return fmt.Errorf("%s: outcome %s, the model says %s %s", what, o, want, h.ShowEvents(ev))
		}
		switch o {
		case h.Added:
			nAdded++
			model[op.F] = append(model[op.F], c03slot{id, texts[op.V]})
		case h.Updated:
			nUpdated++
			slot.text = texts[op.V]
		}
		after, err := parsed()
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		for f := range after {
			old := before[f]
			for i, x := range after[f] {
				switch {
				case i >= len(model[f]) || x.ID != model[f][i].id:
					return fmt.Errorf("%s: entry %d of %s is [%s], the model has %v", what, i, sc.Files[f], x.ID, model[f])
				case i < len(old) && x.Body != old[i].Body && !(f == op.F && x.ID == id && o == h.Updated):
					return fmt.Errorf("%s: the stored value of [%s] changed from %s to %s", what, x.ID, h.Show(old[i].Body), h.Show(x.Body))
				}
			}
			if len(after[f]) != len(model[f]) {
				return fmt.Errorf("%s: %s has %d entries, the model %d", what, sc.Files[f], len(after[f]), len(model[f]))
			}
		}
		before = after
		return nil
	}
	var deferred error
	for n, op := range sc.Ops {
		e := open[op.T]
		if e == nil {
			e = &exec{t: h.NewT(string(sc.Names[op.T])), ord: map[int]int{}}
			open[op.T] = e
			if ended[op.T] {
				reps++
			}
		}
		switch op.Op {
		case "call":
			if err := call(n, op, e); err != nil {
				return err
			}
		case "defer":
			if e.ord[op.F] == 0 && !sc.Strict {
				// known finding: a cleanup registered before the first call on the file
				continue
			}
			e.t.Cleanup(func() {
				if deferred == nil {
					deferred = call(n, op, e)
				}
			})
			c.Label("calls in a t.Cleanup")
		case "end":
			e.t.RunCleanups()
			delete(open, op.T)
			ended[op.T] = true
		}
		if deferred != nil {
			return deferred
		}
	}
	for _, e := range open {
		e.t.RunCleanups()
	}
	if deferred != nil {
		return deferred
	}
	// every slot replays as what was put there, addressed again from 1
	tree := h.Age(dir)
	var away []farCall
	var wants []string
	for f := range sc.Files {
		for i, name := range sc.Names {
			last := 0
			for _, s := range model[f] {
				var k int
				if rest, ok := strings.CutPrefix(s.id, string(name)+" - "); ok {
					if _, err := fmt.Sscanf(rest, "%d", &k); err == nil && fmt.Sprint(k) == rest && k > last {
						last = k
					}
				}
			}
			t := h.NewT(string(name))
			for k := 1; k <= last; k++ {
				slot := find(f, fmt.Sprintf("%s - %d", name, k))
				text, want := "?", h.Failed
				if slot != nil {
					text, want = slot.text, h.Passed
				}
				call := callText(text, sc.Vals, texts)
				away = append(away, farCall{sc.Names[i], cfgOf(f, 2), call})
				wants = append(wants, want)
				o, ev, err := step(t, cfg(f, 2), call)
				if err != nil || o != want {
					return fmt.Errorf("replay of slot (%s, %d) in %s (test %d): %s, want %s %s %v", name, k, sc.Files[f], i, o, want, h.ShowEvents(ev), err)
				}
			}
			t.RunCleanups()
		}
	}
	if sc.Far {
		if err := farAll(c, "the final replay", away, func(i int) string { return wants[i] }); err != nil {
			return err
		}
	}
	if err := h.Untouched(tree, h.ReadTree(dir)); err != nil {
		return fmt.Errorf("the final replay: %w", err)
	}
	if nAdded+nUpdated > 0 && len(sc.Ops) > 2 {
		c.NonTrivial()
	}
	c.Label("repeated executions: %v", reps > 0)
	c.Label("updates: %v", nUpdated > 0)
	return nil
}

// callText is a call with a value of the given formatted text: one of vals, or the text itself.
func callText(text string, vals []Call, texts []string) Call {
	for i, v := range vals {
		if !isBad(v) && texts[i] == text {
			return v
		}
	}
	return Call{Kind: "snap", Vals: []Val{{K: "str", S: h.S(text)}}}
}

func init() {
	// one test with more calls than fit in a byte, executed twice; the next one updates a slot in the middle
	long := c03{Names: []h.S{"TestA", "TestA/x"}, Files: []h.S{"one.snap"}, Pre: [][]Pre{nil}}
	for i := 0; i < 270; i++ {
		long.Vals = append(long.Vals, Call{Kind: "snap", Vals: []Val{{K: "str", S: h.S(fmt.Sprintf("value %d", i))}}})
	}
	for i := 0; i < 270; i++ {
		long.Ops = append(long.Ops, c03op{Op: "call", V: i})
	}
	long.Ops = append(long.Ops, c03op{Op: "end"}, c03op{Op: "call", T: 1, V: 3})
	for i := 0; i < 270; i++ {
		o := c03op{Op: "call", V: i}
		if i%100 == 59 {
			o.V, o.U = i-1, 1
		}
		long.Ops = append(long.Ops, o)
	}
	h.Register("C03", "history",
		"1-4 test names (prefixes of each other, nested, one reaching 11+ ordinals) over 1-2 shared files with pre-existing entries; 1-35 interleaved operations {call (any value, update option unset/true/false, some failing), call in a t.Cleanup, end of the execution}; after every operation the parsed files are compared with a slot model, at the end every slot is replayed; non-trivial: something was added or rewritten in a history of at least 3 operations",
		1800, 50000, genC03, checkC03, long)
}
