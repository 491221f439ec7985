package props

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

func checkC20(c *h.C, sc stale) error {
	m := envMode(sc.Suite.Env)
	r, work, err := sc.runIn(c, sc.Suite)
	if err != nil {
		return err
	}
	j := sc.judge(r)
	j.ci = m.CI
	j.removes = m.removes()
	fail := func(f string, a ...any) error { return fmt.Errorf("%s: %s", sc.describe(), fmt.Sprintf(f, a...)) }
	tally := map[string]int{}
	for _, d := range r.Did {
		if d.Err != "" {
			return fail("call %d (%s) of %s: %s", d.Ord, d.Kind, d.Test, d.Err)
		}
		if sc.Suite.Watch {
			if err := effects(d); err != nil {
				return fail("%v", err)
			}
		}
		if d.Outcome != "" {
			tally[d.Outcome]++
		}
	}
	for o, n := range r.Tally {
		tally[o] += n
	}
	if sc.Suite.Watch {
		if err := sc.outcomes(c, r, m); err != nil {
			return fail("%v", err)
		}
	}
	kinds := 0
	for _, o := range []string{h.Passed, h.Failed, h.Added, h.Updated} {
		if tally[o] > 0 {
			kinds++
		}
	}
	if len(r.Skips) > 0 {
		tally["skipped"] = len(r.Skips)
		kinds++
	}
	if kinds > 1 {
		c.NonTrivial()
	}
	c.Label("%d kinds of outcomes", kinds)
	for i := range r.After {
		l, err := listedOf(r.Out[i], work)
		if err != nil {
			return fail("Clean call %d: %v: %s", i+1, err, h.Show(r.Out[i]))
		}
		for _, k := range []string{h.Passed, h.Failed, h.Added, h.Updated, "skipped"} {
			if l.sum.Counts[k] != tally[k] {
				return fail("Clean call %d: the summary says %d %s, it were %d: %s", i+1, l.sum.Counts[k], k, tally[k], h.Show(r.Out[i]))
			}
		}
		if len(tally) > 0 && !l.sum.Printed {
			return fail("Clean call %d printed no summary: %s", i+1, h.Show(r.Out[i]))
		}
		for k, v := range l.sum.Verb {
			if (v == "removed") != j.removes {
				return fail("Clean call %d: %ss are said to be %s", i+1, k, v)
			}
		}
		if j.removes {
			// listed as removed is what is gone
			gone := map[string]int{}
			goneFiles := map[string]int{}
			for f, st := range r.Aged[i] {
				if st.Dir {
					continue
				}
				a, there := r.After[i][f]
				if !there {
					goneFiles[f]++
					continue
				}
				if _, addressed := j.files[f]; !addressed {
					continue
				}
				b, err1 := h.ParseLoose(st.Data)
				x, err2 := h.ParseLoose(a.Data)
				if err1 != nil || err2 != nil {
					return fail("Clean call %d: %s: %v, %v", i+1, f, err1, err2)
				}
				n := map[string]int{}
				for _, e := range b {
					n[e.ID]++
				}
				for _, e := range x {
					n[e.ID]--
				}
				for id, k := range n {
					if k != 0 {
						gone[id] += k
					}
				}
			}
			if a, b := sortedCounts(gone), sortedCounts(l.ids); a != b {
				return fail("Clean call %d removed the entries %s but lists %s", i+1, a, b)
			}
			if a, b := sortedCounts(goneFiles), sortedCounts(l.files); a != b {
				return fail("Clean call %d removed the files %s but lists %s", i+1, a, b)
			}
			if len(gone)+len(goneFiles) > 0 {
				c.Label("removed something")
			}
			continue
		}
		// listed as obsolete is what a Clean in clean mode would remove
		if j.filter {
			continue
		}
		must, may := map[string]int{}, map[string]int{}
		for _, it := range j.items {
			key := it.id
			if it.entry < 0 {
				key = "file " + it.file
			}
			switch it.verdict {
			case vStale:
				must[key]++
				may[key]++
			case vFree:
				may[key]++
			}
		}
		got := map[string]int{}
		for id, n := range l.ids {
			got[id] += n
		}
		for f, n := range l.files {
			got["file "+f] += n
		}
		for k, n := range must {
			if got[k] < n {
				return fail("Clean call %d: %s is obsolete but listed %d times: %s", i+1, k, got[k], h.Show(r.Out[i]))
			}
		}
		for k, n := range got {
			if n > may[k] {
				return fail("Clean call %d: %s is listed %d times but obsolete %d times", i+1, k, n, may[k])
			}
		}
		if len(must) > 0 {
			c.Label("something obsolete")
		}
	}
	for _, rest := range sumRest(r) {
		return fail("Clean printed an unexpected line %q", rest)
	}
	return nil
}

func sumRest(r *Report) (out []string) {
	for _, o := range r.Out {
		s, err := parseSummary(o)
		if err == nil {
			out = append(out, s.Rest...)
		}
	}
	return out
}

func sortedCounts(m map[string]int) string {
	var l []string
	for k, n := range m {
		if n != 0 {
			l = append(l, fmt.Sprintf("%q x%d", k, n))
		}
	}
	sort.Strings(l)
	return "[" + strings.Join(l, " ") + "]"
}

// genHammer is a suite whose goroutines make many calls at the same time.
func genHammer(t *rapid.T) stale {
	s := Suite{Env: map[string]string{}, Files: map[string]h.S{}, Clean: 1}
	if e := rapid.SampledFrom([]string{"-", "-", "true", "clean"}).Draw(t, "UPDATE_SNAPS"); e != "-" {
		s.Env["UPDATE_SNAPS"] = e
	}
	if rapid.IntRange(0, 5).Draw(t, "ci") == 0 {
		s.Env["CI"] = "true"
	}
	// skips protect what is named after the goroutines, the other calls are made by another test
	kinds := [][]Call{
		{{Kind: "json", Form: "str", Doc: "{bad"}},
		{{Kind: "snap", Vals: []Val{{K: "str", S: "a"}}}},
		{{Kind: "snap", Vals: []Val{{K: "str", S: "a"}}}, {Kind: "snap", Vals: []Val{{K: "str", S: "b"}}}},
		{{Kind: "ssnap", Vals: []Val{{K: "str", S: "a"}}}},
		{{Kind: "sjson", Form: "str", Doc: "[1]"}, {Kind: "sjson", Form: "str", Doc: "[2]"}},
		{{Kind: "yaml", Form: "str", Doc: "a: 1\n"}, {Kind: "yaml", Form: "str", Doc: "a: [1"}},
		{{Kind: "skip"}},
	}
	for i, m := 0, rapid.IntRange(1, 2).Draw(t, "tests"); i < m; i++ {
		op := Op{K: "hammer", N: rapid.SampledFrom([]int{2, 4, 8, 16}).Draw(t, "goroutines"), Times: rapid.SampledFrom([]int{20, 100, 300}).Draw(t, "times")}
		op.Calls = rapid.SampledFrom(kinds).Draw(t, "calls")
		if rapid.Bool().Draw(t, "more") {
			op.Calls = append(append([]Call(nil), op.Calls...), rapid.SampledFrom(kinds).Draw(t, "more calls")...)
		}
		op.Cfg.Dir = sdir([]string{"s", "t"}[i])
		op.Cfg.Update = rapid.SampledFrom([]*bool{nil, ptr(true), ptr(false)}).Draw(t, "update")
		s.Tests = append(s.Tests, Node{Name: h.S([]string{"TestA", "TestB"}[i]), Par: rapid.Bool().Draw(t, "par"), Ops: []Op{op}})
	}
	return stale{Suite: s}
}

// genLoad is a suite with many parallel tests, goroutines, skips and all outcomes.
func genLoad(t *rapid.T) stale {
	s := Suite{Env: map[string]string{}, Files: map[string]h.S{}, Clean: 1, Procs: 8}
	if e := rapid.SampledFrom([]string{"-", "-", "true", "clean"}).Draw(t, "UPDATE_SNAPS"); e != "-" {
		s.Env["UPDATE_SNAPS"] = e
	}
	if rapid.IntRange(0, 7).Draw(t, "ci") == 0 {
		s.Env["CI"] = "true"
	}
	s.Count = rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "count")
	var es []h.Entry
	call := func(id string) (Cfg, Call) {
		k := Cfg{File: "f"}
		switch rapid.IntRange(0, 5).Draw(t, "update") {
		case 0:
			k.Update = ptr(true)
		case 1:
			k.Update = ptr(false)
		}
		v := rapid.SampledFrom([]string{"one", "two", "a\nb\nc"}).Draw(t, "value")
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0:
			return k, Call{Kind: "json", Form: "str", Doc: "{bad"}
		case 1:
			k.File = ""
			return k, Call{Kind: "ssnap", Vals: []Val{{K: "str", S: h.S(v)}}}
		}
		if rapid.IntRange(0, 2).Draw(t, "before") > 0 {
			es = append(es, h.Entry{ID: id, Body: rapid.SampledFrom([]string{"one", "two", "a\nb\nc"}).Draw(t, "old")})
		}
		return k, Call{Kind: "snap", Vals: []Val{{K: "str", S: h.S(v)}}}
	}
	top := Node{Name: "TestLoad"}
	for i, m := 0, rapid.IntRange(2, 12).Draw(t, "tests"); i < m; i++ {
		n := &Node{Name: h.S(fmt.Sprintf("t%d", i)), Par: true, Src: i % 2}
		full := "TestLoad/" + string(n.Name)
		for k, calls := 1, rapid.IntRange(0, 5).Draw(t, "calls"); k <= calls; k++ {
			op := Op{K: "call"}
			op.Cfg, op.Call = call(fmt.Sprintf("%s - %d", full, k))
			n.Ops = append(n.Ops, op)
		}
		if rapid.IntRange(0, 3).Draw(t, "go") == 0 {
			op := Op{K: "go", Cfg: Cfg{File: "g"}}
			for k, m := 0, rapid.IntRange(2, 6).Draw(t, "goroutines"); k < m; k++ {
				op.Calls = append(op.Calls, Call{Kind: "snap", Vals: []Val{{K: "str", S: "same"}}})
			}
			n.Ops = append(n.Ops, op)
		}
		if rapid.IntRange(0, 2).Draw(t, "skip") == 0 {
			n.Ops = append(n.Ops, Op{K: "skip", How: rapid.SampledFrom([]string{"Skip", "Skipf", "SkipNow"}).Draw(t, "how")})
		}
		top.Ops = append(top.Ops, Op{K: "sub", Sub: n})
	}
	s.Tests = []Node{top}
	if len(es) > 0 {
		s.Files["s/f.snap"] = h.S(h.Render(es))
	}
	return stale{Suite: s}
}

func init() {
	k := sknobs{run: 8, skips: 5, ci: 8, par: 4, alone: 1, clean: []string{"-", "true", "clean", "false"}, fail: true, gos: 8}
	seq := sknobs{run: 8, skips: 5, ci: 8, par: 0, alone: 1, clean: []string{"-", "true", "clean", "false"}, fail: true, seq: true}
	rule := "non-trivial: at least two kinds of outcomes (skips included)"
	quick, thorough, load := 900, 30000, 250
	if os.Getenv("VERIF_VARIANT") == "race" {
		quick, thorough, load = 120, 4000, 120
	}
	h.Register("C20", "summary", "suites with all outcomes (bad documents, failing matchers, directories in the place of files, CI, Update options, skips), sequential with the tree watched around every call, or with parallel tests and concurrent calls; every call must signal exactly one outcome (and, when watched, have written what the outcome says), and the totals and lists of the printed summary must be the tallies of the calls and the items that are obsolete or gone; "+rule,
		quick, thorough, func(t *rapid.T) stale {
			if rapid.IntRange(0, 2).Draw(t, "sequential") == 0 {
				sc := genStale(t, seq)
				sc.Suite.Watch = true
				return sc
			}
			return genStale(t, k)
		}, checkC20)
	h.Register("C20", "faults", "sequential suites in which some calls are made while no file can grow (RLIMIT_FSIZE) or none can be opened (RLIMIT_NOFILE); such a call must signal exactly one outcome too, added or updated only if the value is there, and count as what it signalled; "+rule,
		quick/3, thorough/3, func(t *rapid.T) stale {
			sc := genStale(t, seq)
			sc.Suite.Watch = true
			walk(sc.Suite.Tests, func(full string, n *Node) {
				for i := range n.Ops {
					if n.Ops[i].K == "call" || n.Ops[i].K == "cleanup" {
						n.Ops[i].Fault = rapid.SampledFrom([]string{"", "fsize", "fsize", "nofile"}).Draw(t, "fault")
					}
				}
			})
			return sc
		}, checkC20)
	h.Register("C20", "load", "2-12 parallel tests with up to 5 calls each, goroutines and skips, on one shared file; the totals of the summary must be the tallies of the outcomes signalled; "+rule,
		load, thorough/3, genLoad, checkC20)
	// more outcomes of a kind than fit in 16 bits
	var corpus []stale
	if os.Getenv("VERIF_VARIANT") != "race" {
		for _, c := range []Call{{Kind: "json", Form: "str", Doc: "{bad"}, {Kind: "snap", Vals: []Val{{K: "str", S: "a"}}}, {Kind: "skip"}} {
			corpus = append(corpus, stale{Suite: Suite{Env: map[string]string{}, Files: map[string]h.S{}, Clean: 1, Tests: []Node{{Name: "TestA", Ops: []Op{{K: "hammer", N: 8, Times: 8300, Cfg: Cfg{Dir: sdir("s")}, Calls: []Call{c}}}}}}})
		}
	}
	h.Register("C20", "hammer", "1-2 tests in which 2-16 goroutines make 20-300 calls each at the same time, with names and files of their own, of which nothing but the counters is shared; the totals of the summary must be the tallies of the outcomes signalled; "+rule,
		load/2, thorough/10, genHammer, checkC20, corpus...)
}
