package props

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// runs splits an id in runs of digits and other bytes.
func runs(s string) (out []string, zeros bool) {
	for len(s) > 0 {
		digit := s[0] >= '0' && s[0] <= '9'
		i := 0
		for i < len(s) && (s[i] >= '0' && s[i] <= '9') == digit {
			i++
		}
		if digit && (i > 1 && s[0] == '0' || i > 18) {
			zeros = true
		}
		out = append(out, s[:i])
		s = s[i:]
	}
	return out, zeros
}

// natural compares two ids; sure is false if the natural order of the two is a matter of taste
// (leading zeros, numbers that don't fit in 64 bits).
func natural(a, b string) (cmp int, sure bool) {
	if a == b {
		return 0, true
	}
	ra, za := runs(a)
	rb, zb := runs(b)
	if za || zb {
		return 0, false
	}
	for i := 0; i < len(ra) && i < len(rb); i++ {
		x, y := ra[i], rb[i]
		if x == y {
			continue
		}
		dx, dy := x[0] >= '0' && x[0] <= '9', y[0] >= '0' && y[0] <= '9'
		if dx && dy {
			if len(x) != len(y) {
				if len(x) < len(y) {
					return -1, true
				}
				return 1, true
			}
			return strings.Compare(x, y), true
		}
		// the rest of the ids decides byte by byte
		return strings.Compare(strings.Join(ra[i:], ""), strings.Join(rb[i:], "")), true
	}
	return len(ra) - len(rb), true
}

// permuted is the suite with the entries of its files in another order.
func (sc stale) permuted() (Suite, map[string]bool, bool) {
	s := sc.Suite
	s.Files = map[string]h.S{}
	changed := map[string]bool{}
	any := false
	for f, d := range sc.Suite.Files {
		s.Files[f] = d
		es, err := h.ParseStore(string(d))
		if err != nil || len(es) < 2 {
			continue
		}
		p := append([]h.Entry{}, es...)
		for i := range p {
			k := i + sc.Perm[i%len(sc.Perm)]%(len(p)-i)
			p[i], p[k] = p[k], p[i]
		}
		s.Files[f] = h.S(h.Render(p))
		if s.Files[f] != d {
			changed[f] = true
			any = true
		}
	}
	return s, changed, any
}

func checkC10(c *h.C, sc stale) error {
	r, work, err := sc.runIn(c, sc.Suite)
	if err != nil {
		return err
	}
	j := sc.judge(r)
	fail := func(f string, a ...any) error { return fmt.Errorf("%s: %s", sc.describe(), fmt.Sprintf(f, a...)) }
	after := r.After[0]
	l, err := listedOf(r.Out[0], work)
	if err != nil {
		return fail("%v", err)
	}
	gone := map[string]int{}
	for _, f := range j.order {
		before := j.files[f]
		st, ok := after[f]
		if !ok {
			return fail("the addressed file %s was deleted", f)
		}
		es, err := h.ParseLoose(st.Data)
		if err != nil {
			return fail("%s after Clean: %v: %s", f, err, h.Show(st.Data))
		}
		// survivors: the same entries, fewer only by what is reported as removed
		have := map[h.Entry]int{}
		for _, e := range es {
			have[e]++
		}
		for _, e := range before {
			if have[e] > 0 {
				have[e]--
				continue
			}
			gone[e.ID]++
			if !j.removes {
				return fail("the entry [%s] with %s of %s is gone or has another value after a Clean that removes nothing: %s", e.ID, h.Show(e.Body), f, h.Show(st.Data))
			}
		}
		for e, n := range have {
			if n > 0 {
				return fail("after Clean %s holds [%s] with %s, which was not there (so often) before: %s", f, e.ID, h.Show(e.Body), h.Show(st.Data))
			}
		}
		// order
		sorted, unsorted := true, false
		for i := 1; i < len(before); i++ {
			x, sure := natural(before[i-1].ID, before[i].ID)
			if x > 0 || !sure {
				sorted = false
			}
			unsorted = unsorted || x > 0
		}
		if j.sorts {
			for i := range es {
				for k := i + 1; k < len(es); k++ {
					if x, _ := natural(es[i].ID, es[k].ID); x > 0 {
						return fail("after a sorting Clean [%s] is before [%s] in %s", es[i].ID, es[k].ID, f)
					}
				}
			}
		} else {
			i := 0
			for _, e := range es {
				for i < len(before) && before[i] != e {
					i++
				}
				if i == len(before) {
					return fail("a Clean that does not sort changed the order of the entries of %s: %s", f, h.Show(st.Data))
				}
				i++
			}
		}
		// entries with the same id keep their order: the first one is the one that is replayed
		firstB := map[string]string{}
		for _, e := range before {
			if _, ok := firstB[e.ID]; !ok {
				firstB[e.ID] = e.Body
			}
		}
		firstA := map[string]bool{}
		for _, e := range es {
			if firstA[e.ID] {
				continue
			}
			firstA[e.ID] = true
			if firstB[e.ID] != e.Body {
				return fail("[%s] of %s replayed %s before and %s after Clean", e.ID, f, h.Show(firstB[e.ID]), h.Show(e.Body))
			}
		}
		pruned := len(es) != len(before)
		if !pruned && (!j.sorts || sorted) {
			c.Label("file in need of nothing")
			if err := h.Untouched(h.Tree{f: r.Before[f]}, h.Tree{f: st}); err != nil {
				return fail("a file that needs neither pruning nor sorting was written: %v", err)
			}
		}
		if pruned && j.sorts && unsorted {
			c.Label("pruned and sorted")
		} else if pruned {
			c.Label("pruned")
		} else if j.sorts && unsorted {
			c.Label("sorted")
		}
		if pruned || j.sorts && unsorted {
			c.NonTrivial()
			if _, err := h.ParseStore(st.Data); err != nil {
				return fail("the rewritten file %s is malformed: %v", f, err)
			}
			if len(before) > 12 {
				c.Label("more than 12 entries")
			}
		}
	}
	for id, n := range gone {
		if l.ids[id] != n {
			return fail("%d entries [%s] are gone but %d are reported as removed", n, id, l.ids[id])
		}
	}
	// once more
	for i := 1; i < len(r.After); i++ {
		if err := h.Untouched(r.Aged[i], r.After[i]); err != nil {
			return fail("Clean call %d changed the files again: %v", i+1, err)
		}
	}
	if len(sc.Perm) == 0 {
		return nil
	}
	switch sc.Perm[0] % 3 {
	case 1:
		// once more, in another process
		s := sc.Suite
		s.Files = map[string]h.S{}
		for f, st := range after {
			if st.Dir {
				s.Files[f+"/"] = ""
				continue
			}
			s.Files[f] = h.S(st.Data)
		}
		r2, _, err := sc.runIn(c, s)
		if err != nil {
			return fmt.Errorf("second process: %w", err)
		}
		c.Label("second process")
		for i := range r2.After {
			if err := h.Untouched(r2.Aged[i], r2.After[i]); err != nil {
				return fail("the same tests again: Clean changed the files that an earlier Clean had finished: %v", err)
			}
		}
	case 2:
		// the initial order does not matter
		if !j.sorts {
			return nil
		}
		s, changed, any := sc.permuted()
		if !any {
			return nil
		}
		r2, _, err := sc.runIn(c, s)
		if err != nil {
			return fmt.Errorf("permuted files: %w", err)
		}
		for _, f := range j.order {
			if !changed[f] {
				continue
			}
			es := j.files[f]
			total := true
			for i := range es {
				for k := i + 1; k < len(es); k++ {
					if x, sure := natural(es[i].ID, es[k].ID); x == 0 || !sure {
						total = false
					}
				}
			}
			if !total {
				c.Label("order not total")
				continue
			}
			// with the same id once, what the calls see does not depend on the order
			a, b := after[f], r2.After[0][f]
			ea, err1 := h.ParseLoose(a.Data)
			eb, err2 := h.ParseLoose(b.Data)
			if err1 != nil || err2 != nil {
				return fail("%s: %v, %v", f, err1, err2)
			}
			if h.Render(ea) != h.Render(eb) {
				return fail("%s after a sorting Clean depends on the order the entries had before: %s against %s", f, h.Show(a.Data), h.Show(b.Data))
			}
			c.Label("permuted")
			if _, err := h.ParseStore(a.Data); err == nil && a.Data != b.Data {
				return fail("%s after a sorting Clean depends on the order the entries had before: %s against %s", f, h.Show(a.Data), h.Show(b.Data))
			}
		}
	}
	return nil
}

// genC10 generates suites around one big file.
func genC10(t *rapid.T) stale {
	names := []string{"TestA", "TestB"}
	s := Suite{Env: map[string]string{}, Files: map[string]h.S{}, Clean: 2, Count: rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "count")}
	if e := rapid.SampledFrom([]string{"-", "-", "true", "clean", "clean"}).Draw(t, "UPDATE_SNAPS"); e != "-" {
		s.Env["UPDATE_SNAPS"] = e
	}
	if rapid.IntRange(0, 14).Draw(t, "ci") == 0 {
		s.Env["CI"] = "true"
	}
	s.Env["NO_COLOR"] = "1"
	s.Sort = ptr(rapid.IntRange(0, 4).Draw(t, "sort") > 0)
	body := func() string {
		switch rapid.IntRange(0, 19).Draw(t, "body kind") {
		case 0, 1, 2, 3, 4:
			return rapid.SampledFrom([]string{"value", "", "a\nb", "x\n\ny", "\n", "[TestA - 1]", "/-/-/-/", "----", " ---", "--- ", "a\n[TestB - 2]\nb", "[X - 1]\n\n[Y - 2]", "\n[TestA - 1]\nv\n/-/-/-/", "%d %s %%"}).Draw(t, "fixed")
		case 5:
			return strings.Repeat(rapid.SampledFrom([]string{"x", "[", "-", "é"}).Draw(t, "ch"), rapid.SampledFrom([]int{100, 4095, 4096, 65535, 65536, 70000, 200000}).Draw(t, "long"))
		default:
			return genBody("TestA", "TestB", "TestA/a", "ExampleX").Draw(t, "body")
		}
	}
	// the tests
	own := map[string]bool{}
	var es []h.Entry
	seen := map[string]bool{}
	add := func(id, b string) {
		if !seen[id] {
			seen[id] = true
			es = append(es, h.Entry{ID: id, Body: b})
		}
	}
	for _, n := range names[:rapid.IntRange(1, 2).Draw(t, "tests")] {
		node := Node{Name: h.S(n)}
		put := func(full string, nd *Node) {
			for k, m := 1, rapid.SampledFrom([]int{1, 1, 2, 3, 11}).Draw(t, "calls"); k <= m; k++ {
				b := body()
				if len(b) > 1000 {
					b = "short"
				}
				nd.Ops = append(nd.Ops, Op{K: "call", Cfg: Cfg{File: "f"}, Call: Call{Kind: "snap", Vals: []Val{{K: "str", S: h.S(b)}}}})
				id := fmt.Sprintf("%s - %d", full, k)
				own[id] = true
				switch rapid.IntRange(0, 3).Draw(t, "slot") {
				case 0:
				case 1:
					add(id, body())
				default:
					add(id, b)
				}
			}
		}
		put(n, &node)
		if rapid.IntRange(0, 2).Draw(t, "sub?") == 0 {
			sub := &Node{Name: h.S(rapid.SampledFrom([]string{"a", "10", "2", "a_1"}).Draw(t, "sub"))}
			put(n+"/"+string(sub.Name), sub)
			node.Ops = append(node.Ops, Op{K: "sub", Sub: sub})
		}
		s.Tests = append(s.Tests, node)
	}
	// the others
	nameGen := rapid.OneOf(
		rapid.SampledFrom([]string{"TestA", "TestB", "TestAB", "TestA/a", "TestA/1", "TestA/2", "TestA/10", "TestA/01", "TestA/a10", "TestA/a9", "TestA/a_1", "TestA1", "TestA10", "TestA2", "TestÄ", "testa", "FuzzA/seed#0", "FuzzA/seed#10", "ExampleX",
			"Suite.Run", "1", "10", "a b", "x - y", "[x", "x]", "test a/b - 1", "Test", "TestA/", "TestA//a", "\xff", "日本"}),
		rapid.Custom(func(t *rapid.T) string {
			return "Test" + strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"1", "2", "10", "0", "9", "99", "100", "a", "B", "_", "/", "-", "#", "é", "x"}), 1, 6).Draw(t, "parts"), "")
		}),
	)
	for i, m := 0, rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 13, 14, 20, 40}).Draw(t, "entries"); i < m; i++ {
		add(fmt.Sprintf("%s - %d", nameGen.Draw(t, "name"), rapid.SampledFrom([]int{1, 2, 3, 4, 9, 10, 11, 20, 99, 100, 1000}).Draw(t, "ord")), body())
	}
	switch rapid.IntRange(0, 5).Draw(t, "initial order") {
	case 0:
		sort.SliceStable(es, func(i, k int) bool { x, _ := natural(es[i].ID, es[k].ID); return x < 0 })
	case 1:
		sort.SliceStable(es, func(i, k int) bool { x, _ := natural(es[i].ID, es[k].ID); return x > 0 })
	case 2:
		// sorted but for one
		sort.SliceStable(es, func(i, k int) bool { x, _ := natural(es[i].ID, es[k].ID); return x < 0 })
		if len(es) > 1 {
			i, k := rapid.IntRange(0, len(es)-1).Draw(t, "i"), rapid.IntRange(0, len(es)-1).Draw(t, "k")
			es[i], es[k] = es[k], es[i]
		}
	default:
		if len(es) > 1 {
			es = rapid.Permutation(es).Draw(t, "order")
		}
	}
	for i, m := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "dups"); i < m && len(es) > 0; i++ {
		d := rapid.SampledFrom(es).Draw(t, "which")
		if rapid.Bool().Draw(t, "other body") {
			d.Body = body()
		}
		at := rapid.IntRange(0, len(es)).Draw(t, "dup at")
		es = append(es[:at:at], append([]h.Entry{d}, es[at:]...)...)
	}
	if len(es) > 0 {
		s.Files[filepath.Join("s", "f.snap")] = h.S(h.Render(es))
	}
	return stale{Suite: s, Perm: rapid.SliceOfN(rapid.IntRange(0, 50), 6, 6).Draw(t, "perm")}
}

func init() {
	// one test with more calls than fit in a byte, and entries in any order
	var corpus []stale
	for i, clean := range []string{"true", "clean", "-"} {
		node := Node{Name: "TestA"}
		var es []h.Entry
		for k := 270; k > 0; k-- {
			v := fmt.Sprintf("value %d", 271-k)
			node.Ops = append(node.Ops, Op{K: "call", Cfg: Cfg{File: "f"}, Call: Call{Kind: "snap", Vals: []Val{{K: "str", S: h.S(v)}}}})
			es = append(es, h.Entry{ID: fmt.Sprintf("TestA - %d", k), Body: fmt.Sprintf("value %d", k)})
		}
		es = append(es, h.Entry{ID: "TestA - 271", Body: "stale"}, h.Entry{ID: "TestB - 1", Body: "stale"})
		s := Suite{Count: 1, Clean: 2, Sort: ptr(i != 1), Env: map[string]string{"NO_COLOR": "1"}, Files: map[string]h.S{"s/f.snap": h.S(h.Render(es))}, Tests: []Node{node}}
		if clean != "-" {
			s.Env["UPDATE_SNAPS"] = clean
		}
		corpus = append(corpus, stale{Suite: s, Perm: []int{3, 50, 0, 17, 2, 31}})
	}
	k := sknobs{run: 4, skips: 8, clean: []string{"-", "-", "true", "clean", "clean"}, ci: 12, par: 8, alone: 0, sorted: true, dup: true}
	h.Register("C10", "suites", "suites as for C09 (with and without -run, skips, -count, gaps and duplicated ids in the files); after a Clean every entry of an addressed file that is not reported as removed is there once with its value, in natural order of the ids if sorting was asked for and in the order it had otherwise, files in need of nothing keep mtime and inode, a second Clean and the same tests in another process change nothing, and a sorted file does not depend on the initial order; non-trivial: Clean had to rewrite a file",
		800, 30000, func(t *rapid.T) stale {
			sc := genStale(t, k)
			sc.Suite.Clean = 2
			return sc
		}, checkC10)
	h.Register("C10", "bigfile", "one file with up to 60 entries (bodies that look like headers, terminators and their escapes, blank lines, lines longer than 64 KiB; ids that differ only in numbers, prefixes or are no Go test names; sorted, reversed, sorted but for a swap, random, with duplicated ids) addressed by one or two tests; the same checks as in suites; non-trivial: Clean had to rewrite the file",
		800, 30000, genC10, checkC10, corpus...)
}
