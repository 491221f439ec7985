package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

func counts(l []string) map[string]int {
	m := map[string]int{}
	for _, s := range l {
		m[s]++
	}
	return m
}

func checkC09(c *h.C, sc stale) error {
	r, work, err := sc.runIn(c, sc.Suite)
	if err != nil {
		return err
	}
	j := sc.judge(r)
	fail := func(f string, a ...any) error { return fmt.Errorf("%s: %s", sc.describe(), fmt.Sprintf(f, a...)) }
	after := r.After[0]
	l, err := listedOf(r.Out[0], work)
	if err != nil {
		return fail("%w", err)
	}
	// what is reported
	mustIDs, mayIDs := map[string]int{}, map[string]int{}
	mustFiles, mayFiles := map[string]bool{}, map[string]bool{}
	for _, it := range j.items {
		switch {
		case it.verdict == vStale && it.entry >= 0:
			mustIDs[it.id]++
			mayIDs[it.id]++
		case it.verdict == vFree && it.entry >= 0:
			mayIDs[it.id]++
		case it.verdict == vStale:
			mustFiles[it.file], mayFiles[it.file] = true, true
		case it.verdict == vFree:
			mayFiles[it.file] = true
		}
	}
	for id, n := range mustIDs {
		if l.ids[id] < n {
			return fail("the obsolete entry [%s] is reported %d times, expected %d (reported: %q)", id, l.ids[id], n, l.sum.Tests)
		}
	}
	for id, n := range l.ids {
		if n > mayIDs[id] {
			return fail("[%s] is reported %d times as obsolete, expected %d", id, n, mayIDs[id])
		}
	}
	for f := range mustFiles {
		if l.files[f] == 0 {
			return fail("the obsolete file %s is not reported (reported: %q)", f, l.sum.Files)
		}
	}
	for f, n := range l.files {
		if !mayFiles[f] || n > 1 {
			return fail("the file %s is reported %d times as obsolete", f, n)
		}
	}
	verb := "obsolete"
	if j.removes {
		verb = "removed"
	}
	for k, v := range l.sum.Verb {
		if v != verb {
			return fail("the summary says %ss are %s instead of %s", k, v, verb)
		}
	}
	if len(mustIDs)+len(mustFiles) > 0 {
		c.NonTrivial()
	}

	// what is removed
	inFile := map[string][]item{}
	for _, it := range j.items {
		if it.entry >= 0 {
			inFile[it.file] = append(inFile[it.file], it)
			continue
		}
		_, there := after[it.file]
		removed := j.removes && l.files[it.file] > 0
		switch {
		case removed && there:
			return fail("the file %s is reported as removed but still there", it.file)
		case !removed && !there:
			return fail("the file %s was deleted (it %s)", it.file, it.verdict)
		case there && after[it.file].Data != r.Before[it.file].Data:
			return fail("the file %s was changed (it %s)", it.file, it.verdict)
		}
		c.Label("file: %s", it.verdict)
	}
	for f, s := range r.Before {
		a, there := after[f]
		if s.Dir && (!there || !a.Dir) {
			return fail("the directory %s was deleted", f)
		}
	}
	for f := range after {
		if _, there := r.Before[f]; !there {
			return fail("%s was created", f)
		}
	}
	for f, its := range inFile {
		a, there := after[f]
		if !there {
			return fail("the addressed file %s was deleted", f)
		}
		es, err := h.ParseLoose(a.Data)
		if err != nil {
			return fail("%s after Clean: %v", f, err)
		}
		have := map[h.Entry]int{}
		for _, e := range es {
			have[e]++
		}
		var want []h.Entry
		for _, it := range its {
			if j.removes && it.verdict == vStale {
				if have[h.Entry{ID: it.id, Body: it.body}] > 0 {
					return fail("the obsolete entry [%s] of %s was not removed", it.id, f)
				}
				continue
			}
			if it.verdict == vFree {
				continue
			}
			want = append(want, h.Entry{ID: it.id, Body: it.body})
		}
		for _, e := range want {
			if have[e] == 0 {
				return fail("the entry [%s] of %s is gone or has another value: %s", e.ID, f, h.Show(a.Data))
			}
			have[e]--
		}
		if !j.removes && len(es) != len(its) {
			return fail("%s had %d entries and has %d", f, len(its), len(es))
		}
		if !j.removes && !j.sorts && a.Data != r.Before[f].Data {
			return fail("%s was changed though nothing may be removed or sorted", f)
		}
		for _, it := range its {
			c.Label("entry: %s", it.verdict)
		}
	}
	if j.removes {
		c.Label("removing")
	} else {
		c.Label("reporting")
	}
	// nothing is left to report once it is removed
	if len(r.After) > 1 {
		l2, err := listedOf(r.Out[1], work)
		if err != nil {
			return fail("%w", err)
		}
		if !j.removes {
			a, b := append([]string{}, l.sum.Tests...), append([]string{}, l2.sum.Tests...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, "\n") != strings.Join(b, "\n") || fmt.Sprint(counts(l.sum.Files)) != fmt.Sprint(counts(l2.sum.Files)) {
				return fail("a second Clean reports something else: %q %q, then %q %q", a, l.sum.Files, b, l2.sum.Files)
			}
		} else if len(l2.ids)+len(l2.files) > 0 {
			return fail("a second Clean still removes %q %q", l2.sum.Tests, l2.sum.Files)
		}
	}
	return nil
}

func init() {
	k := sknobs{run: 0, skips: 6, clean: []string{"-", "true", "clean", "clean", "false", "", "TRUE", "always", "1"}, ci: 8, par: 8, alone: 1, dup: true}
	h.Register("C09", "stale", "suites without a -run filter on directories with stale entries and files (deleted tests and subtests, ordinals that are no longer used, names sharing prefixes, standalone files, files in directories no test addressed, files without .snap in their name, directories); what Clean reports and, in clean mode, removes must be exactly what the model calls obsolete, everything else keeps its bytes; non-trivial: something is obsolete",
		1800, 60000, func(t *rapid.T) stale { return genStale(t, k) }, checkC09)
}
