package props

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

func checkC08(c *h.C, sc stale) error {
	r, work, err := sc.runIn(c, sc.Suite)
	if err != nil {
		return err
	}
	j := sc.judge(r)
	n := 0
	for i, after := range r.After {
		l, err := listedOf(r.Out[i], work)
		if err != nil {
			return fmt.Errorf("%s: %w", sc.describe(), err)
		}
		if err := j.keeps(after, l, vProtected, &n); err != nil {
			return fmt.Errorf("Clean call %d %s, skipped %q: %w", i+1, sc.describe(), r.Skips, err)
		}
		if err := j.bytesKept(r.Before, after, vProtected); err != nil {
			return fmt.Errorf("Clean call %d %s, skipped %q: %w", i+1, sc.describe(), r.Skips, err)
		}
		if j.filter || i > 0 {
			continue
		}
		// a skip protects exactly the test and its descendants
		need := map[string]int{}
		where := map[string]string{}
		for _, it := range j.items {
			if it.entry < 0 || it.verdict != vStale {
				continue
			}
			for _, s := range r.Skips {
				if strings.HasPrefix(it.name, s) || strings.HasPrefix(s, it.name) {
					need[it.id]++
					where[it.id] = it.file
					c.Label("stale entry sharing a prefix with a skipped test")
					break
				}
			}
		}
		for id, k := range need {
			if l.ids[id] < k {
				return fmt.Errorf("%s: the skips of %q do not protect the obsolete entry [%s] of %s, but it is not reported (%d of %d)", sc.describe(), r.Skips, id, where[id], l.ids[id], k)
			}
		}
	}
	if n > 0 {
		c.NonTrivial()
	}
	for _, it := range j.items {
		if it.verdict != vProtected {
			continue
		}
		switch {
		case it.entry >= 0 && j.filter:
			c.Label("entry not selected by -run")
		case it.entry >= 0:
			c.Label("entry of a skipped test")
		case j.filter:
			c.Label("file not selected by -run")
		default:
			c.Label("file of a skipped test")
		}
	}
	return nil
}

func init() {
	k := sknobs{run: 2, skips: 3, clean: []string{"-", "true", "clean", "clean"}, ci: 0, par: 8, alone: 1}
	h.Register("C08", "protected", "suites in which tests and subtests call snaps.Skip/Skipf/SkipNow or are filtered by -run (patterns with anchors, alternatives, levels, classes, cut names), with entries, multi-entry files and standalone files of those tests, their descendants, their prefix siblings and of deleted tests; the real testing package tells which names -run selects; what belongs to a skipped or unselected test must survive Clean and not be listed, and prefix siblings of a skip must be reported; non-trivial: something protected is in a visited directory",
		1800, 60000, func(t *rapid.T) stale { return genStale(t, k) }, checkC08)
}
