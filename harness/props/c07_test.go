package props

import (
	"fmt"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

func checkC07(c *h.C, sc stale) error {
	r, work, err := sc.runIn(c, sc.Suite)
	if err != nil {
		return err
	}
	j := sc.judge(r)
	n := 0
	for i, after := range r.After {
		l, err := listedOf(r.Out[i], work)
		if err != nil {
			return fmt.Errorf("%s: %w", sc.describe(), err)
		}
		if err := j.keeps(after, l, vAddressed, &n); err != nil {
			return fmt.Errorf("Clean call %d %s: %w", i+1, sc.describe(), err)
		}
		if err := j.bytesKept(r.Before, after, vAddressed); err != nil {
			return fmt.Errorf("Clean call %d %s: %w", i+1, sc.describe(), err)
		}
		if len(l.ids)+len(l.files) > 0 {
			c.Label("something obsolete")
		}
	}
	if n > 0 && (j.removes || j.sorts) {
		c.NonTrivial()
	}
	if j.removes {
		c.Label("clean mode")
	}
	if j.filter {
		c.Label("-run filter")
	}
	if sc.Suite.Count > 1 {
		c.Label("-count > 1")
	}
	return nil
}

func init() {
	k := sknobs{run: 3, skips: 10, clean: []string{"-", "true", "clean", "clean", "false"}, ci: 10, par: 6, alone: 1, dup: true}
	h.Register("C07", "addressed", "a test binary of its own with 1-4 tests and subtests (parallel, skipped, repeated by -count with other calls per execution, calls in cleanups and goroutines) on files that hold matching, different, stale and foreign entries and files, then Clean once or twice in report, clean and sort mode; every slot a call addressed must be there after Clean with the value it had before and not be listed; non-trivial: an addressed slot and a Clean that may write",
		2000, 60000, func(t *rapid.T) stale { return genStale(t, k) }, checkC07)
}
