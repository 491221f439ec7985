package props

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// mode is what the environment and the option of a call allow.
type mode struct {
	CI     bool
	Update string // UPDATE_SNAPS
}

func (m mode) create(u *bool) bool { return !m.CI && (u == nil || *u) }
func (m mode) update(u *bool) bool {
	if m.CI {
		return false
	}
	if u != nil {
		return *u
	}
	return m.Update == "true"
}
func (m mode) removes() bool { return !m.CI && (m.Update == "true" || m.Update == "clean") }

// ciEnvs are environments with what they mean to github.com/gkampitakis/ciinfo.
var ciEnvs = []struct {
	env map[string]string
	ci  bool
}{
	{nil, false},
	{map[string]string{"CI": "true"}, true},
	{map[string]string{"GITHUB_ACTIONS": "true"}, true},
	{map[string]string{"CI": "false", "GITHUB_ACTIONS": "true"}, false},
	{map[string]string{"CI": "", "CIRRUS_CI": "true"}, true},
	{map[string]string{"BUILD_NUMBER": "7"}, true},
	{map[string]string{"CI": "false"}, false},
	{map[string]string{"CI": "1", "GITLAB_CI": "1"}, true},
	{map[string]string{"CONTINUOUS_INTEGRATION": "yes"}, true},
}

var updateEnvs = []string{"-", "true", "clean", "", "false", "TRUE", "True", "1", "always", "cleanup", " true", "true ", "yes", "update"}

func envMode(env map[string]string) mode {
	m := mode{Update: env["UPDATE_SNAPS"]}
	for i, c := range ciEnvs {
		if i == 0 {
			continue
		}
		for k := range c.env {
			if _, ok := env[k]; ok {
				m.CI = true // any of the variables, whatever its value
			}
		}
	}
	if env["CI"] == "false" {
		m.CI = false
	}
	return m
}

// effects checks that what a call did to the files is what its outcome says.
func effects(d Did) error {
	at := fmt.Sprintf("call %d (%s) of %s", d.Ord, d.Kind, d.Test)
	if d.Err != "" {
		return fmt.Errorf("%s: %s", at, d.Err)
	}
	switch d.Outcome {
	case h.Passed, h.Failed:
		if d.Touched != "" && (d.Fault == "" || d.Outcome == h.Passed) {
			return fmt.Errorf("%s %s but wrote: %s", at, d.Outcome, d.Touched)
		}
		if d.Outcome == h.Passed && d.Before == nil {
			return fmt.Errorf("%s passed but there is no snapshot", at)
		}
	case h.Added:
		if d.Before != nil {
			return fmt.Errorf("%s added a snapshot but there was one: %s", at, h.Show(string(*d.Before)))
		}
		if d.After == nil {
			return fmt.Errorf("%s added a snapshot but there is none", at)
		}
	case h.Updated:
		if d.Before == nil || d.After == nil {
			return fmt.Errorf("%s updated a snapshot but there was none", at)
		}
		if d.Touched == "" {
			return fmt.Errorf("%s updated a snapshot but wrote nothing", at)
		}
	}
	return nil
}

// --- the table ---

type cell struct {
	CIEnv    int    `json:"ci_env"`
	Update   string `json:"update"`
	Sort     *bool  `json:"sort"`
	Obsolete bool   `json:"obsolete"`
	Unsorted bool   `json:"unsorted"`
}

var slotStates = []string{"missing", "nofile", "equal", "different", "bad", "badnew"}
var fiveKinds = []string{"snap", "json", "yaml", "ssnap", "sjson"}

func tableCall(kind string, other bool) Call {
	c := Call{Kind: kind}
	switch kind {
	case "snap", "ssnap":
		c.Vals = []Val{{K: "str", S: "one\ntwo"}}
		if other {
			c.Vals[0].S = "one\nthree"
		}
	case "yaml":
		c.Form, c.Doc = "str", "a: 1\n"
		if other {
			c.Doc = "a: 2\n"
		}
	default:
		c.Form, c.Doc = "str", `{"a":1}`
		if other {
			c.Doc = `{"a":2}`
		}
	}
	return c
}

func badCall(kind string, i int) Call {
	c := tableCall(kind, true)
	switch {
	case kind == "snap" || kind == "ssnap":
	case i%2 == 0:
		c.Doc = "{bad"
	case kind == "yaml":
		c.M = []M{{Kind: "any", Paths: []h.S{"$.missing"}}}
	default:
		c.M = []M{{Kind: "any", Paths: []h.S{"missing"}}}
	}
	return c
}

type want struct {
	kind, state string
	u           *bool
}

// tableSuite is one test per entry of the table; record leaves those that need no recorded value out.
func tableSuite(record bool) (Suite, map[string]want) {
	s := Suite{Env: map[string]string{"NO_COLOR": "1"}, Files: map[string]h.S{}}
	wants := map[string]want{}
	for ki, kind := range fiveKinds {
		for ui, u := range []*bool{nil, ptr(true), ptr(false)} {
			for _, st := range slotStates {
				if (st == "bad" || st == "badnew") && (kind == "snap" || kind == "ssnap") {
					continue
				}
				k := Cfg{Update: u}
				name := fmt.Sprintf("TestT/%s/%d/%s", kind, ui, st)
				if st == "nofile" {
					k.Dir = sdir(fmt.Sprintf("new/%s%d", kind, ui))
				}
				c := tableCall(kind, st == "different")
				switch {
				case st == "bad" || st == "badnew":
					c = badCall(kind, ki+ui)
				}
				if record {
					if st == "missing" || st == "nofile" || st == "badnew" {
						continue
					}
					k.Update = nil
					c = tableCall(kind, false)
				}
				wants[name] = want{kind, st, u}
				n := Node{Name: h.S(strings.TrimPrefix(name, "TestT/")), Src: ki % 2, Ops: []Op{{K: "call", Cfg: k, Call: c}}}
				s.Tests = append(s.Tests, n)
			}
		}
	}
	// the names hold slashes: they are subtests of one test
	top := Node{Name: "TestT"}
	for i := range s.Tests {
		top.Ops = append(top.Ops, Op{K: "sub", Sub: &s.Tests[i]})
	}
	s.Tests = []Node{top}
	return s, wants
}

var tableFiles struct {
	sync.Once
	files map[string]h.S
	err   error
}

func recorded(c *h.C) (map[string]h.S, error) {
	tableFiles.Do(func() {
		s, _ := tableSuite(true)
		work := c.Dir()
		r, err := s.run(c, work)
		if err != nil {
			tableFiles.err = err
			return
		}
		for _, d := range r.Did {
			if d.Outcome != h.Added || d.Err != "" {
				tableFiles.err = fmt.Errorf("recording %s: %s %s %s", d.Test, d.Outcome, d.Err, h.ShowEvents(d.Ev))
				return
			}
		}
		tableFiles.files = map[string]h.S{}
		for f, data := range h.ReadTree(work).Files() {
			tableFiles.files[f] = h.S(data)
		}
	})
	return tableFiles.files, tableFiles.err
}

const sharedA = "s/suite_a_test.snap"

func checkC05Table(c *h.C, cl cell) error {
	files, err := recorded(c)
	if err != nil {
		return err
	}
	s, wants := tableSuite(false)
	s.Watch, s.Clean, s.Sort = true, 1, cl.Sort
	for f, d := range files {
		s.Files[f] = d
	}
	for k, v := range ciEnvs[cl.CIEnv].env {
		s.Env[k] = v
	}
	if cl.Update != "-" {
		s.Env["UPDATE_SNAPS"] = cl.Update
	}
	m := mode{CI: ciEnvs[cl.CIEnv].ci, Update: s.Env["UPDATE_SNAPS"]}
	obsoleteFiles := []string{"s/gone.snap", "s/TestGone_1.snap", "s/TestT_ssnap_0_equal_2.snap", "s/x.snap.txt"}
	for _, f := range []string{sharedA, "s/suite_b_test.snap"} {
		es, err := h.ParseStore(string(files[f]))
		if err != nil {
			return fmt.Errorf("recorded file %s: %v", f, err)
		}
		if cl.Unsorted {
			for i, k := 0, len(es)-1; i < k; i, k = i+1, k-1 {
				es[i], es[k] = es[k], es[i]
			}
		}
		if cl.Obsolete {
			es = append(es[:1:1], append([]h.Entry{{ID: "TestGone - 1", Body: "x"}}, es[1:]...)...)
			es = append(es, h.Entry{ID: es[len(es)-1].ID[:len(es[len(es)-1].ID)-1] + "2", Body: "y"})
		}
		s.Files[f] = h.S(h.Render(es))
	}
	if cl.Obsolete {
		for _, f := range obsoleteFiles {
			s.Files[f] = "gone"
		}
	}
	work := c.Dir()
	r, err := s.run(c, work)
	if err != nil {
		return err
	}
	if len(r.Did) != len(wants) {
		return h.Infra{Err: fmt.Errorf("%d calls instead of %d: %s", len(r.Did), len(wants), r.Log)}
	}
	c.Evaluations(len(wants))
	c.NonTrivial()
	fail := func(f string, a ...any) error {
		return fmt.Errorf("env %v (CI: %v): %s", s.Env, m.CI, fmt.Sprintf(f, a...))
	}
	for _, d := range r.Did {
		w := wants[string(d.Test)]
		exp := ""
		switch w.state {
		case "bad", "badnew":
			exp = h.Failed
		case "missing", "nofile":
			exp = h.Failed
			if m.create(w.u) {
				exp = h.Added
			}
		case "equal":
			exp = h.Passed
		case "different":
			exp = h.Failed
			if m.update(w.u) {
				exp = h.Updated
			}
		}
		opt := "unset"
		if w.u != nil {
			opt = fmt.Sprint(*w.u)
		}
		if d.Err != "" || d.Outcome != exp {
			return fail("%s, Update option %s, entry %s: %s instead of %s (%s %s)", w.kind, opt, w.state, d.Outcome, exp, d.Err, h.ShowEvents(d.Ev))
		}
		if err := effects(d); err != nil {
			return fail("%s, Update option %s, entry %s: %v", w.kind, opt, w.state, err)
		}
		if exp == h.Updated && *d.Before == *d.After {
			return fail("%s, Update option %s, entry %s: updated, but the value is the same", w.kind, opt, w.state)
		}
	}
	if m.CI {
		if err := h.Untouched(r.Aged[0], r.After[0]); err != nil {
			return fail("Clean: %v", err)
		}
		first := h.Tree{}
		for f, st := range r.After[0] {
			if !st.Dir {
				first[f] = h.FileState{Data: st.Data}
			}
		}
		was := h.Tree{}
		for f, d := range s.Files {
			was[f] = h.FileState{Data: string(d)}
		}
		if err := h.SameBytes(was, first); err != nil {
			return fail("on CI the files changed: %v", err)
		}
		return nil
	}
	sorts := cl.Sort != nil && *cl.Sort
	if cl.Obsolete {
		for _, f := range obsoleteFiles {
			if _, there := r.After[0][f]; there == m.removes() {
				return fail("Clean: the obsolete file %s is there: %v", f, there)
			}
		}
	}
	for f, st := range r.Aged[0] {
		if gone := cl.Obsolete && in(f, obsoleteFiles); gone {
			continue
		}
		a, there := r.After[0][f]
		if !there {
			return fail("Clean deleted %s", f)
		}
		shared := f == sharedA || f == "s/suite_b_test.snap"
		mayWrite := shared && (sorts || cl.Obsolete && m.removes())
		if !mayWrite && !st.Dir {
			if err := h.Untouched(h.Tree{f: st}, h.Tree{f: a}); err != nil {
				return fail("Clean: %v", err)
			}
		}
		if !shared {
			continue
		}
		es, err := h.ParseStore(a.Data)
		if err != nil {
			return fail("Clean: %s: %v", f, err)
		}
		if n := len(h.Lookup(es, "TestGone - 1")); cl.Obsolete && (n == 0) != m.removes() {
			return fail("Clean: %d obsolete entries left in %s", n, f)
		}
		b, _ := h.ParseStore(st.Data)
		inOrder := true
		for i := 1; i < len(es); i++ {
			x, _ := natural(es[i-1].ID, es[i].ID)
			inOrder = inOrder && x <= 0
		}
		if sorts && !inOrder {
			return fail("Clean with Sort did not sort %s", f)
		}
		if !sorts {
			i := 0
			for _, e := range es {
				for i < len(b) && b[i] != e {
					i++
				}
				if i == len(b) {
					return fail("Clean without Sort changed the order of the entries of %s", f)
				}
				i++
			}
		}
	}
	return nil
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func allCells() (out []cell) {
	for ci := range ciEnvs {
		for _, u := range updateEnvs {
			for _, srt := range []*bool{nil, ptr(false), ptr(true)} {
				for x := 0; x < 4; x++ {
					// the less usual environments with one of the four
					if ci > 2 && x != (ci+len(out))%4 {
						continue
					}
					out = append(out, cell{ci, u, srt, x&1 != 0, x&2 != 0})
				}
			}
		}
	}
	return out
}

// --- histories ---

// mustFail are the bad documents genStale uses.
var mustFail = map[h.S]bool{"{bad": true, "a: [1": true}

var repeated = regexp.MustCompile(`#\d\d`)

// outcomes checks the calls of a sequential suite against the permissions.
func (sc stale) outcomes(c *h.C, r *Report, m mode) error {
	type at struct {
		test string
		op   int
	}
	ops := map[at]Op{}
	walk(sc.Suite.Tests, func(full string, n *Node) {
		for i, op := range n.Ops {
			if op.K == "call" || op.K == "cleanup" {
				ops[at{full, i}] = op
			}
		}
	})
	for _, d := range r.Did {
		// a fuzz target that runs again numbers its subtests
		op, ok := ops[at{repeated.ReplaceAllString(string(d.Test), ""), d.Op}]
		if !ok {
			return h.Infra{Err: fmt.Errorf("no op %d in %s", d.Op, d.Test)}
		}
		if err := effects(d); err != nil {
			return err
		}
		u := op.Cfg.Update
		exp := []string{h.Failed}
		blocked := false
		for f := range sc.Suite.Files {
			blocked = blocked || f == string(d.File)+"/" || strings.HasPrefix(string(d.File), f+"/")
		}
		change := h.Failed
		if m.update(u) {
			change = h.Updated
		}
		switch {
		case mustFail[op.Call.Doc] || len(op.Call.M) > 0 || blocked:
			c.Label("bad call")
		case d.Before == nil && m.create(u):
			exp = []string{h.Added}
		case d.Before == nil:
		case strings.HasPrefix(string(*d.Before), "malformed file"):
			exp = nil
		default:
			exp = []string{h.Passed, change}
			if f, ok := formatted(op.Call); ok && !strings.Contains(string(*d.Before), "-/-/-/") && !strings.Contains(f, "-/-/-/") && !strings.Contains(f, "---") && !strings.Contains(string(*d.Before), "\n=====\n") {
				if string(*d.Before) == f {
					exp = []string{h.Passed}
				} else {
					exp = []string{change}
				}
			}
		}
		if exp != nil && d.Fault != "" {
			c.Label("%s: %s", d.Fault, d.Outcome)
			if d.Fault == "nofile" || exp[len(exp)-1] != h.Passed {
				exp = append(exp, h.Failed)
			}
		}
		if d.Outcome == h.Added || d.Outcome == h.Updated {
			if f, ok := formatted(op.Call); ok && !strings.Contains(f, "-/-/-/") && !strings.Contains(f, "---") && string(*d.After) != f && !strings.Contains(string(*d.After), "\n=====\n") {
				return fmt.Errorf("call %d (%s) of %s: %s but there is %s, not %s", d.Ord, d.Kind, d.Test, d.Outcome, h.Show(string(*d.After)), h.Show(f))
			}
		}
		if exp != nil && !in(d.Outcome, exp) {
			return fmt.Errorf("call %d (%s) of %s with update option %v: %s, expected %v (slot %v): %s", d.Ord, d.Kind, d.Test, show(u), d.Outcome, exp, showS(d.Before), h.ShowEvents(d.Ev))
		}
		st := "there"
		if d.Before == nil {
			st = "missing"
		}
		c.Label("%s: %s", st, d.Outcome)
	}
	return nil
}

func show(b *bool) string {
	if b == nil {
		return "unset"
	}
	return fmt.Sprint(*b)
}

func showS(s *h.S) string {
	if s == nil {
		return "missing"
	}
	return h.Show(string(*s))
}

func checkC05(c *h.C, sc stale) error {
	m := envMode(sc.Suite.Env)
	r, _, err := sc.runIn(c, sc.Suite)
	if err != nil {
		return err
	}
	fail := func(f string, a ...any) error { return fmt.Errorf("%s: %s", sc.describe(), fmt.Sprintf(f, a...)) }
	if err := sc.outcomes(c, r, m); err != nil {
		if _, ok := err.(h.Infra); ok {
			return err
		}
		return fail("%v", err)
	}
	if len(r.Did) > 0 {
		c.NonTrivial()
	}
	if m.CI {
		c.Label("CI")
	}
	for i := range r.After {
		b, a := r.Aged[i], r.After[i]
		sorts := !m.CI && sc.Suite.Sort != nil && *sc.Suite.Sort
		if !m.removes() && !sorts {
			if err := h.Untouched(b, a); err != nil {
				return fail("Clean may not write: %v", err)
			}
			continue
		}
		for f, st := range b {
			x, there := a[f]
			if !there && !m.removes() {
				return fail("Clean may not delete but deleted %s", f)
			}
			if there && !st.Dir && !m.removes() && st.Data != x.Data {
				// sorting only
				e1, err1 := h.ParseLoose(st.Data)
				e2, err2 := h.ParseLoose(x.Data)
				if err1 != nil || err2 != nil || len(e1) != len(e2) {
					return fail("Clean may only sort but changed %s from %s to %s (%v, %v)", f, h.Show(st.Data), h.Show(x.Data), err1, err2)
				}
			}
		}
		for f := range a {
			if _, there := b[f]; !there {
				return fail("Clean created %s", f)
			}
		}
	}
	return nil
}

func init() {
	h.Register("C05", "table", "every combination of CI environment (vendor variables, CI=false, CI empty), UPDATE_SNAPS value (unset, true, clean, other strings close to those) and Clean sort option, with and without obsolete items and unsorted files (all four for the common environments, rotating for the others); each is a process in which all five entry points are called with every Update option on entries that are missing (with and without file), equal, different, or given a bad document; outcome, every write (names, bytes, mtimes, inodes of files and directories around each call) and what Clean removes or reorders must be what the table says",
		0, 0, nil, checkC05Table, allCells()...)
	k := sknobs{run: 5, skips: 12, ci: 0, par: 0, alone: 2, clean: []string{"-"}, fail: true, seq: true, dup: true}
	h.Register("C05", "histories", "sequential suites with mixed kinds, options, values and files, under random environments; around every call and every Clean the whole tree is compared: outcomes must be the ones the mode allows for the state of the slot, passing and failing calls write nothing, and a Clean that may neither remove nor sort writes nothing; non-trivial: at least one call",
		900, 40000, func(t *rapid.T) stale {
			sc := genStale(t, k)
			sc.Suite.Watch = true
			for n, v := range rapid.SampledFrom(ciEnvs).Draw(t, "ci env").env {
				sc.Suite.Env[n] = v
			}
			if u := rapid.SampledFrom(updateEnvs).Draw(t, "UPDATE_SNAPS"); u != "-" {
				sc.Suite.Env["UPDATE_SNAPS"] = u
			}
			return sc
		}, checkC05)
}
