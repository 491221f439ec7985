package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c06call struct {
	Kind string `json:"kind"` // snap json yaml ssnap sjson skip
	V    int    `json:"v"`
	File int    `json:"file,omitempty"`
	Upd  int    `json:"upd,omitempty"` // 0: option not given, 1: true, 2: false
	Bad  bool   `json:"bad,omitempty"`
}

func (c c06call) alone() bool { return c.Kind == "ssnap" || c.Kind == "sjson" }

type c06task struct {
	Name   h.S         `json:"name"`
	Runs   [][]c06call `json:"runs"`             // executions of the test
	Clones int         `json:"clones,omitempty"` // goroutines of the test that make the same calls (all equal)
}

type c06pre struct {
	File int    `json:"file"`
	Name h.S    `json:"name"`
	Ord  int    `json:"ord"`
	Kind string `json:"kind"`
	V    int    `json:"v"`
}

type c06 struct {
	Pre   []c06pre  `json:"pre,omitempty"`
	Tasks []c06task `json:"tasks"`
	First int       `json:"first,omitempty"`
	Walk  []int     `json:"walk,omitempty"` // the choices at the first switch points
	Cut   [][2]int  `json:"cut,omitempty"`  // {step, which}: preemptions
	Sweep int       `json:"sweep,omitempty"`
	Off   int       `json:"off,omitempty"`
	Def   bool      `json:"def,omitempty"` // package level functions and the default directory
}

var c06Names = []string{"TestA", "TestB", "TestA/x", "TestAA", "TestC/sub_1", "TestA/x/y"}

var c06Long = strings.Repeat("a long line of the value\n", 400)

func c06Call(c c06call) Call {
	switch {
	case c.Bad && c.Kind == "yaml":
		return Call{Kind: "yaml", Form: "str", Doc: "a: [1"}
	case c.Bad && c.V%2 == 0:
		return Call{Kind: c.Kind, Form: "str", Doc: "{bad"}
	case c.Bad:
		return Call{Kind: c.Kind, Form: "str", Doc: `{"a":1}`, M: []M{{Kind: "any", Paths: []h.S{"missing"}}}}
	}
	switch c.Kind {
	case "json", "sjson":
		return Call{Kind: c.Kind, Form: "str", Doc: h.S([]string{
			`{"v":0}`, `{"v":1,"s":"[TestA - 1]"}`, `[` + strings.Repeat(`"element",`, 300) + `1]`, `null`, `{"b":"---","a":[1,2]}`, `{"b":"---","a":[1,3]}`,
		}[c.V])}
	case "yaml":
		return Call{Kind: c.Kind, Form: "str", Doc: h.S([]string{
			"v: 0\n", "a: 1\n---\n[TestB - 1]\n", "l: |\n  " + strings.ReplaceAll(c06Long, "\n", "\n  ") + "\n", "x", "a: 1\nb: 2", "a: 1\nb: 3",
		}[c.V])}
	}
	return Call{Kind: c.Kind, Vals: []Val{{K: "str", S: h.S([]string{
		"a", "b\n---\n\n[TestA - 1]\nend\n---", c06Long, "", "[TestB - 1]\n/-/-/-/\n", "b\n---\n\n[TestA - 1]\nEND\n---",
	}[c.V])}}}
}

var c06bodies = map[string]string{}

// c06Body is what a call stores when nothing else goes on.
func c06Body(c *h.C, kind string, v int) (string, error) {
	k := fmt.Sprint(kind, v)
	if b, ok := c06bodies[k]; ok {
		return b, nil
	}
	dir := c.Dir()
	t := h.NewT("TestBody")
	cfg := snaps.WithConfig(snaps.Dir(dir), snaps.Filename("f"))
	o, ev, err := step(t, cfg, c06Call(c06call{Kind: kind, V: v}))
	t.RunCleanups()
	if err != nil || o != h.Added {
		return "", fmt.Errorf("recording one value alone: %s %s (%v)", o, h.ShowEvents(ev), err)
	}
	tree := h.ReadTree(dir)
	var body string
	switch kind {
	case "ssnap":
		body = tree["f_1.snap"].Data
	case "sjson":
		body = tree["f_1.snap.json"].Data
	default:
		es, err := h.ParseStore(tree["f.snap"].Data)
		if err != nil || len(es) != 1 {
			return "", fmt.Errorf("recording one value made %d entries (%v)", len(es), err)
		}
		body = es[0].Body
	}
	c06bodies[k] = body
	return body, nil
}

func genC06Call(t *rapid.T, multi bool) c06call {
	kinds := []string{"snap", "snap", "json", "yaml"}
	if !multi {
		kinds = append(kinds, "ssnap", "sjson")
	}
	c := c06call{
		Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), V: rapid.IntRange(0, 5).Draw(t, "v"),
		Upd: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2}).Draw(t, "upd"),
	}
	if rapid.IntRange(0, 5).Draw(t, "other file") == 0 {
		c.File = 1
	}
	if c.Kind != "snap" && c.Kind != "ssnap" && rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
		c.Bad = true
	}
	return c
}

func genC06(t *rapid.T, maxTasks, maxCalls int, skips bool) c06 {
	var sc c06
	n := rapid.IntRange(2, maxTasks).Draw(t, "tasks")
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		ni := rapid.IntRange(0, len(c06Names)-1).Filter(func(i int) bool { return !used[i] }).Draw(t, "name")
		used[ni] = true
		k := c06task{Name: h.S(c06Names[ni])}
		if maxCalls > 1 && rapid.IntRange(0, 4).Draw(t, "clones?") == 0 {
			k.Clones = rapid.IntRange(2, 3).Draw(t, "clones")
			call := genC06Call(t, true)
			call.File = 0
			var calls []c06call
			for j, m := 0, rapid.IntRange(1, 2).Draw(t, "calls"); j < m; j++ {
				calls = append(calls, call)
			}
			k.Runs = [][]c06call{calls}
			sc.Tasks = append(sc.Tasks, k)
			st := rapid.IntRange(0, 2).Draw(t, "state") // missing, equal, different
			for o := 1; o <= k.Clones*len(calls) && st > 0; o++ {
				p := c06pre{Name: k.Name, Ord: o, Kind: call.Kind, V: call.V}
				if st == 2 {
					p.V = (call.V + 1) % 6
				}
				sc.Pre = append(sc.Pre, p)
			}
			continue
		}
		runs := 1
		if maxCalls > 1 && rapid.IntRange(0, 3).Draw(t, "runs?") == 0 {
			runs = 2
		}
		for r := 0; r < runs; r++ {
			var calls []c06call
			for j, m := 0, rapid.IntRange(1, maxCalls).Draw(t, "calls"); j < m; j++ {
				calls = append(calls, genC06Call(t, rapid.IntRange(0, 3).Draw(t, "multi") != 0))
			}
			if skips && rapid.IntRange(0, 4).Draw(t, "skip") == 0 {
				calls = append(calls, c06call{Kind: "skip", V: rapid.IntRange(0, 2).Draw(t, "v")})
			}
			k.Runs = append(k.Runs, calls)
		}
		sc.Tasks = append(sc.Tasks, k)
		ord := map[int]int{}
		for _, call := range k.Runs[0] {
			if call.alone() || call.Kind == "skip" {
				continue
			}
			ord[call.File]++
			switch rapid.IntRange(0, 4).Draw(t, "state") {
			case 0:
				sc.Pre = append(sc.Pre, c06pre{File: call.File, Name: k.Name, Ord: ord[call.File], Kind: call.Kind, V: call.V})
			case 1, 2:
				kind := rapid.SampledFrom([]string{"snap", "json", "yaml"}).Draw(t, "pre kind")
				sc.Pre = append(sc.Pre, c06pre{File: call.File, Name: k.Name, Ord: ord[call.File], Kind: kind, V: rapid.IntRange(0, 5).Draw(t, "pre v")})
			}
		}
	}
	for i, m := 0, rapid.IntRange(0, 2).Draw(t, "others"); i < m; i++ {
		sc.Pre = append(sc.Pre, c06pre{Name: "TestOther", Ord: i + 1, Kind: "snap", V: rapid.IntRange(0, 5).Draw(t, "v")})
	}
	if len(sc.Pre) > 1 {
		sc.Pre = rapid.Permutation(sc.Pre).Draw(t, "order")
	}
	return sc
}

type c06res struct {
	outcome string
	events  []h.Event
	err     error
}

// c06Run executes the scenario once in dir. res is indexed by goroutine, execution and call.
type c06Env struct {
	sc    c06
	dir   string
	cfgs  map[string]*snaps.Config
	files [2]string // contents at the start
}

func (e *c06Env) cfg(c c06call) *snaps.Config {
	if e.sc.Def && c.File == 0 && c.Upd == 0 {
		return nil
	}
	k := fmt.Sprint(c.File, c.Upd, c.alone())
	if e.cfgs[k] == nil {
		var o []func(*snaps.Config)
		if !e.sc.Def {
			o = append(o, snaps.Dir(e.dir))
		}
		if !c.alone() && (!e.sc.Def || c.File == 1) {
			o = append(o, snaps.Filename([]string{"f", "g"}[c.File]))
		}
		if c.Upd != 0 {
			o = append(o, snaps.Update(c.Upd == 1))
		}
		e.cfgs[k] = snaps.WithConfig(o...)
	}
	return e.cfgs[k]
}

func (e *c06Env) fileName(i int) string {
	if i == 1 {
		return "g.snap"
	}
	if e.sc.Def {
		return "exec_test.snap"
	}
	return "f.snap"
}

func (e *c06Env) prepare() {
	fail := func(err error) {
		if err != nil {
			panic(h.Infra{Err: err})
		}
	}
	fail(os.RemoveAll(e.dir))
	for i, text := range e.files {
		if text != "" {
			fail(os.MkdirAll(e.dir, 0o777))
			fail(os.WriteFile(filepath.Join(e.dir, e.fileName(i)), []byte(text), 0o666))
		}
	}
	// configs are built before the calls, which only read them
	e.cfgs = map[string]*snaps.Config{}
	for _, k := range e.sc.Tasks {
		for _, calls := range k.Runs {
			for _, c := range calls {
				e.cfg(c)
			}
		}
	}
}

// fns are the goroutines of the scenario; the results are there when all are done and after is
// called.
func (e *c06Env) fns() (fns []func(), res [][][]c06res, after func()) {
	var cleanups []*h.T
	for _, k := range e.sc.Tasks {
		n := max(k.Clones, 1)
		for g := 0; g < n; g++ {
			r := make([][]c06res, len(k.Runs))
			for i := range r {
				r[i] = make([]c06res, len(k.Runs[i]))
			}
			res = append(res, r)
			ts := make([]*h.T, len(k.Runs))
			for i := range ts {
				ts[i] = h.NewT(string(k.Name))
			}
			if k.Clones > 0 {
				cleanups = append(cleanups, ts...)
			}
			fns = append(fns, func() {
				for i, calls := range k.Runs {
					func() {
						if k.Clones == 0 {
							// also when the test skips itself
							defer ts[i].RunCleanups()
						}
						for j, c := range calls {
							if c.Kind == "skip" {
								c06Skip(ts[i], c.V, func() { r[i][j] = c06res{outcome: "skipped", events: ts[i].Take()} })
								return
							}
							o, ev, err := step(ts[i], e.cfg(c), c06Call(c))
							r[i][j] = c06res{o, ev, err}
						}
					}()
				}
			})
		}
	}
	return fns, res, func() {
		for _, t := range cleanups {
			t.RunCleanups()
		}
	}
}

// c06Skip skips the test in a goroutine of its own, which ends.
func c06Skip(t *h.T, v int, then func()) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		switch v {
		case 0:
			snaps.Skip(t, "not now")
		case 1:
			snaps.Skipf(t, "%s", "not now")
		default:
			snaps.SkipNow(t)
		}
	}()
	wg.Wait()
	then()
}

var lineNo = regexp.MustCompile(`(\.snap[^:\s]*):[0-9]+`)

// norm is what was signalled without the directory and the line of the slot.
func (e *c06Env) norm(ev []h.Event) []h.Event {
	var out []h.Event
	for _, v := range ev {
		t := strings.ReplaceAll(string(v.Text), filepath.Base(filepath.Dir(e.dir))+"/"+filepath.Base(e.dir), "DIR")
		out = append(out, h.Event{Kind: v.Kind, Text: h.S(lineNo.ReplaceAllString(t, "$1:N"))})
	}
	return out
}

func (e *c06Env) pick(first int, walk []int, cut [][2]int) func([]int, int, int) int {
	return func(run []int, last, step int) int {
		at := -1
		for i, r := range run {
			if r == last {
				at = i
			}
		}
		if last < 0 {
			return run[first%len(run)]
		}
		if step <= len(walk) {
			return run[walk[step-1]%len(run)]
		}
		for _, c := range cut {
			if c[0] == step {
				others := run
				if at >= 0 {
					others = append(append([]int(nil), run[:at]...), run[at+1:]...)
				}
				if len(others) > 0 {
					return others[c[1]%len(others)]
				}
			}
		}
		if at >= 0 {
			return last
		}
		return run[0]
	}
}

func (e *c06Env) schedule(first int, walk []int, cut [][2]int) string {
	return fmt.Sprintf("goroutine %d first, then choices %v, preemptions {step, other} %v", first, walk, cut)
}

func checkC06(c *h.C, sc c06) error {
	if sc.Def {
		return withSourceDir(func() error { return runC06(c, sc) }, "__snapshots__")
	}
	return runC06(c, sc)
}

func runC06(c *h.C, sc c06) error {
	// the model
	type slot struct {
		file int
		name string
		ord  int
	}
	state := map[slot]string{}
	var order [2][]slot
	var texts [2]string
	for _, p := range sc.Pre {
		b, err := c06Body(c, p.Kind, p.V)
		if err != nil {
			return err
		}
		s := slot{p.File, string(p.Name), p.Ord}
		if _, ok := state[s]; ok {
			continue
		}
		state[s] = b
		order[p.File] = append(order[p.File], s)
		texts[p.File] += h.Entry{ID: fmt.Sprintf("%s - %d", p.Name, p.Ord), Body: b}.Render()
	}
	alone := map[string]string{}
	var want [][][]string
	touched := [2]map[string]bool{{}, {}}
	writes := 0
	for _, k := range sc.Tasks {
		n := max(k.Clones, 1)
		ord := map[string]int{}
		for g := 0; g < n; g++ {
			w := make([][]string, len(k.Runs))
			for i, calls := range k.Runs {
				if k.Clones == 0 {
					ord = map[string]int{}
				}
				for _, call := range calls {
					if call.Kind == "skip" {
						w[i] = append(w[i], "skipped")
						break
					}
					body, err := "", error(nil)
					if !call.Bad {
						if body, err = c06Body(c, call.Kind, call.V); err != nil {
							return err
						}
					}
					decide := func(old string, ok bool) string {
						switch {
						case call.Bad, !ok && call.Upd == 2:
							return h.Failed
						case !ok:
							return h.Added
						case old == body:
							return h.Passed
						case call.Upd == 1:
							return h.Updated
						}
						return h.Failed
					}
					var o string
					if call.alone() {
						ext := map[string]string{"sjson": ".json"}[call.Kind]
						ord[ext]++
						f := fmt.Sprintf("%s_%d.snap%s", strings.ReplaceAll(string(k.Name), "/", "_"), ord[ext], ext)
						old, ok := alone[f]
						if o = decide(old, ok); o == h.Added || o == h.Updated {
							alone[f] = body
							writes++
						}
					} else {
						key := fmt.Sprint("file", call.File)
						ord[key]++
						s := slot{call.File, string(k.Name), ord[key]}
						touched[call.File][string(k.Name)] = true
						old, ok := state[s]
						if o = decide(old, ok); o == h.Added || o == h.Updated {
							state[s] = body
							writes++
						}
					}
					w[i] = append(w[i], o)
				}
			}
			want = append(want, w)
		}
	}
	shared := len(touched[0]) > 1 || len(touched[1]) > 1
	for _, k := range sc.Tasks {
		shared = shared || k.Clones > 1
	}
	if shared && writes > 0 {
		c.NonTrivial()
	}

	check := func(e *c06Env, res [][][]c06res) error {
		for g := range want {
			for i := range want[g] {
				for j, w := range want[g][i] {
					r := res[g][i][j]
					where := fmt.Sprintf("goroutine %d execution %d call %d", g, i+1, j+1)
					if r.err != nil {
						return fmt.Errorf("%s: %w", where, r.err)
					}
					if r.outcome != w {
						return fmt.Errorf("%s: outcome %q (%s), in a serial execution it is %q", where, r.outcome, h.ShowEvents(r.events), w)
					}
				}
			}
		}
		tree := h.ReadTree(e.dir)
		expect := map[string]bool{}
		for f, body := range alone {
			expect[f] = true
			if got, ok := tree[f]; !ok || got.Data != body {
				return fmt.Errorf("%s holds %s (exists: %v), want %s", f, h.Show(got.Data), ok, h.Show(body))
			}
		}
		for i := range texts {
			f := e.fileName(i)
			es, err := h.ParseStore(tree[f].Data)
			if err != nil {
				return fmt.Errorf("%s is not well formed: %w\n%s", f, err, h.Show(tree[f].Data))
			}
			n := 0
			for s, body := range state {
				if s.file != i {
					continue
				}
				n++
				got := h.Lookup(es, fmt.Sprintf("%s - %d", s.name, s.ord))
				if len(got) != 1 {
					return fmt.Errorf("%s has %d entries for [%s - %d], want one\n%s", f, len(got), s.name, s.ord, h.Show(tree[f].Data))
				}
				if got[0] != body {
					return fmt.Errorf("%s: [%s - %d] holds %s, want %s", f, s.name, s.ord, h.Show(got[0]), h.Show(body))
				}
			}
			if len(es) != n {
				return fmt.Errorf("%s has %d entries, %d slots were addressed or there before\n%s", f, len(es), n, h.Show(tree[f].Data))
			}
			for j, s := range order[i] {
				if id := fmt.Sprintf("%s - %d", s.name, s.ord); es[j].ID != id {
					return fmt.Errorf("%s: entry %d is [%s], it was [%s]", f, j+1, es[j].ID, id)
				}
			}
			if n > 0 {
				expect[f] = true
			}
		}
		for f := range tree {
			if !expect[f] {
				return fmt.Errorf("%s appeared", f)
			}
		}
		return nil
	}
	env := func() *c06Env {
		dir := filepath.Join(c.Dir(), "s")
		if sc.Def {
			dir = filepath.Join(sourceDir(), "__snapshots__")
		}
		return &c06Env{sc: sc, dir: dir, files: texts}
	}

	// one after the other, as the reference for the reports
	serial := env()
	serial.prepare()
	fns, ref, after := serial.fns()
	for _, f := range fns {
		f()
	}
	after()
	if err := check(serial, ref); err != nil {
		return fmt.Errorf("one after the other: %w", err)
	}

	e := env()
	runs, stalls, steps := 0, 0, 0
	run := func(first int, walk []int, cut [][2]int) (int, error) {
		runs++
		e.prepare()
		fns, res, after := e.fns()
		r := schedRun(fns, e.pick(first, walk, cut))
		stalls += r.Stalls
		steps += r.Steps
		fail := func(err error) error {
			tr := r.Trace
			if len(tr) > 120 {
				tr = tr[len(tr)-120:]
			}
			return fmt.Errorf("%w\nschedule: %s\ntrace: %s", err, e.schedule(first, walk, cut), strings.Join(tr, ", "))
		}
		if r.Err != "" {
			return r.Steps, fail(fmt.Errorf("%s", r.Err))
		}
		after()
		if err := check(e, res); err != nil {
			return r.Steps, fail(err)
		}
		for g := range res {
			for i := range res[g] {
				for j := range res[g][i] {
					if a, b := e.norm(res[g][i][j].events), serial.norm(ref[g][i][j].events); !reflect.DeepEqual(a, b) {
						return r.Steps, fail(fmt.Errorf("goroutine %d execution %d call %d signals %s, in a serial execution %s", g, i+1, j+1, h.ShowEvents(a), h.ShowEvents(b)))
					}
				}
			}
		}
		return r.Steps, nil
	}
	if sc.Sweep == 0 {
		n := 1
		if !controlled {
			n = 6
		}
		for i := 0; i < n; i++ {
			if _, err := run(sc.First, sc.Walk, sc.Cut); err != nil {
				return err
			}
		}
	} else {
		n := 0
		for first := range want {
			m, err := run(first, nil, nil)
			if err != nil {
				return err
			}
			n = max(n, m)
		}
		// every single preemption, then pairs of them until the budget is used up
		var all [][][2]int
		for s := 1; s < n; s++ {
			for k := 0; k < len(want)-1; k++ {
				all = append(all, [][2]int{{s, k}})
			}
		}
		single := len(all)
		for a := 0; a < single; a++ {
			for b := a + 1; b < single; b++ {
				if all[a][0][0] < all[b][0][0] {
					all = append(all, [][2]int{all[a][0], all[b][0]})
				}
			}
		}
		left := sc.Sweep
		for first := range want {
			for _, cut := range all[:min(single, len(all))] {
				if left <= 0 {
					break
				}
				left--
				if _, err := run(first, nil, cut); err != nil {
					return err
				}
			}
		}
		if pairs := all[single:]; left > 0 && len(pairs) > 0 {
			total := len(pairs) * len(want)
			stride := max(total/left, 1)
			for i := sc.Off % stride; i < total && left > 0; i += stride {
				left--
				if _, err := run(i%len(want), nil, pairs[i/len(want)]); err != nil {
					return err
				}
			}
			if stride == 1 {
				c.Label("all schedules with up to two preemptions")
			}
		}
	}
	c.Evaluations(runs)
	c.Label("controlled: %v", controlled)
	if stalls > 0 {
		c.Label("with stalls")
	}
	switch p := steps / runs; {
	case p < 20:
		c.Label("switch points per run: <20")
	case p < 60:
		c.Label("switch points per run: 20-59")
	default:
		c.Label("switch points per run: 60+")
	}
	kinds := map[string]bool{}
	for g := range want {
		for i := range want[g] {
			for _, w := range want[g][i] {
				kinds[w] = true
			}
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.Label("outcomes: %s", strings.Join(ks, "+"))
	return nil
}

func init() {
	const rule = "; outcomes and signals must be those of a serial execution, the files must hold exactly one well-formed entry per slot with the right value; non-trivial: two goroutines share a file and at least one call writes"
	u := func(name string, calls ...c06call) c06task {
		return c06task{Name: h.S(name), Runs: [][]c06call{calls}}
	}
	corpus := []c06{
		{Pre: []c06pre{{Name: "TestA", Ord: 1, Kind: "snap", V: 0}}, Tasks: []c06task{u("TestA", c06call{Kind: "snap", V: 1, Upd: 1}), u("TestB", c06call{Kind: "snap", V: 0})}, Sweep: 3000},
		{Pre: []c06pre{{Name: "TestA", Ord: 1, Kind: "snap", V: 0}, {Name: "TestB", Ord: 1, Kind: "snap", V: 0}}, Tasks: []c06task{u("TestA", c06call{Kind: "snap", V: 1, Upd: 1}), u("TestB", c06call{Kind: "json", V: 4, Upd: 1})}, Sweep: 3000},
		{Tasks: []c06task{u("TestA", c06call{Kind: "snap", V: 1}), u("TestB", c06call{Kind: "yaml", V: 0})}, Sweep: 3000},
		{Pre: []c06pre{{Name: "TestA", Ord: 1, Kind: "snap", V: 0}, {Name: "TestB", Ord: 1, Kind: "snap", V: 0}}, Tasks: []c06task{u("TestA", c06call{Kind: "snap", V: 1, Upd: 1}), u("TestB", c06call{Kind: "snap", V: 0})}, Sweep: 3000},
		{Pre: []c06pre{{Name: "TestA", Ord: 1, Kind: "snap", V: 0}, {Name: "TestB", Ord: 1, Kind: "snap", V: 1}}, Tasks: []c06task{u("TestA", c06call{Kind: "snap", V: 1, Upd: 1}), u("TestB", c06call{Kind: "snap", V: 0}), u("TestAA", c06call{Kind: "snap", V: 4})}, Sweep: 3000},
		{Tasks: []c06task{{Name: "TestA", Clones: 2, Runs: [][]c06call{{{Kind: "snap", V: 1}}}}, u("TestB", c06call{Kind: "snap", V: 1})}, Sweep: 3000},
	}
	h.Register("C06", "sweep", "2-3 tests with 1-2 calls each on one or two files: every schedule with one preemption and a budget of those with two, at every file system and lock operation of the package (its os and sync are replaced by instrumented ones)"+rule,
		60, 3000, func(t *rapid.T) c06 {
			tasks, calls, budget := 2, 1, 250
			if rapid.IntRange(0, 2).Draw(t, "bigger") == 0 {
				tasks, calls = 3, 2
			}
			if os.Getenv("VERIF_TIER") == "thorough" {
				budget = 1500
			}
			sc := genC06(t, tasks, calls, false)
			sc.Sweep, sc.Off = budget, rapid.IntRange(0, 1000).Draw(t, "off")
			return sc
		}, checkC06, corpus...).In("sched")
	h.Register("C06", "random", "2-5 tests and goroutines with up to 3 calls per execution and up to 2 executions under random walks and random preemptions, at every file system and lock operation"+rule,
		1500, 60000, func(t *rapid.T) c06 {
			sc := genC06(t, 5, 3, false)
			sc.First = rapid.IntRange(0, 9).Draw(t, "first")
			if rapid.Bool().Draw(t, "walk?") {
				sc.Walk = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 200).Draw(t, "walk")
			}
			n := rapid.IntRange(0, 5).Draw(t, "cuts")
			for i := 0; i < n; i++ {
				sc.Cut = append(sc.Cut, [2]int{rapid.IntRange(1, 160).Draw(t, "step"), rapid.IntRange(0, 3).Draw(t, "to")})
			}
			return sc
		}, checkC06).In("sched")
	h.Register("C06", "free", "2-6 tests and goroutines with up to 4 calls of all kinds (shared Configs, package level functions, skips) running freely, six times, under the race detector"+rule,
		500, 20000, func(t *rapid.T) c06 {
			sc := genC06(t, 6, 4, true)
			sc.Def = rapid.IntRange(0, 5).Draw(t, "def") == 0
			return sc
		}, checkC06).In("race")
}
