package props

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type c19Test struct {
	Name  h.S    `json:"name"`
	Cfg   Cfg    `json:"cfg"`
	Calls []Call `json:"calls"`
	New   []Call `json:"new"` // the values of the runs that have Second
}

type c19Run struct {
	Update *bool `json:"update,omitempty"`
	Second []int `json:"second,omitempty"` // cycled over the calls: which of the two values
	Par    bool  `json:"par,omitempty"`    // the tests run concurrently
	Order  []int `json:"order"`
	Skip   []int `json:"skip,omitempty"` // tests that do not take part
}

type c19 struct {
	Tests []c19Test      `json:"tests"`
	Pre   map[string]h.S `json:"pre,omitempty"`  // files of slots and other files
	Same  []int          `json:"same,omitempty"` // slots (counted over all calls) that hold the value already
	Runs  []c19Run       `json:"runs"`
	Multi int            `json:"multi,omitempty"` // multi-entry calls mixed in, every n-th call
}

var standaloneNames = []string{
	"TestS", "TestS/sub", "TestS/sub#01", "TestS/a/b", "TestS_1", "TestS/x_1", "TestÜ", "TestS/100%", "TestS/%d", "TestS/a b", "TestS/é/😀", "TestS/[x]", "TestS/..", "TestS/\"q\"", "TestS/\xff", "TestS/.", "FuzzS/seed#0", "TestS/-", "TestS/a/b/c/d/e/f/g/h", "TestS//a", "TestS/a_b/c", "TestS/" + strings.Repeat("n", 200), "TestS" + strings.Repeat("/d", 40),
}

func (tt c19Test) stem() string {
	if tt.Cfg.File != "" {
		return string(tt.Cfg.File)
	}
	return strings.ReplaceAll(string(tt.Name), "/", "_")
}

// files are the file names of the calls, by the documented rule.
func (tt c19Test) files(calls []Call) []string {
	count := map[string]int{}
	var out []string
	for _, c := range calls {
		ext := string(tt.Cfg.Ext)
		if c.Kind == "sjson" && ext == "" {
			ext = ".json"
		}
		k := ".snap" + ext
		count[k]++
		out = append(out, fmt.Sprintf("%s_%d%s", tt.stem(), count[k], k))
	}
	return out
}

func genC19Val(t *rapid.T, kind string) Call {
	if kind == "ssnap" && rapid.IntRange(0, 3).Draw(t, "text kind") == 0 {
		// bytes that a line oriented store would not keep
		s := rapid.SampledFrom([]string{
			"", "\n", "\r", "\r\n", "a\r\nb\r\n", "a\rb\r", "\n\n", " ", "---", "---\n", "/-/-/-/", "\n---\n", "[TestS - 1]\nx\n---\n", "\n[TestS - 1]\nx\n---\n", "\x00", "\xff\xfe", "a\n", "a",
			"\ufeffbom", "no newline at the end", "\n\nlead", "trail\n\n\n", strings.Repeat("x", 70000), strings.Repeat("line\r\n", 3000), "%d %s %!v(MISSING)", "\x1b[31mred\x1b[0m",
		}).Draw(t, "special")
		return Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(s)}}}
	}
	return genCallOf(t, kind, "TestS")
}

func genC19(t *rapid.T) c19 {
	sc := c19{Pre: map[string]h.S{}, Multi: rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "multi")}
	names := rapid.Permutation(standaloneNames).Draw(t, "names")
	n := rapid.IntRange(1, 3).Draw(t, "tests")
	taken := map[string]bool{}
	total := 0
	for i := 0; i < n; i++ {
		tt := c19Test{Name: h.S(names[i])}
		tt.Cfg.File = h.S(rapid.SampledFrom([]string{"", "", "", "file", "a b", "%d", "%d%%s%v%", "x_1", "é"}).Draw(t, "file"))
		tt.Cfg.Ext = h.S(rapid.SampledFrom([]string{"", "", "", ".txt", ".html", ".snap", ".json"}).Draw(t, "ext"))
		if rapid.IntRange(0, 5).Draw(t, "json config") == 0 {
			tt.Cfg.JSON = &JSONCfg{
				Width: rapid.SampledFrom([]int{0, 1, 20, 80, 500}).Draw(t, "width"), Indent: h.S(rapid.SampledFrom([]string{"", " ", "\t"}).Draw(t, "indent")),
				SortKeys: rapid.Bool().Draw(t, "sort"),
			}
		}
		for k, m := 0, rapid.SampledFrom([]int{1, 1, 2, 3, 4, 12}).Draw(t, "calls"); k < m; k++ {
			kind := rapid.SampledFrom([]string{"ssnap", "ssnap", "sjson"}).Draw(t, "kind")
			call := genC19Val(t, kind)
			tt.Calls = append(tt.Calls, call)
			if kind == "ssnap" && rapid.Bool().Draw(t, "near") {
				s := editText(t, formatValues(call.Vals))
				tt.New = append(tt.New, Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(s)}}})
			} else {
				tt.New = append(tt.New, genC19Val(t, kind))
			}
		}
		fs := tt.files(tt.Calls)
		clash := false
		for _, f := range fs {
			clash = clash || taken[f]
		}
		if clash {
			continue
		}
		for _, f := range fs {
			taken[f] = true
			if rapid.IntRange(0, 5).Draw(t, "pre?") == 0 {
				sc.Pre[f] = h.S(h.TallText(true, "TestS").Draw(t, "pre"))
			}
			total++
		}
		sc.Tests = append(sc.Tests, tt)
	}
	for i := 0; i < total; i++ {
		if rapid.IntRange(0, 5).Draw(t, "same?") == 0 {
			sc.Same = append(sc.Same, i)
		}
	}
	for i, m := 0, rapid.IntRange(0, 2).Draw(t, "others"); i < m; i++ {
		f := rapid.SampledFrom([]string{"TestS_0.snap", "TestS_01.snap", "TestS.snap", "TestS_100.snap", "TestS_1", "TestS_1.snap.bak", "file_9.snap.json", "TestS_1.json", "sub/TestS_1.snap", "other.txt"}).Draw(t, "other file")
		if !taken[f] {
			sc.Pre[f] = h.S(h.TallText(true).Draw(t, "other content"))
		}
	}
	for i, m := 0, rapid.IntRange(2, 5).Draw(t, "runs"); i < m; i++ {
		r := c19Run{
			Update: rapid.SampledFrom([]*bool{nil, nil, ptr(true), ptr(true), ptr(false)}).Draw(t, "update"), Par: rapid.IntRange(0, 3).Draw(t, "par") == 0,
			Second: rapid.SliceOfN(rapid.IntRange(0, 1), 1, 3).Draw(t, "second"),
		}
		if i == 0 && rapid.Bool().Draw(t, "record first") {
			r.Update, r.Second = nil, []int{0}
		}
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "replay") == 0 {
			r.Second = sc.Runs[i-1].Second
		}
		if len(sc.Tests) > 1 && rapid.IntRange(0, 4).Draw(t, "skip") == 0 {
			r.Skip = []int{rapid.IntRange(0, len(sc.Tests)-1).Draw(t, "skipped")}
		}
		var ids []int
		for k, tt := range sc.Tests {
			for range tt.Calls {
				ids = append(ids, k)
			}
		}
		if len(ids) > 0 {
			r.Order = rapid.Permutation(ids).Draw(t, "order")
		}
		sc.Runs = append(sc.Runs, r)
	}
	return sc
}

// formattedStandalone is the text of a standalone call; known is false where only a recording
// could tell (JSON on CI).
func formattedStandalone(c *h.C, k Cfg, call Call) (text string, known bool, err error) {
	if call.Kind == "ssnap" {
		return formatValues(call.Vals), true, nil
	}
	if ci, _ := modeOf(); ci {
		return "", false, nil
	}
	multi := call
	multi.Kind = "json"
	text, err = fmtText(c, k, multi)
	if err != nil {
		return "", false, err
	}
	text = unescapeBody(text)
	if !json.Valid([]byte(text)) {
		return "", false, fmt.Errorf("MatchJSON stored no valid JSON: %s", h.Show(text))
	}
	return text, true, nil
}

func checkC19(c *h.C, sc c19) error {
	ci, _ := modeOf()
	dir := c.Dir()
	type slot struct {
		file  string
		call  [2]Call
		text  [2]string
		known bool
	}
	var slots [][]slot // test, call
	state := map[string]string{}
	for f, d := range sc.Pre {
		state[f] = string(d)
	}
	same := map[int]bool{}
	for _, i := range sc.Same {
		same[i] = true
	}
	n := 0
	for _, tt := range sc.Tests {
		var ss []slot
		for i, f := range tt.files(tt.Calls) {
			s := slot{file: f, call: [2]Call{tt.Calls[i], tt.New[i]}, known: true}
			for v, call := range s.call {
				text, known, err := formattedStandalone(c, Cfg{JSON: tt.Cfg.JSON}, call)
				if err != nil {
					return err
				}
				s.text[v], s.known = text, s.known && known
			}
			if same[n] && s.known {
				state[f] = s.text[0]
			}
			n++
			ss = append(ss, s)
		}
		slots = append(slots, ss)
	}
	files := map[string]h.S{}
	for f, d := range state {
		files[f] = h.S(d)
	}
	if err := h.WriteFiles(dir, files); err != nil {
		return err
	}

	multis := 0
	for r, run := range sc.Runs {
		skip := map[int]bool{}
		for _, s := range run.Skip {
			skip[s] = true
		}
		ts := make([]*h.T, len(sc.Tests))
		cfgs := make([]*snaps.Config, len(sc.Tests))
		for i, tt := range sc.Tests {
			ts[i] = h.NewT(string(tt.Name))
			k := tt.Cfg
			k.Dir = sdir(dir)
			k.Update = run.Update
			cfgs[i] = k.Build()
		}
		var mu sync.Mutex
		call := func(i, j int) (want, got, where string, ev []h.Event, err error) {
			s := slots[i][j]
			v := run.Second[j%len(run.Second)]
			where = fmt.Sprintf("run %d (update %s) %s call %d (%s -> %s)", r, showBool(run.Update), sc.Tests[i].Name, j+1, s.call[v].Kind, s.file)
			mu.Lock()
			cur, have := state[s.file]
			switch {
			case !have && mayCreate(run.Update):
				want = h.Added
			case !have:
				want = h.Failed
			case !s.known:
				want = "" // on CI
			case cur == s.text[v]:
				want = h.Passed
			case mayUpdate(run.Update):
				want = h.Updated
			default:
				want = h.Failed
			}
			if want == h.Added || want == h.Updated {
				state[s.file] = s.text[v]
			}
			mu.Unlock()
			got, ev, err = step(ts[i], cfgs[i], s.call[v])
			if err != nil {
				err = fmt.Errorf("%s: %w", where, err)
				return
			}
			if want == "" && (got == h.Passed || got == h.Failed) {
				want = got
			}
			if got != want {
				err = fmt.Errorf("%s: %s, expected %s (file %s, value %s): %s", where, got, want, h.Show(cur), h.Show(s.text[v]), h.ShowEvents(ev))
			}
			return
		}
		compare := func(where string, before, after h.Tree) error {
			got := after.Files()
			for f, d := range state {
				g, ok := got[f]
				if !ok {
					return fmt.Errorf("%s: %s is not there", where, f)
				}
				if g != d {
					return fmt.Errorf("%s: %s holds\n  %s\ninstead of\n  %s", where, f, h.Show(g), h.Show(d))
				}
				delete(got, f)
			}
			for f := range got {
				if f != "multi.snap" {
					return fmt.Errorf("%s: unexpected file %s", where, f)
				}
			}
			return nil
		}
		if run.Par {
			before := onlyFiles(h.Age(dir))
			var wg sync.WaitGroup
			errs := make([]error, len(sc.Tests))
			wrote := make([]bool, len(sc.Tests))
			for i := range sc.Tests {
				if skip[i] {
					continue
				}
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							errs[i] = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
						}
					}()
					for j := range slots[i] {
						want, _, _, _, err := call(i, j)
						if err != nil {
							errs[i] = err
							return
						}
						wrote[i] = wrote[i] || want == h.Added || want == h.Updated
					}
					ts[i].RunCleanups()
				}()
			}
			wg.Wait()
			any := false
			for i, err := range errs {
				if err != nil {
					return err
				}
				any = any || wrote[i]
			}
			after := onlyFiles(h.ReadTree(dir))
			if !any {
				if err := h.Untouched(before, after); err != nil {
					return fmt.Errorf("run %d (concurrent) only compared, but %w", r, err)
				}
			}
			if err := compare(fmt.Sprintf("run %d (concurrent)", r), before, after); err != nil {
				return err
			}
			c.Label("concurrent runs")
			continue
		}
		next := make([]int, len(sc.Tests))
		for x, i := range run.Order {
			if skip[i] {
				continue
			}
			j := next[i]
			next[i]++
			if sc.Multi > 0 && x%sc.Multi == 0 {
				// a call on a multi-entry file has ordinals of its own
				k := Cfg{Dir: sdir(dir), File: "multi"}
				snaps.WithConfig(snaps.Dir(dir), snaps.Filename("multi")).MatchSnapshot(ts[i], "m")
				_ = k
				multis++
			}
			before := onlyFiles(h.Age(dir))
			want, _, where, _, err := call(i, j)
			if err != nil {
				return err
			}
			after := onlyFiles(h.ReadTree(dir))
			if err := compare(where, before, after); err != nil {
				return err
			}
			file := slots[i][j].file
			if want == h.Added || want == h.Updated {
				delete(before, file)
				delete(after, file)
			}
			if err := h.Untouched(before, after); err != nil {
				return fmt.Errorf("%s %s, but %w", where, want, err)
			}
			c.Label("%s %s", slots[i][j].call[0].Kind, want)
			if j > 0 && (want == h.Updated || want == h.Passed) {
				c.NonTrivial()
			}
			if want == h.Added || want == h.Updated {
				if s := slots[i][j]; s.call[0].Kind == "sjson" {
					d := after[file].Data + state[file]
					if d == "" || strings.HasSuffix(state[file], "\n") || !json.Valid([]byte(state[file])) {
						return fmt.Errorf("%s: %s is not JSON without a final newline: %s", where, filepath.Base(file), h.Show(state[file]))
					}
				} else if strings.Contains(state[file], "\r") {
					c.Label("value with a carriage return stored")
				}
			}
		}
		for i, t := range ts {
			if !skip[i] {
				t.RunCleanups()
			}
		}
	}
	_ = ci
	return nil
}

func init() {
	rule := "1-3 tests with 1-12 standalone calls each (values of all kinds and bytes, carriage returns, look-alikes of entries; JSON documents), own or test-derived file names and extensions, files that are there already or look alike, executed 2-5 times (as with -count) in any interleaving or concurrently, with first or second values, in all modes; after every call every file must hold exactly the modelled bytes and nothing else be touched; non-trivial: a call after the first of a test that passed or updated"
	var corpus []c19
	for _, s := range []string{"", "\n", "\r\n", "a\r\n", "a\r", "---", "\n[TestS - 1]\nx\n---\n", "\x00\xff", "x"} {
		for _, s2 := range []string{"", "\n", "\r", "longer than the other one\n"} {
			v := func(s string) Call { return Call{Kind: "ssnap", Vals: []Val{{K: "str", S: h.S(s)}}} }
			tt := c19Test{Name: "TestS/sub", Calls: []Call{v(s), v(s2), v(s + s2)}, New: []Call{v(s2), v(s), v(s2 + s)}}
			o := []int{0, 0, 0}
			corpus = append(corpus, c19{Tests: []c19Test{tt}, Runs: []c19Run{
				{Second: []int{0}, Order: o}, {Second: []int{0}, Order: o}, {Second: []int{1}, Order: o}, {Update: ptr(true), Second: []int{1, 0}, Order: o}, {Second: []int{1, 0}, Order: o, Update: ptr(false)}, {Update: ptr(true), Second: []int{0}, Order: o},
			}})
		}
	}
	// more calls than fit in a byte
	long := c19Test{Name: "TestS"}
	var order []int
	for i := 0; i < 270; i++ {
		v := func(s string) Call { return Call{Kind: "ssnap", Vals: []Val{{K: "str", S: h.S(s)}}} }
		long.Calls = append(long.Calls, v(fmt.Sprintf("value %d", i)))
		long.New = append(long.New, v(fmt.Sprintf("new %d", i)))
		order = append(order, 0)
	}
	corpus = append(corpus, c19{Tests: []c19Test{long}, Runs: []c19Run{{Second: []int{0}, Order: order}, {Second: []int{0}, Order: order}, {Update: ptr(true), Second: []int{0, 0, 1}, Order: order}}})
	h.Register("C19", "standalone", rule, 3000, 150000, genC19, checkC19, corpus...).In("plain", "updenv", "ci", "ciupd")
}
