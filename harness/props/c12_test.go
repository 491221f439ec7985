package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// sourceDir is where this file was compiled from: the directory of the calling test file.
func sourceDir() string { return filepath.Join(os.Getenv("VERIF_HARNESS"), "props") }

// withSourceDir gives exclusive use of the directories named below the source directory, where
// calls without an absolute Dir end up.
func withSourceDir(f func() error, names ...string) error {
	l, err := os.OpenFile(filepath.Join(os.Getenv("VERIF_HARNESS"), "lock"), os.O_CREATE|os.O_RDWR, 0o666)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	defer l.Close()
	if err := syscall.Flock(int(l.Fd()), syscall.LOCK_EX); err != nil {
		panic(h.Infra{Err: err})
	}
	clean := func() {
		for _, n := range names {
			_ = os.RemoveAll(filepath.Join(sourceDir(), n))
		}
	}
	clean()
	defer clean()
	return f()
}

type c12op struct {
	C    int    `json:"c"` // config, -1: package level function
	T    int    `json:"t"`
	Kind string `json:"kind"`
	V    int    `json:"v"`  // value in the first round
	V2   int    `json:"v2"` // value in the second round
}

type c12 struct {
	Cfgs    []Cfg   `json:"cfgs"`
	Source  bool    `json:"source,omitempty"` // configs without an absolute Dir
	Conc    bool    `json:"conc,omitempty"`   // one goroutine per test
	Ops     []c12op `json:"ops"`
	NoReset bool    `json:"noReset,omitempty"`
}

var c12Names = []string{"TestA", "TestA/sub", "TestB"}

func genC12(t *rapid.T) c12 {
	sc := c12{Source: rapid.IntRange(0, 5).Draw(t, "source") == 0, Conc: rapid.IntRange(0, 2).Draw(t, "conc") == 0}
	n := rapid.IntRange(1, 3).Draw(t, "cfgs")
	for i := 0; i < n; i++ {
		k := Cfg{
			File: h.S(rapid.SampledFrom([]string{"", "", "f", "g"}).Draw(t, "file")),
			Ext:  h.S(rapid.SampledFrom([]string{"", "", "", ".txt", ".json", ".html"}).Draw(t, "ext")),
		}
		k.Update = rapid.SampledFrom([]*bool{nil, nil, ptr(true), ptr(false)}).Draw(t, "update")
		if rapid.IntRange(0, 3).Draw(t, "json?") == 0 {
			k.JSON = &JSONCfg{
				Width: rapid.SampledFrom([]int{0, 10, 200}).Draw(t, "width"), Indent: h.S(rapid.SampledFrom([]string{"", " ", "\t", "   "}).Draw(t, "indent")),
				SortKeys: rapid.Bool().Draw(t, "sort"),
			}
		}
		if sc.Source {
			k.Dir = rapid.SampledFrom([]*h.S{nil, nil, sdir("zz_rel"), sdir("zz_rel/deep")}).Draw(t, "dir")
		}
		sc.Cfgs = append(sc.Cfgs, k)
	}
	for i, m := 0, rapid.IntRange(2, 12).Draw(t, "ops"); i < m; i++ {
		op := c12op{
			C: rapid.IntRange(0, n-1).Draw(t, "c"), T: rapid.IntRange(0, len(c12Names)-1).Draw(t, "t"),
			Kind: rapid.SampledFrom([]string{"snap", "json", "yaml", "ssnap", "sjson"}).Draw(t, "kind"), V: rapid.IntRange(0, 3).Draw(t, "v"),
		}
		op.V2 = op.V + 4*rapid.IntRange(0, 1).Draw(t, "changes")
		if sc.Source && rapid.IntRange(0, 3).Draw(t, "package level") == 0 {
			op.C = -1
		}
		if op.C >= 0 && sc.Cfgs[op.C].File != "" && strings.HasPrefix(op.Kind, "s") && op.Kind != "snap" {
			op.T = 0 // a standalone path belongs to one test
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

func c12Call(kind string, v int) Call {
	switch kind {
	case "json", "sjson":
		// members out of order and an array, so that the JSON options show
		return Call{Kind: kind, Form: "str", Doc: h.S(fmt.Sprintf(`{"z":%d,"a":[1,2,3,4,5,6,7],"m":{"y":"---","b":null}}`, v))}
	case "yaml":
		return Call{Kind: kind, Form: "str", Doc: h.S(fmt.Sprintf("a: %d\n---\nb: 2\n", v))}
	}
	return Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(fmt.Sprintf("value %d\n---", v))}}}
}

// c12Path is the file an op addresses; for standalone files a pattern with one %d.
func c12Path(base string, k Cfg, op c12op, name string) string {
	dir := base
	if k.Dir != nil {
		dir = string(*k.Dir)
	} else if base == "" {
		dir = "__snapshots__"
	}
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(sourceDir(), dir)
	}
	f, ext := string(k.File), string(k.Ext)
	switch op.Kind {
	case "ssnap", "sjson":
		if f == "" {
			f = strings.ReplaceAll(name, "/", "_")
		}
		if op.Kind == "sjson" && ext == "" {
			ext = ".json"
		}
		return filepath.Join(dir, f+"_%d.snap"+ext)
	}
	if f == "" {
		f = "exec_test"
	}
	return filepath.Join(dir, f+".snap"+ext)
}

type c12res struct {
	outcome string
	events  []h.Event
}

func checkC12(c *h.C, sc c12) error {
	if err := probeDefaults(c); err != nil {
		return err
	}
	if sc.Source {
		return withSourceDir(func() error { return runC12(c, sc, "") }, "__snapshots__", "zz_rel")
	}
	return runC12(c, sc, c.Dir())
}

func runC12(c *h.C, sc c12, base string) error {
	full := func(k Cfg) Cfg {
		if base != "" {
			k.Dir = sdir(base)
		}
		return k
	}
	roots := []string{base}
	if base == "" {
		roots = []string{filepath.Join(sourceDir(), "__snapshots__"), filepath.Join(sourceDir(), "zz_rel")}
	}
	read := func() map[string]string {
		m := map[string]string{}
		for _, r := range roots {
			for p, d := range h.ReadTree(r).Files() {
				m[filepath.Join(r, p)] = d
			}
		}
		return m
	}
	wipe := func() {
		for _, r := range roots {
			_ = os.RemoveAll(r)
		}
	}
	value := func(op c12op, round int) int {
		if round == 0 {
			return op.V
		}
		return op.V2
	}
	// what the options alone say
	type slot struct {
		path, id string
	}
	want := make([][]string, 2)
	exists := map[slot]int{}
	paths := map[string]bool{}
	for round := 0; round < 2; round++ {
		ord := map[slot]int{}
		for _, op := range sc.Ops {
			k := Cfg{}
			if op.C >= 0 {
				k = sc.Cfgs[op.C]
			}
			name := c12Names[op.T]
			p := c12Path(base, k, op, name)
			var s slot
			if op.Kind == "ssnap" || op.Kind == "sjson" {
				ord[slot{p, ""}]++
				s = slot{strings.Replace(p, "%d", fmt.Sprint(ord[slot{p, ""}]), 1), ""}
			} else {
				ord[slot{p, name}]++
				s = slot{p, fmt.Sprintf("%s - %d", name, ord[slot{p, name}])}
			}
			// calls of other kinds on one slot do not happen: round 2 makes the same calls
			old, ok := exists[s]
			v := value(op, round)
			o := h.Passed
			switch {
			case !ok && k.Update != nil && !*k.Update:
				o = h.Failed
			case !ok:
				o = h.Added
				exists[s] = v
				paths[s.path] = true
			case old != v && k.Update != nil && *k.Update:
				o = h.Updated
				exists[s] = v
			case old != v:
				o = h.Failed
			}
			want[round] = append(want[round], o)
		}
	}
	run := func(shared bool) ([][]c12res, map[string]string, error) {
		wipe()
		res := make([][]c12res, 2)
		var cfgs []*snaps.Config
		for _, k := range sc.Cfgs {
			cfgs = append(cfgs, full(k).Build())
		}
		for round := 0; round < 2; round++ {
			res[round] = make([]c12res, len(sc.Ops))
			errs := make([]error, len(sc.Ops))
			ts := make([]*h.T, len(c12Names))
			for i, n := range c12Names {
				ts[i] = h.NewT(n)
			}
			one := func(i int) {
				op := sc.Ops[i]
				var k *snaps.Config
				switch {
				case shared && op.C >= 0:
					k = cfgs[op.C]
				case !shared && op.C >= 0:
					k = full(sc.Cfgs[op.C]).Build()
				case !shared:
					k = snaps.WithConfig()
				}
				o, ev, err := step(ts[op.T], k, c12Call(op.Kind, value(op, round)))
				res[round][i], errs[i] = c12res{o, ev}, err
			}
			if shared && sc.Conc {
				var wg sync.WaitGroup
				for ti := range ts {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i, op := range sc.Ops {
							if op.T == ti {
								one(i)
							}
						}
					}()
				}
				wg.Wait()
			} else {
				for i := range sc.Ops {
					one(i)
				}
			}
			for _, t := range ts {
				t.RunCleanups()
			}
			for i, err := range errs {
				if err != nil {
					return nil, nil, fmt.Errorf("round %d op %d: %w", round+1, i, err)
				}
			}
		}
		return res, read(), nil
	}
	resShared, filesShared, err := run(true)
	if err != nil {
		return err
	}
	resFresh, filesFresh, err := run(false)
	if err != nil {
		return err
	}
	for round := range want {
		for i, op := range sc.Ops {
			s, f := resShared[round][i], resFresh[round][i]
			what := fmt.Sprintf("round %d op %d (%s by %s through config %d)", round+1, i, op.Kind, c12Names[op.T], op.C)
			if s.outcome != want[round][i] {
				return fmt.Errorf("%s: outcome %s through the shared config, its options say %s %s", what, s.outcome, want[round][i], h.ShowEvents(s.events))
			}
			if f.outcome != want[round][i] {
				return fmt.Errorf("%s: outcome %s through a fresh config, its options say %s %s", what, f.outcome, want[round][i], h.ShowEvents(f.events))
			}
			if !sc.Conc && !reflect.DeepEqual(s.events, f.events) {
				return fmt.Errorf("%s: the shared config signals %s, a fresh one %s", what, h.ShowEvents(s.events), h.ShowEvents(f.events))
			}
		}
	}
	for _, fs := range []map[string]string{filesShared, filesFresh} {
		for p := range fs {
			if !paths[p] {
				return fmt.Errorf("%s was written, no option says so (expected %v)", p, keysOf(paths))
			}
		}
		for p := range paths {
			if _, ok := fs[p]; !ok {
				return fmt.Errorf("%s was not written (there are %v)", p, keysOf(fs))
			}
		}
	}
	for p, a := range filesShared {
		b := filesFresh[p]
		if sc.Conc {
			a, b = sortedEntries(a), sortedEntries(b)
		}
		if a != b {
			return fmt.Errorf("%s differs: through the shared config %s, through fresh ones %s", p, h.Show(a), h.Show(b))
		}
	}
	if err := probeDefaults(c); err != nil {
		return err
	}
	kinds := map[string]bool{}
	for _, op := range sc.Ops {
		kinds[fmt.Sprint(op.C, op.Kind)] = true
	}
	if len(kinds) > 1 {
		c.NonTrivial()
	}
	c.Label("concurrent: %v", sc.Conc)
	c.Label("package level and relative dirs: %v", sc.Source)
	return nil
}

var pristine struct {
	once  sync.Once
	files map[string]string
}

// probeDefaults compares what a config without options does with what it did before any other
// config of this process was built.
func probeDefaults(c *h.C) error {
	files, err := defaultProbe(c)
	if err != nil {
		return err
	}
	if pristine.files == nil {
		pristine.files = files
		return nil
	}
	if !reflect.DeepEqual(files, pristine.files) {
		return fmt.Errorf("a config with only Dir stores %v, at the start of the process it stored %v", files, pristine.files)
	}
	return nil
}

func defaultProbe(c *h.C) (map[string]string, error) {
	dir := c.Dir()
	t := h.NewT("TestProbe")
	defer t.RunCleanups()
	for _, kind := range []string{"snap", "json", "yaml", "ssnap", "sjson"} {
		if o, ev, err := step(t, snaps.WithConfig(snaps.Dir(dir)), c12Call(kind, 1)); o != h.Added {
			return nil, fmt.Errorf("a config with only Dir: %s %s %v", o, h.ShowEvents(ev), err)
		}
	}
	return h.ReadTree(dir).Files(), nil
}

// sortedEntries makes multi-entry files comparable when the order of entries is open.
func sortedEntries(s string) string {
	es, err := h.ParseStore(s)
	if err != nil || len(es) == 0 {
		return s
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].ID < es[j].ID })
	return h.Render(es)
}

func keysOf[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func init() {
	h.Register("C12", "shared",
		"1-3 configs (Dir, Filename, Ext, Update, JSON options) and 2-12 calls of the five kinds by three tests through them, and through the package level functions, sequentially or one goroutine per test, twice with changed values; compared with the same calls through fresh equal configs and with outcomes and file names computed from the options alone; non-trivial: at least two different (config, kind) pairs",
		2200, 30000, genC12, checkC12).In("plain", "race")
}
