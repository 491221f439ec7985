package props

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

type wcall struct {
	Chain []string `json:"chain,omitempty"` // frames, outermost first: <file>:<kind>
	Exec  string   `json:"exec"`            // the file whose function makes the call
	Kind  string   `json:"kind"`
	Def   bool     `json:"def,omitempty"` // package level function
	Dir   *h.S     `json:"dir,omitempty"`
	Abs   bool     `json:"abs,omitempty"` // Dir is relative to a scratch directory and given as an absolute path
	File  h.S      `json:"file,omitempty"`
	Ext   h.S      `json:"ext,omitempty"`
	Chdir bool     `json:"chdir,omitempty"`
}

type wcase struct {
	Name   h.S     `json:"name"`
	Bottom string  `json:"bottom"` // the file of the test function
	Top    bool    `json:"top,omitempty"`
	Direct bool    `json:"direct,omitempty"` // calls without any frame in between
	Calls  []wcall `json:"calls"`
}

type where struct {
	Layout uint64  `json:"layout"`
	Pkg    int     `json:"pkg"`
	Trim   bool    `json:"trim"`
	Away   bool    `json:"away,omitempty"` // started in another directory
	Goflag string  `json:"goflags,omitempty"`
	Cases  []wcase `json:"cases"`
}

func isTestFile(f string) bool { return strings.HasSuffix(f, "_test.go") }

func genWhere(t *rapid.T) where {
	shard, _ := strconv.ParseUint(os.Getenv("VERIF_SHARD"), 10, 64)
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	w := where{Layout: seed*64 + shard*4}
	if os.Getenv("VERIF_TIER") == "thorough" {
		w.Layout += uint64(rapid.IntRange(0, 3).Draw(t, "layout"))
	}
	l := layoutOf(w.Layout)
	w.Pkg = rapid.IntRange(0, len(l.pkgs)-1).Draw(t, "pkg")
	w.Trim = rapid.Bool().Draw(t, "trimpath")
	if !w.Trim {
		w.Away = rapid.IntRange(0, 2).Draw(t, "away") == 0
		w.Goflag = rapid.SampledFrom([]string{"", "", "-mod=mod", "-count=1 -race"}).Draw(t, "goflags")
	} else {
		w.Goflag = rapid.SampledFrom([]string{"", "", "-trimpath", "-mod=mod -trimpath", "-mod=mod"}).Draw(t, "goflags")
	}
	p := l.pkgs[w.Pkg]
	tops := map[string]bool{}
	sanitised := map[string]bool{}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "cases"); i < n; i++ {
		cs := wcase{Bottom: rapid.SampledFrom(p.testFiles()).Draw(t, "bottom")}
		cs.Top = !tops[cs.Bottom] && rapid.IntRange(0, 9).Draw(t, "top") == 0
		if cs.Top {
			tops[cs.Bottom] = true
		}
		name := rapid.SampledFrom([]string{"a", "b", "a/b", "x y", "%d", "é", "a_b", "100%", "%s%v%d%%x%", "p.q", "[z]", "A", "\\", "a-1", "x_1", "TestW1", "a:b", "a*b", "q?", "\"q\"", "<b>", "p|q", "#1", "~", "a,b", "$HOME", "`", "'", "{}", "a;b", "A&B", "..", strings.Repeat("n", 120), "a/b/c/d", "a/b/c/d/e/f/g/h/i/j", "a//b", "a/b_c/d_e", strings.Repeat("d/", 30)}).Draw(t, "name")
		cs.Name = h.S(fmt.Sprintf("%s%d", name, i))
		if k := strings.ReplaceAll(string(cs.Name), "/", "_"); sanitised[k] {
			continue
		} else {
			sanitised[k] = true
		}
		cs.Direct = !cs.Top && rapid.IntRange(0, 3).Draw(t, "direct") == 0
		files := append(append(append([]string{}, p.testFiles()...), p.helpers...), libKeys...)
		// the external test package and the package can't see each other's functions, but a chain
		// of callbacks can go through both
		for c, m := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "calls"); c < m; c++ {
			wc := wcall{Kind: rapid.SampledFrom(fiveKinds).Draw(t, "kind")}
			last := cs.Bottom
			cleanup, sub := false, false
			if !cs.Direct {
				for f, d := 0, rapid.IntRange(0, 5).Draw(t, "frames"); f < d; f++ {
					file := rapid.SampledFrom(files).Draw(t, "file")
					if rapid.IntRange(0, 2).Draw(t, "non-test file") > 0 {
						file = rapid.SampledFrom(append(append([]string{}, p.helpers...), libKeys...)).Draw(t, "helper")
					}
					kinds := plainFrames
					if isTestFile(file) && m == 1 && rapid.IntRange(0, 2).Draw(t, "boundary") == 0 {
						kinds = boundaryFrames
					}
					k := rapid.SampledFrom(kinds).Draw(t, "frame")
					if k == "cleanup" || k == "sub" {
						// no subtest in a cleanup, one of each at most
						if cleanup || sub {
							k = "go"
						}
						cleanup = cleanup || k == "cleanup"
						sub = sub || k == "sub"
					}
					wc.Chain = append(wc.Chain, file+":"+k)
					if isTestFile(file) {
						last = file
					}
				}
				wc.Exec = last
				if rapid.Bool().Draw(t, "exec elsewhere") {
					wc.Exec = rapid.SampledFrom(files).Draw(t, "exec")
				}
				wc.Chdir = rapid.IntRange(0, 5).Draw(t, "chdir") == 0
			} else {
				wc.Exec = cs.Bottom
			}
			if rapid.IntRange(0, 3).Draw(t, "default") == 0 {
				wc.Def = true
			} else {
				if d := rapid.SampledFrom([]string{"-", "-", "snaps", "a/b", "../up", "./x/../y", ".", "", "%d", "%s%d%%/%v%", "a/b/c/d/e/f", "é x", "__snapshots__", "/", "../../x", "a/../../b", "~", "$HOME", "a b/c", ".hidden", "...", "A_TEST.go", "testdata", "a\\b", "x:y", "snaps/", "//ABS", "ABS", "ABS/n"}).Draw(t, "dir"); strings.HasPrefix(d, "ABS") {
					wc.Dir, wc.Abs = sdir("abs"+strings.TrimPrefix(d, "ABS")), true
				} else if d == "/" || d == "//ABS" {
					wc.Dir, wc.Abs = sdir("abs/%d/../q"), true
				} else if d != "-" {
					wc.Dir = sdir(d)
				}
				wc.File = h.S(rapid.SampledFrom([]string{"", "", "", "f", "a.b", "x_%d", "%%d%d%s%_", "a.b.c.d.e", "é", "sub/name", "w_test", "../f", "F.test", ".hidden", "f.snap", "a b", "x_test.go", "f_1", "a\\b", "x:y", "日本"}).Draw(t, "filename"))
				wc.Ext = h.S(rapid.SampledFrom([]string{"", "", ".txt", ".json", "x", ".a.b", ".%d", ".%d%d%%%s", ".a.b.c.d.e", ".snap", "snap", ".TXT", "_1", " x", ".", ".go"}).Draw(t, "ext"))
			}
			cs.Calls = append(cs.Calls, wc)
		}
		w.Cases = append(w.Cases, cs)
	}
	return w
}

// snapFile is where the property says the snapshot of a call is; for a standalone one with %d.
func (c wcall) snapFile(testFile, test, absBase string, k int) (string, bool) {
	dir := "__snapshots__"
	if c.Dir != nil && !c.Def {
		dir = string(*c.Dir)
		if c.Abs {
			dir = absBase + "/" + dir
		}
	}
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(filepath.Dir(testFile), dir)
	}
	name, ext := string(c.File), string(c.Ext)
	if c.Def {
		name, ext = "", ""
	}
	alone := c.Kind == "ssnap" || c.Kind == "sjson"
	if !alone {
		if name == "" {
			name = strings.TrimSuffix(filepath.Base(testFile), ".go")
		}
		return filepath.Join(dir, name+".snap"+ext), false
	}
	if name == "" {
		name = strings.ReplaceAll(test, "/", "_")
	}
	if c.Kind == "sjson" && ext == "" {
		ext = ".json"
	}
	return filepath.Join(dir, fmt.Sprintf("%s_%d.snap%s", name, k, ext)), true
}

func checkC11(c *h.C, w where) error {
	l := layoutOf(w.Layout)
	p := l.pkgs[w.Pkg]
	pkgDir := filepath.Join(l.root, p.dir)
	base := filepath.Join(l.root, "../../..")
	absBase := filepath.Join(base, "absolute")
	away := filepath.Join(base, "away")
	for _, d := range []string{away, filepath.Join(away, "__snapshots__")} {
		if err := os.MkdirAll(d, 0o777); err != nil {
			panic(h.Infra{Err: err})
		}
	}
	initial := h.ReadTree(base)
	defer func() {
		// leave only what was there
		for f := range h.ReadTree(base) {
			if _, ok := initial[f]; !ok {
				_ = os.RemoveAll(filepath.Join(base, f))
			}
		}
	}()

	// the spec of the child and what has to be there afterwards
	type slot struct{ id, val string }
	expected := map[string][]slot{}
	ords := map[string]int{}
	spec := []map[string]any{}
	n := 0
	for _, cs := range w.Cases {
		top := testFunc(l, w.Pkg, cs.Bottom)
		test := top
		if !cs.Top {
			test += "/" + rewritten(string(cs.Name))
		}
		calls := []map[string]any{}
		for _, wc := range cs.Calls {
			n++
			val := fmt.Sprintf("value %d", n)
			file, name := cs.Bottom, test
			for _, f := range wc.Chain {
				i := strings.LastIndexByte(f, ':')
				if isTestFile(f[:i]) {
					file = f[:i]
				}
				if f[i+1:] == "sub" {
					name += "/s"
				}
				c.Label("frame: %s", f[i+1:])
			}
			if isTestFile(wc.Exec) {
				file = wc.Exec
			}
			if file != cs.Bottom {
				c.Label("through another test file")
			}
			_, alone := wc.snapFile(filepath.Join(pkgDir, file), name, absBase, 0)
			key, _ := wc.snapFile(filepath.Join(pkgDir, file), name, absBase, 1<<40)
			ords[name+"\x00"+key]++
			k := ords[name+"\x00"+key]
			f, _ := wc.snapFile(filepath.Join(pkgDir, file), name, absBase, k)
			body := val
			if wc.Kind != "snap" && wc.Kind != "ssnap" {
				body = strconv.Quote(val)
			}
			id := fmt.Sprintf("%s - %d", name, k)
			if alone {
				id = ""
				if len(expected[f]) > 0 {
					// two tests with one custom file name: documented to collide
					return nil
				}
			}
			expected[f] = append(expected[f], slot{id, body})
			cm := map[string]any{"Chain": wc.Chain, "Exec": wc.Exec, "Kind": wc.Kind, "Def": wc.Def, "Val": val}
			if wc.Dir != nil {
				d := string(*wc.Dir)
				if wc.Abs {
					d = absBase + "/" + d
				}
				cm["Dir"] = strconv.QuoteToASCII(d)
			}
			if wc.File != "" {
				cm["File"] = strconv.QuoteToASCII(string(wc.File))
			}
			if wc.Ext != "" {
				cm["Ext"] = strconv.QuoteToASCII(string(wc.Ext))
			}
			if wc.Chdir {
				cm["Chdir"] = strconv.QuoteToASCII(away)
				c.Label("chdir")
			}
			calls = append(calls, cm)
			if len(wc.Chain) > 0 || wc.Dir != nil || wc.File != "" || wc.Ext != "" {
				c.NonTrivial()
			}
		}
		spec = append(spec, map[string]any{"Name": strconv.QuoteToASCII(string(cs.Name)), "Bottom": cs.Bottom, "Top": cs.Top, "Direct": cs.Direct, "Calls": calls})
	}
	// a multi-entry and a standalone snapshot, or a file and a directory, at one path
	for f, ss := range expected {
		kinds := map[bool]bool{}
		for _, s := range ss {
			kinds[s.id == ""] = true
		}
		if len(kinds) > 1 {
			return nil
		}
		if _, there := initial[rel(base, f)]; there {
			return nil
		}
		for g := range expected {
			if strings.HasPrefix(g, f+"/") {
				return nil
			}
		}
	}
	c.Evaluations(max(n, 1))
	b, err := json.Marshal(spec)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	aux := c.Dir()
	specFile := filepath.Join(aux, "spec.json")
	if err := os.WriteFile(specFile, b, 0o666); err != nil {
		panic(h.Infra{Err: err})
	}
	cmd := exec.Command(p.bins[w.Trim], "-test.v=false", "-test.timeout=60s")
	cmd.Dir = pkgDir
	if w.Away {
		cmd.Dir = away
	}
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "TMPDIR=" + aux, "WHERE_SPEC=" + specFile, "NO_COLOR=1"}
	if w.Goflag != "" {
		cmd.Env = append(cmd.Env, "GOFLAGS="+w.Goflag)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out []byte
	var rerr error
	done := make(chan bool)
	go func() {
		out, rerr = cmd.CombinedOutput()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		if cmd.Process != nil {
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
		<-done
	}
	if strings.Contains(string(out), "no frame ") || strings.Contains(string(out), "no exec ") {
		panic(h.Infra{Err: fmt.Errorf("%s", out)})
	}
	c.Label("trimpath: %v, depth %d, started away: %v", w.Trim, strings.Count(p.dir, "/")+min(len(p.dir), 1), w.Away)

	got := h.ReadTree(base)
	var names []string
	for f, st := range got {
		if _, was := initial[f]; !was && !st.Dir {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	how := fmt.Sprintf("package %q, -trimpath %v", p.dir, w.Trim)
	for _, f := range names {
		abs := filepath.Join(base, f)
		ss, ok := expected[abs]
		if !ok {
			return fmt.Errorf("%s: a snapshot at %s, expected %v", how, f, expectedNames(base, expected))
		}
		if ss[0].id == "" {
			if s := strings.TrimSuffix(got[f].Data, "\n"); s != ss[0].val {
				return fmt.Errorf("%s: the standalone snapshot %s holds %s, expected %s", how, f, h.Show(s), h.Show(ss[0].val))
			}
			continue
		}
		es, err := h.ParseStore(got[f].Data)
		if err != nil {
			return fmt.Errorf("%s: %s: %v", how, f, err)
		}
		if len(es) != len(ss) {
			return fmt.Errorf("%s: %s holds %d entries, expected %d", how, f, len(es), len(ss))
		}
		for _, s := range ss {
			if v := h.Lookup(es, s.id); len(v) != 1 || v[0] != s.val {
				return fmt.Errorf("%s: %s holds %q for [%s], expected %q", how, f, v, s.id, s.val)
			}
		}
	}
	if len(names) != len(expected) {
		return fmt.Errorf("%s: snapshots at %q, expected %v\n%s", how, names, expectedNames(base, expected), out)
	}
	for f, st := range initial {
		if g, ok := got[f]; !ok || g.Data != st.Data {
			return fmt.Errorf("%s: %s was changed", how, f)
		}
	}
	if rerr != nil {
		return fmt.Errorf("%s: the tests failed: %v\n%s", how, rerr, out)
	}
	return nil
}

func expectedNames[T any](base string, m map[string]T) []string {
	var l []string
	for f := range m {
		l = append(l, rel(base, f))
	}
	sort.Strings(l)
	return l
}

// testFunc is the name of the test function in a file of a package.
func testFunc(l *layout, pkg int, file string) string {
	b, err := os.ReadFile(filepath.Join(l.root, l.pkgs[pkg].dir, file))
	if err != nil {
		panic(h.Infra{Err: err})
	}
	i := strings.Index(string(b), "func TestW")
	s := string(b)[i+5:]
	return s[:strings.IndexByte(s, '(')]
}

func init() {
	h.Register("C11", "where", "modules generated per shard (packages at the root, one and three levels deep, several test files per package, an external test package, non-test files with names close to test files, packages called testing, functions called tRunner, odd directory names), compiled with and without -trimpath; an interpreter makes calls of all entry points through random chains of frames in any of these files (closures, methods, interfaces, generics, defers, recovered panics, reflection, callbacks from the standard library, recursion, goroutines, subtests, cleanups) with random Dir, Filename and Ext, working directory changes and start directories; the files that exist afterwards, and what they hold, must be exactly the ones computed from the nearest test file, the test name and the options; non-trivial: a frame in between or an option",
		3000, 12000, genWhere, checkC11)
}
