package props

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/gkampitakis/go-snaps/zverif/h"
)

// A layout is a module with packages at several depths whose source files hold all kinds of frames
// that can be between a test function and a Match* call. It is compiled twice, with and without
// -trimpath; an interpreter in the package lib then makes calls through any chain of them.
type layout struct {
	root string
	pkgs []lpkg
}

type lpkg struct {
	dir     string // relative to the root of the module
	tests   []string
	exts    []string // files of the external test package
	helpers []string
	bins    map[bool]string // by -trimpath
}

func (p lpkg) testFiles() []string { return append(append([]string{}, p.tests...), p.exts...) }

var plainFrames = []string{"plain", "noinline", "closure", "method", "value", "iface", "generic", "defer", "panic", "reflect", "sort", "once", "stringsmap", "recursion", "deep"}
var boundaryFrames = []string{"go", "sub", "cleanup"}

// source is the text of a Go file with all frames and an executor. Names get the suffix n.
func source(pkg, key string, n int, mod string, test, lib bool) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	q := "lib."
	p("package %s\n", pkg)
	p("import (")
	for _, i := range []string{"reflect", "sort", "strings", "sync"} {
		p("\t%q", i)
	}
	if test {
		p("\t%q", "testing")
	}
	p("\n\t%q", "github.com/gkampitakis/go-snaps/snaps")
	if lib {
		q = ""
	} else {
		p("\t%q", mod+"/lib")
	}
	p(")\n")
	p("type typ%d struct{ next func() }\n", n)
	p("func (t typ%d) Do() { t.next() }\n", n)
	p("type iface%d interface{ Do() }\n", n)
	p("func generic%d[T any](v T, next func(T)) T { next(v); return v }\n", n)
	p("func plain%d(next func()) { next() }\n", n)
	p("//go:noinline\nfunc noinline%d(next func()) { next() }\n", n)
	p("func recursion%d(i int, next func()) {\n\tif i == 0 {\n\t\tnext()\n\t\treturn\n\t}\n\trecursion%d(i-1, next)\n}\n", n, n)
	p("func init() {")
	f := func(kind, body string, a ...any) {
		p("\t%sFrames[%q] = func(c *%sC, next func()) {\n%s\n\t}", q, key+":"+kind, q, fmt.Sprintf(body, a...))
	}
	f("plain", "\t\tplain%d(next)", n)
	f("noinline", "\t\tnoinline%d(next)", n)
	f("closure", "\t\tfunc() { func() { next() }() }()")
	f("method", "\t\ttyp%d{next}.Do()", n)
	f("value", "\t\tf := (&typ%d{next}).Do\n\t\tf()", n)
	f("iface", "\t\tvar i iface%d = typ%d{next}\n\t\ti.Do()", n, n)
	f("generic", "\t\tgeneric%d(c, func(*%sC) { next() })", n, q)
	f("defer", "\t\tdefer next()")
	f("panic", "\t\tdefer func() {\n\t\t\t_ = recover()\n\t\t\tnext()\n\t\t}()\n\t\tpanic(1)")
	f("reflect", "\t\treflect.ValueOf(next).Call(nil)")
	f("sort", "\t\tonce := false\n\t\tsort.Slice([]int{2, 1}, func(i, j int) bool {\n\t\t\tif !once {\n\t\t\t\tonce = true\n\t\t\t\tnext()\n\t\t\t}\n\t\t\treturn false\n\t\t})")
	f("once", "\t\tvar o sync.Once\n\t\to.Do(next)")
	f("stringsmap", "\t\tstrings.Map(func(r rune) rune { next(); return r }, \"x\")")
	f("recursion", "\t\trecursion%d(40, next)", n)
	f("deep", "\t\trecursion%d(300, next)", n)
	if test {
		f("go", "\t\tdone := make(chan bool)\n\t\tgo func() {\n\t\t\tdefer close(done)\n\t\t\tnext()\n\t\t}()\n\t\t<-done")
		f("sub", "\t\tt := c.T\n\t\tt.Run(\"s\", func(u *testing.T) {\n\t\t\tc.T = u\n\t\t\tnext()\n\t\t})\n\t\tc.T = t")
		f("cleanup", "\t\tc.T.Cleanup(func() { next() })")
	}
	calls := func(in, t, c string) {
		p("%sswitch {", in)
		for _, k := range []struct{ kind, fn, arg string }{{"snap", "MatchSnapshot", "Val"}, {"json", "MatchJSON", "Doc"}, {"yaml", "MatchYAML", "Doc"}, {"ssnap", "MatchStandaloneSnapshot", "Val"}, {"sjson", "MatchStandaloneJSON", "Doc"}} {
			p("%scase %s.Kind == %q && %s.Cfg == nil:\n%s\tsnaps.%s(%s, %s.%s)", in, c, k.kind, c, in, k.fn, t, c, k.arg)
			p("%scase %s.Kind == %q:\n%s\t%s.Cfg.%s(%s, %s.%s)", in, c, k.kind, in, c, k.fn, t, c, k.arg)
		}
		p("%s}", in)
	}
	p("\t%sExecs[%q] = func(c *%sC) {", q, key, q)
	calls("\t\t", "c.T", "c")
	p("\t}\n}\n")
	if test {
		p("func TestW%d(t *testing.T) {", n)
		p("\tfor _, cs := range lib.Cases(%q) {", key)
		p("\t\tcs := cs\n\t\tif cs.Top {\n\t\t\tlib.Steps(t, cs)\n\t\t\tcontinue\n\t\t}")
		p("\t\tt.Run(cs.Name, func(t *testing.T) {")
		p("\t\t\tif cs.Direct {\n\t\t\t\tfor _, c := range cs.Make(t) {")
		calls("\t\t\t\t\t", "t", "c")
		p("\t\t\t\t}\n\t\t\t\treturn\n\t\t\t}\n\t\t\tlib.Steps(t, cs)\n\t\t})\n\t}\n}")
	}
	return b.String()
}

const libMain = `package lib

import (
	"encoding/json"
	"os"
	"strconv"
	"testing"

	"github.com/gkampitakis/go-snaps/snaps"
)

// C is one call.
type C struct {
	T    *testing.T
	Kind string
	Cfg  *snaps.Config
	Val  string
	Doc  string
}

var (
	Frames = map[string]func(c *C, next func()){}
	Execs  = map[string]func(c *C){}
	cases  []*Case
)

type Call struct {
	Chain []string
	Exec  string
	Kind  string
	Def   bool
	Dir   *string
	File  string
	Ext   string
	Val   string
	Chdir string
}

type Case struct {
	Name   string
	Bottom string
	Top    bool
	Direct bool
	Calls  []Call
}

func uq(s string) string {
	u, err := strconv.Unquote(s)
	if err != nil {
		panic(err)
	}
	return u
}

func init() {
	f := os.Getenv("WHERE_SPEC")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &cases)
	}
	if err != nil {
		panic(err)
	}
	for _, c := range cases {
		c.Name = uq(c.Name)
	}
}

func Cases(bottom string) (out []*Case) {
	for _, c := range cases {
		if c.Bottom == bottom {
			out = append(out, c)
		}
	}
	return out
}

func (c Call) make(t *testing.T) *C {
	x := &C{T: t, Kind: c.Kind, Val: c.Val, Doc: strconv.Quote(c.Val)}
	if !c.Def {
		var o []func(*snaps.Config)
		if c.Dir != nil {
			o = append(o, snaps.Dir(uq(*c.Dir)))
		}
		if c.File != "" {
			o = append(o, snaps.Filename(uq(c.File)))
		}
		if c.Ext != "" {
			o = append(o, snaps.Ext(uq(c.Ext)))
		}
		x.Cfg = snaps.WithConfig(o...)
	}
	return x
}

// Make makes the arguments of calls without any frame.
func (cs *Case) Make(t *testing.T) (out []*C) {
	for _, c := range cs.Calls {
		out = append(out, c.make(t))
	}
	return out
}

func Steps(t *testing.T, cs *Case) {
	for _, c := range cs.Calls {
		if c.Chdir != "" {
			if err := os.Chdir(uq(c.Chdir)); err != nil {
				panic(err)
			}
		}
		x := c.make(t)
		var step func(i int)
		c := c
		step = func(i int) {
			if i < len(c.Chain) {
				f := Frames[c.Chain[i]]
				if f == nil {
					panic("no frame " + c.Chain[i])
				}
				f(x, func() { step(i + 1) })
				return
			}
			e := Execs[c.Exec]
			if e == nil {
				panic("no exec " + c.Exec)
			}
			e(x)
		}
		step(0)
	}
}
`

var libKeys = []string{"lib", "lib/deep/er", "lib/testing"}

func makeLayout(root string, r *rand.Rand) (*layout, error) {
	l := &layout{root: root}
	mod := "example.com/" + []string{"mod", "go-snaps", "testing", "x.y/v2"}[r.IntN(4)]
	write := func(name, text string) error {
		f := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(f), 0o777); err != nil {
			return err
		}
		return os.WriteFile(f, []byte(text), 0o666)
	}
	hm, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HARNESS"), "go.mod"))
	if err != nil {
		return nil, err
	}
	hs, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HARNESS"), "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := write("go.mod", strings.Replace(string(hm), "module github.com/gkampitakis/go-snaps/zverif", "module "+mod, 1)); err != nil {
		return nil, err
	}
	if err := write("go.sum", string(hs)); err != nil {
		return nil, err
	}
	n := 0
	if err := write("lib/main.go", libMain); err != nil {
		return nil, err
	}
	imports := ""
	for _, k := range libKeys {
		n++
		pkg := filepath.Base(k)
		text := source(pkg, k, n, mod, false, k == "lib")
		if k == "lib/testing" {
			// frames whose function is called tRunner
			text = strings.ReplaceAll(text, fmt.Sprintf("plain%d", n), "tRunner")
		}
		if err := write(k+"/frames.go", text); err != nil {
			return nil, err
		}
		if k != "lib" {
			imports += fmt.Sprintf("import _ %q\n", mod+"/"+k)
		}
	}
	depths := []string{"", []string{"a", "testing", "pkg_test", "snaps"}[r.IntN(4)], []string{"a1/b/c", "internal/x/y", "cmd/a_test.go/z", "lib/inner/testing", "x/snaps/__snapshots__"}[r.IntN(5)]}
	for _, d := range depths {
		p := lpkg{dir: d, bins: map[bool]string{}}
		name := "p"
		p.tests = []string{"w_test.go", []string{"a.b_test.go", "w_linux_test.go", "UPPER_test.go", "x_test_test.go", "w2_test.go"}[r.IntN(5)], []string{"z_test.go", "é_test.go", "w-dash_test.go"}[r.IntN(3)]}
		p.exts = []string{"ext_test.go"}
		p.helpers = []string{"helper.go", []string{"my_test_helper.go", "a_test.go.go", "testing.go", "w_tests.go"}[r.IntN(4)]}
		for i, f := range append(p.testFiles(), p.helpers...) {
			n++
			pkg := name
			if f == "ext_test.go" {
				pkg = name + "_test"
			}
			if err := write(filepath.Join(d, f), source(pkg, f, n, mod, i < len(p.tests)+len(p.exts), false)); err != nil {
				return nil, err
			}
		}
		if err := write(filepath.Join(d, "imports.go"), "package "+name+"\n\n"+imports); err != nil {
			return nil, err
		}
		l.pkgs = append(l.pkgs, p)
	}
	for i := range l.pkgs {
		for _, trim := range []bool{false, true} {
			out := filepath.Join(root, "../../../..", fmt.Sprintf("%s-%d-%v.test", strings.ReplaceAll(filepath.Base(root), " ", ""), i, trim))
			args := []string{"test", "-c", "-vet=off", "-o", out}
			if trim {
				args = append(args, "-trimpath")
			}
			args = append(args, "./"+l.pkgs[i].dir)
			cmd := exec.Command("go", args...)
			cmd.Dir = root
			cmd.Env = strings.Split(os.Getenv("VERIF_BUILD_ENV"), "\x1f")
			b, err := cmd.CombinedOutput()
			if err != nil {
				return nil, fmt.Errorf("building %v in %s: %v\n%s", args, root, err, b)
			}
			l.pkgs[i].bins[trim] = out
		}
	}
	return l, nil
}

var layouts struct {
	sync.Mutex
	m map[uint64]*layout
}

// layoutOf returns the layout made from a seed; it is built at most once in a process.
func layoutOf(seed uint64) *layout {
	layouts.Lock()
	defer layouts.Unlock()
	if l := layouts.m[seed]; l != nil {
		return l
	}
	r := rand.New(rand.NewPCG(seed, 11))
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "layout")
	if err != nil {
		panic(h.Infra{Err: err})
	}
	dir := filepath.Join(base, "tree", "u", "v", []string{"mod", "m %d é", "my_test.go"}[r.IntN(3)])
	l, err := makeLayout(dir, r)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	if layouts.m == nil {
		layouts.m = map[uint64]*layout{}
	}
	layouts.m[seed] = l
	return l
}
