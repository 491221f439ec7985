package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
)

// A Suite is executed by a process of its own, the way go test would: the test functions are run
// by the real testing package with real flags, then snaps.Clean is called from TestMain.
type Suite struct {
	Files  map[string]h.S    `json:"files,omitempty"` // what is there before, relative to the work directory
	Env    map[string]string `json:"env,omitempty"`
	Run    *string           `json:"run,omitempty"` // -run
	Count  int               `json:"count,omitempty"`
	Procs  int               `json:"procs,omitempty"` // -parallel
	Short  bool              `json:"short,omitempty"`
	Clean  int               `json:"clean,omitempty"` // how often Clean is called
	Sort   *bool             `json:"sort,omitempty"`  // nil: without CleanOpts
	Watch  bool              `json:"watch,omitempty"` // look at the tree around every call (sequential suites)
	Tests  []Node            `json:"tests"`
	Probes []string          `json:"probes,omitempty"` // test names to match with -run
}

// Node is a test function or a subtest.
type Node struct {
	Name h.S  `json:"name"`
	Src  int  `json:"src,omitempty"` // which source file makes its calls
	Par  bool `json:"par,omitempty"`
	Fuzz bool `json:"fuzz,omitempty"` // a fuzz target executed with its seeds; top level only
	Ops  []Op `json:"ops,omitempty"`
}

// Op is one thing a test does.
type Op struct {
	K     string `json:"k"`              // call sub skip tskip cleanup go hammer
	Only  []int  `json:"only,omitempty"` // the executions of the test in which it happens
	Cfg   Cfg    `json:"cfg,omitempty"`
	Call  Call   `json:"call,omitempty"`
	Calls []Call `json:"calls,omitempty"` // go: made concurrently
	Sub   *Node  `json:"sub,omitempty"`
	How   string `json:"how,omitempty"`   // of a skip
	Fault string `json:"fault,omitempty"` // of a call: fsize (no file can grow) or nofile (none can be opened) while it is made
	N     int    `json:"n,omitempty"`     // hammer: goroutines, and how often each makes the calls
	Times int    `json:"times,omitempty"`
}

// Did is one Match* call that was made.
type Did struct {
	Test    h.S       `json:"test"`
	Exec    int       `json:"exec"`
	Op      int       `json:"op"`
	File    h.S       `json:"file"` // relative to the work directory
	Ord     int       `json:"ord"`
	Alone   bool      `json:"alone,omitempty"` // standalone
	Kind    string    `json:"kind"`
	Outcome string    `json:"outcome"`
	Err     string    `json:"err,omitempty"`
	Ev      []h.Event `json:"ev,omitempty"`
	Touched h.S       `json:"touched,omitempty"` // what changed in the work directory (Watch)
	Before  *h.S      `json:"before,omitempty"`  // what the slot held before and after (Watch)
	After   *h.S      `json:"after,omitempty"`
	Fault   string    `json:"fault,omitempty"` // see Op
}

// ID of a multi-entry slot.
func (d Did) ID() string { return fmt.Sprintf("%s - %d", d.Test, d.Ord) }

type fileState struct {
	Dir   bool   `json:"dir,omitempty"`
	Data  h.S    `json:"data"`
	MTime int64  `json:"mtime"`
	Inode uint64 `json:"inode"`
}

type jtree map[string]fileState // keys are Go-quoted

func toJ(t h.Tree) jtree {
	j := jtree{}
	for p, s := range t {
		j[strconv.QuoteToASCII(p)] = fileState{s.Dir, h.S(s.Data), s.MTime, s.Inode}
	}
	return j
}

func (j jtree) tree() h.Tree {
	t := h.Tree{}
	for p, s := range j {
		q, err := strconv.Unquote(p)
		if err != nil {
			panic(h.Infra{Err: err})
		}
		t[q] = h.FileState{Dir: s.Dir, Data: string(s.Data), MTime: s.MTime, Inode: s.Inode}
	}
	return t
}

type rawReport struct {
	Did      []Did           `json:"did"`
	Ran      []h.S           `json:"ran"` // tests in the order they started
	Skips    []h.S           `json:"skips"`
	Tally    map[string]int  `json:"tally"` // outcomes of the calls that are not in Did
	Code     int             `json:"code"`
	Before   jtree           `json:"before"`
	Aged     []jtree         `json:"aged"` // before each Clean
	After    []jtree         `json:"after"`
	Out      []h.S           `json:"out"`
	Selected map[string]bool `json:"selected"`
}

// Report is what a child did.
type Report struct {
	Did      []Did
	Ran      []string
	Skips    []string // names given to snaps.Skip*, one per call
	Tally    map[string]int
	Code     int
	Before   h.Tree   // before the (first) Clean
	Aged     []h.Tree // before each Clean
	After    []h.Tree // after each Clean
	Out      []string // what each Clean printed
	Selected map[string]bool
	Log      string
}

const childTimeout = 100 * time.Second

// run executes the suite in the directory work. An error is a process that did not end well.
func (s Suite) run(c *h.C, work string) (*Report, error) {
	if err := h.WriteFiles(work, s.Files); err != nil {
		panic(h.Infra{Err: err})
	}
	aux := c.Dir()
	raw, err := json.Marshal(s)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	spec := filepath.Join(aux, "spec.json")
	if err := os.WriteFile(spec, raw, 0o666); err != nil {
		panic(h.Infra{Err: err})
	}
	exe, err := os.Executable()
	if err != nil {
		panic(h.Infra{Err: err})
	}
	args := []string{"-test.v=false", "-test.paniconexit0"}
	if s.Run != nil {
		args = append(args, "-test.run="+*s.Run)
	}
	if s.Count > 0 {
		args = append(args, "-test.count="+strconv.Itoa(s.Count))
	}
	if s.Procs > 0 {
		args = append(args, "-test.parallel="+strconv.Itoa(s.Procs))
	}
	if s.Short {
		args = append(args, "-test.short")
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = work
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "TMPDIR=" + aux, "VERIF_CHILD=" + spec, "VERIF_WORK=" + work, "VERIF_OUT=" + aux}
	if g := os.Getenv("GORACE"); g != "" {
		cmd.Env = append(cmd.Env, "GORACE="+g)
	}
	var keys []string
	for k := range s.Env {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cmd.Env = append(cmd.Env, k+"="+s.Env[k])
	}
	logName := filepath.Join(aux, "log")
	lf, err := os.Create(logName)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		panic(h.Infra{Err: err})
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(childTimeout):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		werr = fmt.Errorf("the test process did not end within %s", childTimeout)
	}
	lf.Close()
	b, _ := os.ReadFile(logName)
	log := string(b)
	if len(log) > 6000 {
		log = log[:3000] + "\n...\n" + log[len(log)-3000:]
	}
	rb, err := os.ReadFile(filepath.Join(aux, "report.json"))
	if strings.Contains(log, "VERIF INFRA") {
		panic(h.Infra{Err: fmt.Errorf("child: %s", log)})
	}
	if strings.Contains(log, "DATA RACE") {
		return nil, fmt.Errorf("data race\n%s", log)
	}
	if err != nil {
		return nil, fmt.Errorf("the test process died (%v)\n%s", werr, log)
	}
	var r rawReport
	if err := json.Unmarshal(rb, &r); err != nil {
		panic(h.Infra{Err: err})
	}
	rep := &Report{Did: r.Did, Tally: r.Tally, Code: r.Code, Selected: r.Selected, Before: r.Before.tree(), Log: log}
	for _, n := range r.Ran {
		rep.Ran = append(rep.Ran, string(n))
	}
	for _, n := range r.Skips {
		rep.Skips = append(rep.Skips, string(n))
	}
	for i := range r.After {
		rep.Aged = append(rep.Aged, r.Aged[i].tree())
		rep.After = append(rep.After, r.After[i].tree())
		rep.Out = append(rep.Out, string(r.Out[i]))
	}
	for _, d := range rep.Did {
		if d.Err != "" && strings.HasPrefix(d.Err, "panic") {
			return nil, fmt.Errorf("%s call %d of %s: %s", d.Kind, d.Ord, d.Test, d.Err)
		}
	}
	return rep, nil
}

// --- inside the child ---

type child struct {
	s      Suite
	work   string
	mu     sync.Mutex
	rep    rawReport
	counts map[string]int
}

// rt is what the calls of one execution get instead of the *testing.T.
type rt struct {
	*testing.T
	mu sync.Mutex
	ev []h.Event
}

func (t *rt) note(kind, text string) {
	t.mu.Lock()
	t.ev = append(t.ev, h.Event{Kind: kind, Text: h.S(strings.TrimSuffix(text, "\n"))})
	t.mu.Unlock()
}
func (t *rt) Error(a ...any)            { t.note("error", fmt.Sprintln(a...)) }
func (t *rt) Errorf(f string, a ...any) { t.note("error", fmt.Sprintf(f, a...)) }
func (t *rt) Fail()                     { t.note("error", "") }
func (t *rt) FailNow()                  { t.note("fatal", ""); t.T.SkipNow() }
func (t *rt) Fatal(a ...any)            { t.note("fatal", fmt.Sprintln(a...)); t.T.SkipNow() }
func (t *rt) Fatalf(f string, a ...any) { t.note("fatal", fmt.Sprintf(f, a...)); t.T.SkipNow() }
func (t *rt) Log(a ...any)              { t.note("log", fmt.Sprintln(a...)) }
func (t *rt) Logf(f string, a ...any)   { t.note("log", fmt.Sprintf(f, a...)) }
func (t *rt) take() []h.Event {
	t.mu.Lock()
	defer t.mu.Unlock()
	e := t.ev
	t.ev = nil
	return e
}

type execution struct {
	ch   *child
	t    *rt
	node *Node
	n    int
	mu   sync.Mutex
	ords map[string]int
}

// resolve makes the directory of a config absolute.
func (k Cfg) resolve(work string) Cfg {
	d := "s"
	if k.Dir != nil {
		d = string(*k.Dir)
	}
	if !filepath.IsAbs(d) {
		d = work + "/" + d // as it is written
	}
	k.Dir = sdir(d)
	return k
}

var srcBase = []string{"suite_a_test", "suite_b_test"}

// address is the file of a call relative to the work directory, with %d for the ordinal of a
// standalone snapshot.
func address(k Cfg, src int, test, kind string) (file string, alone bool) {
	dir := "s"
	if k.Dir != nil {
		dir = string(*k.Dir)
	}
	alone = kind == "ssnap" || kind == "sjson"
	stem := string(k.File)
	ext := string(k.Ext)
	if alone {
		if stem == "" {
			stem = strings.ReplaceAll(test, "/", "_")
		}
		if kind == "sjson" && ext == "" {
			ext = ".json"
		}
		return filepath.Join(dir, strings.ReplaceAll(stem, "%", "%%")+"_%d.snap"+strings.ReplaceAll(ext, "%", "%%")), true
	}
	if stem == "" {
		stem = srcBase[src]
	}
	return filepath.Join(dir, stem+".snap"+ext), false
}

// slot content in the tree of the work directory.
func slotOf(t h.Tree, file, id string, alone bool) *h.S {
	f, ok := t[file]
	if !ok || f.Dir {
		return nil
	}
	if alone {
		return ptr(h.S(f.Data))
	}
	es, err := h.ParseLoose(f.Data)
	if err != nil {
		return ptr(h.S("malformed file: " + err.Error()))
	}
	b := h.Lookup(es, id)
	if len(b) == 0 {
		return nil
	}
	return ptr(h.S(strings.Join(b, "\n=====\n")))
}

// withFault makes what writes or opens files fail while f runs.
func withFault(fault string, f func()) {
	res := -1
	switch fault {
	case "fsize":
		signal.Ignore(syscall.SIGXFSZ)
		res = 1 // RLIMIT_FSIZE
	case "nofile":
		res = syscall.RLIMIT_NOFILE
	}
	if res >= 0 {
		var old syscall.Rlimit
		if err := syscall.Getrlimit(res, &old); err != nil {
			panic(h.Infra{Err: err})
		}
		if err := syscall.Setrlimit(res, &syscall.Rlimit{Cur: 0, Max: old.Max}); err != nil {
			panic(h.Infra{Err: err})
		}
		defer func() {
			if err := syscall.Setrlimit(res, &old); err != nil {
				panic(h.Infra{Err: err})
			}
		}()
	}
	f()
}

func (e *execution) call(op int, k Cfg, c Call, fault string) {
	cfg := k.resolve(e.ch.work).Build()
	file, alone := address(k, e.node.Src, e.t.Name(), c.Kind)
	e.mu.Lock()
	e.ords[file]++
	ord := e.ords[file]
	e.mu.Unlock()
	d := Did{Test: h.S(e.t.Name()), Exec: e.n, Op: op, Ord: ord, Alone: alone, Kind: c.Kind, Fault: fault}
	d.File = h.S(file)
	if alone {
		d.File = h.S(fmt.Sprintf(file, ord))
	}
	if k.Default {
		cfg = nil
	}
	var before h.Tree
	if e.ch.s.Watch {
		before = h.Age(e.ch.work)
		d.Before = slotOf(before, string(d.File), d.ID(), alone)
	}
	t := &rt{T: e.t.T}
	func() {
		defer func() {
			if p := recover(); p != nil {
				d.Err = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		withFault(fault, func() { executors[e.node.Src](t, cfg, c) })
	}()
	d.Ev = t.take()
	o, err := h.Classify(d.Ev)
	d.Outcome = o
	if err != nil && d.Err == "" {
		d.Err = err.Error()
	}
	if e.ch.s.Watch {
		after := h.ReadTree(e.ch.work)
		d.After = slotOf(after, string(d.File), d.ID(), alone)
		if err := h.Untouched(before, after); err != nil {
			d.Touched = h.S(err.Error())
		}
	}
	for i := range d.Ev {
		if len(d.Ev[i].Text) > 500 {
			d.Ev[i].Text = d.Ev[i].Text[:500]
		}
	}
	e.ch.mu.Lock()
	e.ch.rep.Did = append(e.ch.rep.Did, d)
	e.ch.mu.Unlock()
}

func (ch *child) exec(t *testing.T, n *Node) {
	ch.mu.Lock()
	ch.counts[t.Name()]++
	e := &execution{ch: ch, t: &rt{T: t}, node: n, n: ch.counts[t.Name()], ords: map[string]int{}}
	ch.rep.Ran = append(ch.rep.Ran, h.S(t.Name()))
	ch.mu.Unlock()
	if n.Par {
		t.Parallel()
	}
	for i, op := range n.Ops {
		if op.Only != nil {
			in := false
			for _, x := range op.Only {
				in = in || x == e.n
			}
			if !in {
				continue
			}
		}
		i, op := i, op
		switch op.K {
		case "call":
			e.call(i, op.Cfg, op.Call, op.Fault)
		case "cleanup":
			t.Cleanup(func() { e.call(i, op.Cfg, op.Call, op.Fault) })
		case "go":
			var wg sync.WaitGroup
			for _, c := range op.Calls {
				c := c
				wg.Add(1)
				go func() {
					defer wg.Done()
					e.call(i, op.Cfg, c, "")
				}()
			}
			wg.Wait()
		case "hammer":
			e.hammer(i, op)
		case "sub":
			t.Run(string(op.Sub.Name), func(t *testing.T) { ch.exec(t, op.Sub) })
		case "tskip":
			t.SkipNow()
		case "skip":
			ch.mu.Lock()
			ch.rep.Skips = append(ch.rep.Skips, h.S(t.Name()))
			ch.mu.Unlock()
			switch op.How {
			case "Skip":
				snaps.Skip(e.t, "because", 1)
			case "Skipf":
				snaps.Skipf(e.t, "because %d", 1)
			default:
				snaps.SkipNow(e.t)
			}
			panic("the test went on after a skip")
		}
	}
}

// hammer makes the calls in a loop in each of op.N goroutines, each with a name and a file of its
// own, every time as the first call of a test. A call of kind skip skips.
func (e *execution) hammer(n int, op Op) {
	var ready, wg sync.WaitGroup
	gate := make(chan struct{})
	for g := 0; g < op.N; g++ {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("%s/h%d", e.t.Name(), g)
			tally := map[string]int{}
			did := map[string]Did{}
			var skips []h.S
			k := op.Cfg
			k.File = h.S(fmt.Sprintf("h%d", g))
			cfg := map[bool]*snaps.Config{}
			for _, u := range []bool{false, true} {
				x := k
				if u {
					x.File = "" // standalone
				}
				cfg[u] = x.resolve(e.ch.work).Build()
			}
			ready.Done()
			<-gate
			for i := 0; i < op.Times; i++ {
				c := op.Calls[(i+g)%len(op.Calls)]
				t := h.NewT(name)
				alone := c.Kind == "ssnap" || c.Kind == "sjson"
				d := Did{Test: h.S(name), Exec: i, Op: n, Ord: 1, Kind: c.Kind, Alone: alone}
				if c.Kind == "skip" {
					done := make(chan struct{})
					go func() {
						defer close(done)
						snaps.SkipNow(t)
					}()
					<-done
					skips = append(skips, h.S(name))
					t.RunCleanups()
					continue
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							d.Err = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
						}
					}()
					executors[0](t, cfg[alone], c)
				}()
				d.Ev = t.Take()
				t.RunCleanups()
				o, err := h.Classify(d.Ev)
				if err != nil && d.Err == "" {
					d.Err = err.Error()
				}
				tally[o]++
				x := k
				if alone {
					x.File = ""
				}
				file, _ := address(x, 0, name, c.Kind)
				if alone {
					file = fmt.Sprintf(file, 1)
				}
				d.File = h.S(file)
				if old, ok := did[file]; !ok || old.Err == "" {
					d.Ev = nil
					did[file] = d
				}
			}
			e.ch.mu.Lock()
			defer e.ch.mu.Unlock()
			if e.ch.rep.Tally == nil {
				e.ch.rep.Tally = map[string]int{}
			}
			for o, n := range tally {
				e.ch.rep.Tally[o] += n
			}
			for _, d := range did {
				e.ch.rep.Did = append(e.ch.rep.Did, d)
			}
			e.ch.rep.Skips = append(e.ch.rep.Skips, skips...)
		}()
	}
	ready.Wait()
	close(gate)
	wg.Wait()
}

func infra(err error) {
	fmt.Fprintln(os.Stderr, "VERIF INFRA", err)
	os.Exit(9)
}

func setTests(m *testing.M, field string, v any) {
	f := reflect.ValueOf(m).Elem().FieldByName(field)
	if !f.IsValid() {
		infra(fmt.Errorf("testing.M has no field %s", field))
	}
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

func childMain(m *testing.M, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		infra(err)
	}
	ch := &child{work: os.Getenv("VERIF_WORK"), counts: map[string]int{}}
	if err := json.Unmarshal(b, &ch.s); err != nil {
		infra(err)
	}
	out := os.Getenv("VERIF_OUT")
	for _, v := range []string{"VERIF_CHILD", "VERIF_WORK", "VERIF_OUT"} {
		os.Unsetenv(v)
	}
	tests := []testing.InternalTest{}
	fuzz := []testing.InternalFuzzTarget{}
	for i := range ch.s.Tests {
		n := &ch.s.Tests[i]
		if n.Fuzz {
			fuzz = append(fuzz, testing.InternalFuzzTarget{Name: string(n.Name), Fn: func(f *testing.F) {
				f.Add("a")
				f.Add("b")
				f.Fuzz(func(t *testing.T, s string) { ch.exec(t, n) })
			}})
			continue
		}
		tests = append(tests, testing.InternalTest{Name: string(n.Name), F: func(t *testing.T) { ch.exec(t, n) }})
	}
	setTests(m, "tests", tests)
	setTests(m, "fuzzTargets", fuzz)
	ch.rep.Code = m.Run()

	stdout := os.Stdout
	capture := func(f func()) string {
		name := filepath.Join(out, "clean.out")
		w, err := os.Create(name)
		if err != nil {
			infra(err)
		}
		os.Stdout = w
		f()
		os.Stdout = stdout
		w.Close()
		b, err := os.ReadFile(name)
		if err != nil {
			infra(err)
		}
		return string(b)
	}
	age := func() h.Tree { return h.Age(ch.work) }
	ch.rep.Before = toJ(age())
	for i := 0; i < ch.s.Clean; i++ {
		if i > 0 {
			ch.rep.Aged = append(ch.rep.Aged, toJ(age()))
		} else {
			ch.rep.Aged = append(ch.rep.Aged, ch.rep.Before)
		}
		o := capture(func() {
			if ch.s.Sort == nil {
				snaps.Clean(m)
			} else {
				snaps.Clean(m, snaps.CleanOpts{Sort: *ch.s.Sort})
			}
		})
		ch.rep.Out = append(ch.rep.Out, h.S(o))
		ch.rep.After = append(ch.rep.After, toJ(h.ReadTree(ch.work)))
	}
	if len(ch.s.Probes) > 0 {
		ch.rep.Selected = probe(ch.s.Probes)
	}
	rb, err := json.Marshal(ch.rep)
	if err != nil {
		infra(err)
	}
	if err := os.WriteFile(filepath.Join(out, "report.json"), rb, 0o666); err != nil {
		infra(err)
	}
	os.Exit(0)
}

// probe asks the testing package which of the names the -run flag selects.
func probe(names []string) map[string]bool {
	ran := map[string]bool{}
	var mu sync.Mutex
	type tree map[string]tree
	root := tree{}
	for _, n := range names {
		t := root
		for _, e := range strings.Split(n, "/") {
			if t[e] == nil {
				t[e] = tree{}
			}
			t = t[e]
		}
	}
	var body func(t *testing.T, sub tree)
	body = func(t *testing.T, sub tree) {
		mu.Lock()
		ran[t.Name()] = true
		mu.Unlock()
		for e, s := range sub {
			t.Run(e, func(t *testing.T) { body(t, s) })
		}
	}
	var tests []testing.InternalTest
	for e, s := range root {
		tests = append(tests, testing.InternalTest{Name: e, F: func(t *testing.T) { body(t, s) }})
	}
	testing.RunTests(func(pat, str string) (bool, error) {
		re, err := regexp.Compile(pat)
		if err != nil {
			return false, err
		}
		return re.MatchString(str), nil
	}, tests)
	out := map[string]bool{}
	for _, n := range names {
		out[n] = ran[n]
	}
	return out
}

// --- the summary Clean prints ---

type Summary struct {
	Printed bool
	Counts  map[string]int // passed failed added updated skipped
	Files   []string
	Tests   []string
	Verb    map[string]string // file, test -> obsolete, removed
	Head    map[string]int    // the number in the heading
	Order   []string
	Rest    []string // lines of no known form
	Hint    bool
}

var (
	ansi      = regexp.MustCompile("\x1b\\[[0-9;]*m")
	eventLine = regexp.MustCompile(`^\S (\d+) snapshots? (passed|failed|added|updated|skipped)$`)
	itemLine  = regexp.MustCompile(`^\s*↳\s*•\s(.*)$`)
	listLine  = regexp.MustCompile(`^› (\d+) snapshot (file|test)s? (obsolete|removed)$`)
)

func parseSummary(out string) (Summary, error) {
	s := Summary{Counts: map[string]int{}, Verb: map[string]string{}, Head: map[string]int{}}
	cur := ""
	for _, l := range strings.Split(ansi.ReplaceAllString(out, ""), "\n") {
		if m := itemLine.FindStringSubmatch(l); m != nil {
			item := m[1]
			switch cur {
			case "file":
				s.Files = append(s.Files, item)
			case "test":
				s.Tests = append(s.Tests, item)
			default:
				return s, fmt.Errorf("an item outside of a list: %q", l)
			}
			continue
		}
		if m := listLine.FindStringSubmatch(l); m != nil {
			cur = m[2]
			if _, dup := s.Verb[cur]; dup {
				return s, fmt.Errorf("two lists of %ss", cur)
			}
			s.Verb[cur] = m[3]
			s.Head[cur], _ = strconv.Atoi(m[1])
			continue
		}
		if m := eventLine.FindStringSubmatch(l); m != nil {
			if _, dup := s.Counts[m[2]]; dup {
				return s, fmt.Errorf("two lines about %s", m[2])
			}
			s.Counts[m[2]], _ = strconv.Atoi(m[1])
			continue
		}
		switch {
		case l == "Snapshot Summary":
			if s.Printed {
				return s, fmt.Errorf("two summaries")
			}
			s.Printed = true
		case strings.HasPrefix(l, "To remove "):
			s.Hint = true
		case strings.TrimSpace(l) == "":
		default:
			s.Rest = append(s.Rest, l)
		}
	}
	for k, n := range s.Head {
		list := s.Files
		if k == "test" {
			list = s.Tests
		}
		if n != len(list) {
			return s, fmt.Errorf("the heading says %d snapshot %ss but %d are listed", n, k, len(list))
		}
	}
	return s, nil
}

var _ = io.Discard
var _ = bytes.MinRead
