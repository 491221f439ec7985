package zdemo

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/gkampitakis/go-snaps/snaps"
)

// FT stands in for *testing.T and records what it is told.
type FT struct {
	name     string
	mu       sync.Mutex
	errs     []string
	logs     []string
	cleanups []func()
}

func (t *FT) Helper()              {}
func (t *FT) Skip(...any)          {}
func (t *FT) Skipf(string, ...any) {}
func (t *FT) SkipNow()             {}
func (t *FT) Name() string         { return t.name }
func (t *FT) Error(a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.errs = append(t.errs, fmt.Sprint(a...))
}
func (t *FT) Log(a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.logs = append(t.logs, fmt.Sprint(a...))
}
func (t *FT) Cleanup(f func()) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cleanups = append(t.cleanups, f)
}

// run is one execution of the test name.
func run(name string, f func(t *FT)) *FT {
	t := &FT{name: name}
	f(t)
	for i := len(t.cleanups) - 1; i >= 0; i-- {
		t.cleanups[i]()
	}
	return t
}

func (t *FT) count(msg string) (n int) {
	for _, l := range t.logs {
		if strings.Contains(l, msg) {
			n++
		}
	}
	return n
}

func passes(t *testing.T, what string, ft *FT) {
	t.Helper()
	if len(ft.errs)+len(ft.logs) != 0 {
		t.Fatalf("%s: expected to pass, got errors %.300q logs %q", what, ft.errs, ft.logs)
	}
}

func adds(t *testing.T, what string, ft *FT, n int) {
	t.Helper()
	if len(ft.errs) != 0 || ft.count("added") != n || len(ft.logs) != n {
		t.Fatalf("%s: expected %d added, got errors %.300q logs %q", what, n, ft.errs, ft.logs)
	}
}

func fails(t *testing.T, what string, ft *FT, n int) {
	t.Helper()
	if len(ft.errs) != n || len(ft.logs) != 0 {
		t.Fatalf("%s: expected %d failures, got errors %.300q logs %q", what, n, ft.errs, ft.logs)
	}
}

func read(t *testing.T, path ...string) string {
	t.Helper()
	b, err := os.ReadFile(filepath.Join(path...))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func write(t *testing.T, content string, path ...string) {
	t.Helper()
	p := filepath.Join(path...)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		t.Fatal(err)
	}
}

// tree is the content of everything below dir.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = string(b)
		return nil
	})
	return m
}

func same(t *testing.T, what string, got, want map[string]string) {
	t.Helper()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s:\n got %q\nwant %q", what, got, want)
	}
}

// clean is snaps.Clean returning what it prints.
func clean(opts ...snaps.CleanOpts) string {
	r, w, _ := os.Pipe()
	stdout := os.Stdout
	os.Stdout = w
	ch := make(chan string)
	go func() { b, _ := io.ReadAll(r); ch <- string(b) }()
	snaps.Clean(nil, opts...)
	os.Stdout = stdout
	w.Close()
	return <-ch
}

// child runs one of the tests of this binary in a process of its own.
func child(t *testing.T, env []string, args ...string) string {
	t.Helper()
	cmd := exec.Command(os.Args[0], args...)
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "UPDATE_SNAPS=") && !strings.HasPrefix(kv, "CI=") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	cmd.Env = append(append(cmd.Env, "ZCHILD=1"), env...)
	out, _ := cmd.CombinedOutput()
	return string(out)
}

func isChild(t *testing.T) {
	if os.Getenv("ZCHILD") == "" {
		t.Skip("only in a process of its own")
	}
}

func TestMain(m *testing.M) {
	v := m.Run()
	if os.Getenv("ZCLEAN") != "" {
		snaps.Clean(m, snaps.CleanOpts{Sort: os.Getenv("ZCLEAN") == "sort"})
	}
	os.Exit(v)
}
