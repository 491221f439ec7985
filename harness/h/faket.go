package h

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// Event is one signal a snaps call sent to the test.
type Event struct {
	Kind string // error, log, skip
	Text S
}

// T is a fake testingT: it records, runs cleanups LIFO at the end of the test and ends the
// test goroutine on the skip methods as *testing.T does.
type T struct {
	name     string
	mu       sync.Mutex
	events   []Event
	cleanups []func()
	skipped  bool
}

func NewT(name string) *T { return &T{name: name} }

func (t *T) add(kind, text string) {
	t.mu.Lock()
	t.events = append(t.events, Event{kind, S(text)})
	t.mu.Unlock()
}

func (t *T) Helper()                   {}
func (t *T) Name() string              { return t.name }
func (t *T) Error(a ...any)            { t.add("error", trimNL(fmt.Sprintln(a...))) }
func (t *T) Errorf(f string, a ...any) { t.add("error", fmt.Sprintf(f, a...)) }
func (t *T) Fatal(a ...any)            { t.add("fatal", trimNL(fmt.Sprintln(a...))); runtime.Goexit() }
func (t *T) Fatalf(f string, a ...any) { t.add("fatal", fmt.Sprintf(f, a...)); runtime.Goexit() }
func (t *T) Fail()                     { t.add("error", "") }
func (t *T) FailNow()                  { t.add("fatal", ""); runtime.Goexit() }
func (t *T) Failed() bool              { return false }
func (t *T) Log(a ...any)              { t.add("log", trimNL(fmt.Sprintln(a...))) }
func (t *T) Logf(f string, a ...any)   { t.add("log", fmt.Sprintf(f, a...)) }
func (t *T) Skip(a ...any)             { t.add("skip", trimNL(fmt.Sprintln(a...))); t.SkipNow() }
func (t *T) Skipf(f string, a ...any)  { t.add("skip", fmt.Sprintf(f, a...)); t.SkipNow() }
func (t *T) SkipNow()                  { t.mu.Lock(); t.skipped = true; t.mu.Unlock(); runtime.Goexit() }
func (t *T) Skipped() bool             { t.mu.Lock(); defer t.mu.Unlock(); return t.skipped }
func (t *T) Cleanup(f func())          { t.mu.Lock(); t.cleanups = append(t.cleanups, f); t.mu.Unlock() }

func trimNL(s string) string { return strings.TrimSuffix(s, "\n") }

// Take returns the events since the last Take.
func (t *T) Take() []Event {
	t.mu.Lock()
	defer t.mu.Unlock()
	e := t.events
	t.events = nil
	return e
}

// RunCleanups runs the registered cleanups, last one first.
func (t *T) RunCleanups() {
	for {
		t.mu.Lock()
		n := len(t.cleanups)
		if n == 0 {
			t.mu.Unlock()
			return
		}
		f := t.cleanups[n-1]
		t.cleanups = t.cleanups[:n-1]
		t.mu.Unlock()
		f()
	}
}

// Outcome of one Match* call as signalled to the test.
const (
	Passed  = "passed"
	Added   = "added"
	Updated = "updated"
	Failed  = "failed"
)

// Classify turns the events of one call into its outcome. Anything that is not exactly
// nothing, one added log, one updated log or one error is reported as an error.
func Classify(ev []Event) (string, error) {
	if len(ev) == 0 {
		return Passed, nil
	}
	if len(ev) == 1 {
		e := ev[0]
		switch {
		case e.Kind == "error":
			return Failed, nil
		case e.Kind == "log" && strings.Contains(string(e.Text), "Snapshot added"):
			return Added, nil
		case e.Kind == "log" && strings.Contains(string(e.Text), "Snapshot updated"):
			return Updated, nil
		}
	}
	return "", fmt.Errorf("the call did not signal exactly one outcome: %s", ShowEvents(ev))
}

func ShowEvents(ev []Event) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, e := range ev {
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%s: %s", e.Kind, Show(string(e.Text)))
	}
	b.WriteByte(']')
	return b.String()
}
