package h

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C is handed to a check: scratch space and what the run should remember about the scenario.
type C struct {
	scratch    string
	dir        string
	n          int
	nontrivial bool
	labels     map[string]int
	extra      int64
}

// Evaluations counts n comparisons made inside one scenario instead of one.
func (c *C) Evaluations(n int) { c.extra += int64(n - 1) }

// NonTrivial marks the scenario as non-trivial by the aspect's rule.
func (c *C) NonTrivial() { c.nontrivial = true }

// Label counts something about the scenario in the evidence.
func (c *C) Label(format string, a ...any) { c.labels[fmt.Sprintf(format, a...)]++ }

// Dir is a fresh directory that is removed after the scenario.
func (c *C) Dir() string {
	c.n++
	d := filepath.Join(c.dir, "w"+strconv.Itoa(c.n))
	if err := os.MkdirAll(d, 0o777); err != nil {
		panic(Infra{err})
	}
	return d
}

// Infra is a failure of the machinery, not of the code under test.
type Infra struct{ Err error }

func (i Infra) Error() string { return "infrastructure: " + i.Err.Error() }

// Aspect is one generated-input search deciding a part of a property.
type Aspect struct {
	Prop, Name, Rule string
	Quick, Thorough  int // generated scenarios per shard
	Weight           float64
	run              func(r *Run, a *Aspect)
	replay           func(r *Run, a *Aspect, raw json.RawMessage) error
}

var aspects []*Aspect

// Register adds an aspect. corpus scenarios are executed before the generated ones.
func Register[V any](
	prop, name, rule string, quick, thorough int,
	gen func(*rapid.T) V, check func(*C, V) error, corpus ...V,
) *Aspect {
	a := &Aspect{Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	exec := func(r *Run, v V) error {
		raw, err := json.Marshal(v)
		if err != nil {
			panic(Infra{err})
		}
		// what is executed is what a replay would read
		var w V
		if err := json.Unmarshal(raw, &w); err != nil {
			panic(Infra{fmt.Errorf("scenario does not survive JSON: %w", err)})
		}
		return r.one(a, raw, func(c *C) error { return check(c, w) })
	}
	a.run = func(r *Run, a *Aspect) {
		for i, v := range corpus {
			if i%r.Shards != r.Shard {
				continue
			}
			if err := exec(r, v); err != nil {
				r.T.Logf("corpus scenario %d failed: %v", i, err)
				return
			}
		}
		n := a.Quick
		if r.Tier == "thorough" {
			n = a.Thorough
		}
		if s := os.Getenv("VERIF_CHECKS"); s != "" {
			n, _ = strconv.Atoi(s)
		}
		if n <= 0 || gen == nil {
			return
		}
		set := func(k, v string) {
			if err := flag.Set(k, v); err != nil {
				panic(Infra{err})
			}
		}
		set("rapid.checks", strconv.Itoa(n))
		set("rapid.seed", strconv.FormatUint(r.seedFor(a), 10))
		set("rapid.nofailfile", "true")
		set("rapid.shrinktime", map[bool]string{false: "25s", true: "1s"}[os.Getenv("VERIF_NOSHRINK") != ""])
		r.T.Run(prop+"/"+name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				if r.failure == nil && time.Now().After(r.Deadline) {
					r.cut[name]++
					return
				}
				v := gen(rt)
				if err := exec(r, v); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		})
	}
	a.replay = func(r *Run, a *Aspect, raw json.RawMessage) error {
		var v V
		if err := json.Unmarshal(raw, &v); err != nil {
			panic(Infra{err})
		}
		return exec(r, v)
	}
	aspects = append(aspects, a)
	return a
}

// Run is one shard.
type Run struct {
	T             *testing.T
	Prop, Tier    string
	Shard, Shards int
	Seed          uint64
	Out, Scratch  string
	Deadline      time.Time

	evaluations int64
	seen        map[uint64]struct{}
	labels      map[string]int
	samples     map[string][]json.RawMessage
	perAspect   map[string]int64
	cut         map[string]int
	failure     *Failure
	failures    int

	mu      sync.Mutex
	started atomic.Int64
	current atomic.Pointer[Failure]
	caseNo  int64
}

// Failure is a replay file.
type Failure struct {
	Property string          `json:"property"`
	Aspect   string          `json:"aspect"`
	Error    string          `json:"error"`
	Variant  string          `json:"variant"`
	Scenario json.RawMessage `json:"scenario"`
}

type result struct {
	Evaluations int64                        `json:"evaluations"`
	PerAspect   map[string]int64             `json:"per_aspect"`
	Labels      map[string]int               `json:"labels"`
	Samples     map[string][]json.RawMessage `json:"samples"`
	Cut         map[string]int               `json:"cut"`
	Rules       map[string]string            `json:"rules"`
	Failure     *Failure                     `json:"failure"`
	Infra       string                       `json:"infra"`
	ReplayOK    bool                         `json:"replay_ok"`
}

func (r *Run) seedFor(a *Aspect) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%d/%s/%s/%s", r.Seed, r.Shard, os.Getenv("VERIF_VARIANT"), a.Prop, a.Name)
	s := f.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// Hang is how long one scenario may take before it counts as a call that never returns.
var Hang = 150 * time.Second

func (r *Run) one(a *Aspect, raw json.RawMessage, f func(*C) error) (err error) {
	r.caseNo++
	c := &C{
		scratch: r.Scratch,
		dir:     filepath.Join(r.Scratch, "c"+strconv.FormatInt(r.caseNo, 10)),
		labels:  map[string]int{},
	}
	cur := &Failure{Property: a.Prop, Aspect: a.Name, Scenario: raw, Variant: os.Getenv("VERIF_VARIANT")}
	r.current.Store(cur)
	r.started.Store(time.Now().UnixNano())
	if b, e := json.Marshal(cur); e == nil {
		_ = os.WriteFile(filepath.Join(r.Out, "current.json"), b, 0o666)
	}
	defer func() {
		if p := recover(); p != nil {
			if i, ok := p.(Infra); ok {
				panic(i)
			}
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
		r.started.Store(0)
		_ = os.RemoveAll(c.dir)
		r.account(a, c, raw)
		if err != nil {
			r.failures++
			cur.Error = err.Error()
			r.failure = cur
		}
	}()
	return f(c)
}

func (r *Run) account(a *Aspect, c *C, raw json.RawMessage) {
	r.evaluations += 1 + c.extra
	r.perAspect[a.Name] += 1 + c.extra
	for k, n := range c.labels {
		r.labels[a.Name+": "+k] += n
	}
	if !c.nontrivial {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(a.Name))
	f.Write(raw)
	r.seen[f.Sum64()] = struct{}{}
	if len(r.samples[a.Name]) < 2 && len(raw) < 3000 {
		r.samples[a.Name] = append(r.samples[a.Name], raw)
	}
}

func (r *Run) write(infra string, replayOK bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	rules := map[string]string{}
	for _, a := range aspects {
		if a.Prop == r.Prop {
			rules[a.Name] = a.Rule
		}
	}
	res := result{
		Evaluations: r.evaluations, PerAspect: r.perAspect, Labels: r.labels, Samples: r.samples,
		Cut: r.cut, Rules: rules, Failure: r.failure, Infra: infra, ReplayOK: replayOK,
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	seen := make([]byte, 0, 8*len(r.seen))
	for s := range r.seen {
		seen = binary.LittleEndian.AppendUint64(seen, s)
	}
	_ = os.WriteFile(filepath.Join(r.Out, "seen.bin"), seen, 0o666)
	tmp := filepath.Join(r.Out, "result.tmp")
	if err := os.WriteFile(tmp, b, 0o666); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, filepath.Join(r.Out, "result.json")); err != nil {
		panic(err)
	}
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

// Main is the body of the one test of the harness binary.
func Main(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP is not set; run /verif/check.py")
	}
	atoi := func(s string) int { n, _ := strconv.Atoi(s); return n }
	seed, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	r := &Run{
		T: t, Prop: prop, Tier: env("VERIF_TIER", "quick"),
		Shard: atoi(env("VERIF_SHARD", "0")), Shards: atoi(env("VERIF_SHARDS", "1")), Seed: seed,
		Out: env("VERIF_OUT", t.TempDir()), Scratch: env("VERIF_SCRATCH", t.TempDir()),
		Deadline: time.Now().Add(time.Duration(atoi(env("VERIF_DEADLINE", "300"))) * time.Second),
		seen:     map[uint64]struct{}{}, labels: map[string]int{}, samples: map[string][]json.RawMessage{},
		perAspect: map[string]int64{}, cut: map[string]int{},
	}
	go func() {
		for range time.Tick(time.Second) {
			st := r.started.Load()
			if st != 0 && time.Since(time.Unix(0, st)) > Hang {
				cur := *r.current.Load()
				cur.Error = fmt.Sprintf("the scenario did not end within %s", Hang)
				r.failure = &cur
				r.write("", false)
				os.Exit(3)
			}
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if i, ok := p.(Infra); ok {
				r.write(i.Error(), false)
				t.Fatal(i)
			}
			panic(p)
		}
	}()
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		r.replayFile(f)
		return
	}
	only := os.Getenv("VERIF_ASPECT")
	variant := os.Getenv("VERIF_VARIANT")
	for _, a := range sorted() {
		if a.Prop != prop || (only != "" && a.Name != only) || !inVariant(a, variant) {
			continue
		}
		a.run(r, a)
		if r.failure != nil {
			break
		}
	}
	r.write("", true)
}

// Variants restricts an aspect to harness variants (see check.py): by default an aspect runs in
// the variant "plain" only.
var variants = map[*Aspect][]string{}

func (a *Aspect) In(v ...string) *Aspect { variants[a] = v; return a }

func inVariant(a *Aspect, v string) bool {
	vs, ok := variants[a]
	if !ok {
		vs = []string{"plain"}
	}
	if v == "" {
		v = "plain"
	}
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

func sorted() []*Aspect {
	s := append([]*Aspect(nil), aspects...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Name < s[j].Name })
	return s
}

func (r *Run) replayFile(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(Infra{err})
	}
	var fs []Failure
	if strings.HasPrefix(strings.TrimSpace(string(b)), "[") {
		err = json.Unmarshal(b, &fs)
	} else {
		fs = make([]Failure, 1)
		err = json.Unmarshal(b, &fs[0])
	}
	if err != nil {
		panic(Infra{err})
	}
	for _, x := range fs {
		found := false
		for _, a := range aspects {
			if a.Prop == x.Property && a.Name == x.Aspect {
				found = true
				if err := a.replay(r, a, x.Scenario); err != nil {
					r.T.Logf("REPLAY FAILED: %v", err)
				} else {
					r.T.Logf("REPLAY PASSED")
				}
			}
		}
		if !found {
			panic(Infra{fmt.Errorf("no aspect %s/%s", x.Property, x.Aspect)})
		}
	}
	r.write("", r.failure == nil)
}
