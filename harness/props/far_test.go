package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
)

// farCall is a call made in a process of its own, which knows nothing but the files.
type farCall struct {
	Test h.S  `json:"test"`
	Cfg  Cfg  `json:"cfg"`
	Call Call `json:"call"`
}

type farResult struct {
	Outcome string    `json:"outcome"`
	Ev      []h.Event `json:"ev"`
	Err     string    `json:"err,omitempty"`
}

// far makes the calls, in that order, in a new process.
func far(c *h.C, calls []farCall) ([]farResult, error) {
	dir := c.Dir()
	b, err := json.Marshal(calls)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	spec := filepath.Join(dir, "calls.json")
	if err := os.WriteFile(spec, b, 0o666); err != nil {
		panic(h.Infra{Err: err})
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_CALLS="+spec)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("another process that makes the calls died: %w\n%s", err, out)
	}
	b, err = os.ReadFile(spec + ".out")
	if err != nil {
		panic(h.Infra{Err: err})
	}
	var rs []farResult
	if err := json.Unmarshal(b, &rs); err != nil {
		panic(h.Infra{Err: err})
	}
	if len(rs) != len(calls) {
		panic(h.Infra{Err: fmt.Errorf("%d results of %d calls", len(rs), len(calls))})
	}
	c.Label("calls in another process")
	return rs, nil
}

// farAll makes the calls elsewhere; every one must have the wanted outcome.
func farAll(c *h.C, what string, calls []farCall, want func(i int) string) error {
	rs, err := far(c, calls)
	if err != nil {
		return err
	}
	for i, r := range rs {
		err := error(nil)
		if r.Err != "" {
			err = errors.New(r.Err)
		} else if w := want(i); r.Outcome != w {
			err = fmt.Errorf("outcome %s instead of %s", r.Outcome, w)
		}
		if err != nil {
			return fmt.Errorf("%s in another process: call %d (%s of %s): %w %s", what, i+1, calls[i].Call.Kind, calls[i].Test, err, h.ShowEvents(r.Ev))
		}
	}
	return nil
}

// farMain is the other process.
func farMain(spec string) {
	fail := func(err error) {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	b, err := os.ReadFile(spec)
	if err != nil {
		fail(err)
	}
	var calls []farCall
	if err := json.Unmarshal(b, &calls); err != nil {
		fail(err)
	}
	ts := map[h.S]*h.T{}
	cfgs := map[string]*snaps.Config{}
	var rs []farResult
	for _, call := range calls {
		t := ts[call.Test]
		if t == nil {
			t = h.NewT(string(call.Test))
			ts[call.Test] = t
		}
		kb, err := json.Marshal(call.Cfg)
		if err != nil {
			fail(err)
		}
		cfg := cfgs[string(kb)]
		if cfg == nil {
			cfg = call.Cfg.Build()
			cfgs[string(kb)] = cfg
		}
		r := farResult{}
		r.Outcome, r.Ev, err = step(t, cfg, call.Call)
		if err != nil {
			r.Err = err.Error()
		}
		rs = append(rs, r)
	}
	for _, t := range ts {
		t.RunCleanups()
	}
	if b, err = json.Marshal(rs); err != nil {
		fail(err)
	}
	if err := os.WriteFile(spec+".out", b, 0o666); err != nil {
		fail(err)
	}
	os.Exit(0)
}
