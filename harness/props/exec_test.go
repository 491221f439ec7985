package props

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// snapT is what every Match* function needs; *testing.T and *h.T both satisfy it.
type snapT interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

// Cfg describes a snaps.Config.
type Cfg struct {
	Default bool     `json:"default,omitempty"` // use the package level functions
	Dir     *h.S     `json:"dir,omitempty"`     // nil: option not given
	File    h.S      `json:"file,omitempty"`
	Ext     h.S      `json:"ext,omitempty"`
	Update  *bool    `json:"update,omitempty"`
	JSON    *JSONCfg `json:"json,omitempty"`
}

type JSONCfg struct {
	Width    int  `json:"width,omitempty"`
	Indent   h.S  `json:"indent,omitempty"`
	SortKeys bool `json:"sort,omitempty"`
}

func ptr[T any](v T) *T { return &v }

func (c Cfg) Build() *snaps.Config {
	var o []func(*snaps.Config)
	if c.Dir != nil {
		o = append(o, snaps.Dir(string(*c.Dir)))
	}
	if c.File != "" {
		o = append(o, snaps.Filename(string(c.File)))
	}
	if c.Ext != "" {
		o = append(o, snaps.Ext(string(c.Ext)))
	}
	if c.Update != nil {
		o = append(o, snaps.Update(*c.Update))
	}
	if c.JSON != nil {
		o = append(o, snaps.JSON(snaps.JSONConfig{Width: c.JSON.Width, Indent: string(c.JSON.Indent), SortKeys: c.JSON.SortKeys}))
	}
	return snaps.WithConfig(o...)
}

// Call is one Match* call.
type Call struct {
	Kind string `json:"kind"` // snap json yaml ssnap sjson
	Vals []Val  `json:"vals,omitempty"`
	Doc  h.S    `json:"doc,omitempty"`
	Form string `json:"form,omitempty"` // str bytes go
	J    *J     `json:"j,omitempty"`    // for form go
	M    []M    `json:"m,omitempty"`
	Long int    `json:"long,omitempty"` // the document is a string of that length instead
}

// M is one matcher.
type M struct {
	Kind        string `json:"kind"` // any type custom
	Paths       []h.S  `json:"paths"`
	Placeholder *J     `json:"ph,omitempty"`
	Type        string `json:"type,omitempty"`
	NoErr       bool   `json:"noerr,omitempty"` // ErrOnMissingPath(false)
	Result      *J     `json:"result,omitempty"`
	Err         h.S    `json:"err,omitempty"` // the callback returns this error
}

type anyMatcher interface {
	match.JSONMatcher
	match.YAMLMatcher
}

func goOf(j *J) any {
	if j == nil {
		return nil
	}
	return j.Go()
}

func (m M) Build(seen *[]any) anyMatcher {
	ph := goOf(m.Result)
	if m.Kind == "any" {
		ph = goOf(m.Placeholder)
	}
	return m.build(seen, m.Placeholder != nil, false, ph)
}

// build makes the matcher. ph is the placeholder of Any (if hasPH) or the result of a callback;
// with echo the callback returns what it is given.
func (m M) build(seen *[]any, hasPH, echo bool, ph any) anyMatcher {
	var paths []string
	for _, p := range m.Paths {
		paths = append(paths, string(p))
	}
	switch m.Kind {
	case "any":
		a := match.Any(paths...)
		if hasPH {
			a = a.Placeholder(ph)
		}
		if m.NoErr {
			a = a.ErrOnMissingPath(false)
		}
		return a
	case "custom":
		c := match.Custom(paths[0], func(v any) (any, error) {
			if seen != nil {
				*seen = append(*seen, v)
			}
			if m.Err != "" {
				return nil, fmt.Errorf("%s", string(m.Err))
			}
			if echo {
				return v, nil
			}
			return ph, nil
		})
		if m.NoErr {
			c = c.ErrOnMissingPath(false)
		}
		return c
	case "type":
		switch m.Type {
		case "string":
			return typ[string](m, paths)
		case "float64":
			return typ[float64](m, paths)
		case "bool":
			return typ[bool](m, paths)
		case "map":
			return typ[map[string]any](m, paths)
		case "slice":
			return typ[[]any](m, paths)
		case "any":
			return typ[any](m, paths)
		case "uint64":
			return typ[uint64](m, paths)
		case "int":
			return typ[int](m, paths)
		}
	}
	panic(h.Infra{Err: fmt.Errorf("unknown matcher %+v", m)})
}

func typ[T any](m M, paths []string) anyMatcher {
	t := match.Type[T](paths...)
	if m.NoErr {
		t = t.ErrOnMissingPath(false)
	}
	return t
}

// input is what MatchJSON / MatchYAML receive.
func (c Call) input() any {
	if c.Long > 0 {
		c.Doc = h.S(`"` + strings.Repeat("x", c.Long) + `"`)
	}
	switch c.Form {
	case "bytes":
		return []byte(c.Doc)
	case "go":
		return c.J.Go()
	}
	return string(c.Doc)
}

// do makes the call. A nil config means the package level function.
func do(t snapT, cfg *snaps.Config, c Call) {
	switch c.Kind {
	case "snap":
		if cfg == nil {
			snaps.MatchSnapshot(t, build(c.Vals)...)
		} else {
			cfg.MatchSnapshot(t, build(c.Vals)...)
		}
	case "ssnap":
		if cfg == nil {
			snaps.MatchStandaloneSnapshot(t, build(c.Vals)[0])
		} else {
			cfg.MatchStandaloneSnapshot(t, build(c.Vals)[0])
		}
	case "json", "sjson":
		var ms []match.JSONMatcher
		for _, m := range c.M {
			ms = append(ms, m.Build(nil))
		}
		switch {
		case c.Kind == "json" && cfg == nil:
			snaps.MatchJSON(t, c.input(), ms...)
		case c.Kind == "json":
			cfg.MatchJSON(t, c.input(), ms...)
		case cfg == nil:
			snaps.MatchStandaloneJSON(t, c.input(), ms...)
		default:
			cfg.MatchStandaloneJSON(t, c.input(), ms...)
		}
	case "yaml":
		var ms []match.YAMLMatcher
		for _, m := range c.M {
			ms = append(ms, m.Build(nil))
		}
		if cfg == nil {
			snaps.MatchYAML(t, c.input(), ms...)
		} else {
			cfg.MatchYAML(t, c.input(), ms...)
		}
	default:
		panic(h.Infra{Err: fmt.Errorf("unknown call kind %q", c.Kind)})
	}
}

// step makes the call and returns its outcome.
func step(t *h.T, cfg *snaps.Config, c Call) (string, []h.Event, error) {
	t.Take()
	do(t, cfg, c)
	ev := t.Take()
	o, err := h.Classify(ev)
	return o, ev, err
}

// genCall generates a call with a hostile value. standalone allows the standalone kinds.
func genCall(standalone bool, names ...string) *rapid.Generator[Call] {
	kinds := []string{"snap", "snap", "snap", "snap", "json", "yaml"}
	if standalone {
		kinds = append(kinds, "ssnap", "sjson")
	}
	return rapid.Custom(func(t *rapid.T) Call {
		return genCallOf(t, rapid.SampledFrom(kinds).Draw(t, "kind"), names...)
	})
}

func genCallOf(t *rapid.T, kind string, names ...string) Call {
	c := Call{Kind: kind}
	switch kind {
	case "snap":
		c.Vals = rapid.SliceOfN(genVal(false, names...), 1, 3).Draw(t, "vals")
		fixCR(c.Vals)
	case "ssnap":
		c.Vals = []Val{genVal(true, names...).Draw(t, "val")}
	case "json", "sjson":
		j := genJ(jopts{keys: jsonKeys, depth: 2, maxLen: 4}).Draw(t, "json")
		c.Form = rapid.SampledFrom([]string{"str", "bytes", "go"}).Draw(t, "form")
		if j.T == "str" && c.Form == "go" {
			c.Form = "str" // a Go string is JSON text
		}
		if c.Form == "go" {
			c.J = &j
		} else {
			c.Doc = h.S(j.Render(genLayout().Draw(t, "layout")))
		}
	case "yaml":
		c.Form = rapid.SampledFrom([]string{"str", "bytes"}).Draw(t, "form")
		c.Doc = h.S(genYAMLText().Draw(t, "yaml"))
	}
	return c
}

// fixCR keeps carriage returns away from line ends of the formatted text (the documented
// limitation). The formatter turns \f into a newline, so look at what it makes of the values.
func fixCR(vals []Val) {
	for i := range vals {
		vals[i].S = h.S(h.NoCR(string(vals[i].S)))
	}
	if f := formatValues(vals); strings.Contains(f, "\r\n") || strings.HasSuffix(f, "\r") {
		var rec func(v []Val)
		rec = func(vals []Val) {
			for i := range vals {
				vals[i].S = h.S(strings.ReplaceAll(string(vals[i].S), "\r", ""))
				rec(vals[i].L)
			}
		}
		rec(vals)
	}
}

// stored is the text of the value of a call as it is formatted, before any escaping, for the
// kinds where the format is the input itself.
func formatted(c Call) (string, bool) {
	switch c.Kind {
	case "snap", "ssnap":
		return formatValues(c.Vals), true
	case "yaml":
		if c.Form != "go" && len(c.M) == 0 {
			return string(c.Doc), true
		}
	}
	return "", false
}

func sdir(p string) *h.S { s := h.S(p); return &s }

func rel(base, p string) string {
	r, err := filepath.Rel(base, p)
	if err != nil {
		return p
	}
	return r
}

func jsonEqual(a, b string) (bool, error) {
	var x, y any
	for _, p := range []struct {
		s string
		v *any
	}{{a, &x}, {b, &y}} {
		d := json.NewDecoder(strings.NewReader(p.s))
		d.UseNumber()
		if err := d.Decode(p.v); err != nil {
			return false, err
		}
	}
	bx, _ := json.Marshal(x)
	by, _ := json.Marshal(y)
	return string(bx) == string(by), nil
}

func jsonMatchers(c Call) (ms []match.JSONMatcher) {
	for _, m := range c.M {
		ms = append(ms, m.Build(nil))
	}
	return
}

func yamlMatchers(c Call) (ms []match.YAMLMatcher) {
	for _, m := range c.M {
		ms = append(ms, m.Build(nil))
	}
	return
}
