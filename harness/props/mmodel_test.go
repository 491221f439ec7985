package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"github.com/goccy/go-yaml"
	"pgregory.net/rapid"
)

// Comp is one step of a path: a key, an index or every element.
type Comp struct {
	K   *h.S `json:"k,omitempty"`
	I   int  `json:"i,omitempty"`
	All bool `json:"all,omitempty"`
}

func key(s string) Comp { k := h.S(s); return Comp{K: &k} }

// jsonPath writes the path in gjson syntax. style 0 escapes every ASCII character that is not a
// letter or digit, style 1 only those gjson's documentation lists as special.
func jsonPath(cs []Comp, style int) string {
	var parts []string
	for _, c := range cs {
		switch {
		case c.All:
			parts = append(parts, "#")
		case c.K == nil:
			parts = append(parts, strconv.Itoa(c.I))
		default:
			var b strings.Builder
			for _, r := range string(*c.K) {
				special := strings.ContainsRune(`.*?|#@!{}[]()=<>%"\^`, r)
				if style == 0 {
					special = r > ' ' && r < 0x7f && !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_')
				}
				if special {
					b.WriteByte('\\')
				}
				b.WriteRune(r)
			}
			parts = append(parts, b.String())
		}
	}
	return strings.Join(parts, ".")
}

// plainPath tells whether every component is of the kind any implementation must support.
func plainPath(cs []Comp) bool {
	alls := 0
	for _, c := range cs {
		if c.All {
			alls++
		}
		if c.K != nil {
			if *c.K == "" {
				return false
			}
			for _, r := range string(*c.K) {
				if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_') {
					return false
				}
			}
		}
	}
	return alls <= 1
}

func yamlPath(cs []Comp) string {
	var b strings.Builder
	b.WriteByte('$')
	for _, c := range cs {
		switch {
		case c.All:
			b.WriteString("[*]")
		case c.K == nil:
			fmt.Fprintf(&b, "[%d]", c.I)
		default:
			k := string(*c.K)
			if strings.ContainsAny(k, ".*[]$' ") {
				k = "'" + strings.ReplaceAll(k, "'", `\'`) + "'"
			}
			b.WriteString("." + k)
		}
	}
	return b.String()
}

// ---- JSON model ----

// parseJ reads a document into an ordered tree with the literal text of its numbers.
func parseJ(s string) (J, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	j, err := parseJTok(d)
	if err != nil {
		return J{}, err
	}
	if _, err := d.Token(); err == nil {
		return J{}, fmt.Errorf("more than one JSON value")
	}
	return j, nil
}

func parseJTok(d *json.Decoder) (J, error) {
	t, err := d.Token()
	if err != nil {
		return J{}, err
	}
	switch v := t.(type) {
	case nil:
		return J{T: "null"}, nil
	case bool:
		return J{T: strconv.FormatBool(v)}, nil
	case json.Number:
		return J{T: "num", V: h.S(v)}, nil
	case string:
		return J{T: "str", V: h.S(v)}, nil
	case json.Delim:
		if v == '[' {
			j := J{T: "arr"}
			for d.More() {
				e, err := parseJTok(d)
				if err != nil {
					return J{}, err
				}
				j.A = append(j.A, e)
			}
			_, err := d.Token()
			return j, err
		}
		j := J{T: "obj"}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return J{}, err
			}
			e, err := parseJTok(d)
			if err != nil {
				return J{}, err
			}
			j.K = append(j.K, h.S(k.(string)))
			j.A = append(j.A, e)
		}
		_, err := d.Token()
		return j, err
	}
	return J{}, fmt.Errorf("token %v", t)
}

// eqJ compares two trees; a number of kind "numf" compares by its float value.
func eqJ(a, b J, ordered bool) bool {
	if a.T == "numf" || b.T == "numf" {
		if !strings.HasPrefix(a.T, "num") || !strings.HasPrefix(b.T, "num") {
			return false
		}
		x, e1 := strconv.ParseFloat(string(a.V), 64)
		y, e2 := strconv.ParseFloat(string(b.V), 64)
		return e1 == nil && e2 == nil && x == y
	}
	if a.T != b.T || a.V != b.V || len(a.A) != len(b.A) {
		return false
	}
	if a.T != "obj" {
		for i := range a.A {
			if !eqJ(a.A[i], b.A[i], ordered) {
				return false
			}
		}
		return true
	}
	at := map[string]int{}
	for i, k := range b.K {
		at[string(k)] = i
	}
	for i, k := range a.K {
		x, ok := at[string(k)]
		if !ok || ordered && x != i || !eqJ(a.A[i], b.A[x], ordered) {
			return false
		}
	}
	return true
}

// find returns the nodes a path selects. ok is false if the path does not exist; vague is set
// where "exists" depends on how a wildcard over few or no matches is read.
func (j *J) find(cs []Comp) (ns []*J, ok, vague bool) {
	if len(cs) == 0 {
		return []*J{j}, true, false
	}
	c := cs[0]
	switch {
	case c.All:
		if j.T != "arr" {
			return nil, false, false
		}
		for i := range j.A {
			m, _, v := j.A[i].find(cs[1:])
			if j.A[i].T == "str" && strings.ContainsAny(string(j.A[i].V), "[{") {
				v = true // gjson looks into strings
			}
			ns = append(ns, m...)
			vague = vague || v
		}
		return ns, len(ns) > 0, vague || len(ns) == 0
	case j.T == "arr":
		i := c.I
		if c.K != nil {
			n, err := strconv.Atoi(string(*c.K))
			if err != nil || strconv.Itoa(n) != string(*c.K) {
				return nil, false, false
			}
			i = n
		}
		if i < 0 || i >= len(j.A) {
			return nil, false, false
		}
		return j.A[i].find(cs[1:])
	case j.T == "obj":
		k := strconv.Itoa(c.I)
		if c.K != nil {
			k = string(*c.K)
		}
		for i := range j.K {
			if string(j.K[i]) == k {
				return j.A[i].find(cs[1:])
			}
		}
	}
	return nil, false, false
}

// float is the value as encoding/json decodes it into an interface.
func (j J) float() any {
	var v any
	b, err := json.Marshal(j.Go())
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		panic(h.Infra{Err: err})
	}
	return v
}

func jOfFloat(v any) J {
	b, err := json.Marshal(v)
	if err != nil {
		panic(h.Infra{Err: err})
	}
	j, err := parseJ(string(b))
	if err != nil {
		panic(h.Infra{Err: err})
	}
	return j.mapNum()
}

func (j J) mapNum() J {
	j = j.clone()
	if j.T == "num" {
		j.T = "numf"
	}
	for i := range j.A {
		j.A[i] = j.A[i].mapNum()
	}
	return j
}

// ---- placeholders ----

type phStruct struct {
	Name string   `json:"name" yaml:"name"`
	N    int      `json:"n" yaml:"n"`
	L    []string `json:"l" yaml:"l"`
}

var specialPH = []string{"nan", "inf", "chan", "int", "int64", "uint8", "float", "float32", "negint", "struct", "map", "slice", "nilmap", "bool", "nil", "empty", "emptymap"}

// special is the Go value of a special placeholder and its JSON value; bad if there is none.
func special(kind string) (v any, j J, bad bool) {
	js := func(s string) J {
		j, err := parseJ(s)
		if err != nil {
			panic(h.Infra{Err: err})
		}
		return j
	}
	switch kind {
	case "nan":
		return math.NaN(), J{}, true
	case "inf":
		return math.Inf(-1), J{}, true
	case "chan":
		return make(chan int), J{}, true
	case "int":
		return 42, js("42"), false
	case "int64":
		return int64(math.MinInt64), js("-9223372036854775808"), false
	case "uint8":
		return uint8(7), js("7"), false
	case "float":
		return 2.5, js("2.5"), false
	case "float32":
		return float32(0.25), js("0.25"), false
	case "negint":
		return -3, js("-3"), false
	case "struct":
		return phStruct{"x", 1, []string{"a", "b"}}, js(`{"name":"x","n":1,"l":["a","b"]}`), false
	case "map":
		return map[string]any{"k": map[string]any{"z": 1, "y2": "v"}, "a": []any{1, "two"}}, js(`{"a":[1,"two"],"k":{"y2":"v","z":1}}`), false
	case "slice":
		return []any{"a", map[string]any{"b": 1}, []any{2}}, js(`["a",{"b":1},[2]]`), false
	case "nilmap":
		return map[string]any(nil), js("null"), false
	case "bool":
		return false, js("false"), false
	case "nil":
		return nil, js("null"), false
	case "empty":
		return []any{}, js("[]"), false
	case "emptymap":
		return map[string]any{}, js("{}"), false
	}
	panic(h.Infra{Err: fmt.Errorf("placeholder %q", kind)})
}

// TM is a matcher with structural paths.
type TM struct {
	Kind  string   `json:"kind"` // any type custom
	Paths [][]Comp `json:"paths"`
	Style int      `json:"style,omitempty"`
	PH    string   `json:"ph,omitempty"` // special placeholder / result; "" is the string S, "default" Any's own, "echo" the callback's argument
	S     h.S      `json:"s,omitempty"`  // string placeholder / result
	Type  string   `json:"type,omitempty"`
	NoErr bool     `json:"noerr,omitempty"`
	Err   h.S      `json:"err,omitempty"`
}

func (m TM) path(i int, yml bool) string {
	if yml {
		return yamlPath(m.Paths[i])
	}
	return jsonPath(m.Paths[i], m.Style)
}

func (m TM) name() string {
	return map[string]string{"any": "Any", "type": "Type", "custom": "Custom"}[m.Kind]
}

// Build makes the real matcher; seen receives what a callback was given.
func (m TM) Build(yml bool, seen *[]any) anyMatcher {
	r := M{Kind: m.Kind, Type: m.Type, NoErr: m.NoErr, Err: m.Err}
	for i := range m.Paths {
		r.Paths = append(r.Paths, h.S(m.path(i, yml)))
	}
	var ph any = string(m.S)
	if m.PH != "" && m.PH != "default" && m.PH != "echo" {
		ph, _, _ = special(m.PH)
	}
	return r.build(seen, m.PH != "default", m.PH == "echo", ph)
}

// typeNames maps the Type parameter to the dynamic types it accepts.
var typeNames = map[string]string{
	"string": "string", "float64": "float64", "bool": "bool", "map": "map[string]interface {}", "slice": "[]interface {}", "uint64": "uint64", "int": "int",
}

func typeAccepts(want string, v any) bool {
	if want == "any" {
		return v != nil
	}
	return fmt.Sprintf("%T", v) == typeNames[want]
}

// MErr is a failing path.
type MErr struct {
	Matcher, Path string
	Callback      string // text of the callback's error
}

// MResult is what a list of matchers does to a document.
type MResult struct {
	J       J
	Y       []any // YAML documents
	Errs    []MErr
	Vague   bool    // the outcome depends on a reading the property leaves open
	Exotic  bool    // an error instead of the replacement would be acceptable
	Seen    [][]any // what callbacks receive
	Touched int
}

// applyJ is the model for JSON. keep says whether the paths of a matcher that failed on another
// path still take effect for the matchers after it.
func applyJ(doc J, ms []TM, keep bool) MResult {
	r := MResult{J: doc.clone()}
	for _, m := range ms {
		before := r.J.clone()
		failed := false
		fail := func(i int, cb string) {
			r.Errs = append(r.Errs, MErr{m.name(), m.path(i, false), cb})
			failed = true
		}
		for i, p := range m.Paths {
			ns, ok, vague := r.J.find(p)
			r.Vague = r.Vague || vague
			if !plainPath(p) {
				r.Exotic = true
			}
			if !ok {
				if !m.NoErr {
					fail(i, "")
				}
				continue
			}
			wild := false
			for _, c := range p {
				wild = wild || c.All
			}
			var v any
			if wild {
				l := []any{}
				for _, n := range ns {
					l = append(l, n.float())
				}
				v = l
			} else {
				v = ns[0].float()
			}
			var ph J
			switch m.Kind {
			case "type":
				if !typeAccepts(m.Type, v) {
					fail(i, "")
					continue
				}
				ph = J{T: "str", V: h.S(fmt.Sprintf("<Type:%T>", v))}
			case "custom":
				r.Seen = append(r.Seen, []any{v})
				if m.Err != "" {
					fail(i, string(m.Err))
					continue
				}
				fallthrough
			default:
				switch m.PH {
				case "":
					ph = J{T: "str", V: m.S}
				case "default":
					ph = J{T: "str", V: "<Any value>"}
				case "echo":
					ph = jOfFloat(v)
				default:
					var bad bool
					_, ph, bad = special(m.PH)
					if bad {
						fail(i, "")
						continue
					}
				}
			}
			for _, n := range ns {
				*n = ph.clone()
				r.Touched++
			}
		}
		if failed && !keep {
			r.J = before
		}
	}
	return r
}

// ---- YAML model ----

func decodeYAML(s string) ([]any, error) {
	d := yaml.NewDecoder(strings.NewReader(s), yaml.UseOrderedMap())
	var out []any
	for {
		var v any
		err := d.Decode(&v)
		if err != nil {
			if err.Error() == "EOF" {
				return out, nil
			}
			return out, err
		}
		out = append(out, normY(v))
	}
}

// normY turns a decoded value into comparable form: numbers of one value are one type.
func normY(v any) any {
	switch x := v.(type) {
	case yaml.MapSlice:
		out := yaml.MapSlice{}
		for _, it := range x {
			out = append(out, yaml.MapItem{Key: fmt.Sprint(it.Key), Value: normY(it.Value)})
		}
		return out
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, normY(e))
		}
		return out
	case uint64:
		if x <= math.MaxInt64 {
			return int64(x)
		}
	case int:
		return int64(x)
	}
	return v
}

// yOf is the value a JSON tree stands for in YAML.
func (j J) yOf() any {
	switch j.T {
	case "null":
		return nil
	case "true", "false":
		return j.T == "true"
	case "str":
		return string(j.V)
	case "num", "numf":
		if n, err := strconv.ParseInt(string(j.V), 10, 64); err == nil {
			return n
		}
		f, _ := strconv.ParseFloat(string(j.V), 64)
		return f
	case "arr":
		out := []any{}
		for _, e := range j.A {
			out = append(out, e.yOf())
		}
		return out
	}
	out := yaml.MapSlice{}
	for i, e := range j.A {
		out = append(out, yaml.MapItem{Key: string(j.K[i]), Value: e.yOf()})
	}
	return out
}

// yref is a place in a decoded YAML document.
type yref struct {
	get func() any
	set func(any)
}

func findY(at yref, cs []Comp) (ns []yref, ok, vague bool) {
	if len(cs) == 0 {
		return []yref{at}, true, false
	}
	c := cs[0]
	switch v := at.get().(type) {
	case []any:
		elem := func(i int) yref { return yref{func() any { return v[i] }, func(x any) { v[i] = x }} }
		if c.K != nil {
			return nil, false, false
		}
		if c.All {
			for i := range v {
				m, ok, vg := findY(elem(i), cs[1:])
				ns = append(ns, m...)
				vague = vague || vg || !ok // an element without the rest of the path
			}
			return ns, len(ns) > 0, vague || len(ns) == 0
		}
		if c.I < 0 || c.I >= len(v) {
			return nil, false, false
		}
		return findY(elem(c.I), cs[1:])
	case yaml.MapSlice:
		if c.K == nil {
			return nil, false, false
		}
		for i := range v {
			if v[i].Key == string(*c.K) {
				return findY(yref{func() any { return v[i].Value }, func(x any) { v[i].Value = x }}, cs[1:])
			}
		}
	}
	return nil, false, false
}

// plainY is the value as goccy decodes it into an interface without options.
func plainY(v any) any {
	switch x := v.(type) {
	case yaml.MapSlice:
		out := map[string]any{}
		for _, it := range x {
			out[it.Key.(string)] = plainY(it.Value)
		}
		return out
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, plainY(e))
		}
		return out
	case int64:
		if x >= 0 {
			return uint64(x)
		}
	}
	return v
}

func yCopy(v any) any {
	switch x := v.(type) {
	case yaml.MapSlice:
		out := yaml.MapSlice{}
		for _, it := range x {
			out = append(out, yaml.MapItem{Key: it.Key, Value: yCopy(it.Value)})
		}
		return out
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, yCopy(e))
		}
		return out
	}
	return v
}

// ySort orders the keys of maps, as they are after a map[string]any.
func ySort(v any) any {
	v = yCopy(v)
	switch x := v.(type) {
	case yaml.MapSlice:
		sort.SliceStable(x, func(i, j int) bool { return x[i].Key.(string) < x[j].Key.(string) })
		for i := range x {
			x[i].Value = ySort(x[i].Value)
		}
	case []any:
		for i := range x {
			x[i] = ySort(x[i])
		}
	}
	return v
}

func yEq(a, b any) bool {
	return reflect.DeepEqual(a, b) || fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) // NaN
}

// applyY is the model for YAML; docs is the decoded input. A path selects in every document.
func applyY(docs []any, ms []TM, keep bool) MResult {
	cp := func(ds []any) []any {
		var out []any
		for _, d := range ds {
			out = append(out, yCopy(d))
		}
		return out
	}
	r := MResult{Y: cp(docs)}
	for _, m := range ms {
		before := cp(r.Y)
		failed := false
		fail := func(i int, cb string) {
			r.Errs = append(r.Errs, MErr{m.name(), m.path(i, true), cb})
			failed = true
		}
		for i, p := range m.Paths {
			var ns []yref
			n := 0
			for d := range r.Y {
				x, ok, vague := findY(yref{func() any { return r.Y[d] }, func(v any) { r.Y[d] = v }}, p)
				r.Vague = r.Vague || vague
				if ok {
					n++
				}
				ns = append(ns, x...)
			}
			if n < len(r.Y) && len(r.Y) > 1 {
				r.Exotic = true // some documents do not have the path
			}
			if len(ns) == 0 {
				if !m.NoErr {
					fail(i, "")
				}
				continue
			}
			wild := false
			for _, c := range p {
				wild = wild || c.All
			}
			if len(r.Y) > 1 {
				r.Vague = r.Vague || m.Kind != "any" && n > 1 // which document decides the type?
			}
			var v any
			if wild {
				l := []any{}
				for _, n := range ns {
					l = append(l, plainY(n.get()))
				}
				v = l
			} else {
				v = plainY(ns[0].get())
			}
			if len(p) == 0 {
				r.Exotic = true
			}
			var ph any
			switch m.Kind {
			case "type":
				if !typeAccepts(m.Type, v) {
					fail(i, "")
					continue
				}
				ph = fmt.Sprintf("<Type:%T>", v)
			case "custom":
				r.Seen = append(r.Seen, []any{v})
				if m.Err != "" {
					fail(i, string(m.Err))
					continue
				}
				fallthrough
			default:
				switch m.PH {
				case "":
					ph = string(m.S)
				case "default":
					ph = "<Any value>"
				case "echo":
					if wild {
						ph = jOfFloat(v).yOf()
					} else {
						ph = ySort(ns[0].get())
					}
					r.Exotic = true
				default:
					_, j, bad := special(m.PH)
					switch {
					case m.PH == "nan" || m.PH == "inf":
						r.Vague = true // valid YAML values, which do not compare
						continue
					case bad:
						fail(i, "")
						continue
					}
					ph = j.yOf()
					if m.PH == "nilmap" {
						ph = yaml.MapSlice{} // how goccy/go-yaml encodes it
					}
				}
			}
			for _, n := range ns {
				n.set(yCopy(ph))
				r.Touched++
			}
		}
		if failed && !keep {
			r.Y = before
		}
	}
	return r
}

// ---- generation ----

// walkJ draws the path of a node below j.
func walkJ(t *rapid.T, j J, wild bool) []Comp {
	var cs []Comp
	for len(j.A) > 0 {
		if len(cs) > 0 && rapid.IntRange(0, 3).Draw(t, "stop") == 0 {
			break
		}
		i := rapid.IntRange(0, len(j.A)-1).Draw(t, "child")
		if j.T == "obj" {
			cs = append(cs, key(string(j.K[i])))
		} else if wild && len(j.A[i].A) > 0 && rapid.IntRange(0, 2).Draw(t, "all") == 0 {
			cs = append(cs, Comp{All: true})
		} else {
			cs = append(cs, Comp{I: i})
		}
		j = j.A[i]
		if len(cs) > 0 && cs[len(cs)-1].All {
			// a wildcard needs a component after it
			if len(j.A) == 0 {
				break
			}
			k := rapid.IntRange(0, len(j.A)-1).Draw(t, "child")
			if j.T == "obj" {
				cs = append(cs, key(string(j.K[k])))
			} else {
				cs = append(cs, Comp{I: k})
			}
			j = j.A[k]
		}
	}
	return cs
}

// spoil turns a path into one that most likely does not exist.
func spoil(t *rapid.T, cs []Comp) []Comp {
	cs = append([]Comp(nil), cs...)
	switch rapid.IntRange(0, 3).Draw(t, "spoil") {
	case 0:
		return append(cs, key("missing"))
	case 1:
		if len(cs) > 0 {
			cs[len(cs)-1] = key("nope")
			return cs
		}
	case 2:
		if len(cs) > 0 && cs[len(cs)-1].K == nil && !cs[len(cs)-1].All {
			cs[len(cs)-1].I += 9
			return cs
		}
	}
	return []Comp{key("absent"), key("b")}
}

type mopts struct {
	yml      bool
	missing  int // in 10: a path that does not exist
	strs     []string
	specials []string
	errs     bool
	wild     bool
}

func genTM(t *rapid.T, doc J, o mopts) TM {
	m := TM{Kind: rapid.SampledFrom([]string{"any", "any", "type", "custom"}).Draw(t, "matcher"), Style: rapid.IntRange(0, 1).Draw(t, "style")}
	n := 1
	if m.Kind != "custom" {
		n = rapid.IntRange(1, 3).Draw(t, "paths")
		if h.Rare(t, 5, "many paths") {
			n = rapid.SampledFrom([]int{9, 17, 33, 70}).Draw(t, "how many paths")
		}
	}
	var typs []string
	for i := 0; i < n; i++ {
		p := walkJ(t, doc, o.wild)
		if len(p) == 0 || rapid.IntRange(0, 9).Draw(t, "missing") < o.missing {
			p = spoil(t, p)
		} else if m.Kind == "type" {
			// all paths of one matcher must be of one type to succeed
			d := doc.clone()
			ns, _, _ := d.find(p)
			ty := "any"
			if len(ns) > 0 {
				switch ns[0].T {
				case "str":
					ty = "string"
				case "num":
					ty = "float64"
					if o.yml {
						ty = "uint64"
					}
				case "true", "false":
					ty = "bool"
				case "obj":
					ty = "map"
				case "arr":
					ty = "slice"
				}
			}
			for _, c := range p {
				if c.All {
					ty = "slice"
				}
			}
			typs = append(typs, ty)
		}
		m.Paths = append(m.Paths, p)
	}
	m.NoErr = rapid.IntRange(0, 2).Draw(t, "no err") == 0
	switch m.Kind {
	case "type":
		m.Type = "string"
		if len(typs) > 0 {
			m.Type = typs[0]
		}
		if r := rapid.IntRange(0, 9).Draw(t, "other type"); r == 0 || len(typs) > 1 && r < 6 {
			m.Type = "any"
		} else if r == 1 && o.errs {
			m.Type = rapid.SampledFrom([]string{"string", "float64", "bool", "map", "slice", "uint64", "int"}).Draw(t, "type")
		}
	case "any":
		m.PH = "default"
		if rapid.IntRange(0, 2).Draw(t, "placeholder") == 0 {
			m.PH = ""
		}
	case "custom":
		if o.errs && rapid.IntRange(0, 2).Draw(t, "callback error") == 0 {
			m.Err = h.S(rapid.SampledFrom([]string{"no", "expected 5 but got 6", "100% wrong", "a\nb", "<bad>", "\x1b[31mred"}).Draw(t, "err"))
		} else if rapid.IntRange(0, 4).Draw(t, "echo") == 0 {
			m.PH = "echo"
		}
	}
	if m.PH == "" && m.Kind != "type" {
		if rapid.IntRange(0, 2).Draw(t, "special") == 0 {
			m.PH = rapid.SampledFrom(o.specials).Draw(t, "ph")
		} else {
			m.S = h.S(rapid.SampledFrom(o.strs).Draw(t, "ph text"))
		}
	}
	return m
}
