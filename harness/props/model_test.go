package props

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// badDocs are calls that must fail whatever the store holds.
var badDocs = []Call{
	{Kind: "json", Form: "str", Doc: "{bad"}, {Kind: "json", Form: "bytes", Doc: ""}, {Kind: "yaml", Form: "str", Doc: "a: [1"},
	{Kind: "json", Form: "str", Doc: `{"a":1}`, M: []M{{Kind: "any", Paths: []h.S{"missing"}}}},
	{Kind: "yaml", Form: "str", Doc: "a: 1\n", M: []M{{Kind: "type", Type: "bool", Paths: []h.S{"$.a"}}}},
	{Kind: "json", Form: "str", Doc: `{"a":1}`, M: []M{{Kind: "custom", Paths: []h.S{"a"}, Err: "no"}}},
}

func isBad(c Call) bool {
	if len(c.M) > 0 {
		return true
	}
	for _, b := range badDocs {
		if len(b.M) == 0 && b.Kind == c.Kind && b.Form == c.Form && b.Doc == c.Doc {
			return true
		}
	}
	return false
}

// fmtText is the formatted text of a multi-entry call that is not bad.
func fmtText(c *h.C, k Cfg, call Call) (string, error) {
	if s, ok := formatted(call); ok {
		return s, nil
	}
	dir := c.Dir()
	k.Dir, k.File, k.Ext, k.Update = sdir(dir), "f", "", nil
	t := h.NewT("TestFormat")
	defer t.RunCleanups()
	o, ev, err := step(t, k.Build(), call)
	if err != nil {
		return "", err
	}
	if o != h.Added {
		return "", fmt.Errorf("a new value was not recorded: %s %s", o, h.ShowEvents(ev))
	}
	es, err := h.ParseStore(h.ReadTree(dir)["f.snap"].Data)
	if err != nil || len(es) != 1 {
		return "", fmt.Errorf("recording one value made %d entries (%v)", len(es), err)
	}
	return es[0].Body, nil
}

// Pre is an entry that is in the file before the history starts.
type Pre struct {
	ID   h.S  `json:"id"`
	Body h.S  `json:"body"`
	Gap  int  `json:"gap,omitempty"`  // additional blank lines before it
	Note h.S  `json:"note,omitempty"` // a line before it that belongs to no entry
	Chop bool `json:"chop,omitempty"` // no newline at the end of the file
}

func renderPre(ps []Pre) h.S {
	var b strings.Builder
	for _, p := range ps {
		if p.Note != "" {
			b.WriteString(string(p.Note) + "\n")
		}
		b.WriteString(strings.Repeat("\n", p.Gap))
		b.WriteString(h.Entry{ID: string(p.ID), Body: string(p.Body)}.Render())
	}
	if n := len(ps); n > 0 && ps[n-1].Chop {
		return h.S(strings.TrimSuffix(b.String(), "\n"))
	}
	return h.S(b.String())
}

// genBody is the body of an entry whose value is the body itself: no line of it is a
// terminator or the escape of one.
func genBody(names ...string) *rapid.Generator[string] {
	text := h.TallText(false, names...)
	return rapid.Custom(func(t *rapid.T) string {
		ls := strings.Split(text.Draw(t, "body"), "\n")
		for i, l := range ls {
			// what a formatter would turn into another text is not the text itself
			l = strings.NewReplacer("\f", "", "\v", "", "\t", " ", "\xff", "", "\r", "").Replace(l)
			ls[i] = l
			if l == "---" || strings.HasSuffix(l, "-/-/-/") {
				ls[i] = "x " + strings.Trim(l, "-/")
			}
		}
		return strings.Join(ls, "\n")
	})
}

// genPre generates entries with distinct ids; names are test names.
func genPre(t *rapid.T, names []string, max, maxOrd int) []Pre {
	n := rapid.IntRange(0, max).Draw(t, "pre")
	seen := map[string]bool{}
	var out []Pre
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s - %d", rapid.SampledFrom(names).Draw(t, "pre name"), rapid.IntRange(1, maxOrd).Draw(t, "pre ord"))
		if seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, Pre{ID: h.S(id), Body: h.S(genBody(names...).Draw(t, "pre body"))})
		if rapid.IntRange(0, 5).Draw(t, "gap?") == 0 {
			out[len(out)-1].Gap = rapid.IntRange(1, 2).Draw(t, "gap")
		}
		if rapid.IntRange(0, 9).Draw(t, "note?") == 0 {
			out[len(out)-1].Note = h.S(rapid.SampledFrom(h.Notes).Draw(t, "note"))
		}
	}
	if h.Rare(t, 6, "bulk?") {
		// a file of many entries
		var bulk []Pre
		for i, n := 0, rapid.SampledFrom([]int{70, 300, 1500}).Draw(t, "bulk"); i < n; i++ {
			bulk = append(bulk, Pre{ID: h.S(fmt.Sprintf("TestBulk - %d", i+1)), Body: h.S(strings.Repeat(fmt.Sprintf("bulk %d\n", i), 1+i%4) + "end")})
		}
		if rapid.Bool().Draw(t, "bulk first") {
			out = append(bulk, out...)
		} else {
			out = append(out, bulk...)
		}
	}
	return out
}

func join(dir, f string) string { return filepath.Join(dir, f) }
