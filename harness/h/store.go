package h

import (
	"fmt"
	"strings"
)

// Entry of a multi-entry snapshot file. Body is the stored text between the header line and
// the terminator line, without the newline that precedes the terminator.
type Entry struct {
	ID   string // without the brackets
	Body string
}

// Render is the documented frame of an entry.
func (e Entry) Render() string { return "\n[" + e.ID + "]\n" + e.Body + "\n---\n" }

func Render(es []Entry) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.Render())
	}
	return b.String()
}

// ParseStore reads a multi-entry file strictly: blank line, `[id]`, body lines, `---`, repeated,
// and nothing else.
func ParseStore(data string) ([]Entry, error) { return parse(data, false) }

// Notes are lines that can be between the entries of a file that was edited by hand. None is a header.
var Notes = []string{"# note", "// TestA - 1", "TestA - 1", "[TestA - 1", "TestA - 1]", "[TestA]", "[TestA - x]", " [TestA - 1]", "[TestA - 1] ", "x - 12y", "-- ", "--- x", "[TestA - 1] x", "[TestA-1]", "[TestA - 1 ]", "[TestA - -1]", "{TestA - 1}"}

var notes = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range Notes {
		m[n] = true
	}
	return m
}()

// ParseLoose tolerates missing or additional blank lines and notes between entries, as a file
// edited by hand can have.
func ParseLoose(data string) ([]Entry, error) { return parse(data, true) }

func parse(data string, loose bool) ([]Entry, error) {
	var out []Entry
	pos := 0
	line := func() (string, bool) {
		i := strings.IndexByte(data[pos:], '\n')
		if i < 0 && loose && pos < len(data) {
			// an editor left out the last newline
			l := data[pos:]
			pos = len(data)
			return l, true
		}
		if i < 0 {
			return "", false
		}
		l := data[pos : pos+i]
		pos += i + 1
		return l, true
	}
	for pos < len(data) {
		at := pos
		l, ok := line()
		if loose {
			for ok && (l == "" || notes[l]) {
				if pos == len(data) {
					return out, nil
				}
				l, ok = line()
			}
		} else if !ok || l != "" {
			return out, fmt.Errorf("byte %d: expected the blank line before an entry, got %s", at, Show(data[at:]))
		}
		h := l
		if !loose {
			h, ok = line()
		}
		if !ok || len(h) < 2 || h[0] != '[' || h[len(h)-1] != ']' {
			return out, fmt.Errorf("byte %d: expected an entry header, got %s", at, Show(data[at:]))
		}
		e := Entry{ID: h[1 : len(h)-1]}
		var body []string
		for {
			l, ok := line()
			if !ok {
				return out, fmt.Errorf("entry [%s] has no terminator", e.ID)
			}
			if l == "---" {
				break
			}
			body = append(body, l)
		}
		if len(body) == 0 {
			return out, fmt.Errorf("entry [%s] has no body line at all", e.ID)
		}
		e.Body = strings.Join(body, "\n")
		out = append(out, e)
	}
	return out, nil
}

// Lookup returns the bodies stored under an id.
func Lookup(es []Entry, id string) (bodies []string) {
	for _, e := range es {
		if e.ID == id {
			bodies = append(bodies, e.Body)
		}
	}
	return
}
