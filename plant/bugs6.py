from bugs1 import *
from bugs4 import HEAD, J, Y, SJ, MS
U='snaps/utils.go'; D='snaps/diff.go'; CO='internal/colors/colors.go'; SS='snaps/matchStandaloneSnapshot.go'
BUGS=[
dict(id='c02-nul-end', property='C02',
 needs='a change that only adds or removes NUL bytes at the end of the value',
 breaks='texts that differ in NUL bytes at the end count as equal',
 edits=[(D,'''	if expected == received {
		return ""
	}
	differ''','''	if strings.TrimRight(expected, "\\x00") == strings.TrimRight(received, "\\x00") {
		return ""
	}
	differ''')],
 demo=imp('testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	fails(t, "changed", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a\\x00") }), 1)
}
'''),
dict(id='c04-case-only', property='C04',
 needs='an update in which only the case of letters changed',
 breaks='values that only differ in case are not updated',
 edits=[(MS,'''	if diff == "" {
''','''	if diff == "" || shouldUpdate(c.update) && strings.EqualFold(prevSnapshot, snapshot) {
''')],
 demo=imp('testing',SN)+HEAD+'''
	u := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(true))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "some value") })
	run("TestA", func(ft *FT) { u.MatchSnapshot(ft, "Some value") })
	passes(t, "after the update", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "Some value") }))
}
'''),
dict(id='c19-empty-prev', property='C19',
 needs='a standalone snapshot of the empty value',
 breaks='an empty standalone file counts as missing, so it is added again by every run',
 edits=[(S,'''	if err != nil {
		return "", errSnapNotFound
	}

	return string(f), nil''','''	if err != nil || len(f) == 0 {
		return "", errSnapNotFound
	}

	return string(f), nil''')],
 demo=imp('testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "") })
	passes(t, "replay", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "") }))
}
'''),
dict(id='c07-occurrence-cap', property='C07',
 needs='a test with more than 100 snapshots in a file',
 breaks='the ids of at most 99 snapshots and the last one of a test are known to Clean, the others are obsolete',
 edits=[(C,'''			for i := 1; i <= counter; i++ {
''','''			for i := 1; i <= min(counter, 99); i++ {
''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) {
		for range 120 {
			c.MatchSnapshot(ft, "a")
		}
	})
	clean()
	if !strings.Contains(read(t, d, "f.snap"), "[TestA - 110]") {
		t.Fatal("a snapshot that was matched is gone")
	}
}
'''),
dict(id='c08-skip-prefix', property='C08',
 needs='a skipped test whose name starts with the name of another one that was skipped before it',
 breaks='a skip is not noted when a noted name is a prefix of the name of the test, so its snapshots are obsolete',
 edits=[(U,'''	s.values = append(s.values, elems...)
''','''	for _, elem := range elems {
		covered := func(value string) bool { return strings.HasPrefix(elem, value) && elem != value }
		if !slices.ContainsFunc(s.values, covered) {
			s.values = append(s.values, elem)
		}
	}
''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('strings','testing',SN)+HEAD+'''
	write(t, "\\n[TestAB - 1]\\nkept\\n---\\n", d, "f.snap")
	run("TestC", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	run("TestA", func(ft *FT) { snaps.Skip(ft) })
	run("TestAB", func(ft *FT) { snaps.Skip(ft) })
	clean()
	if !strings.Contains(read(t, d, "f.snap"), "kept") {
		t.Fatal("the snapshot of a skipped test is gone")
	}
}
'''),
dict(id='c09-path-contains', property='C09',
 needs='a snapshot directory with .snap in its path',
 breaks='.snap is looked for in the whole path, so any file is taken as a snapshot file',
 edits=[(C,'''			if content.IsDir() || !strings.Contains(content.Name(), snapsExt) {
				continue
			}

			snapPath := filepath.Join(dir, content.Name())
''','''			snapPath := filepath.Join(dir, content.Name())
			if content.IsDir() || !strings.Contains(snapPath, snapsExt) {
				continue
			}

''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('path/filepath','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := filepath.Join(t.TempDir(), "my.snaps")
	write(t, "text", d, "README.md")
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	clean()
	read(t, d, "README.md")
}
'''),
dict(id='c09-snap-directory', property='C09',
 needs='an empty directory with .snap in its name',
 breaks='directories with .snap in their name are taken as snapshot files and removed when empty',
 edits=[(C,'''			if content.IsDir() || !strings.Contains(content.Name(), snapsExt) {
''','''			if !strings.Contains(content.Name(), snapsExt) {
''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('os','path/filepath','testing',SN)+HEAD+'''
	if err := os.Mkdir(filepath.Join(d, "old.snap"), 0o755); err != nil {
		t.Fatal(err)
	}
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	clean()
	if _, there := tree(d)["old.snap/"]; !there {
		t.Fatal("the directory is gone")
	}
}
'''),
dict(id='c09-parent-dir', property='C09',
 needs='a sub-directory that is visited too, with a directory above it that is not',
 breaks='the sub-directories of a visited directory are visited too',
 edits=[(C,'''			if content.IsDir() || !strings.Contains(content.Name(), snapsExt) {
				continue
			}

			snapPath''','''			if content.IsDir() {
				sub, _ := os.ReadDir(filepath.Join(dir, content.Name()))
				for _, c := range sub {
					name := filepath.Join(dir, content.Name(), c.Name())
					_, called := registry[name]
					if !called && !c.IsDir() && strings.HasSuffix(c.Name(), snapsExt) && shouldUpdate {
						os.Remove(name)
					}
				}
				continue
			}
			if !strings.Contains(content.Name(), snapsExt) {
				continue
			}

			snapPath''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('testing',SN)+HEAD+'''
	write(t, "x", d, "__snapshots__", "f.snap")
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	clean()
	read(t, d, "__snapshots__", "f.snap")
}
'''),
dict(id='c10-check-limit', property='C10',
 needs='a file whose first 32 entries are in order and later ones are not',
 breaks='only the first 32 ids decide if a file needs sorting',
 edits=[(C,'''!slices.IsSortedFunc(testIDs, naturalSort)''','''!slices.IsSortedFunc(testIDs[:min(32, len(testIDs))], naturalSort)''')],
 demo=imp('fmt','strings','testing',SN)+HEAD+'''
	var b strings.Builder
	for i := range 40 {
		fmt.Fprintf(&b, "\\n[TestA - %d]\\nv\\n---\\n", i+1)
	}
	write(t, b.String()+"\\n[TestA - 42]\\nv\\n---\\n\\n[TestA - 41]\\nv\\n---\\n", d, "f.snap")
	run("TestA", func(ft *FT) {
		for range 42 {
			c.MatchSnapshot(ft, "v")
		}
	})
	clean(snaps.CleanOpts{Sort: true})
	if s := read(t, d, "f.snap"); strings.Index(s, "- 41]") > strings.Index(s, "- 42]") {
		t.Fatal("not sorted")
	}
}
'''),
dict(id='c11-ext-dot', property='C11',
 needs='an Ext that does not start with a dot',
 breaks='a missing dot is put in front of the Ext',
 edits=[(S,'''		c.extension = ext
''','''		if ext != "" && ext[0] != '.' {
			ext = "." + ext
		}
		c.extension = ext
'''),(S,'''// default: .snap
//
// Note: even''','''// default: .snap, a missing dot is added
//
// Note: even''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Ext("_txt"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	read(t, d, "f.snap_txt")
}
'''),
dict(id='c11-filename-suffix', property='C11',
 needs='a Filename that ends with .snap',
 breaks='.snap is dropped from the end of the Filename',
 edits=[(S,'''	filename := c.filename
''','''	filename := strings.TrimSuffix(c.filename, snapsExt)
''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f.snap"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	read(t, d, "f.snap.snap")
}
'''),
dict(id='c12-options-shared', property='C12',
 needs='two Configs with JSON options used at the same time',
 breaks='the options of the JSON printer are kept in one variable, calls at the same time print with the options of another Config',
 edits=[(S,'''	return &pretty.Options{
		Width:    j.Width,
		Indent:   j.Indent,
		SortKeys: j.SortKeys,
	}
''','''	prettyOptions.Width = j.Width
	prettyOptions.Indent = j.Indent
	prettyOptions.SortKeys = j.SortKeys
	return &prettyOptions
'''),(S,'''type JSONConfig struct {''','''// filled for each call
var prettyOptions pretty.Options

type JSONConfig struct {''')],
 flags='-race',
 demo=imp('fmt','sync','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	var wg sync.WaitGroup
	for i := range 20 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := snaps.WithConfig(snaps.Dir(d), snaps.Filename(fmt.Sprint("f", i)), snaps.JSON(snaps.JSONConfig{Indent: fmt.Sprint(i)}))
			run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":1}`) })
		}()
	}
	wg.Wait()
}
'''),
dict(id='c13-range-color', property='C13',
 needs='a report of texts with more than 10 lines in NO_COLOR mode',
 breaks='the range line of a hunk is coloured even in NO_COLOR mode',
 edits=[(CO,'''func FprintRange(w io.Writer, r1, r2 string) {
	if NOCOLOR {''','''func FprintRange(w io.Writer, r1, r2 string) {
	if NOCOLOR && len(r1) < 5 {''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, strings.Repeat("a\\n", 300)) })
	ft := run("TestA", func(ft *FT) { c.MatchSnapshot(ft, strings.Repeat("a\\n", 150)+"x\\n"+strings.Repeat("a\\n", 150)) })
	if len(ft.errs) != 1 || strings.Contains(ft.errs[0], "\\x1b") {
		t.Fatalf("%q", ft.errs)
	}
}
'''),
dict(id='c14-space-kinds', property='C14',
 needs='a document with blanks around it that are no JSON whitespace',
 breaks='any Unicode space around a document given as string is accepted',
 edits=[(J,'''		if !gjson.Valid(j) {
''','''		if !gjson.Valid(strings.TrimSpace(j)) {
''')],
 demo=imp('testing',SN)+HEAD+'''
	fails(t, "no JSON", run("TestA", func(ft *FT) { c.MatchJSON(ft, "\\u00a0{}") }), 1)
}
'''),
dict(id='c17-path-once', property='C17',
 needs='two matchers of a call failing on the same path',
 breaks='a path is only reported for the first matcher failing on it',
 edits=[(J,'''			errors = append(errors, errs...)
''','''			for _, err := range errs {
				reported := slices.ContainsFunc(errors, func(e match.MatcherError) bool { return e.Path == err.Path })
				if !reported {
					errors = append(errors, err)
				}
			}
'''),(J,'''	"fmt"
''','''	"fmt"
	"slices"
''')],
 demo=imp('strings','testing',SN,MA)+HEAD+'''
	ft := run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":1}`, match.Any("b"), match.Type[string]("b")) })
	if len(ft.errs) != 1 || !strings.Contains(ft.errs[0], "Type") {
		t.Fatalf("%q", ft.errs)
	}
}
'''),
dict(id='c18-bytes-crlf', property='C18',
 needs='a document with carriage returns given as bytes',
 breaks='line endings of documents given as bytes are normalised',
 edits=[(Y,'''		return y, nil
''','''		return bytes.ReplaceAll(y, []byte("\\r\\n"), []byte("\\n")), nil
'''),(Y,'''import (
''','''import (
	"bytes"
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchYAML(ft, []byte("a: 1\\r\\nb: 2\\r\\n")) })
	if !strings.Contains(read(t, d, "f.snap"), "a: 1\\r\\n") {
		t.Fatal("changed")
	}
}
'''),
dict(id='c05-standalone-option', property='C05',
 needs='MatchStandaloneJSON with an Update option and a snapshot that differs',
 breaks='MatchStandaloneJSON ignores the Update option when a snapshot differs',
 edits=[(SJ,'''	if !shouldUpdate(c.update) {
''','''	if !shouldUpdate(defaultConfig.update) {
''')],
 demo=imp('testing',SN)+HEAD+'''
	u := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(true))
	run("TestA", func(ft *FT) { u.MatchStandaloneJSON(ft, "1") })
	run("TestA", func(ft *FT) { u.MatchStandaloneJSON(ft, "2") })
	if got := read(t, d, "f_1.snap.json"); got != "2" {
		t.Fatalf("%q", got)
	}
}
'''),
dict(id='c05-env-space', property='C05',
 needs='UPDATE_SNAPS with blanks around the value',
 breaks='blanks around the value of UPDATE_SNAPS are ignored',
 edits=[(U,'''os.Getenv("UPDATE_SNAPS")''','''strings.TrimSpace(os.Getenv("UPDATE_SNAPS"))''')],
 env='export UPDATE_SNAPS="true "',
 demo=imp('testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	fails(t, "changed", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "b") }), 1)
}
'''),
dict(id='c01-escape-lines', property='C01',
 needs='a value with a terminator line after line 1000',
 breaks='terminators are only escaped in the first 1000 lines of a value',
 edits=[(S,'''		if s == endSequence {
''','''		if s == endSequence && idx < 1000 {
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	v := strings.Repeat("line\\n", 1500) + "---\\nend"
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, v) })
	passes(t, "replay", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, v) }))
}
'''),
dict(id='c03-hash-suffix', property='C03',
 needs='two subtests of the same name, that go test tells apart with #01',
 breaks='the header is made without the #01 of repeated subtests, so they share slots',
 edits=[(S,'''	return fmt.Sprintf("[%s - %d]", testName, c)
''','''	return fmt.Sprintf("[%s - %d]", withoutSuffix(testName), c)
'''),(S,'''// reset sets only''','''// withoutSuffix is the name without what go test adds to repeated names
func withoutSuffix(name string) string {
	if i := strings.LastIndex(name, "#"); i > 0 && len(name)-i == 3 {
		return name[:i]
	}

	return name
}

// reset sets only''')],
 demo=imp('testing',SN)+HEAD+'''
	run("TestA/x", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	adds(t, "the other one", run("TestA/x#01", func(ft *FT) { c.MatchSnapshot(ft, "b") }), 1)
}
'''),
]
