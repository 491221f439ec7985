from bugs1 import *
from bugs4 import HEAD, J, Y, SJ, MS
SH='match/utils.go'
BUGS=[
dict(id='c09-readdir-limit', property='C09',
 needs='a snapshot directory with more than 256 files',
 breaks='Clean only looks at the first 256 names of a directory',
 edits=[(C,'''		dirContents, _ := os.ReadDir(dir)
''','''		dirContents := dirEntries(dir, 256)
'''),(C,'''func examineSnaps(
''','''func dirEntries(dir string, n int) []os.DirEntry {
	f, err := os.Open(dir)
	if err != nil {
		return nil
	}
	defer f.Close()

	contents, _ := f.ReadDir(n)
	return contents
}

func examineSnaps(
''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('fmt','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	for i := range 400 {
		write(t, "stale", d, fmt.Sprintf("stale%d_1.snap", i))
	}
	clean()
	if n := len(tree(d)); n != 2 {
		t.Fatalf("%d files left", n)
	}
}
'''),
dict(id='c08-deep-descendant', property='C08',
 needs='a skipped test with a snapshot of a test more than two levels below it',
 breaks='a skip only protects children and their children',
 edits=[(K,'''		if testName == name || strings.HasPrefix(testName, name+"/") {
			return true
		}
''','''		if testName == name || strings.HasPrefix(testName, name+"/") && strings.Count(testName[len(name):], "/") < 3 {
			return true
		}
''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	run("TestB", func(ft *FT) { snaps.Skip(ft) })
	write(t, read(t, d, "f.snap")+"\\n[TestB/a/b/c/d - 1]\\nkept\\n---\\n", d, "f.snap")
	clean()
	if !strings.Contains(read(t, d, "f.snap"), "kept") {
		t.Fatal("the snapshot of a descendant of the skipped test is gone")
	}
}
'''),
dict(id='c07-files-batch', property='C07',
 needs='more than 32 snapshot files in use',
 breaks='the used files are kept in a fixed number of slots while Clean looks at the directory, later ones count as unused',
 edits=[(C,'''			if _, called := registry[snapPath]; called {
				used = append(used, snapPath)
				continue
			}
''','''			if _, called := registry[snapPath]; called && len(used) < cap(used) {
				used = append(used, snapPath)
				continue
			}
'''),(C,'''	uniqueDirs := set{}

	for snapPaths''','''	uniqueDirs := set{}
	used = make([]string, 0, max(32, len(registry)/2))

	for snapPaths''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('fmt','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	for i := range 60 {
		c := snaps.WithConfig(snaps.Dir(d), snaps.Filename(fmt.Sprint("f", i)))
		run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	}
	clean()
	if n := len(tree(d)); n != 61 {
		t.Fatalf("%d files left", n)
	}
}
'''),
dict(id='c11-dotdot-dir', property='C11',
 needs='a relative Dir that leaves the directory of the test file by more than one level',
 breaks='a Dir is confined to the parent of the directory of the test',
 edits=[(S,'''		dir = filepath.Join(callerDir, c.snapsDir)
''','''		rel := filepath.Clean(c.snapsDir)
		for strings.HasPrefix(rel, "../../") {
			rel = rel[3:]
		}
		dir = filepath.Join(callerDir, rel)
''')],
 demo=imp('os','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := "/tmp/zdemo_c11_dotdot"
	os.RemoveAll("/tmp/zdemo_c11_dotdot")
	defer os.RemoveAll("/tmp/zdemo_c11_dotdot")
	run("TestA", far)
	if _, there := tree(d)["s/f.snap"]; !there {
		t.Fatal("no snapshot in the directory asked for", tree(d))
	}
}

//line /tmp/zdemo_c11_dotdot/a/b/c/far_test.go:1
func far(ft *FT) { snaps.WithConfig(snaps.Dir("../../../s"), snaps.Filename("f")).MatchSnapshot(ft, "a") }
'''),
dict(id='c20-count-16bit', property='C20',
 needs='more than 65535 calls with the same outcome',
 breaks='the totals of the summary are kept in 16 bits',
 edits=[(C,'''	items map[uint8]int
	sync''','''	items map[uint8]uint16
	sync'''),(C,'items: make(map[uint8]int),','items: make(map[uint8]uint16),'),
  (C,'''		testEvents.items,
		shouldClean''','''		testEvents.totals(),
		shouldClean'''),(C,'''func newTestEvents()''','''func (e *events) totals() map[uint8]int {
	e.Lock()
	defer e.Unlock()
	totals := make(map[uint8]int, len(e.items))
	for event, n := range e.items {
		totals[event] = int(n)
	}
	return totals
}

func newTestEvents()''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	for range 70000 {
		run("TestA", func(ft *FT) { c.MatchJSON(ft, "{bad") })
	}
	if out := clean(); !strings.Contains(out, "70000") {
		t.Fatal(out)
	}
}
'''),
dict(id='c18-large-unchecked', property='C18',
 needs='a text above 64 KiB that is not valid YAML',
 breaks='large documents are not validated',
 edits=[(Y,'''		err := yaml.Unmarshal([]byte(y), &out)
		if err != nil {''','''		err := yaml.Unmarshal([]byte(y), &out)
		if err != nil && len(y) <= 1<<16 {''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	fails(t, "invalid", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: \\""+strings.Repeat("x", 70000)) }), 1)
}
'''),
dict(id='c14-large-unchecked', property='C14',
 needs='bytes above 1 MiB that are not valid JSON',
 breaks='large documents are not validated',
 edits=[(J,'''		if !gjson.ValidBytes(j) {
			return nil, errInvalidJSON
		}
''','''		if len(j) < 1<<20 && !gjson.ValidBytes(j) {
			return nil, errInvalidJSON
		}
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	fails(t, "invalid", run("TestA", func(ft *FT) { c.MatchJSON(ft, []byte("{\\"a\\":\\""+strings.Repeat("x", 1<<20)+"\\",}")) }), 1)
}
'''),
dict(id='c15-many-matchers', property='C15',
 needs='a call with more than sixteen matchers',
 breaks='only the first sixteen matchers of a call are applied',
 edits=[(J,'''	for _, m := range matchers {
		json, errs''','''	for _, m := range matchers[:min(16, len(matchers))] {
		json, errs''')],
 demo=imp('fmt','strings','testing',SN,MA)+HEAD+'''
	ms := []any{}
	_ = ms
	var doc []string
	a := match.Any("k0")
	b := match.Any("k19")
	for i := range 20 {
		doc = append(doc, fmt.Sprintf(`"k%d":"secret"`, i))
	}
	run("TestA", func(ft *FT) { c.MatchJSON(ft, "{"+strings.Join(doc, ",")+"}", a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, b) })
	if n := strings.Count(read(t, d, "f.snap"), "secret"); n != 18 {
		t.Fatalf("%d values left", n)
	}
}
'''),
dict(id='c16-many-paths', property='C16',
 needs='a matcher with more than 32 paths',
 breaks='only the first 32 paths of an Any matcher are masked in YAML',
 edits=[('match/any.go','''	for _, p := range a.paths {
''','''	for i, p := range a.paths {
		if i == 32 {
			break
		}
''')],
 demo=imp('fmt','strings','testing',SN,MA)+HEAD+'''
	var paths []string
	for i := range 40 {
		paths = append(paths, fmt.Sprint("$.k", i))
	}
	doc := func(v string) string {
		var b strings.Builder
		for i := range 40 {
			fmt.Fprintf(&b, "k%d: %s\\n", i, v)
		}
		return b.String()
	}
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, doc("a"), match.Any(paths...)) }), 1)
	passes(t, "second", run("TestA", func(ft *FT) { c.MatchYAML(ft, doc("b"), match.Any(paths...)) }))
}
'''),
dict(id='c01-store-limit', property='C01',
 needs='a snapshot file with more than 1000 lines before the entry',
 breaks='only the first 1000 lines outside of other entries and 1000 headers of a file are looked at, later entries are not found',
 edits=[(S,'''	lineNumber := 1
	tid''','''	lineNumber, entries := 1, 0
	tid'''),(S,'''		if !bytes.Equal(l, tid) {
			lineNumber++
''','''		if entries++; entries > 1000 {
			break
		}
		if !bytes.Equal(l, tid) {
			lineNumber++
''')],
 demo=imp('fmt','testing',SN)+HEAD+'''
	f := func(ft *FT) {
		for i := range 700 {
			c.MatchSnapshot(ft, fmt.Sprint("value ", i))
		}
	}
	adds(t, "first", run("TestA", f), 700)
	passes(t, "second", run("TestA", f))
}
'''),
dict(id='c10-big-file', property='C10',
 needs='sorting a file with more than 200 entries',
 breaks='large files are sorted in parts',
 edits=[(C,'''			slices.SortFunc(testIDs, naturalSort)
''','''			for i := 0; i < len(testIDs); i += 200 {
				slices.SortFunc(testIDs[i:min(i+200, len(testIDs))], naturalSort)
			}
''')],
 demo=imp('fmt','strings','testing',SN)+HEAD+'''
	var b strings.Builder
	for i := 300; i > 0; i-- {
		fmt.Fprintf(&b, "\\n[TestA - %d]\\nv\\n---\\n", i)
	}
	write(t, b.String(), d, "f.snap")
	run("TestA", func(ft *FT) {
		for range 300 {
			c.MatchSnapshot(ft, "v")
		}
	})
	clean(snaps.CleanOpts{Sort: true})
	if !strings.HasPrefix(read(t, d, "f.snap"), "\\n[TestA - 1]\\n") {
		t.Fatal(read(t, d, "f.snap")[:40])
	}
}
'''),
]
