from bugs1 import *
J='snaps/matchJSON.go'; Y='snaps/matchYAML.go'; SJ='snaps/matchStandaloneJSON.go'; MS='snaps/matchSnapshot.go'
HEAD='''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	_ = c
'''
BUGS=[
dict(id='c02-empty-argument', property='C02',
 needs='a call with several values of which one at the end formats to nothing',
 breaks='values that format to the empty text are left out, so a call with one of them less passes',
 edits=[(MS,'''	snapshots := make([]string, len(objects))

	for i, object := range objects {
		snapshots[i] = pretty.Sprint(object)
	}
''','''	snapshots := make([]string, 0, len(objects))

	for _, object := range objects {
		if s := pretty.Sprint(object); s != "" {
			snapshots = append(snapshots, s)
		}
	}
''')],
 demo=imp('testing',SN)+HEAD+'''
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a", "") }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") }), 1)
}
'''),
dict(id='c02-large-sample', property='C02',
 needs='two values of the same length above 1 MiB that differ somewhere in the middle',
 breaks='large texts of the same length are only compared at both ends',
 edits=[(D,'''	if expected == received {
		return ""
	}
	differ''','''	if n := len(expected); n == len(received) && (n < sampled || expected[:sampled/2] == received[:sampled/2] &&
		expected[n-sampled/2:] == received[n-sampled/2:]) && (n >= sampled || expected == received) {
		return ""
	}
	differ'''),(D,'''	context                             = 3
''','''	context                             = 3
	sampled                             = 1 << 20
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	x := strings.Repeat("x", 1<<20)
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, x+"\\na\\n"+x) }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, x+"\\nb\\n"+x) }), 1)
}
'''),
dict(id='c03-ordinal-byte', property='C03',
 needs='a test with more than 255 calls',
 breaks='ordinals are kept in a byte, the 257th call addresses the slot of the first one',
 edits=[(S,'	return fmt.Sprintf("[%s - %d]", testName, c)','	return fmt.Sprintf("[%s - %d]", testName, uint8(c))')],
 demo=imp('testing',SN)+HEAD+'''
	adds(t, "first", run("TestA", func(ft *FT) {
		for i := range 300 {
			c.MatchSnapshot(ft, i)
		}
	}), 300)
}
'''),
dict(id='c05-clean-updates', property='C05',
 needs='UPDATE_SNAPS=clean and a mismatch',
 breaks='UPDATE_SNAPS=clean also updates mismatching snapshots',
 edits=[(U,'	return updateVAR == "true"','	return updateVAR == "true" || updateVAR == "clean"')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('testing',SN)+HEAD+'''
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "b") }), 1)
}
'''),
dict(id='c05-env-false', property='C05',
 needs='UPDATE_SNAPS=false and a missing snapshot',
 breaks='UPDATE_SNAPS=false forbids the creation of missing snapshots',
 edits=[(U,'''	if u != nil {
		return *u
	}

	return true
''','''	if u != nil {
		return *u
	}

	return updateVAR != "false"
''')],
 env='export UPDATE_SNAPS=false',
 demo=imp('testing',SN)+HEAD+'''
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") }), 1)
}
'''),
dict(id='c06-diff-buffer', property='C06',
 needs='two tests failing at the same time',
 breaks='the buffer of the reports is shared, so simultaneous failures mix their reports',
 edits=[(D,'''	var s strings.Builder

	s.Grow(len(a) + len(b))

	m := difflib''','''	s := &reportBuffer
	s.Reset()
	s.Grow(len(a) + len(b))

	m := difflib'''),
  (D,'printRange(&s, g)','printRange(s, g)'),(D,'colors.FprintEqual(&s, line)','colors.FprintEqual(s, line)'),
  (D,'colors.FprintDelete(&s, line)','colors.FprintDelete(s, line)'),(D,'colors.FprintInsert(&s, line)','colors.FprintInsert(s, line)'),
  (D,'var dmp = diffmatchpatch.New()','''var (
	dmp = diffmatchpatch.New()
	// reused as reports can be large
	reportBuffer strings.Builder
)''')],
 flags='-race',
 demo=imp('fmt','sync','testing',SN)+HEAD+'''
	var wg sync.WaitGroup
	for i := range 8 {
		n := fmt.Sprint("Test", i)
		run(n, func(ft *FT) { c.MatchSnapshot(ft, "a\\nb") })
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 100 {
				run(n, func(ft *FT) { c.MatchSnapshot(ft, "a\\nc") })
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='c08-run-toplevel', property='C08',
 needs='a -run pattern that selects one subtest of a test',
 breaks='only the first element of the -run pattern is considered, snapshots of subtests it did not select are obsolete',
 edits=[(C,'	runOnly := flag.Lookup("test.run").Value.String()','	// subtests share the snapshot file with their parent\n	runOnly, _, _ := strings.Cut(flag.Lookup("test.run").Value.String(), "/")')],
 demo=imp('strings','testing',SN)+'''
func TestZ(t *testing.T) {
	isChild(t)
	t.Run("a", func(t *testing.T) { snaps.MatchSnapshot(t, "a") })
	t.Run("b", func(t *testing.T) { snaps.MatchSnapshot(t, "b") })
}

func TestDemo(t *testing.T) {
	child(t, nil, "-test.run", "TestZ")
	if out := child(t, []string{"ZCLEAN=1"}, "-test.run", "TestZ/a"); strings.Contains(out, "obsolete") {
		t.Fatal(out)
	}
}
'''),
dict(id='c10-fold', property='C10',
 needs='test names that differ in case, e.g. TestB and Testa',
 breaks='ids are sorted ignoring case',
 edits=[(C,'''	if natural.Less(a, b) {''','''	if natural.Less(strings.ToLower(a), strings.ToLower(b)) {''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	run("Testa", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	run("TestB", func(ft *FT) { c.MatchSnapshot(ft, "b") })
	clean(snaps.CleanOpts{Sort: true})
	if s := read(t, d, "f.snap"); strings.Index(s, "TestB") > strings.Index(s, "Testa") {
		t.Fatal(s)
	}
}
'''),
dict(id='c10-needless-write', property='C10',
 needs='sorting requested and a sorted file with ordinals 2 and 10',
 breaks='whether a file is sorted is decided by text order, so a file with ten snapshots of a test is written each time',
 edits=[(C,'!slices.IsSortedFunc(testIDs, naturalSort)','!slices.IsSorted(testIDs)')],
 demo=imp('os','testing','time',SN)+HEAD+'''
	run("TestA", func(ft *FT) {
		for i := range 11 {
			c.MatchSnapshot(ft, i)
		}
	})
	old := time.Now().Add(-time.Hour)
	if err := os.Chtimes(d+"/f.snap", old, old); err != nil {
		t.Fatal(err)
	}
	clean(snaps.CleanOpts{Sort: true})
	if i, err := os.Stat(d + "/f.snap"); err != nil || time.Since(i.ModTime()) < time.Minute {
		t.Fatal("written", err)
	}
}
'''),
dict(id='c11-frame-limit', property='C11',
 needs='more than 64 frames of non-test sources between the test function and the call',
 breaks='the search for the test file ends after 64 frames',
 edits=[(U,'''		pc, file, _, ok = runtime.Caller(i)
		if !ok {
			return prevFile''','''		pc, file, _, ok = runtime.Caller(i)
		if !ok || i > 64 {
			return prevFile''')],
 pkgs='',
 demo={'demo_test.go':imp('os','path/filepath','testing',SN,'github.com/gkampitakis/go-snaps/zdemo/deep')+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d))
	run("TestA", func(ft *FT) { deep.Down(100, func() { c.MatchSnapshot(ft, "a") }) })
	deep.Down(100, func() { _ = 0 })
	ft := &FT{name: "TestA"}
	deep.Match(100, c, ft)
	if _, err := os.Stat(filepath.Join(d, "demo_test.snap")); err != nil {
		t.Fatal(tree(d))
	}
	if len(tree(d)) != 2 {
		t.Fatal(tree(d))
	}
}
''','deep__deep.go':'''package deep

import "github.com/gkampitakis/go-snaps/snaps"

// T is what Match* calls need
type T interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

// Down calls f n frames further down
//
//go:noinline
func Down(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	Down(n-1, f)
}

// Match takes a snapshot n frames further down
//
//go:noinline
func Match(n int, c *snaps.Config, t T) {
	if n == 0 {
		c.MatchSnapshot(t, "b")
		return
	}
	Match(n-1, c, t)
}
'''}),
dict(id='c11-special-chars', property='C11',
 needs='a standalone call in a test with a colon in its name',
 breaks='colons of the test name are replaced too, so the file is elsewhere and shared with another test',
 edits=[(S,'filename = strings.ReplaceAll(tName, "/", "_")','// colons are not allowed in file names on windows\n			filename = strings.NewReplacer("/", "_", ":", "_").Replace(tName)')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d))
	adds(t, "first", run("TestA/b:c", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a") }), 1)
	if s := read(t, d, "TestA_b:c_1.snap"); s != "a" {
		t.Fatal(s)
	}
}
'''),
dict(id='c12-dir-kept', property='C12',
 needs='one Config used by test functions of two directories, e.g. a test suite in another package',
 breaks='a relative Dir is resolved once per Config, by its first call',
 edits=[(S,'''		dir = filepath.Join(callerDir, c.snapsDir)
''','''		dir = filepath.Join(callerDir, c.snapsDir)
		if c != &defaultConfig {
			c.snapsDir = dir
		}
''')],
 demo={'demo_test.go':imp('os','testing',SN,'github.com/gkampitakis/go-snaps/zdemo/suite')+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir("kept"))
	t.Run("here", func(t *testing.T) { c.MatchSnapshot(t, "a") })
	suite.Config = c
	t.Run("there", suite.Test)
	if _, err := os.Stat("suite/kept/suite.snap"); err != nil {
		t.Fatal(err)
	}
}
''','suite__suite.go':'''package suite

import (
	"testing"

	"github.com/gkampitakis/go-snaps/snaps"
)

var Config *snaps.Config

func Test(t *testing.T) { Config.MatchSnapshot(t, "b") }
'''}),
dict(id='c12-file-kept', property='C12',
 needs='a Config without Filename used by two test files',
 breaks='the file name of the first multi-entry call is kept in the Config',
 edits=[(S,'''		filename = strings.TrimSuffix(base, filepath.Ext(base))

		if isStandalone {
			filename = strings''','''		filename = strings.TrimSuffix(base, filepath.Ext(base))

		if !isStandalone && c != &defaultConfig {
			c.filename = filename
		}
		if isStandalone {
			filename = strings''')],
 demo={'demo_test.go':imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	other(c, &FT{name: "TestB"})
	read(t, d, "other_test.snap")
}
''','other_test.go':imp(SN)+'''
func other(c *snaps.Config, t *FT) { c.MatchSnapshot(t, "b") }
'''}),
dict(id='c13-long-line', property='C13',
 needs='a changed line above 4096 bytes',
 breaks='long lines are cut in the report, so the lines shown are no lines of the texts',
 edits=[(D,'''				for _, line := range bLines[j1:j2] {
					colors.FprintInsert(&s, line)''','''				for _, line := range bLines[j1:j2] {
					if len(line) > 4096 {
						line = line[:4096] + "\\n"
					}
					colors.FprintInsert(&s, line)''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	x := strings.Repeat("x", 8000)
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, x+"a\\nb") }), 1)
	ft := run("TestA", func(ft *FT) { c.MatchSnapshot(ft, x+"b\\nb") })
	if len(ft.errs) != 1 || !strings.Contains(ft.errs[0], "+ "+x+"b\\n") {
		t.Fatal("line not shown")
	}
}
'''),
dict(id='c14-bom', property='C14',
 needs='a document with a byte order mark given as bytes',
 breaks='a byte order mark is dropped, although such input is not valid JSON',
 edits=[(J,'''	case []byte:
		if''','''	case []byte:
		j = []byte(strings.TrimPrefix(string(j), "\\uFEFF"))
		if''')],
 demo=imp('testing',SN)+HEAD+'''
	fails(t, "first", run("TestA", func(ft *FT) { c.MatchJSON(ft, []byte("\\uFEFF{}")) }), 1)
}
'''),
dict(id='c15-ugly-in-place', property='C15',
 needs='a document with insignificant blanks given as bytes',
 breaks='the blanks are removed in the memory of the caller',
 edits=[(J,'''			return nil, errInvalidJSON
		}

		return j, nil''','''			return nil, errInvalidJSON
		}

		return pretty.UglyInPlace(j), nil''')],
 demo=imp('testing',SN)+HEAD+'''
	b := []byte(`{ "a": 1 }`)
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchJSON(ft, b) }), 1)
	if string(b) != `{ "a": 1 }` {
		t.Fatalf("%q", b)
	}
}
'''),
dict(id='c16-null-missing', property='C16',
 needs='ErrOnMissingPath(false) and a masked field that is null',
 breaks='null counts as a missing path, so a masked field that is null sometimes shows in the snapshot',
 edits=[('match/any.go','''		r := getJSON(json, path)
		if !r.Exists() {''','''		r := getJSON(json, path)
		if !r.Exists() || !a.errOnMissingPath && r.Raw == "null" {''')],
 demo=imp('testing',SN,MA)+HEAD+'''
	m := match.Any("a").ErrOnMissingPath(false)
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":null}`, m) }), 1)
	passes(t, "second", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":1}`, m) }))
}
'''),
dict(id='c17-report-limit', property='C17',
 needs='a MatchYAML call with more than ten failing paths',
 breaks='only ten failing matchers are named',
 edits=[(Y,'''		for _, err := range matchersErrors {
''','''		for i, err := range matchersErrors {
			if i == 10 {
				break
			}
''')],
 demo=imp('strings','testing',SN,MA)+HEAD+'''
	m := match.Any("$.a", "$.b", "$.c", "$.d", "$.e", "$.f", "$.g", "$.h", "$.i", "$.j", "$.kk")
	ft := run("TestA", func(ft *FT) { c.MatchYAML(ft, "x: 1", m) })
	if len(ft.errs) != 1 || !strings.Contains(ft.errs[0], "$.kk") {
		t.Fatal(ft.errs)
	}
}
'''),
dict(id='c17-standalone-slot', property='C17',
 needs='a standalone JSON call with a failing matcher followed by another call of the test',
 breaks='a call that fails in a matcher takes no ordinal, the following calls write the files before theirs',
 edits=[(SJ,'''	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
	t.Cleanup(func() {
		standaloneTestsRegistry.release(genericPathSnap)
	})

	j, err''','''
	j, err'''),(SJ,'''	snapshot := takeJSONSnapshot(c, j)
''','''	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
	t.Cleanup(func() {
		standaloneTestsRegistry.release(genericPathSnap)
	})

	snapshot := takeJSONSnapshot(c, j)
''')],
 demo=imp('testing',SN,MA)+HEAD+'''
	run("TestA", func(ft *FT) {
		c.MatchStandaloneJSON(ft, `{}`, match.Any("a"))
		c.MatchStandaloneJSON(ft, `2`)
	})
	if s := read(t, d, "f_2.snap.json"); s != "2" {
		t.Fatal(s)
	}
}
'''),
dict(id='c18-json-input', property='C18',
 needs='a YAML document in JSON notation with a blank line at its end',
 breaks='a document starting with a brace is trimmed before it is stored',
 edits=[(Y,'''		return []byte(y), nil
''','''		// json documents have no meaningful blanks around them
		if t := strings.TrimSpace(y); strings.HasPrefix(t, "{") {
			y = t
		}

		return []byte(y), nil
''')],
 demo=imp('testing',SN)+HEAD+'''
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, "{a: 1}\\n") }), 1)
	if s := read(t, d, "f.snap"); s != "\\n[TestA - 1]\\n{a: 1}\\n\\n---\\n" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c19-empty', property='C19',
 needs='a standalone value that formats to the empty text',
 breaks='no file is written for an empty value',
 edits=[(S,'	return os.WriteFile(snapPath, []byte(snapshot), os.ModePerm)','	if snapshot == "" {\n		return os.RemoveAll(snapPath)\n	}\n\n	return os.WriteFile(snapPath, []byte(snapshot), os.ModePerm)')],
 demo=imp('testing',SN)+HEAD+'''
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "") }), 1)
	passes(t, "second", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "") }))
}
'''),
dict(id='c20-skips-once', property='C20',
 needs='a test that is skipped in several executions, -count=2',
 breaks='a test that was skipped in several executions counts as one skip',
 edits=[(C,'		len(skippedTests.values),','		skippedCount(),'),(C,'''func summary(
''','''func skippedCount() int {
	names := set{}
	for _, name := range skippedTests.values {
		names[name] = struct{}{}
	}

	return len(names)
}

func summary(
''')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	snaps.Skip(&FT{name: "TestA"})
	snaps.Skip(&FT{name: "TestA"})
	if out := clean(); !strings.Contains(out, "2 snapshots skipped") {
		t.Fatal(out)
	}
}
'''),
dict(id='c20-list-compact', property='C20',
 needs='two files with a stale entry of the same id',
 breaks='obsolete ids are listed once although two files have them',
 edits=[(C,'''		obsoleteFiles,
		obsoleteTests,
		len(''','''		obsoleteFiles,
		slices.Compact(obsoleteTests),
		len(''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	c2 := snaps.WithConfig(snaps.Dir(d), snaps.Filename("g"))
	for _, f := range []string{"f", "g"} {
		write(t, "\\n[TestOld - 1]\\nx\\n---\\n", d, f+".snap")
	}
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a"); c2.MatchSnapshot(ft, "a") })
	if out := clean(); !strings.Contains(out, "2 snapshot tests obsolete") {
		t.Fatal(out)
	}
}
'''),
]
