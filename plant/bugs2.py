from bugs1 import *
BUGS=[
dict(id='c04-read-cache', property='C04',
 needs='an update to a value of the same length, followed by another call on the slot in the same process',
 breaks='file contents are cached by size, so after a rewrite of the same size the old values are read',
 edits=[(S,'''	f, err := os.ReadFile(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}
''','''	f, err := readCached(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}
'''),(S,'''func addNewSnapshot(''','''var cached sync.Map

// readCached avoids reading big files that did not change
func readCached(snapPath string) ([]byte, error) {
	i, err := os.Stat(snapPath)
	if err != nil {
		return nil, err
	}
	if f, ok := cached.Load(snapPath); ok && int64(len(f.([]byte))) == i.Size() {
		return f.([]byte), nil
	}

	f, err := os.ReadFile(snapPath)
	if err == nil {
		cached.Store(snapPath, f)
	}
	return f, err
}

func addNewSnapshot(''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"), snaps.Update(true))
	f := func(v string) func(ft *FT) { return func(ft *FT) { c.MatchSnapshot(ft, v) } }
	run("TestA", f("one"))
	run("TestA", f("one"))
	if ft := run("TestA", f("two")); ft.count("updated") != 1 {
		t.Fatal(ft.errs, ft.logs)
	}
	passes(t, "after the update", run("TestA", f("two")))
}
'''),
dict(id='c04-empty-value', property='C04',
 needs='an update whose new formatted value is empty',
 breaks='updating to an empty value keeps the old one',
 edits=[(S,'''		removeSnapshot(s)

		// add new snapshot
		updatedSnapFile.WriteString(snapshot)
		updatedSnapFile.WriteByte('\\n')
		updatedSnapFile.Write(endSequenceByteSlice)
		updatedSnapFile.WriteByte('\\n')
''','''		removeSnapshot(s)

		// add new snapshot
		if snapshot != "" {
			updatedSnapFile.WriteString(snapshot)
			updatedSnapFile.WriteByte('\\n')
		}
		updatedSnapFile.Write(endSequenceByteSlice)
		updatedSnapFile.WriteByte('\\n')
''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(true))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "x") })
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "") })
	if s := read(t, d, "f.snap"); s != "\\n[TestA - 1]\\n\\n---\\n" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c05-clean-config', property='C05',
 needs='Clean with stale files on CI with UPDATE_SNAPS=clean or true',
 breaks='the file half of Clean forgets CI and deletes files there',
 edits=[(C,'''		runOnly,
		shouldClean && !isCI,
	)
	obsoleteTests, err''','''		runOnly,
		shouldClean,
	)
	obsoleteTests, err''')],
 demo=imp('os','testing',SN)+'''
func TestChild(t *testing.T) {
	isChild(t)
	c := snaps.WithConfig(snaps.Dir(os.Getenv("ZDIR")), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
}
func TestDemo(t *testing.T) {
	if os.Getenv("ZCHILD") != "" {
		return
	}
	d := t.TempDir()
	write(t, "\\n[TestA - 1]\\na\\n---\\n", d, "f.snap")
	write(t, "\\n[TestB - 1]\\na\\n---\\n", d, "g.snap")
	before := tree(d)
	child(t, []string{"ZDIR=" + d, "CI=true", "UPDATE_SNAPS=clean", "ZCLEAN=1"}, "-test.run=")
	same(t, "on CI", tree(d), before)
}
'''),
dict(id='c05-option-cannot-deny', property='C05',
 needs='Update(false) together with UPDATE_SNAPS=true',
 breaks='UPDATE_SNAPS=true overrules Update(false)',
 edits=[(U,'''	if u != nil {
		return *u
	}

	return updateVAR == "true"''','''	if u != nil && *u {
		return true
	}

	return updateVAR == "true"''')],
 env='export UPDATE_SNAPS=true',
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(false))
	write(t, "\\n[TestA - 1]\\na\\n---\\n", d, "f.snap")
	before := tree(d)
	fails(t, "mismatch", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "b") }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c08-skip-parent', property='C08',
 needs='a subtest that is skipped while a sibling has a stale snapshot',
 breaks='a skipped subtest is recorded as its top level test, so stale snapshots of siblings are protected',
 edits=[(K,'	skippedTests.append(t.Name())','	// the whole test is incomplete\n\tname, _, _ := strings.Cut(t.Name(), "/")\n\tskippedTests.append(name)')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	write(t, "\\n[TestA/x - 1]\\nx\\n---\\n\\n[TestA/y - 1]\\ny\\n---\\n", d, "f.snap")
	run("TestB", func(ft *FT) { c.MatchSnapshot(ft, "b") })
	run("TestA/x", func(ft *FT) { snaps.SkipNow(ft) })
	clean()
	if s := read(t, d, "f.snap"); s != "\\n[TestA/x - 1]\\nx\\n---\\n\\n[TestB - 1]\\nb\\n---\\n" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c09-upper-case', property='C09',
 needs='a file in the snapshot directory whose name has .SNAP in other letter case',
 breaks='names are compared ignoring case, files without .snap in their name are removed',
 edits=[(C,'!strings.Contains(content.Name(), snapsExt)','!strings.Contains(strings.ToLower(content.Name()), snapsExt)')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	write(t, "x", d, "photo.SNAP")
	before := tree(d)
	clean()
	same(t, "after Clean", tree(d), before)
}
'''),
dict(id='c09-stale-tail', property='C09',
 needs='a file having more than 64 entries, stale ones among them',
 breaks='ids with an ordinal of three digits are not seen as entries, so they are dropped or kept with the entry before',
 edits=[(C,'''func isNumber(b []byte) bool {
	for''','''func isNumber(b []byte) bool {
	if len(b) > 2 {
		return false
	}

	for'''),(C,'''	for i := 0; i < len(b); i++ {
		if b[i] < '0' ''','''	for i := range b {
		if b[i] < '0' ''')],
 demo=imp('fmt','strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	s := ""
	for i := 1; i <= 110; i++ {
		s += fmt.Sprintf("\\n[TestA - %d]\\nx\\n---\\n", i)
	}
	write(t, s, d, "f.snap")
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "x") })
	if out := clean(); !strings.Contains(out, "109 snapshot tests obsolete") {
		t.Fatal(out)
	}
}
'''),
dict(id='c11-helper-dir', property='C11',
 needs='a helper in a non-test source file whose path contains _test',
 breaks='the first frame whose path contains _test is taken as the test file, e.g. of a helper package named x_test_utils',
 edits=[(U,'if strings.HasSuffix(filepath.Base(file), "_test.go") {','if strings.Contains(filepath.ToSlash(file), "_test") {')],
 pkgs='/...',
 demo={'h_unused.go':'package zdemo\n',
  'api_test_utils__helper.go':'''package helper

import "github.com/gkampitakis/go-snaps/snaps"

type T interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

func Check(t T, v any) {
	snaps.MatchSnapshot(t, v)
}
''',
 'demo_test.go':imp('os','testing','github.com/gkampitakis/go-snaps/zdemo/api_test_utils')+'''
func TestDemo(t *testing.T) {
	run("TestA", func(ft *FT) { helper.Check(ft, "a") })
	if _, err := os.Stat("__snapshots__/demo_test.snap"); err != nil {
		t.Fatal(err)
	}
}
'''}),
dict(id='c11-dotted-name', property='C11',
 needs='a test file with more than one dot in its name',
 breaks='the base name ends at the first dot, so api.v1_test.go and api.v2_test.go share a file',
 edits=[(S,'filename = strings.TrimSuffix(base, filepath.Ext(base))','filename, _, _ = strings.Cut(base, ".")')],
 demo={'api.v1_test.go':imp('os','testing',SN)+'''
func TestDemo(t *testing.T) {
	run("TestA", func(ft *FT) { snaps.MatchSnapshot(ft, "a") })
	if _, err := os.Stat("__snapshots__/api.v1_test.snap"); err != nil {
		t.Fatal(err)
	}
}
'''}),
dict(id='c11-nested-name', property='C11',
 needs='a standalone snapshot in a subtest four levels deep',
 breaks='only the first three slashes of the test name are replaced, the file of a deeper subtest lands in a sub-directory',
 edits=[(S,'filename = strings.ReplaceAll(tName, "/", "_")','filename = strings.Replace(tName, "/", "_", 3)')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	run("TestA/b/c/d/e", func(ft *FT) { snaps.WithConfig(snaps.Dir(d)).MatchStandaloneSnapshot(ft, "a") })
	if s := read(t, d, "TestA_b_c_d_e_1.snap"); s != "a" {
		t.Fatal(s)
	}
}
'''),
dict(id='c11-cwd', property='C11',
 needs='a test that changes the working directory before the call',
 breaks='a relative Dir is resolved against the working directory when the file of the caller is not below it',
 edits=[(S,'''	if !filepath.IsAbs(dir) {
		dir = filepath.Join(callerDir, c.snapsDir)
	}
''','''	if !filepath.IsAbs(dir) {
		base := callerDir
		if wd, err := os.Getwd(); err == nil && !strings.HasPrefix(callerDir, wd) {
			base = wd
		}
		dir = filepath.Join(base, c.snapsDir)
	}
''')],
 demo=imp('os','testing',SN)+'''
func TestDemo(t *testing.T) {
	wd, _ := os.Getwd()
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	run("TestA", func(ft *FT) { snaps.MatchSnapshot(ft, "a") })
	if err := os.Chdir(wd); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat("__snapshots__/demo_test.snap"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c13-hunk-limit', property='C13',
 needs='texts with more than 50 separate changes',
 breaks='only the first 50 hunks are shown, and counted',
 edits=[(D,'''	for _, g := range m.GetGroupedOpCodes(context) {
''','''	groups := m.GetGroupedOpCodes(context)
	for _, g := range groups[:min(len(groups), 50)] {
''')],
 demo=imp('fmt','strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	v := func(x string) string {
		s := ""
		for i := 0; i < 900; i++ {
			if i%15 == 0 {
				s += x
			}
			s += fmt.Sprintln("line", i)
		}
		return s
	}
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, v("")) }), 1)
	ft := run("TestA", func(ft *FT) { c.MatchSnapshot(ft, v("x")) })
	if len(ft.errs) != 1 || !strings.Contains(ft.errs[0], "Received + 60") {
		t.Fatal(ft.errs)
	}
}
'''),
dict(id='c13-single-group', property='C13',
 needs='texts without any common line',
 breaks='a hunk with only one operation is dropped, so completely different texts give an empty report',
 edits=[(L,'if len(group) > 0 && !(len(group) == 1 && group[0].Tag == OpEqual) {','if len(group) > 1 || len(group) == 1 && group[0].Tag != OpEqual && group[0].I2-group[0].I1 < 10 {')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, strings.Repeat("a\\n", 12)+"c") }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, strings.Repeat("b\\n", 12)+"d") }), 1)
}
'''),
dict(id='c14-html', property='C14',
 needs='a Go value holding <, > or &',
 breaks='Go values are not encoded with the standard JSON encoding anymore, their text differs from the other input forms',
 edits=[('snaps/matchJSON.go','		return json.Marshal(input)\n','''		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		enc.SetEscapeHTML(false)
		err := enc.Encode(input)

		return b.Bytes(), err
'''),('snaps/matchJSON.go','import (\n','import (\n\t"bytes"\n')],
 demo=imp('encoding/json','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	v := map[string]string{"a": "<b> & c"}
	b, _ := json.Marshal(v)
	adds(t, "bytes", run("TestA", func(ft *FT) { c.MatchJSON(ft, b) }), 1)
	passes(t, "string", run("TestA", func(ft *FT) { c.MatchJSON(ft, string(b)) }))
	passes(t, "value", run("TestA", func(ft *FT) { c.MatchJSON(ft, v) }))
}
'''),
dict(id='c14-rawmessage', property='C14',
 needs='a json.RawMessage that is not valid JSON',
 breaks='raw messages are taken as they are without validation, invalid JSON is stored',
 edits=[('snaps/matchJSON.go','		return json.Marshal(input)\n','''		if raw, ok := input.(json.RawMessage); ok && len(raw) > 0 {
			return raw, nil
		}
		b, err := json.Marshal(input)

		return b, err
''')],
 demo=imp('encoding/json','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	before := tree(d)
	fails(t, "raw", run("TestA", func(ft *FT) { c.MatchJSON(ft, json.RawMessage(`{"a":`)) }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c14-number-normalise', property='C14',
 needs='a JSON string document holding an integer above 2^53',
 breaks='documents given as string are decoded and encoded again, big integers lose their last digits',
 edits=[('snaps/matchJSON.go','		return []byte(j), nil\n','''		var v any
		if err := json.Unmarshal([]byte(j), &v); err == nil && strings.ContainsAny(j, "\\r\\t") {
			return json.Marshal(v)
		}
		b := []byte(j)

		return b, nil
''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "compact", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":12345678901234567890}`) }), 1)
	passes(t, "tabs", run("TestA", func(ft *FT) { c.MatchJSON(ft, "{\\n\\t\\"a\\": 12345678901234567890\\n}") }))
}
'''),
dict(id='c15-custom-nil', property='C15',
 needs='a Custom callback that returns nil',
 breaks='a nil result of a Custom callback does not replace the value',
 edits=[('match/custom.go','''	b, err = setJSON(b, c.path, r, value)
	if err != nil {''','''	if value == nil {
		return b, nil
	}

	b, err = setJSON(b, c.path, r, value)
	if err != nil {'''),('match/custom.go','	value, err := c.callback(r.Value())\n','	in := r.Value()\n\tvalue, err := c.callback(in)\n')],
 demo=imp('testing',MA)+'''
func TestDemo(t *testing.T) {
	out, errs := match.Custom("a", func(any) (any, error) { return nil, nil }).JSON([]byte(`{"a":1}`))
	if len(errs) != 0 || string(out) != `{"a":null}` {
		t.Fatal(string(out), errs)
	}
}
'''),
dict(id='c15-type-base', property='C15',
 needs='a Type matcher with several paths of which one contains another one or that are of different depth',
 breaks='each path of a Type matcher is set in the original document when the value is an object, so earlier replacements are lost',
 edits=[('match/type.go','''		json = j
''','''		if r.IsObject() {
			j, err = setJSON(b, path, r, typePlaceholder(r.Value()))
		}
		if err == nil {
			json = j
		}
'''),],
 demo=imp('testing',MA)+'''
func TestDemo(t *testing.T) {
	out, errs := match.Type[any]("a", "o").JSON([]byte(`{"o":{"x":1},"a":1}`))
	if len(errs) != 0 || string(out) != `{"o":"<Type:map[string]interface {}>","a":"<Type:float64>"}` {
		t.Fatal(string(out), errs)
	}
}
'''),
dict(id='c16-integral', property='C16',
 needs='a number masked by Type that is integral in one run and not in the other one',
 breaks='the placeholder of a masked number depends on its value',
 edits=[('match/type.go','''	return fmt.Sprintf("<Type:%T>", value)''','''	if f, ok := value.(float64); ok && f != 0 && f == math.Trunc(f) && f > 1e6 {
		value = int64(f)
	}

	return fmt.Sprintf("<Type:%T>", value)'''),('match/type.go','''	"fmt"
''','''	"fmt"
	"math"
'''),('match/type.go','func typePlaceholder(value interface{}) string {','func typePlaceholder(value any) string {')],
 demo=imp('testing',SN,MA)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"at":1700000000}`, match.Type[float64]("at")) }), 1)
	passes(t, "second", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"at":1700000000.5}`, match.Type[float64]("at")) }))
}
'''),
dict(id='c16-empty-sequence', property='C16',
 needs='a sequence masked by Type that is empty in one run and not in the other one',
 breaks='the placeholder of a masked sequence tells if it is empty',
 edits=[('match/type.go','''	return fmt.Sprintf("<Type:%T>", value)''','''	if s, ok := value.([]any); ok && len(s) == 0 {
		return "<Type:[]>"
	}

	placeholder := fmt.Sprintf("<Type:%T>", value)
	return placeholder''')],
 demo=imp('testing',SN,MA)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: [1]\\n", match.Type[[]any]("$.a")) }), 1)
	passes(t, "second", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: []\\n", match.Type[[]any]("$.a")) }))
}
'''),
dict(id='c17-missing-stops', property='C17',
 needs='an Any matcher with ErrOnMissingPath(false) whose first path is missing and a later one is not',
 breaks='a missing path that is to be ignored ends the matcher, its other paths stay unmasked',
 edits=[('match/type.go','''			if t.errOnMissingPath {
				errs = append(errs, t.matcherError(errPathNotFound, path))
			}

			continue
		}

		if err := typeCheck[ExpectedType](r.Value())''','''			if !t.errOnMissingPath {
				break
			}
			errs = append(errs, t.matcherError(errPathNotFound, path))

			continue
		}

		if err := typeCheck[ExpectedType](r.Value())''')],
 demo=imp('testing',MA)+'''
func TestDemo(t *testing.T) {
	out, errs := match.Type[float64]("x", "a").ErrOnMissingPath(false).JSON([]byte(`{"a":1}`))
	if len(errs) != 0 || string(out) != `{"a":"<Type:float64>"}` {
		t.Fatal(string(out), errs)
	}
}
'''),
dict(id='c17-nil-typecheck', property='C17',
 needs='a null at a path of a Type matcher',
 breaks='null passes the check for any type',
 edits=[('match/type.go','	if _, ok := value.(ExpectedType); !ok {','	if _, ok := value.(ExpectedType); !ok && value != nil {')],
 demo=imp('testing',SN,MA)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	before := tree(d)
	fails(t, "null", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":null}`, match.Type[string]("a")) }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c18-leading-blank', property='C18',
 needs='YAML bytes that start with blank lines',
 breaks='blank lines at the start of a document given as bytes are dropped',
 edits=[('snaps/matchYAML.go','		return y, nil\n','		return bytes.TrimLeft(y, "\\n"), nil\n'),('snaps/matchYAML.go','import (\n','import (\n\t"bytes"\n')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, []byte("\\n\\na: 1")) }), 1)
	if s := read(t, d, "f.snap"); s != "\\n[TestA - 1]\\n\\n\\na: 1\\n---\\n" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c18-first-document', property='C18',
 needs='a YAML stream whose second document is not valid',
 breaks='only the text before the first separator is validated',
 edits=[('snaps/matchYAML.go','		err := yaml.Unmarshal([]byte(y), &out)\n','		first, _, _ := strings.Cut(y, "\\n---\\n")\n\t\terr := yaml.Unmarshal([]byte(first), &out)\n')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	before := tree(d)
	fails(t, "second document", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1\\n---\\nb: [1\\n") }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c19-escape', property='C19',
 needs='a standalone value having a line that is the terminator',
 breaks='standalone values are escaped like the entries of a multi-entry file',
 edits=[('snaps/matchStandaloneSnapshot.go','	snapshot := pretty.Sprint(input)\n','	snapshot := takeSnapshot([]any{input})\n'),('snaps/matchStandaloneSnapshot.go','''import (
	"errors"

	"github.com/kr/pretty"
)''','''import (
	"errors"
)''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a\\n---\\nb") }), 1)
	if s := read(t, d, "TestA_1.snap"); s != "a\\n---\\nb" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c20-uncounted-yaml', property='C20',
 needs='a MatchYAML call with invalid input',
 breaks='the failure of a MatchYAML call on invalid YAML is not counted',
 edits=[('snaps/matchYAML.go','''	y, err := validateYAML(input)
	if err != nil {
		handleError(t, err)
		return''','''	y, err := validateYAML(input)
	if err != nil {
		t.Error(err)
		return''')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: [") })
	if out := clean(); !strings.Contains(out, "1 snapshot failed") {
		t.Fatal(out)
	}
}
'''),
dict(id='c20-write-error', property='C20',
 needs='a standalone snapshot that cannot be written',
 breaks='a call whose snapshot cannot be created reports an error and that it was added',
 edits=[('snaps/matchStandaloneSnapshot.go','''		err := upsertStandaloneSnapshot(snapshot, snapPath)
		if err != nil {
			handleError(t, err)
			return
		}
''','''		if err := upsertStandaloneSnapshot(snapshot, snapPath); err != nil {
			handleError(t, err)
		}
''')],
 demo=imp('path/filepath','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	write(t, "in the way", d, "x")
	c := snaps.WithConfig(snaps.Dir(filepath.Join(d, "x")))
	fails(t, "not writable", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a") }), 1)
}
'''),
]
