from bugs1 import *
BUGS=[
dict(id='c01-valid-utf8', property='C01',
 needs='a value with bytes that are not valid UTF-8',
 breaks='invalid UTF-8 is replaced when a snapshot is added, so the same value fails on replay',
 edits=[(S,'_, err = fmt.Fprintf(f, "\\n%s\\n%s\\n---\\n", testID, snapshot)','_, err = fmt.Fprintf(f, "\\n%s\\n%s\\n---\\n", testID, strings.ToValidUTF8(snapshot, "\\uFFFD"))')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	f := func(ft *FT) { c.MatchSnapshot(ft, "a\\xff\\nb") }
	adds(t, "first", run("TestA", f), 1)
	passes(t, "second", run("TestA", f))
}
'''),
dict(id='c03-long-name', property='C03',
 needs='two tests with long names that only differ after the 128th byte',
 breaks='test names are cut in the header, so tests with long names share slots',
 edits=[(S,'	return fmt.Sprintf("[%s - %d]", testName, c)','	return fmt.Sprintf("[%.128s - %d]", testName, c)')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	n := "TestA/" + strings.Repeat("long_", 30)
	adds(t, "first", run(n+"1", func(ft *FT) { c.MatchSnapshot(ft, "1") }), 1)
	adds(t, "second", run(n+"2", func(ft *FT) { c.MatchSnapshot(ft, "2") }), 1)
}
'''),
dict(id='c09-surplus-ext', property='C09',
 needs='a standalone snapshot with an extension and an ordinal above the number of calls of its test',
 breaks='surplus standalone files with an extension are not reported when the test made any standalone call',
 edits=[(C,'if registeredStandaloneTests.Has(snapPath) {','if registeredStandaloneTests.Has(snapPath) || filepath.Ext(snapPath) != snapsExt &&\n\t\t\t\tregisteredStandaloneTests.Has(standaloneRegexp.ReplaceAllString(snapPath, "${1}_1${2}")) {')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d))
	run("TestA", func(ft *FT) { c.MatchStandaloneJSON(ft, "1") })
	write(t, "2", d, "TestA_2.snap.json")
	clean()
	if _, there := tree(d)["TestA_2.snap.json"]; there {
		t.Fatal("surplus file still there")
	}
}
'''),
dict(id='c12-update-shared', property='C12',
 needs='two Configs with different Update options of which the first built one is used',
 breaks='the Update option is stored in a variable shared by all Configs, the last built one wins',
 edits=[(S,'''		c.update = &u
	}
}''','''		lastUpdate = u
		c.update = &lastUpdate
	}
}

var lastUpdate bool''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(false))
	_ = snaps.WithConfig(snaps.Update(true))
	fails(t, "missing", run("TestA", func(ft *FT) { a.MatchSnapshot(ft, "a") }), 1)
}
'''),
dict(id='c12-json-pointer', property='C12',
 needs='two Configs with different JSON options of which the first built one is used',
 breaks='all Configs with JSON options share them, the last built one wins',
 edits=[(S,'''		c.json = &json
	}
}''','''		if c.json == nil {
			c.json = &sharedJSON
		}
		*c.json = json
	}
}

var sharedJSON JSONConfig''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := snaps.WithConfig(snaps.Dir(d), snaps.JSON(snaps.JSONConfig{Indent: "  "}))
	_ = snaps.WithConfig(snaps.JSON(snaps.JSONConfig{Indent: "\\t"}))
	run("TestA", func(ft *FT) { a.MatchStandaloneJSON(ft, `{"a":1}`) })
	if s := read(t, d, "TestA_1.snap.json"); s != "{\\n  \\"a\\": 1\\n}" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c12-filename-kept', property='C12',
 needs='a Config without Filename used for standalone calls of two tests',
 breaks='the name of the first standalone snapshot is kept in the Config for the following ones',
 edits=[(S,'''			filename = strings.ReplaceAll(tName, "/", "_")
''','''			if filename = strings.ReplaceAll(tName, "/", "_"); c != &defaultConfig {
				c.filename = filename
			}
''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := snaps.WithConfig(snaps.Dir(d))
	run("TestA", func(ft *FT) { a.MatchStandaloneSnapshot(ft, "a") })
	run("TestB", func(ft *FT) { a.MatchStandaloneSnapshot(ft, "b") })
	if s := read(t, d, "TestB_1.snap"); s != "b" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c13-count-context', property='C13',
 needs='a replacement of several lines by a single one',
 breaks='the header counts a replaced block once',
 edits=[(D,'''					colors.FprintDelete(&s, line)
					deleted++
				}
''','''					colors.FprintDelete(&s, line)
				}
				deleted += min(i2-i1, 20)
''')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a\\n"+strings.Repeat("x\\n", 30)+"b") }), 1)
	ft := run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a\\nb") })
	if len(ft.errs) != 1 || !strings.Contains(ft.errs[0], "Snapshot - 30") {
		t.Fatalf("%q", ft.errs)
	}
}
'''),
dict(id='c17-type-stops', property='C17',
 needs='a YAML Type matcher with two failing paths',
 breaks='the first value of a wrong type ends the matcher, failing paths after it are not named',
 edits=[('match/type.go','''		if err := typeCheck[ExpectedType](value); err != nil {
			errs = append(errs, t.matcherError(err, p))

			continue
		}''','''		if err := typeCheck[ExpectedType](value); err != nil {
			errs = append(errs, t.matcherError(err, p))

			break
		}''')],
 demo=imp('strings','testing',SN,MA)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	ft := run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1\\nb: 2\\n", match.Type[string]("$.a", "$.b")) })
	if len(ft.errs) != 1 || !strings.Contains(ft.errs[0], "$.a") || !strings.Contains(ft.errs[0], "$.b") {
		t.Fatal(ft.errs)
	}
}
'''),
dict(id='c17-standalone-matcher-error', property='C17',
 needs='a failing matcher of MatchStandaloneJSON when the snapshot exists and updating is enabled',
 breaks='a call with failing matchers goes on and rewrites the snapshot',
 edits=[('snaps/matchStandaloneJSON.go','''		handleError(t, s.String())
		return
	}
''','''		handleError(t, s.String())
		if !shouldUpdate(c.update) {
			return
		}
	}
''')],
 demo=imp('testing',SN,MA)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Update(true))
	run("TestA", func(ft *FT) { c.MatchStandaloneJSON(ft, `{"a":1}`) })
	before := tree(d)
	fails(t, "matcher", run("TestA", func(ft *FT) { c.MatchStandaloneJSON(ft, `{"a":2}`, match.Any("x")) }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c18-bom', property='C18',
 needs='a YAML string with a byte order mark',
 breaks='the byte order mark of a document is dropped',
 edits=[('snaps/matchYAML.go','		return []byte(y), nil\n','		return []byte(strings.TrimPrefix(y, "\\uFEFF")), nil\n')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, "\\uFEFFa: 1") }), 1)
	if s := read(t, d, "f.snap"); s != "\\n[TestA - 1]\\n\\uFEFFa: 1\\n---\\n" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c19-crlf-write', property='C19',
 needs='a standalone value with carriage returns',
 breaks='line endings are normalised when a standalone snapshot is written',
 edits=[(S,'return os.WriteFile(snapPath, []byte(snapshot), os.ModePerm)','return os.WriteFile(snapPath, []byte(strings.ReplaceAll(snapshot, "\\r\\n", "\\n")), os.ModePerm)')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a\\r\\nb") }), 1)
	if s := read(t, d, "TestA_1.snap"); s != "a\\r\\nb" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c19-read-trim-crlf', property='C19',
 needs='a standalone value that ends with blank lines',
 breaks='blank lines at the end of a standalone file are dropped when it is read',
 edits=[(S,'	return string(f), nil\n','	s := string(f)\n\tfor strings.HasSuffix(s, "\\n\\n") {\n\t\ts = s[:len(s)-1]\n\t}\n\n\treturn s, nil\n')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()))
	f := func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a\\n\\n") }
	adds(t, "first", run("TestA", f), 1)
	passes(t, "second", run("TestA", f))
}
'''),
dict(id='c20-list-limit', property='C20',
 needs='more than 25 obsolete items',
 breaks='only the first 25 obsolete items are listed',
 edits=[(C,'''		for _, object := range objects {
			colors.Fprint(''','''		for _, object := range objects[:min(len(objects), 25)] {
			colors.Fprint(''')],
 demo=imp('fmt','strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	s := ""
	for i := 0; i < 40; i++ {
		s += fmt.Sprintf("\\n[TestOld%d - 1]\\nx\\n---\\n", i)
	}
	write(t, s, d, "f.snap")
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	if out := clean(); strings.Count(out, "TestOld") != 40 {
		t.Fatal(out)
	}
}
'''),
]
