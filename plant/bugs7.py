from bugs1 import *
from bugs4 import HEAD, J, Y, SJ, MS
FULL='''
// full makes every write of f fail
func full(t *testing.T, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(1, &old); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Setrlimit(1, &syscall.Rlimit{Cur: 0, Max: old.Max}); err != nil {
		t.Fatal(err)
	}
	defer syscall.Setrlimit(1, &old)
	f()
}
'''
BUGS=[
dict(id='c20-buffered-write', property='C20',
 needs='a disk that is full when a snapshot is added',
 breaks='the error of the write is lost, the call logs that it added the snapshot',
 edits=[(S,'''	_, err = fmt.Fprintf(f, "\\n%s\\n%s\\n---\\n", testID, snapshot)
	return err
''','''	w := bufio.NewWriter(f)
	defer w.Flush()
	_, err = fmt.Fprintf(w, "\\n%s\\n%s\\n---\\n", testID, snapshot)
	return err
''')],
 demo=imp('os/signal','syscall','testing',SN)+FULL+HEAD+'''
	var ft *FT
	full(t, func() { ft = run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") }) })
	fails(t, "nothing could be written", ft, 1)
}
'''),
dict(id='c20-overwrite-error', property='C20',
 needs='a disk that is full when a snapshot is updated',
 breaks='the error of the write is lost, the call logs that it updated the snapshot',
 edits=[(S,'''	_, err := f.Write(b)
	return err
''','''	f.Write(b)
	return f.Sync()
''')],
 demo=imp('os/signal','syscall','testing',SN)+FULL+HEAD+'''
	u := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(true))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	var ft *FT
	full(t, func() { ft = run("TestA", func(ft *FT) { u.MatchSnapshot(ft, "b") }) })
	fails(t, "nothing could be written", ft, 1)
}
'''),
dict(id='c20-standalone-error', property='C20',
 needs='a disk that is full when a standalone snapshot is written',
 breaks='the error of the write is lost, the call logs that it added or updated the snapshot',
 edits=[(S,'''	return os.WriteFile(snapPath, []byte(snapshot), os.ModePerm)
''','''	f, err := os.Create(snapPath)
	if err != nil {
		return err
	}
	_, _ = f.WriteString(snapshot)

	return f.Close()
''')],
 demo=imp('os/signal','syscall','testing',SN)+FULL+HEAD+'''
	var ft *FT
	full(t, func() { ft = run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a") }) })
	fails(t, "nothing could be written", ft, 1)
}
'''),
dict(id='c20-two-errors', property='C20',
 needs='a disk that is full when a JSON snapshot is updated',
 breaks='the call reports the error and goes on, so it fails and is updated at once',
 edits=[(J,'''	if err = updateSnapshot(testID, snapshot, snapPath); err != nil {
		handleError(t, err)
		return
	}
''','''	if err = updateSnapshot(testID, snapshot, snapPath); err != nil {
		handleError(t, err)
	}
''')],
 demo=imp('os/signal','syscall','testing',SN)+FULL+HEAD+'''
	u := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(true))
	run("TestA", func(ft *FT) { c.MatchJSON(ft, "[1]") })
	var ft *FT
	full(t, func() { ft = run("TestA", func(ft *FT) { u.MatchJSON(ft, "[2]") }) })
	fails(t, "nothing could be written", ft, 1)
}
'''),
dict(id='c20-silent-error', property='C20',
 needs='a file in the place of the snapshot directory, and a YAML snapshot',
 breaks='a snapshot that cannot be created is neither reported nor counted',
 edits=[(Y,'''		err := addNewSnapshot(testID, snapshot, snapPath)
		if err != nil {
			handleError(t, err)
			return
		}
''','''		err := addNewSnapshot(testID, snapshot, snapPath)
		if err != nil {
			return
		}
''')],
 demo=imp('os','path/filepath','testing',SN)+HEAD+'''
	f := filepath.Join(d, "file")
	os.WriteFile(f, nil, 0o644)
	c = snaps.WithConfig(snaps.Dir(f), snaps.Filename("f"))
	fails(t, "a file is in the way", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1") }), 1)
}
'''),
dict(id='c13-yaml-swapped', property='C13',
 needs='the report of a MatchYAML call',
 breaks='the stored document is shown as the received one',
 edits=[(Y,'''		unescapeEndChars(prevSnapshot),
		unescapeEndChars(snapshot),
''','''		unescapeEndChars(snapshot),
		unescapeEndChars(prevSnapshot),
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: old\\nb: 1\\n") })
	ft := run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: new\\nb: 1\\n") })
	fails(t, "changed", ft, 1)
	if !strings.Contains(ft.errs[0], "- a: old") || !strings.Contains(ft.errs[0], "+ a: new") {
		t.Fatalf("%s", ft.errs[0])
	}
}
'''),
dict(id='c13-yaml-escaped', property='C13',
 needs='the report of a MatchYAML call with several documents',
 breaks='the stored text is shown with its escapes',
 edits=[(Y,'''		unescapeEndChars(prevSnapshot),
		unescapeEndChars(snapshot),
		snapPathRel,
		line,
	)
''','''		prevSnapshot,
		snapshot,
		snapPathRel,
		line,
	)
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: old\\n---\\nb: 1\\n") })
	ft := run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: new\\n---\\nb: 1\\n") })
	fails(t, "changed", ft, 1)
	if strings.Contains(ft.errs[0], "/-/") {
		t.Fatalf("%s", ft.errs[0])
	}
}
'''),
dict(id='c13-json-highlight', property='C13',
 needs='the report of a standalone JSON snapshot in which a line with a comma at its end changed',
 breaks='reports of standalone JSON snapshots show the lines without their commas',
 edits=[(SJ,'''		prevSnapshot,
		snapshot,
		snapPathRel,
''','''		strings.ReplaceAll(prevSnapshot, ",\\n", "\\n"),
		strings.ReplaceAll(snapshot, ",\\n", "\\n"),
		snapPathRel,
''')],
 demo=imp('strings','testing',SN)+HEAD+'''
	run("TestA", func(ft *FT) { c.MatchStandaloneJSON(ft, `{"a":1,"b":2}`) })
	ft := run("TestA", func(ft *FT) { c.MatchStandaloneJSON(ft, `{"a":3,"b":2}`) })
	fails(t, "changed", ft, 1)
	if !strings.Contains(ft.errs[0], `"a": 3,`) {
		t.Fatalf("%s", ft.errs[0])
	}
}
'''),
]
