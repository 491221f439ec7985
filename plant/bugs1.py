S='snaps/snapshot.go'; U='snaps/utils.go'; C='snaps/clean.go'; K='snaps/skip.go'; D='snaps/diff.go'
L='internal/difflib/difflib.go'
IMP='''
import (
%s
)
'''
def imp(*a): return IMP % '\n'.join('\t"%s"' % x for x in a)
SN='github.com/gkampitakis/go-snaps/snaps'
MA='github.com/gkampitakis/go-snaps/match'
BUGS=[
dict(id='c01-scanner-limit', property='C01',
 needs='a value with a line longer than 1 MiB',
 breaks='lines are only read up to 1 MiB, the recorded snapshot cannot be read again and the replay fails',
 edits=[(U,'s.Buffer([]byte{}, math.MaxInt)','s.Buffer([]byte{}, 1<<20)'),(U,'\t"math"\n',''),
  (U,'// snapshotScanner returns a new *bufio.Scanner with a `MaxScanTokenSize == math.MaxInt` to read from r.','// snapshotScanner returns a new *bufio.Scanner with a `MaxScanTokenSize == 1MiB` to read from r.')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	v := strings.Repeat("x", 3<<20)
	f := func(ft *FT) { c.MatchSnapshot(ft, v) }
	adds(t, "first", run("TestA", f), 1)
	passes(t, "second", run("TestA", f))
}
'''),
dict(id='c01-terminator-trimmed', property='C01',
 needs='a value having a line that is the terminator with spaces around it',
 breaks='a body line like "--- " ends the snapshot early when it is read, so the replay of the same value fails',
 edits=[(S,'''			if bytes.Equal(line, endSequenceByteSlice) {
				return strings.TrimSuffix''','''			if bytes.Equal(bytes.TrimSpace(line), endSequenceByteSlice) {
				return strings.TrimSuffix''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	f := func(ft *FT) { c.MatchSnapshot(ft, "a\\n--- \\nb"); c.MatchSnapshot(ft, "other") }
	adds(t, "first", run("TestA", f), 2)
	passes(t, "second", run("TestA", f))
}
'''),
dict(id='c02-crlf-normalised', property='C02',
 needs='two values that differ only in line endings, in a standalone snapshot',
 breaks='texts are compared with normalised line endings, so a change from \\n to \\r\\n passes silently',
 edits=[(D,'''	if expected == received {
		return ""
	}
	differ''','''	// checkouts on windows can convert the line endings
	if strings.ReplaceAll(expected, "\\r\\n", "\\n") == strings.ReplaceAll(received, "\\r\\n", "\\n") {
		return ""
	}
	differ''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a\\nb\\n") }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchStandaloneSnapshot(ft, "a\\r\\nb\\n") }), 1)
}
'''),
dict(id='c02-yaml-final-newline', property='C02',
 needs='a YAML document whose only change is the number of final newlines',
 breaks='the stored and the received YAML are compared without their final newlines, so the change is not reported',
 edits=[('snaps/matchYAML.go','''		unescapeEndChars(prevSnapshot),
		unescapeEndChars(snapshot),''','''		strings.TrimRight(unescapeEndChars(prevSnapshot), "\\n"),
		strings.TrimRight(unescapeEndChars(snapshot), "\\n"),''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1\\nb: 2\\n") }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1\\nb: 2") }), 1)
}
'''),
dict(id='c02-json-stored-blank', property='C02',
 needs='a stored JSON snapshot that differs from the received one only in the spaces at line ends (edited by hand)',
 breaks='MatchJSON compares the stored text without the blanks at its end, so a stored text with additional bytes passes',
 edits=[('snaps/matchJSON.go','diff := prettyDiff(prevSnapshot, snapshot, snapPathRel, line)','diff := prettyDiff(strings.TrimSpace(prevSnapshot), snapshot, snapPathRel, line)')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	write(t, "\\n[TestA - 1]\\n{\\n \\"a\\": 1\\n}\\n\\n---\\n", d, "f.snap")
	before := tree(d)
	fails(t, "stored text has one more newline", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":1}`) }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c03-header-case', property='C03',
 needs='two tests of a file whose names differ only in letter case',
 breaks='headers are compared ignoring case, so the second test is compared with the slot of the first one',
 edits=[(S,'''		l := s.Bytes()
		if !bytes.Equal(l, tid) {''','''		l := s.Bytes()
		if !bytes.EqualFold(l, tid) {''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA/one", func(ft *FT) { c.MatchSnapshot(ft, "1") }), 1)
	adds(t, "second", run("TestA/One", func(ft *FT) { c.MatchSnapshot(ft, "2") }), 1)
	passes(t, "third", run("TestA/One", func(ft *FT) { c.MatchSnapshot(ft, "2") }))
}
'''),
dict(id='c03-yaml-invalid-slot', property='C03',
 needs='a MatchYAML call with invalid input followed by other calls of the test',
 breaks='a call failing on invalid YAML does not take an ordinal, so the following calls address the slot before theirs',
 edits=[('snaps/matchYAML.go','''	testID := testsRegistry.getTestID(snapPath, t.Name())
	t.Cleanup(func() {
		testsRegistry.release(snapPath, t.Name())
	})

	y, err := validateYAML(input)
	if err != nil {
		handleError(t, err)
		return
	}
''','''	y, err := validateYAML(input)
	if err != nil {
		handleError(t, err)
		return
	}

	testID := testsRegistry.getTestID(snapPath, t.Name())
	t.Cleanup(func() {
		testsRegistry.release(snapPath, t.Name())
	})
''')],
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	adds(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1"); c.MatchYAML(ft, "b: 1"); c.MatchSnapshot(ft, "c") }), 3)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1"); c.MatchYAML(ft, "b: ["); c.MatchSnapshot(ft, "c") }), 1)
}
'''),
dict(id='c04-prefix-update', property='C04',
 needs='a test with ten or more calls on one file of which the first is updated',
 breaks='updating slot 1 also overwrites the slots 10 to 19 of the test',
 edits=[(S,'''		if !bytes.Equal(b, tid) {
			// the body of another snapshot can have lines that look like the testID
			if _, isTestID := getTestID(b); isTestID {
				copy''','''		if !bytes.HasPrefix(b, tid[:len(tid)-1]) {
			// the body of another snapshot can have lines that look like the testID
			if _, isTestID := getTestID(b); isTestID {
				copy''')],
 demo=imp('fmt','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"), snaps.Update(true))
	f := func(first string) func(ft *FT) {
		return func(ft *FT) {
			c.MatchSnapshot(ft, first)
			for i := 2; i < 13; i++ {
				c.MatchSnapshot(ft, fmt.Sprint("value ", i))
			}
		}
	}
	run("TestA", f("a"))
	if ft := run("TestA", f("b")); len(ft.errs) != 0 || ft.count("updated") != 1 || len(ft.logs) != 1 {
		t.Fatal(ft.errs, ft.logs)
	}
	passes(t, "third", run("TestA", f("b")))
}
'''),
dict(id='c04-rewrite-equal', property='C04',
 needs='update mode, a multi-entry snapshot whose value already matches, and a look at the modification time of the file',
 breaks='calls that match write their unchanged entry again when updating is enabled',
 edits=[('snaps/matchSnapshot.go','''	if diff == "" {
		testEvents.register(passed)
		return
	}
''','''	update := shouldUpdate(c.update)
	if diff == "" && (!update || updateSnapshot(testID, snapshot, snapPath) == nil) {
		testEvents.register(passed)
		return
	}
''')],
 demo=imp('os','path/filepath','testing','time',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"), snaps.Update(true))
	f := func(ft *FT) { c.MatchSnapshot(ft, "a"); c.MatchSnapshot(ft, "b") }
	run("TestA", f)
	old := time.Unix(1000000000, 0)
	if err := os.Chtimes(filepath.Join(d, "f.snap"), old, old); err != nil {
		t.Fatal(err)
	}
	passes(t, "second", run("TestA", f))
	if i, _ := os.Stat(filepath.Join(d, "f.snap")); !i.ModTime().Equal(old) {
		t.Fatal("written", i.ModTime())
	}
}
'''),
dict(id='c05-sort-on-ci', property='C05',
 needs='Clean with sorting on CI over an unsorted file',
 breaks='the sort gate forgets CI, so Clean rewrites files on CI',
 edits=[(C,'opt.Sort && !isCI','opt.Sort')],
 demo=imp('os','testing',SN)+'''
func TestChild(t *testing.T) {
	isChild(t)
	c := snaps.WithConfig(snaps.Dir(os.Getenv("ZDIR")), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") })
	run("TestB", func(ft *FT) { c.MatchSnapshot(ft, "b") })
}
func TestDemo(t *testing.T) {
	d := t.TempDir()
	write(t, "\\n[TestB - 1]\\nb\\n---\\n\\n[TestA - 1]\\na\\n---\\n", d, "f.snap")
	before := tree(d)
	child(t, []string{"ZDIR=" + d, "CI=true", "ZCLEAN=sort"}, "-test.run=^TestChild$")
	same(t, "on CI", tree(d), before)
}
'''),
dict(id='c05-env-parsebool', property='C05',
 needs='UPDATE_SNAPS set to something that reads as true without being "true"',
 breaks='UPDATE_SNAPS=1 (or t, TRUE) enables updating, only "true" should',
 edits=[(U,'return updateVAR == "true"\n','update, _ := strconv.ParseBool(updateVAR)\n\n\treturn update\n'),(U,'\t"slices"\n','\t"slices"\n\t"strconv"\n')],
 demo=imp('os','testing',SN)+'''
func TestChild(t *testing.T) {
	isChild(t)
	c := snaps.WithConfig(snaps.Dir(os.Getenv("ZDIR")), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "new") })
}
func TestDemo(t *testing.T) {
	for _, v := range []string{"1", "TRUE", "t", "clean", "false"} {
		d := t.TempDir()
		write(t, "\\n[TestA - 1]\\na\\n---\\n", d, "f.snap")
		before := tree(d)
		child(t, []string{"ZDIR=" + d, "UPDATE_SNAPS=" + v}, "-test.run=^TestChild$")
		same(t, v, tree(d), before)
	}
}
'''),
dict(id='c05-mkdir-on-ci', property='C05',
 needs='a missing snapshot directory while creating is forbidden (CI or Update(false))',
 breaks='looking for a snapshot creates its directory, even on CI',
 edits=[(S,'''	f, err := os.ReadFile(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}
''','''	f, err := readOrPrepare(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}
'''),(S,'''func addNewSnapshot(''','''// readOrPrepare reads the snapshot file, the first time it prepares its directory
func readOrPrepare(snapPath string) ([]byte, error) {
	f, err := os.ReadFile(snapPath)
	if os.IsNotExist(err) {
		_ = os.MkdirAll(filepath.Dir(snapPath), os.ModePerm)
	}
	return f, err
}

func addNewSnapshot(''')],
 demo=imp('path/filepath','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(filepath.Join(d, "x")), snaps.Filename("f"), snaps.Update(false))
	before := tree(d)
	fails(t, "missing", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a") }), 1)
	same(t, "files", tree(d), before)
}
'''),
dict(id='c06-stale-copy', property='C06',
 needs='two updating calls on the same file whose reads and writes interleave',
 breaks='the file is read before the lock is taken, the rewrite puts a stale copy back and loses the update of the other test',
 edits=[(S,'''	_m.Lock()
	defer _m.Unlock()
	f, err := os.OpenFile(snapPath, os.O_RDWR, os.ModePerm)
	if err != nil {
		return err
	}
	defer f.Close()

	tid''','''	f, err := os.OpenFile(snapPath, os.O_RDWR, os.ModePerm)
	if err != nil {
		return err
	}
	defer f.Close()

	tid'''),(S,'''	return overwriteFile(f, updatedSnapFile.Bytes())
''','''	_m.Lock()
	defer _m.Unlock()

	return overwriteFile(f, updatedSnapFile.Bytes())
''')],
 demo=imp('fmt','strings','sync','testing',SN)+'''
func TestDemo(t *testing.T) {
	for round := 0; round < 40; round++ {
		c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"), snaps.Update(true))
		pad := strings.Repeat("line\\n", 2000)
		f := func(i int, v string) *FT {
			return run(fmt.Sprint("Test", i), func(ft *FT) { c.MatchSnapshot(ft, v+pad) })
		}
		for i := 0; i < 16; i++ {
			f(i, "a")
		}
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); f(i, "b") }()
		}
		wg.Wait()
		for i := 0; i < 16; i++ {
			passes(t, fmt.Sprint("round ", round, " test ", i), f(i, "b"))
		}
	}
}
'''),
dict(id='c20-lost-count', property='C20',
 needs='two calls registering their outcome at the same time',
 breaks='the outcome counters are read and written in two steps, so that simultaneous outcomes are counted once',
 edits=[(C,'''	e.Lock()
	defer e.Unlock()
	e.items[event]++''','''	count := e.get(event)
	e.Lock()
	defer e.Unlock()
	e.items[event] = count + 1'''),(C,'''func newTestEvents()''','''func (e *events) get(event uint8) int {
	e.Lock()
	defer e.Unlock()
	return e.items[event]
}

func newTestEvents()''')],
 demo=imp('fmt','strings','sync','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"))
	const n, k = 8, 3000
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			run(fmt.Sprint("Test", i), func(ft *FT) {
				for j := 0; j < k; j++ {
					c.MatchJSON(ft, "{")
				}
			})
		}()
	}
	wg.Wait()
	if out := clean(); !strings.Contains(out, fmt.Sprint(n*k, " snapshots failed")) {
		t.Fatal(out)
	}
}
'''),
dict(id='c06-read-unlocked', property='C06',
 needs='a call reading the file while another test rewrites it',
 breaks='reading takes no lock, so a call can see the truncated file, miss its snapshot and add it again',
 edits=[(S,'''	_m.RLock()
	defer _m.RUnlock()

	f, err := os.ReadFile(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}
''','''	f, err := os.ReadFile(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}
''')],
 demo=imp('fmt','strings','sync','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"), snaps.Update(true))
	pad := strings.Repeat("line\\n", 200000)
	run("TestUpdate", func(ft *FT) { c.MatchSnapshot(ft, "0") })
	run("TestRead", func(ft *FT) { c.MatchSnapshot(ft, "r") })
	run("TestPad", func(ft *FT) { c.MatchSnapshot(ft, pad) })
	var wg sync.WaitGroup
	stop := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 1; i < 100; i++ {
			run("TestUpdate", func(ft *FT) { c.MatchSnapshot(ft, fmt.Sprint(i)) })
		}
		close(stop)
	}()
	for done := false; !done; {
		select {
		case <-stop:
			done = true
		default:
			passes(t, "reader", run("TestRead", func(ft *FT) { c.MatchSnapshot(ft, "r") }))
		}
	}
	wg.Wait()
}
'''),
dict(id='c07-unclean-dir', property='C07',
 needs='Dir given as a path that is not clean (a trailing slash, "..") and Clean in clean mode',
 breaks='the registered path is not cleaned while Clean looks for cleaned ones, so files used in this run are removed',
 edits=[(S,'snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))',
  'snapPath := dir + string(filepath.Separator) + constructFilename(c, callerFilename, tName, isStandalone)')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d+"/b/"), snaps.Filename("f"))
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "a"); c.MatchStandaloneSnapshot(ft, "a") })
	before := tree(d)
	clean()
	same(t, "after Clean", tree(d), before)
}
'''),
dict(id='c07-first-occurrence', property='C07',
 needs='a test calling standalone three or more times',
 breaks='the ids of a test are counted from the last two only, Clean takes earlier snapshots of the run as obsolete',
 edits=[(C,'''		if counter > 1 {
			for i := 1; i <= counter; i++ {''','''		if counter > 1 {
			for i := max(1, counter-9); i <= counter; i++ {''')],
 env='export UPDATE_SNAPS=clean',
 demo=imp('fmt','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	run("TestA", func(ft *FT) {
		for i := 0; i < 15; i++ {
			c.MatchSnapshot(ft, fmt.Sprint(i))
			c.MatchStandaloneSnapshot(ft, fmt.Sprint(i))
		}
	})
	before := tree(d)
	clean()
	same(t, "after Clean", tree(d), before)
}
'''),
dict(id='c07-empty-body', property='C07',
 needs='a multi-entry file that is read by Clean while one of its entries has an empty body',
 breaks='entries with an empty value are dropped whenever Clean rewrites a file',
 edits=[(C,'''			fmt.Fprintf(f, "\\n[%s]\\n%s%s\\n", id, test, endSequence)
''','''			if body := strings.TrimSpace(test); body != "" {
				fmt.Fprintf(f, "\\n[%s]\\n%s%s\\n", id, test, endSequence)
			}
''')],
 demo=imp('strings','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	run("TestB", func(ft *FT) { c.MatchSnapshot(ft, "b") })
	run("TestA", func(ft *FT) { c.MatchSnapshot(ft, "") })
	clean(snaps.CleanOpts{Sort: true})
	if s := read(t, d, "f.snap"); !strings.HasPrefix(s, "\\n[TestA - 1]\\n\\n---\\n") {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c08-skipf-goexit', property='C08',
 needs='a test using snaps.Skipf with a real testing.T',
 breaks='Skipf records the test after skipping it, which ends the goroutine, so the snapshots of the test become obsolete',
 edits=[(K,'''	trackSkip(t)
	t.Skipf(format, args...)
''','''	defer t.Skipf(format, args...)
	if len(args) > 0 {
		t.Skipf(format, args...)
	}
	trackSkip(t)
''')],
 demo=imp('os','testing',SN)+'''
func TestChildA(t *testing.T) {
	isChild(t)
	snaps.Skipf(t, "not %s", "now")
}
func TestChildB(t *testing.T) {
	isChild(t)
	snaps.WithConfig(snaps.Dir(os.Getenv("ZDIR")), snaps.Filename("f")).MatchSnapshot(t, "b")
}
func TestDemo(t *testing.T) {
	d := t.TempDir()
	write(t, "\\n[TestChildA - 1]\\na\\n---\\n\\n[TestChildB - 1]\\nb\\n---\\n\\n[TestDemo - 1]\\nx\\n---\\n", d, "f.snap")
	child(t, []string{"ZDIR=" + d, "UPDATE_SNAPS=clean", "ZCLEAN=1"}, "-test.run=^TestChild")
	if s := read(t, d, "f.snap"); len(s) < 50 {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id='c10-ids-leak', property='C10',
 needs='sorting with two used files of which the first examined needs no rewrite and sorts after the second one',
 breaks='the ids of a file that is not written stay in the list of the next one, which is then written although it is sorted',
 edits=[(C,'''			f.Close()

			clear(tests)
			testIDs = testIDs[:0]
			data.Reset()

			continue''','''			f.Close()

			clear(tests)
			data.Reset()

			continue''')],
 demo=imp('os','path/filepath','testing','time',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	old := time.Unix(1000000000, 0)
	for _, n := range []string{"a", "b", "c"} {
		c := snaps.WithConfig(snaps.Dir(d), snaps.Filename(n))
		run("TestA"+n, func(ft *FT) { c.MatchSnapshot(ft, "a") })
		run("TestB"+n, func(ft *FT) { c.MatchSnapshot(ft, "a") })
		os.Chtimes(filepath.Join(d, n+".snap"), old, old)
	}
	before := tree(d)
	clean(snaps.CleanOpts{Sort: true})
	same(t, "after Clean", tree(d), before)
	for _, n := range []string{"a", "b", "c"} {
		if i, _ := os.Stat(filepath.Join(d, n+".snap")); !i.ModTime().Equal(old) {
			t.Fatal("written", n)
		}
	}
}
'''),
dict(id='c10-lexical-numbers', property='C10',
 needs='sorting a test with more than nine snapshots',
 breaks='ids of the same test are ordered by text, 10 comes before 2',
 edits=[(C,'''	if natural.Less(a, b) {
		return -1
	}
	return 1''','''	// snapshots of the same test are grouped together
	less := natural.Less
	if i, j := strings.LastIndex(a, " - "), strings.LastIndex(b, " - "); i > 20 && i == j && a[:i] == b[:j] {
		less = func(a, b string) bool { return a < b }
	}
	if less(a, b) {
		return -1
	}
	return 1''')],
 demo=imp('fmt','testing',SN)+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	c := snaps.WithConfig(snaps.Dir(d), snaps.Filename("f"))
	run("TestALongNameForATestCase/sub", func(ft *FT) {
		for i := 1; i <= 12; i++ {
			c.MatchSnapshot(ft, fmt.Sprint(i))
		}
	})
	before := tree(d)
	clean(snaps.CleanOpts{Sort: true})
	same(t, "after Clean", tree(d), before)
}
'''),
]
