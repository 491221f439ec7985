from bugs1 import *
from bugs4 import HEAD
A='match/any.go'; T='match/type.go'
BUGS=[
dict(id='c17-reused-paths', property='C17',
 needs='the same Any matcher used for a second JSON call, of whose paths an earlier one is missing',
 breaks='the paths that exist are collected in place of those of the matcher, the second call does not know the missing path any more and passes',
 edits=[(A,'''	json := b
	for _, path := range a.paths {
		r := getJSON(json, path)
		if !r.Exists() {
			if a.errOnMissingPath {
				errs = append(errs, a.matcherError(errPathNotFound, path))
			}

			continue
		}

		j, err := setJSON''','''	json := b
	found := a.paths[:0]
	for i := range a.paths {
		path := a.paths[i]
		if getJSON(json, path).Exists() {
			found = append(found, path)
		} else if a.errOnMissingPath {
			errs = append(errs, a.matcherError(errPathNotFound, path))
		}
	}

	for _, path := range found {
		r := getJSON(json, path)
		if !r.Exists() {
			continue
		}

		j, err := setJSON''')],
 demo=imp('testing',SN,MA)+HEAD+'''
	m := match.Any("gone", "a")
	fails(t, "first", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":1}`, m) }), 1)
	fails(t, "second", run("TestA", func(ft *FT) { c.MatchJSON(ft, `{"a":1}`, m) }), 1)
}
'''),
dict(id='c17-kept-errors', property='C17',
 needs='a Type matcher used for a document that satisfies it, after it was used for one that does not, both YAML',
 breaks='the errors are kept in the matcher: a call with satisfied matchers fails',
 edits=[(T,'''func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
	var errs []MatcherError

''','''func (t *typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
	errs := t.errs
	defer func() { t.errs = errs }()

'''),(T,'''	expectedType     any
''','''	expectedType     any
	errs             []MatcherError
''')],
 demo=imp('testing',SN,MA)+HEAD+'''
	m := match.Type[string]("$.a")
	fails(t, "first", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: 1\\n", m) }), 1)
	adds(t, "second", run("TestA", func(ft *FT) { c.MatchYAML(ft, "a: x\\n", m) }), 1)
}
'''),
dict(id='c06-lock-per-slot', property='C06',
 needs='two tests that update their snapshots of a file at the same time',
 breaks='an update is locked by slot, those of two slots put stale copies of each other back',
 edits=[(S,'''	_m.Lock()
	defer _m.Unlock()
	f, err := os.OpenFile(snapPath, os.O_RDWR, os.ModePerm)
''','''	slot, _ := _slots.LoadOrStore(snapPath+testID, &sync.Mutex{})
	slot.(*sync.Mutex).Lock()
	defer slot.(*sync.Mutex).Unlock()
	f, err := os.OpenFile(snapPath, os.O_RDWR, os.ModePerm)
'''),(S,'''	_m                      = sync.RWMutex{}
''','''	_m                      = sync.RWMutex{}
	_slots                  = sync.Map{}
''')],
 demo=imp('fmt','strings','sync','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"), snaps.Update(true))
	pad := strings.Repeat("line\\n", 20000)
	for i := range 8 {
		run(fmt.Sprint("Test", i), func(ft *FT) { c.MatchSnapshot(ft, pad) })
	}
	for round := range 40 {
		var wg sync.WaitGroup
		for i := range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				run(fmt.Sprint("Test", i), func(ft *FT) { c.MatchSnapshot(ft, fmt.Sprint(round, pad)) })
			}()
		}
		wg.Wait()
		for i := range 8 {
			passes(t, fmt.Sprint(round, i), run(fmt.Sprint("Test", i), func(ft *FT) { c.MatchSnapshot(ft, fmt.Sprint(round, pad)) }))
		}
	}
}
'''),
dict(id='c04-cached-file', property='C04',
 needs='an update to a value of the same length, and another look at the file within the second',
 breaks='the content of a file is kept while its size and second of change stay, a call whose value was just written rewrites it again',
 edits=[(S,'''	f, err := os.ReadFile(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}

	lineNumber''','''	f, err := readCached(snapPath)
	if err != nil {
		return "", -1, errSnapNotFound
	}

	lineNumber'''),(S,'''func addNewSnapshot(''','''type cachedFile struct {
	size, changed int64
	content       []byte
}

var cachedFiles sync.Map

func readCached(snapPath string) ([]byte, error) {
	i, err := os.Stat(snapPath)
	if err != nil {
		return nil, err
	}
	if c, ok := cachedFiles.Load(snapPath); ok {
		if c := c.(cachedFile); c.size == i.Size() && c.changed == i.ModTime().Unix() {
			return c.content, nil
		}
	}

	b, err := os.ReadFile(snapPath)
	if err == nil {
		cachedFiles.Store(snapPath, cachedFile{i.Size(), i.ModTime().Unix(), b})
	}

	return b, err
}

func addNewSnapshot(''')],
 demo=imp('fmt','testing',SN)+'''
func TestDemo(t *testing.T) {
	c := snaps.WithConfig(snaps.Dir(t.TempDir()), snaps.Filename("f"), snaps.Update(true))
	for i := range 300 {
		run("TestA", func(ft *FT) { c.MatchSnapshot(ft, fmt.Sprint(100+i)) })
		passes(t, "after the update", run("TestA", func(ft *FT) { c.MatchSnapshot(ft, fmt.Sprint(100+i)) }))
	}
}
'''),
]
