package props

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/zverif/h"
	"pgregory.net/rapid"
)

// stale is a suite together with what the model has to know about it.
type stale struct {
	Suite Suite    `json:"suite"`
	Names []string `json:"names"` // every test name that could own something in the files
	Perm  []int    `json:"perm,omitempty"`
	// known findings are judged as well
	Strict bool `json:"strict,omitempty"`
}

var (
	topNames = []string{"TestA", "TestAB", "TestA_1", "TestB", "TestB2", "TestB10", "TestÄ", "Test", "TestA1", "TestC", "TESTA", longTop, longTop + "1"}
	subNames = []string{"a", "ab", "a_1", "a b", "x/y", "1", "01", "é", "b", "[x]", "A", "a-1", "sub", "2", "10", "a(b)", "x|y", "%d", "e\u0301", longSub + "a", longSub + "b"}

	longTop = "Test" + strings.Repeat("Long", 20)
	longSub = strings.Repeat("very_", 10)
)

// rewritten is what the testing package makes of the name of a subtest.
func rewritten(s string) string { return strings.ReplaceAll(s, " ", "_") }

type sknobs struct {
	run    int // 0 never, else one in run has a -run pattern
	skips  int // one in skips nodes calls snaps.Skip
	clean  []string
	ci     int // one in ci
	par    int // one in par nodes is parallel
	sorted bool
	alone  int // weight of standalone calls
	dup    bool
	seq    bool // nothing runs concurrently
	fail   bool // calls with bad documents, failing matchers, obstacles in the place of files
	gos    int  // weight of concurrent calls in a test
}

type sgen struct {
	t      *rapid.T
	k      sknobs
	count  int
	names  []string
	san    map[string]string
	own    int
	bodies []string
	// static slots: file -> id -> body of the call, and standalone file -> body
	slots map[string]map[string]string
	alone map[string]string
}

func (g *sgen) flip(one int, label string) bool {
	return one > 0 && rapid.IntRange(1, one).Draw(g.t, label) == 1
}

func (g *sgen) body() string {
	if rapid.IntRange(0, 2).Draw(g.t, "plain") > 0 {
		return rapid.SampledFrom([]string{"value", "v1", "v2", "other", "a\nb\nc", "x\n\ny", ""}).Draw(g.t, "plain body")
	}
	return genBody("TestA", "TestB", "TestAB", "TestA/a").Draw(g.t, "body")
}

func (g *sgen) cfg() Cfg {
	k := Cfg{}
	switch rapid.IntRange(0, 9).Draw(g.t, "dir") {
	case 0:
		k.Dir = sdir("t")
	case 1:
		k.Dir = sdir(rapid.SampledFrom([]string{"s/deep", "s/deep", "s/v.snap"}).Draw(g.t, "below"))
	case 2:
		// other ways to write the same directories
		k.Dir = sdir(rapid.SampledFrom([]string{"s/", "./s", "s//", "s/.", "s/../s", "t/", "t/../s", "s/deep/..", "s//deep/"}).Draw(g.t, "spelling"))
	}
	k.File = h.S(rapid.SampledFrom([]string{"", "", "", "f", "g"}).Draw(g.t, "file"))
	if g.flip(6, "ext?") {
		k.Ext = ".txt"
	}
	if g.k.fail && g.flip(12, "blocked") {
		k.Dir = sdir("s/blocked")
	}
	if u := rapid.IntRange(0, 11).Draw(g.t, "update"); u == 0 {
		k.Update = ptr(true)
	} else if u == 1 {
		k.Update = ptr(false)
	}
	return k
}

func (g *sgen) call(full string) (Cfg, Call) {
	kinds := []string{"snap", "snap", "snap", "snap", "json", "yaml"}
	for i := 0; i < g.k.alone; i++ {
		kinds = append(kinds, "ssnap", "ssnap", "sjson")
	}
	kind := rapid.SampledFrom(kinds).Draw(g.t, "kind")
	k := g.cfg()
	c := Call{Kind: kind}
	if kind == "ssnap" || kind == "sjson" {
		s := strings.ReplaceAll(full, "/", "_")
		if o, ok := g.san[s]; ok && o != full {
			kind = "snap" // another test has the same file names
			c.Kind = kind
		} else {
			g.san[s] = full
			k.File = ""
			if g.flip(8, "own name") {
				g.own++
				k.File = h.S(fmt.Sprintf("own%d", g.own))
			}
		}
	}
	if g.k.fail && kind != "snap" && kind != "ssnap" && g.flip(8, "failing matcher") {
		c.M = []M{{Kind: "any", Paths: []h.S{"missing"}}}
		if kind == "yaml" {
			c.M[0].Paths[0] = "$.missing"
		}
	}
	switch kind {
	case "json", "sjson":
		c.Form, c.Doc = "str", h.S(rapid.SampledFrom([]string{`{"a":1}`, `[1,2]`, `"x"`, `{"b":{"c":null}}`, "{bad"}).Draw(g.t, "json"))
	case "yaml":
		c.Form, c.Doc = "str", h.S(rapid.SampledFrom([]string{"a: 1\n", "---\na: 1\n---\nb: 2", "- x", "a: [1"}).Draw(g.t, "yaml"))
	default:
		c.Vals = []Val{{K: "str", S: h.S(g.body())}}
	}
	return k, c
}

func (g *sgen) node(full string, depth int, n *Node) {
	t := g.t
	g.names = append(g.names, full)
	n.Src = rapid.IntRange(0, 1).Draw(t, "src")
	n.Par = g.flip(g.k.par, "par")
	subs := map[string]bool{}
	var certain *Op
	for i, m := 0, rapid.IntRange(0, 4).Draw(t, "ops"); i < m; i++ {
		op := Op{}
		switch x := rapid.IntRange(0, 19).Draw(t, "op"); {
		case x < 11 || depth == 0 && x < 17:
			op.K = "call"
			op.Cfg, op.Call = g.call(full)
		case x < 17:
			op.K = "sub"
			s := rapid.SampledFrom(subNames).Draw(t, "sub")
			name := rewritten(s)
			clash := false
			for o := range subs {
				clash = clash || o == name || strings.HasPrefix(o, name+"/") || strings.HasPrefix(name, o+"/")
			}
			if clash {
				continue
			}
			subs[name] = true
			op.Sub = &Node{Name: h.S(s)}
			g.node(full+"/"+name, depth-1, op.Sub)
		case x == 17 && certain != nil:
			op.K = "cleanup"
			op.Cfg, op.Call = certain.Cfg, certain.Call
		case x == 18 && !g.k.seq && g.flip(3, "go") || g.k.gos > 0 && g.flip(g.k.gos, "gos"):
			op.K = "go"
			op.Cfg = g.cfg()
			for j, m := 0, rapid.IntRange(2, 4).Draw(t, "goroutines"); j < m; j++ {
				op.Calls = append(op.Calls, Call{Kind: "snap", Vals: []Val{{K: "str", S: "same"}}})
			}
		default:
			op.K = "call"
			op.Cfg, op.Call = g.call(full)
		}
		if g.count > 1 && op.K != "sub" && g.flip(4, "only?") {
			op.Only = []int{rapid.IntRange(1, g.count).Draw(t, "only")}
		} else if g.count > 1 && op.K == "sub" && g.flip(8, "only sub?") {
			op.Only = []int{rapid.IntRange(1, g.count).Draw(t, "only")}
		}
		n.Ops = append(n.Ops, op)
		if op.K == "call" && g.flip(12, "many") {
			// the ordinals get two digits
			for j, m := 0, rapid.IntRange(8, 12).Draw(t, "times"); j < m; j++ {
				n.Ops = append(n.Ops, op)
			}
		}
		if op.K == "call" && op.Only == nil && (op.Call.Kind == "snap" || op.Call.Kind == "ssnap") {
			certain = &n.Ops[len(n.Ops)-1]
		}
	}
	if g.flip(g.k.skips, "skip") {
		at := rapid.IntRange(0, len(n.Ops)).Draw(t, "skip at")
		op := Op{K: "skip", How: rapid.SampledFrom([]string{"Skip", "Skipf", "SkipNow"}).Draw(t, "how")}
		if g.count > 1 && g.flip(3, "skip only") {
			op.Only = []int{rapid.IntRange(1, g.count).Draw(t, "skip in")}
		}
		n.Ops = append(n.Ops[:at:at], append([]Op{op}, n.Ops[at:]...)...)
	} else if g.flip(15, "tskip") {
		at := rapid.IntRange(0, len(n.Ops)).Draw(t, "tskip at")
		n.Ops = append(n.Ops[:at:at], append([]Op{{K: "tskip"}}, n.Ops[at:]...)...)
	}
	g.account(full, n)
}

// account notes the slots of an execution that does everything.
func (g *sgen) account(full string, n *Node) {
	ords := map[string]int{}
	for _, op := range n.Ops {
		calls := op.Calls
		if op.K == "call" || op.K == "cleanup" {
			calls = []Call{op.Call}
		}
		for _, c := range calls {
			f, alone := address(op.Cfg, n.Src, full, c.Kind)
			ords[f]++
			val := "\x00"
			if c.Kind == "snap" || c.Kind == "ssnap" {
				val = string(c.Vals[0].S)
			}
			if alone {
				g.alone[fmt.Sprintf(f, ords[f])] = val
				continue
			}
			if g.slots[f] == nil {
				g.slots[f] = map[string]string{}
			}
			g.slots[f][fmt.Sprintf("%s - %d", full, ords[f])] = val
		}
	}
}

// big is a test beyond the sizes the others have.
func (g *sgen) big() Node {
	t := g.t
	call := func(full string, kind string, file string, body string) Op {
		op := Op{K: "call", Cfg: Cfg{File: h.S(file)}, Call: Call{Kind: kind, Vals: []Val{{K: "str", S: h.S(body)}}}}
		if g.flip(10, "update?") {
			op.Cfg.Update = ptr(true)
		}
		return op
	}
	name := "TestBig"
	g.names = append(g.names, name)
	n := Node{Name: h.S(name)}
	how := rapid.SampledFrom([]int{17, 33, 40, 70}).Draw(t, "size")
	switch rapid.IntRange(0, 3).Draw(t, "big") {
	case 0: // subtests of subtests
		g.names = g.names[:len(g.names)-1]
		var chain func(full string, left int, n *Node)
		chain = func(full string, left int, n *Node) {
			if left == 0 {
				g.node(full, 1, n)
				return
			}
			g.names = append(g.names, full)
			names := []string{"a", "b", "1", "a_1", longSub}
			if len(full) > 50 {
				names = names[:4] // the names of files have a limit
			}
			sub := &Node{Name: h.S(rapid.SampledFrom(names).Draw(t, "deep name"))}
			chain(full+"/"+string(sub.Name), left-1, sub)
			n.Ops = append(n.Ops, Op{K: "sub", Sub: sub})
			if g.flip(2, "call") {
				n.Ops = append(n.Ops, call(full, "snap", "f", g.body()))
			}
			g.account(full, n)
		}
		chain(name, rapid.IntRange(3, 9).Draw(t, "deep"), &n)
		return n
	case 1: // files
		for i := 0; i < how; i++ {
			n.Ops = append(n.Ops, call(name, "snap", fmt.Sprintf("m%d", i), g.body()))
		}
	case 2: // subtests
		for i := 0; i < how; i++ {
			sub := &Node{Name: h.S(fmt.Sprintf("s%d", i))}
			full := fmt.Sprintf("%s/s%d", name, i)
			g.names = append(g.names, full)
			kind := "snap"
			if g.k.alone > 0 && i%3 == 0 {
				kind = "ssnap"
				g.san[strings.ReplaceAll(full, "/", "_")] = full
			}
			sub.Ops = append(sub.Ops, call(full, kind, "", g.body()))
			g.account(full, sub)
			n.Ops = append(n.Ops, Op{K: "sub", Sub: sub})
		}
	default: // calls
		kind := "snap"
		if g.k.alone > 0 && g.flip(2, "standalone") {
			kind = "ssnap"
			g.san[name] = name
		}
		for i := 0; i < 2*how; i++ {
			n.Ops = append(n.Ops, call(name, kind, "", rapid.SampledFrom([]string{"value", "v1", "other"}).Draw(t, "value")))
		}
	}
	g.account(name, &n)
	return n
}

// relatives are names that are no tests of the suite but look like some.
func (g *sgen) relatives() []string {
	seen := map[string]bool{}
	for _, n := range g.names {
		seen[n] = true
	}
	var out []string
	add := func(n string) {
		if n != "" && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, n := range g.names {
		add(n + "x")
		add(n + "/gone")
		add(n + "/a")
		add(n + "_1")
		add(n + "/a/deeper")
		if i := strings.LastIndexByte(n, '/'); i > 0 {
			add(n[:i] + "/gone")
			add(n[:i+1] + "a")
		}
	}
	add("TestOld")
	add("TestOld/sub")
	add("TestA")
	add("TestA/a")
	add("TestAB")
	return out
}

func genStale(t *rapid.T, k sknobs) stale {
	g := &sgen{t: t, k: k, san: map[string]string{}, slots: map[string]map[string]string{}, alone: map[string]string{}}
	s := Suite{Env: map[string]string{}, Files: map[string]h.S{}, Clean: rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "clean calls")}
	s.Count = rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "count")
	g.count = max(s.Count, 1)
	tops := rapid.Permutation(topNames).Draw(t, "tops")[:rapid.IntRange(1, 4).Draw(t, "n tops")]
	for _, name := range tops {
		n := Node{Name: h.S(name)}
		if g.flip(14, "fuzz") {
			n.Name = h.S("Fuzz" + strings.TrimPrefix(name, "Test"))
			n.Fuzz = true
			g.node(string(n.Name)+"/seed#0", 1, &n)
			g.names = append(g.names, string(n.Name), string(n.Name)+"/seed#1")
			n.Par = false
		} else {
			g.node(name, 2, &n)
		}
		s.Tests = append(s.Tests, n)
	}
	if h.Rare(t, map[bool]int{true: 6, false: 4}[k.seq], "big?") {
		s.Tests = append(s.Tests, g.big())
	}
	if e := rapid.SampledFrom(k.clean).Draw(t, "UPDATE_SNAPS"); e != "-" {
		s.Env["UPDATE_SNAPS"] = e
	}
	if g.flip(k.ci, "ci") {
		s.Env["CI"] = "true"
	}
	if rapid.Bool().Draw(t, "no color") {
		s.Env["NO_COLOR"] = "1"
	}
	s.Sort = rapid.SampledFrom([]*bool{nil, ptr(false), ptr(true)}).Draw(t, "sort")
	if k.sorted {
		s.Sort = ptr(rapid.IntRange(0, 3).Draw(t, "sort it") > 0)
	}
	s.Procs = rapid.SampledFrom([]int{0, 1, 8}).Draw(t, "parallel")

	rel := g.relatives()
	all := append(append([]string{}, g.names...), rel...)
	// what is in the files before
	var files []string
	for f := range g.slots {
		files = append(files, f)
	}
	sort.Strings(files)
	for _, f := range append(append([]string{}, files...), "s/unused.snap", "t/unused.snap", "u/unused.snap", "s/suite_a_test.snap", "s/suite_b_test.snap", "s/f.snap.txt") {
		if _, dup := s.Files[f]; dup {
			continue
		}
		used := g.slots[f] != nil
		if used && g.flip(5, "no file") || !used && !g.flip(4, "file") {
			continue
		}
		var es []h.Entry
		seen := map[string]bool{}
		add := func(id, body string) {
			if !seen[id] {
				seen[id] = true
				es = append(es, h.Entry{ID: id, Body: body})
			}
		}
		var ids []string
		for id := range g.slots[f] {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			v := g.slots[f][id]
			switch rapid.IntRange(0, 4).Draw(t, "slot") {
			case 0:
			case 1, 2:
				if v != "\x00" {
					add(id, v)
					continue
				}
				fallthrough
			default:
				add(id, g.body())
			}
		}
		if h.Rare(t, 4, "many stale") {
			n := rapid.SampledFrom(g.names).Draw(t, "name")
			for i, m := 0, rapid.SampledFrom([]int{30, 60, 130}).Draw(t, "how many"); i < m; i++ {
				add(fmt.Sprintf("%s%s - %d", n, []string{"", "x", "/gone"}[i%3], 20+i), "stale")
			}
		}
		for i, m := 0, rapid.IntRange(0, 5).Draw(t, "stale entries"); i < m; i++ {
			n := rapid.SampledFrom(all).Draw(t, "stale name")
			if g.flip(2, "own name") {
				n = rapid.SampledFrom(g.names).Draw(t, "name")
			}
			add(fmt.Sprintf("%s - %d", n, rapid.SampledFrom([]int{1, 2, 3, 4, 5, 10, 11, 100}).Draw(t, "ord")), g.body())
		}
		if len(es) > 1 && rapid.IntRange(0, 3).Draw(t, "shuffle") > 0 {
			es = rapid.Permutation(es).Draw(t, "order")
		}
		if k.dup && len(es) > 0 && g.flip(6, "dup") {
			d := rapid.SampledFrom(es).Draw(t, "which")
			if g.flip(2, "other body") {
				d.Body = g.body()
			}
			at := rapid.IntRange(0, len(es)).Draw(t, "dup at")
			es = append(es[:at:at], append([]h.Entry{d}, es[at:]...)...)
		}
		if len(es) == 0 && used {
			continue
		}
		var b strings.Builder
		gaps := k.dup && g.flip(4, "gaps")
		notes := g.flip(8, "notes") // lines that belong to no entry
		for _, e := range es {
			if gaps && g.flip(2, "gap") {
				b.WriteString("\n")
			}
			if notes && g.flip(3, "note") {
				b.WriteString(rapid.SampledFrom(h.Notes).Draw(t, "note") + "\n")
			}
			b.WriteString(e.Render())
		}
		if gaps && g.flip(3, "chop") {
			// an editor left out the last newline
			s.Files[f] = h.S(strings.TrimSuffix(b.String(), "\n"))
			continue
		}
		s.Files[f] = h.S(b.String())
	}
	// standalone files
	var alone []string
	for f := range g.alone {
		alone = append(alone, f)
	}
	sort.Strings(alone)
	for _, f := range alone {
		switch rapid.IntRange(0, 3).Draw(t, "standalone") {
		case 0:
		case 1:
			s.Files[f] = h.S(g.alone[f])
		default:
			s.Files[f] = h.S(g.body())
		}
	}
	if h.Rare(t, 5, "many files") {
		for i, m := 0, rapid.SampledFrom([]int{30, 60, 110, 300}).Draw(t, "how many"); i < m; i++ {
			s.Files[fmt.Sprintf("s/%s_%d.snap%s", []string{"TestGone", "TestA_x", "Test"}[i%3], i+1, []string{"", ".json"}[i%2])] = "stale"
		}
	}
	for i, m := 0, rapid.IntRange(0, 5).Draw(t, "standalone files"); i < m; i++ {
		n := strings.ReplaceAll(rapid.SampledFrom(all).Draw(t, "owner"), "/", "_")
		f := fmt.Sprintf("%s/%s_%d.snap%s", rapid.SampledFrom([]string{"s", "s", "s", "t", "s/deep", "u", "s/v.snap"}).Draw(t, "in"), n,
			rapid.SampledFrom([]int{1, 1, 2, 3, 9, 10}).Draw(t, "k"), rapid.SampledFrom([]string{"", "", ".json", ".txt"}).Draw(t, "ext"))
		if _, dup := s.Files[f]; !dup {
			s.Files[f] = h.S(g.body())
		}
	}
	for i, m := 0, rapid.IntRange(0, 4).Draw(t, "others"); i < m; i++ {
		f := rapid.SampledFrom([]string{
			"s/notes.txt", "s/f.sna", "s/snap", "s/sub/x.snap", "s/dir.snap/", "s/f.snap.bak", "s/x.snapshot", "s/.snap", "s/a.SNAP", "s/README.md", "t/keep.txt", "t/old.snap", "u/f.snap", "f.snap",
			"s/empty.snap", "s/dir.snap/f.snap", "s/deep/old_1.snap", "s/1.snap", "s/_1.snap", "s/x_1.snapx", "s/x_y.snap", "snap/f.snap", "s/f_1.snap/",
			"s/v.snap/notes.txt", "s/v.snap/x.sna", "s/v.snap/sub/x.snap", "s/v.snap/x.snap",
		}).Draw(t, "other")
		if _, dup := s.Files[f]; dup {
			continue
		}
		if _, dup := s.Files[f+"/"]; dup {
			continue
		}
		if g.slots[f] != nil || g.alone[f] != "" {
			continue
		}
		if f == "s/empty.snap" || strings.HasSuffix(f, "/") {
			s.Files[f] = ""
			continue
		}
		s.Files[f] = h.S(g.body())
	}
	if k.fail {
		s.Files["s/blocked"] = "not a directory"
		var used []string
		for f := range g.slots {
			used = append(used, f)
		}
		for f := range g.alone {
			used = append(used, f)
		}
		sort.Strings(used)
		for _, f := range used {
			if strings.HasPrefix(f, "s/blocked/") {
				delete(s.Files, f)
				continue
			}
			if g.flip(10, "obstacle") {
				delete(s.Files, f)
				s.Files[f+"/"] = ""
			}
		}
	}
	for src, base := range srcBase {
		if g.flip(3, "source") {
			continue
		}
		var b strings.Builder
		b.WriteString("package x\n\nimport \"testing\"\n\n")
		for _, n := range s.Tests {
			if n.Src == src {
				fmt.Fprintf(&b, "func %s(t *testing.T) {}\n", n.Name)
			}
		}
		s.Files[base+".go"] = h.S(b.String())
	}
	if g.flip(k.run, "run?") {
		s.Run = ptr(genRun(t, all))
	} else if g.flip(3, "empty run") {
		s.Run = ptr("")
	}
	sc := stale{Suite: s, Names: all}
	if k.sorted {
		sc.Perm = rapid.SliceOfN(rapid.IntRange(0, 50), 6, 6).Draw(t, "perm")
	}
	return sc
}

// genRun generates a -run pattern.
func genRun(t *rapid.T, names []string) string {
	one := func() string {
		n := rapid.SampledFrom(names).Draw(t, "run name")
		if i := strings.IndexAny(n, "[(|%"); i >= 0 {
			n = n[:i]
		}
		els := strings.Split(n, "/")
		if len(els) > 1 && rapid.Bool().Draw(t, "cut") {
			els = els[:rapid.IntRange(1, len(els)).Draw(t, "cut at")]
		}
		for i, e := range els {
			switch rapid.IntRange(0, 5).Draw(t, "anchor") {
			case 0:
				els[i] = "^" + e + "$"
			case 1:
				els[i] = "^" + e
			case 2:
				els[i] = e + "$"
			case 3:
				if len(e) > 1 {
					r := []rune(e)
					els[i] = string(r[:len(r)-1])
				}
			}
		}
		return strings.Join(els, "/")
	}
	switch rapid.IntRange(0, 9).Draw(t, "run kind") {
	case 0:
		return one() + "|" + one()
	case 1:
		return rapid.SampledFrom([]string{
			".", "Test", "^Test$", "/a", "//", "TestA/", "A", "a", "NoSuchTest", "Test[AB]", "Test[AB]$/a", "(TestA|TestB)", "(TestA|TestB)/a|TestC", "^(TestA)$/^(a|b)$", "TestA/a b", "TestA|TestB/x",
			"Test(A|B/x)", "TestA/[a/b]", "T.*A$", "Ä", "é", "/é", "TestA/x/y", "TestA/x", "/x/y", "TestA$|^TestB", "Fuzz", "FuzzA/seed#0", "^$", "[x]", "/\\[x\\]", "TestA\\/a",
		}).Draw(t, "pattern")
	case 2:
		return "/" + rapid.SampledFrom(subNames[:4]).Draw(t, "sub")
	default:
		return one()
	}
}

// --- judging ---

const (
	vUntouchable = "must not be touched"
	vAddressed   = "was addressed in this run"
	vProtected   = "belongs to a test that was skipped or not selected"
	vStale       = "is obsolete"
	vFree        = "can't be told"
)

type item struct {
	file    string
	entry   int // index in the file, -1: the file itself
	id      string
	body    string
	verdict string
	name    string
	why     string
}

type judged struct {
	items   []item
	files   map[string][]h.Entry // addressed multi-entry files
	order   []string
	dirs    map[string]bool
	filter  bool // there is a -run filter
	ci      bool
	removes bool // Clean is in clean mode
	sorts   bool
}

func nameOf(id string) (string, bool) {
	i := strings.LastIndex(id, " - ")
	if i < 0 {
		return "", false
	}
	for _, r := range id[i+3:] {
		if r < '0' || r > '9' {
			return "", false
		}
	}
	return id[:i], true
}

// walk visits every node with its full name.
func walk(nodes []Node, f func(full string, n *Node)) {
	var rec func(full string, n *Node)
	rec = func(full string, n *Node) {
		f(full, n)
		for i := range n.Ops {
			if s := n.Ops[i].Sub; s != nil {
				rec(full+"/"+rewritten(string(s.Name)), s)
			}
		}
	}
	for i := range nodes {
		n := &nodes[i]
		if n.Fuzz {
			rec(string(n.Name)+"/seed#0", n)
			rec(string(n.Name)+"/seed#1", n)
			continue
		}
		rec(string(n.Name), n)
	}
}

// staticAlone are the standalone files with a custom name that the tests of the suite would use.
func staticAlone(nodes []Node) map[string]string {
	out := map[string]string{}
	walk(nodes, func(full string, n *Node) {
		ords := map[string]int{}
		for _, op := range n.Ops {
			if op.K != "call" && op.K != "cleanup" || op.Cfg.File == "" {
				continue
			}
			f, alone := address(op.Cfg, n.Src, full, op.Call.Kind)
			if alone {
				ords[f]++
				file := fmt.Sprintf(f, ords[f])
				owner := full
				if o, ok := out[file]; ok && o != full {
					owner = "" // the seeds of a fuzz target share it
				}
				out[file] = owner
			}
		}
	})
	return out
}

// probesOf are all the names the -run pattern has to be asked about.
func (sc stale) probesOf() []string {
	seen := map[string]bool{}
	var out []string
	add := func(n string) {
		if n == "" || seen[n] || strings.Contains(n, "//") || strings.HasSuffix(n, "/") {
			return
		}
		seen[n] = true
		out = append(out, n)
	}
	for _, n := range sc.Names {
		add(n)
	}
	walk(sc.Suite.Tests, func(full string, n *Node) { add(full) })
	for f, d := range sc.Suite.Files {
		if strings.Contains(f, ".snap") {
			es, err := h.ParseLoose(string(d))
			if err == nil {
				for _, e := range es {
					if n, ok := nameOf(e.ID); ok {
						add(n)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func (sc stale) judge(r *Report) judged {
	s := sc.Suite
	j := judged{files: map[string][]h.Entry{}, dirs: map[string]bool{}}
	j.filter = s.Run != nil && *s.Run != ""
	j.ci = s.Env["CI"] != ""
	j.removes = !j.ci && (s.Env["UPDATE_SNAPS"] == "true" || s.Env["UPDATE_SNAPS"] == "clean")
	j.sorts = !j.ci && s.Sort != nil && *s.Sort
	addressed := map[string]map[string]bool{}
	alone := map[string]bool{}
	for _, d := range r.Did {
		f := string(d.File)
		j.dirs[filepath.Dir(f)] = true
		if d.Alone {
			alone[f] = true
			continue
		}
		if addressed[f] == nil {
			addressed[f] = map[string]bool{}
		}
		addressed[f][d.ID()] = true
	}
	bySkip := func(n string) string {
		for _, s := range r.Skips {
			if n == s || strings.HasPrefix(n, s+"/") {
				return s
			}
		}
		return ""
	}
	protected := func(n string) bool {
		if bySkip(n) != "" {
			return true
		}
		if j.filter {
			sel, known := r.Selected[n]
			return known && !sel
		}
		return false
	}
	unknown := func(n string) bool {
		if !j.filter {
			return false
		}
		_, known := r.Selected[n]
		return !known
	}
	owners := map[string][]string{} // sanitised -> names
	for n := range r.Selected {
		k := strings.ReplaceAll(n, "/", "_")
		owners[k] = append(owners[k], n)
	}
	for _, n := range append(append([]string{}, sc.Names...), r.Skips...) {
		k := strings.ReplaceAll(n, "/", "_")
		owners[k] = append(owners[k], n)
	}
	custom := staticAlone(s.Tests)

	var names []string
	for f, st := range r.Before {
		if !st.Dir {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		data := r.Before[f].Data
		dir := filepath.Dir(f)
		it := item{file: f, entry: -1}
		if !j.dirs[dir] || !strings.Contains(filepath.Base(f), ".snap") {
			it.verdict = vUntouchable
			j.items = append(j.items, it)
			continue
		}
		es, perr := h.ParseLoose(data)
		if ids := addressed[f]; ids != nil {
			if perr != nil {
				it.verdict = vFree
				it.why = perr.Error()
				j.items = append(j.items, it)
				continue
			}
			j.files[f] = es
			j.order = append(j.order, f)
			for i, e := range es {
				e2 := item{file: f, entry: i, id: e.ID, body: e.Body}
				n, ok := nameOf(e.ID)
				e2.name = n
				switch {
				case ids[e.ID]:
					e2.verdict = vAddressed
				case !ok || unknown(n):
					e2.verdict = vFree
				case protected(n):
					e2.verdict = vProtected
				case strings.HasPrefix(n, "Benchmark"):
					e2.verdict = vFree
				default:
					e2.verdict = vStale
				}
				j.items = append(j.items, e2)
			}
			continue
		}
		if alone[f] {
			it.verdict = vAddressed
			j.items = append(j.items, it)
			continue
		}
		it.verdict = vStale
		free := false
		if perr == nil {
			for _, e := range es {
				n, ok := nameOf(e.ID)
				switch {
				case !ok || unknown(n) || strings.HasPrefix(n, "Benchmark"):
					free = true
				case protected(n):
					it.verdict, it.name = vProtected, n
				}
			}
		} else if strings.Contains(data, " - ") {
			free = true // who knows what it holds
		}
		base := filepath.Base(f)
		if i := strings.Index(base, ".snap"); i >= 0 && it.verdict != vProtected {
			stem := base[:i]
			if u := strings.LastIndexByte(stem, '_'); u >= 0 && isDigits(stem[u+1:]) {
				stem = stem[:u]
				for _, n := range owners[stem] {
					sk := bySkip(n)
					switch {
					case unknown(n):
						free = true
					case sk != "" && sk != n && alone[filepath.Join(dir, stem+"_1"+base[i:])]:
						// a subtest of the skipped test that did run, and took snapshots with
						// this name (it runs before the skip, or in another execution)
						free = true
					case protected(n):
						it.verdict, it.name = vProtected, n
					}
				}
				for _, sk := range r.Skips {
					x := strings.ReplaceAll(sk, "/", "_")
					if strings.HasPrefix(stem, x+"_") && it.verdict != vProtected {
						free = true // could be a subtest of the skipped test
					}
				}
				if n, ok := custom[f]; ok && n == "" {
					free = true
				} else if ok && it.verdict != vProtected {
					if bySkip(n) != "" && sc.Strict {
						it.verdict, it.name = vProtected, n
					} else if bySkip(n) != "" {
						free = true // see known_findings.txt
					} else if j.filter && protected(n) {
						it.verdict, it.name = vProtected, n
					}
				}
			}
		}
		if free && it.verdict == vStale {
			it.verdict = vFree
		}
		j.items = append(j.items, it)
	}
	return j
}

func isDigits(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return s != ""
}

// listed is what a summary reports as obsolete: counts of entry ids and of files.
type listed struct {
	ids   map[string]int
	files map[string]int
	sum   Summary
}

func listedOf(out, work string) (listed, error) {
	l := listed{ids: map[string]int{}, files: map[string]int{}}
	sum, err := parseSummary(out)
	if err != nil {
		return l, err
	}
	l.sum = sum
	for _, t := range sum.Tests {
		l.ids[t]++
	}
	for _, f := range sum.Files {
		r, err := filepath.Rel(work, f)
		if err != nil {
			return l, fmt.Errorf("a file that is not in the work directory is listed: %s", f)
		}
		l.files[r]++
	}
	return l, nil
}

// keeps checks that the items with the verdict are in the tree as they were and are not listed.
func (j judged) keeps(after h.Tree, l listed, verdict string, n *int) error {
	// how many of an id may be listed
	may := map[string]int{}
	for _, it := range j.items {
		if it.entry >= 0 && it.verdict != verdict {
			may[it.id]++
		}
	}
	entries := map[string][]h.Entry{}
	for _, it := range j.items {
		if it.verdict != verdict {
			continue
		}
		if n != nil {
			*n++
		}
		if it.entry < 0 {
			if l.files[it.file] > 0 {
				return fmt.Errorf("the file %s %s but is reported as obsolete", it.file, verdict)
			}
			if _, ok := after[it.file]; !ok {
				return fmt.Errorf("the file %s %s but Clean deleted it", it.file, verdict)
			}
			continue
		}
		if l.ids[it.id] > may[it.id] {
			return fmt.Errorf("the entry [%s] of %s %s but is reported as obsolete", it.id, it.file, verdict)
		}
		st, ok := after[it.file]
		if !ok {
			return fmt.Errorf("the entry [%s] of %s %s but Clean deleted the file", it.id, it.file, verdict)
		}
		if l.files[it.file] > 0 {
			return fmt.Errorf("the entry [%s] of %s %s but the file is reported as obsolete", it.id, it.file, verdict)
		}
		if entries[it.file] == nil {
			es, err := h.ParseLoose(st.Data)
			if err != nil {
				return fmt.Errorf("%s after Clean: %w: %s", it.file, err, h.Show(st.Data))
			}
			entries[it.file] = es
		}
		found := false
		for _, e := range entries[it.file] {
			found = found || e.ID == it.id && e.Body == it.body
		}
		if !found {
			return fmt.Errorf("the entry [%s] of %s %s, but after Clean its value %s is not there: %s", it.id, it.file, verdict, h.Show(it.body), h.Show(st.Data))
		}
	}
	return nil
}

// bytesKept checks that files with the verdict hold the same bytes.
func (j judged) bytesKept(before, after h.Tree, verdict string) error {
	for _, it := range j.items {
		if it.entry >= 0 || it.verdict != verdict {
			continue
		}
		a, ok := after[it.file]
		if !ok {
			return fmt.Errorf("the file %s %s but Clean deleted it", it.file, verdict)
		}
		if a.Data != before[it.file].Data {
			return fmt.Errorf("the file %s %s but Clean changed it from %s to %s", it.file, verdict, h.Show(before[it.file].Data), h.Show(a.Data))
		}
	}
	return nil
}

func (sc stale) runIn(c *h.C, s Suite) (*Report, string, error) {
	work := c.Dir()
	if s.Run != nil && *s.Run != "" {
		s.Probes = sc.probesOf()
	}
	r, err := s.run(c, work)
	return r, work, err
}

func (sc stale) describe() string {
	run := "-"
	if sc.Suite.Run != nil {
		run = fmt.Sprintf("%q", *sc.Suite.Run)
	}
	srt := "-"
	if sc.Suite.Sort != nil {
		srt = fmt.Sprint(*sc.Suite.Sort)
	}
	return fmt.Sprintf("(env %v, -run %s, -count %d, sort %s)", sc.Suite.Env, run, sc.Suite.Count, srt)
}
