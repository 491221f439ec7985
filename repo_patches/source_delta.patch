From eaf8570dba08414f762b10bfc7f6d4acb94a103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 01/19] fix: MatchStandaloneJSON must not change the Config it
 is called on

---
 snaps/matchStandaloneJSON.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..054506e 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,13 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	// copy the config, the caller's must not be changed
+	cfg := *c
+	if cfg.extension == "" {
+		cfg.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&cfg, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From aa3cef5547934fad8d96f2eb418168c29e1964a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 02/19] fix: JSON matchers must not write in the caller's bytes

---
 match/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..245ad83 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -8,9 +8,9 @@ import (
 
 var (
 	errPathNotFound = errors.New("path does not exist")
-	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+	// ReplaceInPlace must stay off, it would write in the bytes the caller passed
+	setJSONOptions = &sjson.Options{
+		Optimistic: true,
 	}
 )
 
-- 
2.43.0


From 185b930e19286f6b30df5ed5eb34a1d8396ea2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 03/19] fix: report single line texts that differ only in
 invalid utf-8 bytes

---
 snaps/diff.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..6b3befa 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -154,7 +154,8 @@ func singlelineDiff(expected, received string) (string, int, int) {
 	diffs := dmp.DiffCleanupSemantic(
 		dmp.DiffMain(expected, received, false),
 	)
-	if len(diffs) == 1 && diffs[0].Type == diffEqual {
+	noDiffs := len(diffs) == 1 && diffs[0].Type == diffEqual
+	if noDiffs && expected == received {
 		return "", -1, -1
 	}
 
@@ -162,6 +163,15 @@ func singlelineDiff(expected, received string) (string, int, int) {
 	a := &bytes.Buffer{}
 	b := &bytes.Buffer{}
 
+	if noDiffs {
+		// the texts differ only in bytes that are not valid utf-8 and diffing works on runes,
+		// so there is nothing to highlight
+		diffs = []diffmatchpatch.Diff{
+			{Type: diffDelete, Text: expected},
+			{Type: diffInsert, Text: received},
+		}
+	}
+
 	colors.FprintBg(a, colors.RedBg, colors.Reddiff, "- ")
 	colors.FprintBg(b, colors.GreenBG, colors.Greendiff, "+ ")
 
-- 
2.43.0


From 93a80afa046dbb3ce01bf6d980ad9db5e3eebb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 04/19] fix: take the snapshot files lock when adding a
 snapshot

---
 snaps/snapshot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..6ef044a 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// a snapshot appended while updateSnapshot rewrites the same file would be lost
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From 21c3e6014263231c3b148aae4360e9ca4b70ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 05/19] fix: Clean must not drop entries of tests not named
 Test...

---
 snaps/clean.go | 10 ++++++----
 snaps/skip.go  | 10 +++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..0e95a1c 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,19 +117,21 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [<test-name> - number]
+//
+// names don't always start with Test, e.g. fuzz tests or other testing frameworks.
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ]
+	if b[0] != '[' || b[len(b)-1] != ']' {
 		return "", false
 	}
 
 	// needs to contain ' - '
-	separator := bytes.Index(b, []byte(" - "))
+	separator := bytes.LastIndex(b, []byte(" - "))
 	if separator == -1 {
 		return "", false
 	}
diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..1035495 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -68,7 +68,15 @@ Then every "child" test should be skipped
 */
 func testSkipped(testID, runOnly string) bool {
 	// testID form: Test.*/runName - 1
-	testName := strings.Split(testID, " - ")[0]
+	testName := testID
+	if i := strings.LastIndex(testID, " - "); i != -1 {
+		testName = testID[:i]
+	}
+
+	// benchmarks are not part of a test run
+	if strings.HasPrefix(testName, "Benchmark") {
+		return true
+	}
 
 	for _, name := range skippedTests.values {
 		if testName == name || strings.HasPrefix(testName, name+"/") {
-- 
2.43.0


From 7e68ed629bc4d838f957dc4da2765aab82c49630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 06/19] fix: Clean with Sort must not remove obsolete snapshots
 when not asked to

---
 snaps/clean.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 0e95a1c..8ae66fe 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -253,8 +253,11 @@ func examineSnaps(
 				obsoleteTests = append(obsoleteTests, testID)
 				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				// when only sorting the obsolete snapshots are kept
+				if update {
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From ccecc43a6357a574eb4a06a2a81b0d05a4c31ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 07/19] fix: Clean must keep the value of each entry when an id
 is duplicated

---
 snaps/clean.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 8ae66fe..26e824e 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -225,7 +225,7 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
+	tests := map[string][]string{}
 	data := bytes.Buffer{}
 	testIDs := []string{}
 
@@ -264,7 +264,7 @@ func examineSnaps(
 				line := s.Bytes()
 
 				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
+					tests[testID] = append(tests[testID], data.String())
 
 					data.Reset()
 					break
@@ -303,11 +303,14 @@ func examineSnaps(
 		}
 
 		for _, id := range testIDs {
-			test, ok := tests[id]
-			if !ok {
+			if len(tests[id]) == 0 {
 				continue
 			}
 
+			// the same id can be more than once in the file
+			test := tests[id][0]
+			tests[id] = tests[id][1:]
+
 			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
 		}
 		f.Close()
-- 
2.43.0


From 9252691221be25252b4f8a68680a8c812462a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 08/19] fix: look for a test id only outside the bodies of
 other snapshots

---
 snaps/snapshot.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 6ef044a..74ae6f5 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -222,6 +222,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 		l := s.Bytes()
 		if !bytes.Equal(l, tid) {
 			lineNumber++
+			// the body of another snapshot can have lines that look like the testID
+			if _, isTestID := getTestID(l); isTestID {
+				lineNumber += removeSnapshot(s)
+			}
 			continue
 		}
 		var snapshot strings.Builder
@@ -287,6 +291,10 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
 		if !bytes.Equal(b, tid) {
+			// the body of another snapshot can have lines that look like the testID
+			if _, isTestID := getTestID(b); isTestID {
+				copySnapshot(&updatedSnapFile, s)
+			}
 			continue
 		}
 
@@ -313,13 +321,29 @@ func overwriteFile(f *os.File, b []byte) error {
 	return err
 }
 
-func removeSnapshot(s *bufio.Scanner) {
+// removeSnapshot skips the rest of a snapshot and returns how many lines it skipped
+func removeSnapshot(s *bufio.Scanner) (lines int) {
 	for s.Scan() {
+		lines++
 		// skip until ---
 		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
 			break
 		}
 	}
+
+	return lines
+}
+
+// copySnapshot copies the rest of a snapshot
+func copySnapshot(w *bytes.Buffer, s *bufio.Scanner) {
+	for s.Scan() {
+		w.Write(s.Bytes())
+		w.WriteByte('\n')
+		// copy until ---
+		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
+			break
+		}
+	}
 }
 
 func upsertStandaloneSnapshot(snapshot, snapPath string) error {
-- 
2.43.0


From 7b22b92b392a7440012bfed7d1011b5b26fa15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 09/19] fix: standalone snapshots of tests, dirs or files with
 % in their name

---
 snaps/snapshot.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 74ae6f5..69591ee 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -384,10 +384,16 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
 	}
 
+	callerDir := filepath.Dir(callerFilename)
+	if isStandalone {
+		// standalone paths are used as a format
+		dir, callerDir = escapeFormat(dir), escapeFormat(callerDir)
+	}
+
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel := snapPath
 	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
+		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
 	}
 
 	return snapPath, snapPathRel
@@ -405,11 +411,15 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 	}
 
 	if isStandalone {
-		filename += "_%d"
+		return escapeFormat(filename) + "_%d" + snapsExt + escapeFormat(c.extension)
 	}
-	filename += snapsExt + c.extension
 
-	return filename
+	return filename + snapsExt + c.extension
+}
+
+// escapeFormat escapes s for being part of a fmt format
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
 }
 
 func unescapeEndChars(s string) string {
-- 
2.43.0


From fad5b8e4d15df249d6c32b268816982e9e49e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 10/19] fix: Clean must not assume that every run of a test
 made the same calls

---
 snaps/clean.go    | 10 +++++-----
 snaps/snapshot.go |  9 +++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 26e824e..eecbebf 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,21 +79,22 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
+	// the highest occurrences don't depend on how many times the go test suite ran
+	count := 1
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
+		standaloneTestsRegistry.highest,
 		count,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		usedFiles,
 		runOnly,
 		count,
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 69591ee..3fb3022 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// highest occurrence of each test, no matter how many times the test ran
+	highest map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.highest[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.highest[snapPath][testName] = max(s.highest[snapPath][testName], c)
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -166,6 +170,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		highest: make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -173,6 +178,8 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	// highest occurrence of each path, no matter how many times the test ran
+	highest map[string]int
 	sync.Mutex
 }
 
@@ -180,6 +187,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		highest: make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -190,6 +198,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.highest[snapPath] = max(s.highest[snapPath], c)
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 34e4708aa4fcc982cf015ee29e986afbfc9a25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 11/19] fix: match -run against test names the same way as go
 test

---
 snaps/skip.go | 87 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 85 insertions(+), 2 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 1035495..1a5d9ab 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -6,7 +6,9 @@ import (
 	"go/token"
 	"path"
 	"regexp"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/gkampitakis/go-snaps/internal/colors"
 )
@@ -84,8 +86,89 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !isTestSelected(testName, runOnly)
+}
+
+// isTestSelected checks if the -run flag selects the test, the same way as go test does.
+//
+// The elements of a test name, separated by slashes, are matched one by one with the
+// respective element of the pattern or of one of its alternatives.
+func isTestSelected(testName, runOnly string) bool {
+	names := strings.Split(testName, "/")
+
+	for _, patterns := range splitRunOnly(runOnly) {
+		matched := true
+		for i := 0; i < len(names) && i < len(patterns) && matched; i++ {
+			matched, _ = regexp.MatchString(patterns[i], names[i])
+		}
+
+		if matched {
+			return true
+		}
+	}
+
+	return false
+}
+
+// splitRunOnly splits the pattern in its alternatives and each of them in elements.
+// Separators inside brackets or parentheses are part of the regex.
+func splitRunOnly(runOnly string) [][]string {
+	alternatives := [][]string{{}}
+	start, brackets, parens := 0, 0, 0
+
+	addElement := func(end int) {
+		last := len(alternatives) - 1
+		alternatives[last] = append(alternatives[last], rewriteName(runOnly[start:end]))
+		start = end + 1
+	}
+
+	for i := 0; i < len(runOnly); i++ {
+		switch c := runOnly[i]; c {
+		case '\\':
+			i++
+		case '[':
+			brackets++
+		case ']':
+			brackets = max(brackets-1, 0)
+		case '(', ')':
+			if brackets == 0 && c == '(' {
+				parens++
+			} else if brackets == 0 {
+				parens--
+			}
+		case '/', '|':
+			if brackets != 0 || parens != 0 {
+				continue
+			}
+
+			addElement(i)
+			// the separator starts a new regex
+			if c == '|' {
+				alternatives = append(alternatives, []string{})
+			}
+		}
+	}
+	addElement(len(runOnly))
+
+	return alternatives
+}
+
+// rewriteName applies to a pattern the changes go test applies to the names of the subtests
+func rewriteName(s string) string {
+	var b strings.Builder
+	for _, r := range s {
+		switch {
+		case unicode.IsSpace(r):
+			b.WriteByte('_')
+		case !strconv.IsPrint(r):
+			quoted := strconv.QuoteRune(r)
+			b.WriteString(quoted[1 : len(quoted)-1])
+		default:
+			b.WriteRune(r)
+		}
+	}
+
+	return b.String()
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From 5ae4e65d24d3b2d531cf3397f0cf880a0f59e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 12/19] fix: Clean must not remove files of tests that were
 skipped or not selected

---
 snaps/clean.go |  4 +++-
 snaps/skip.go  | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index eecbebf..8763c41 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -197,7 +197,9 @@ func examineFiles(
 				continue
 			}
 
-			if isFileSkipped(dir, content.Name(), runOnly) {
+			if isFileSkipped(dir, content.Name(), runOnly) ||
+				isStandaloneSkipped(snapPath, runOnly, registeredStandaloneTests) ||
+				hasSkippedTests(snapPath, runOnly) {
 				continue
 			}
 
diff --git a/snaps/skip.go b/snaps/skip.go
index 1a5d9ab..8eaf3a6 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -1,10 +1,13 @@
 package snaps
 
 import (
+	"bytes"
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"strings"
@@ -16,6 +19,9 @@ import (
 var (
 	skippedTests = newSyncSlice()
 	skippedMsg   = colors.Sprint(colors.Yellow, skipSymbol+"Snapshot skipped")
+
+	// <name>_<occurrence>.snap<ext>
+	standaloneRegexp = regexp.MustCompile(`(?s)^(.*)_[0-9]+(\.snap.*)$`)
 )
 
 // Wrapper of testing.Skip
@@ -200,3 +206,51 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 
 	return true
 }
+
+// hasSkippedTests checks if any of the snapshots inside a file that was not used belongs
+// to a test that was skipped
+func hasSkippedTests(snapPath, runOnly string) bool {
+	f, err := os.ReadFile(snapPath)
+	if err != nil {
+		return false
+	}
+
+	s := snapshotScanner(bytes.NewReader(f))
+	for s.Scan() {
+		testID, match := getTestID(s.Bytes())
+		if !match {
+			continue
+		}
+		if testSkipped(testID, runOnly) {
+			return true
+		}
+
+		removeSnapshot(s)
+	}
+
+	return false
+}
+
+// isStandaloneSkipped checks by its name if a file that was not used can be a standalone snapshot
+// of a test that was skipped
+func isStandaloneSkipped(snapPath, runOnly string, registeredStandaloneTests set) bool {
+	parts := standaloneRegexp.FindStringSubmatch(filepath.Base(snapPath))
+	if parts == nil {
+		return false
+	}
+
+	name := parts[1]
+	// the test that owns the snapshot did run
+	isRegistered := registeredStandaloneTests.Has(
+		filepath.Join(filepath.Dir(snapPath), name+"_1"+parts[2]),
+	)
+
+	for _, skipped := range skippedTests.values {
+		skipped = strings.ReplaceAll(skipped, "/", "_")
+		if name == skipped || strings.HasPrefix(name, skipped+"_") && !isRegistered {
+			return true
+		}
+	}
+
+	return runOnly != "" && !isRegistered
+}
-- 
2.43.0


From e14f68f74036a28ae348ef80cdd1222df588f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 13/19] fix: snapshot location must not depend on the working
 directory with -trimpath

---
 snaps/snapshot.go | 16 +++++++++-------
 snaps/utils.go    |  2 ++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 3fb3022..bc5470b 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -388,22 +388,24 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 
+	callerDir := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		// there is no path in the caller, go test starts in the directory of the tests
+		callerDir = startDir
+	}
+
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 
-	callerDir := filepath.Dir(callerFilename)
 	if isStandalone {
 		// standalone paths are used as a format
 		dir, callerDir = escapeFormat(dir), escapeFormat(callerDir)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..0e3ad7c 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,8 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// tests can change the working directory before or between taking snapshots
+	startDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From 3c303fd04526af38834e0b0a3a0851ccfd12bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 14/19] fix: tell apart a line with the end chars from a line
 with their escape

---
 snaps/snapshot.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index bc5470b..bfba3b5 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -438,6 +438,8 @@ func unescapeEndChars(s string) string {
 	for idx, s := range ss {
 		if s == "/-/-/-/" {
 			ss[idx] = endSequence
+		} else if isEscapedEndChars(s) {
+			ss[idx] = s[1:]
 		}
 	}
 	return strings.Join(ss, "\n")
@@ -448,7 +450,15 @@ func escapeEndChars(s string) string {
 	for idx, s := range ss {
 		if s == endSequence {
 			ss[idx] = "/-/-/-/"
+		} else if isEscapedEndChars(s) {
+			// one more slash tells it apart from the end chars
+			ss[idx] = "/" + s
 		}
 	}
 	return strings.Join(ss, "\n")
 }
+
+// isEscapedEndChars checks if a line is the escaped end chars with any number of slashes in front
+func isEscapedEndChars(s string) bool {
+	return strings.HasSuffix(s, "/-/-/-/") && strings.TrimLeft(s, "/") == "-/-/-/"
+}
-- 
2.43.0


From 6d0a910767bd8e02f194573cb9524c3f45c23a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 15/19] fix: snapshots taken in a t.Cleanup must not restart
 the numbering of the test

Every Match call registers a cleanup that resets the test. Cleanups run last in first out,
so a cleanup of the test registered between two Match calls ran after the reset of the
second one and its snapshots addressed the slots 1, 2.. again.
---
 snaps/matchJSON.go               |  2 +-
 snaps/matchSnapshot.go           |  2 +-
 snaps/matchStandaloneJSON.go     |  2 +-
 snaps/matchStandaloneSnapshot.go |  2 +-
 snaps/matchYAML.go               |  2 +-
 snaps/snapshot.go                | 31 +++++++++++++++++++++++++++++++
 6 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/snaps/matchJSON.go b/snaps/matchJSON.go
index 3a40860..3b74a3c 100644
--- a/snaps/matchJSON.go
+++ b/snaps/matchJSON.go
@@ -66,7 +66,7 @@ func matchJSON(c *Config, t testingT, input any, matchers ...match.JSONMatcher)
 	snapPath, snapPathRel := snapshotPath(c, t.Name(), false)
 	testID := testsRegistry.getTestID(snapPath, t.Name())
 	t.Cleanup(func() {
-		testsRegistry.reset(snapPath, t.Name())
+		testsRegistry.release(snapPath, t.Name())
 	})
 
 	j, err := validateJSON(input)
diff --git a/snaps/matchSnapshot.go b/snaps/matchSnapshot.go
index 6305333..4dc8754 100644
--- a/snaps/matchSnapshot.go
+++ b/snaps/matchSnapshot.go
@@ -57,7 +57,7 @@ func matchSnapshot(c *Config, t testingT, values ...any) {
 	snapPath, snapPathRel := snapshotPath(c, t.Name(), false)
 	testID := testsRegistry.getTestID(snapPath, t.Name())
 	t.Cleanup(func() {
-		testsRegistry.reset(snapPath, t.Name())
+		testsRegistry.release(snapPath, t.Name())
 	})
 
 	snapshot := takeSnapshot(values)
diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 054506e..222f926 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -38,7 +38,7 @@ func matchStandaloneJSON(c *Config, t testingT, input any, matchers ...match.JSO
 	genericPathSnap, genericSnapPathRel := snapshotPath(c, t.Name(), true)
 	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
 	t.Cleanup(func() {
-		standaloneTestsRegistry.reset(genericPathSnap)
+		standaloneTestsRegistry.release(genericPathSnap)
 	})
 
 	j, err := validateJSON(input)
diff --git a/snaps/matchStandaloneSnapshot.go b/snaps/matchStandaloneSnapshot.go
index e6012ca..e2b4d48 100644
--- a/snaps/matchStandaloneSnapshot.go
+++ b/snaps/matchStandaloneSnapshot.go
@@ -44,7 +44,7 @@ func matchStandaloneSnapshot(c *Config, t testingT, input any) {
 	genericPathSnap, genericSnapPathRel := snapshotPath(c, t.Name(), true)
 	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
 	t.Cleanup(func() {
-		standaloneTestsRegistry.reset(genericPathSnap)
+		standaloneTestsRegistry.release(genericPathSnap)
 	})
 
 	snapshot := pretty.Sprint(input)
diff --git a/snaps/matchYAML.go b/snaps/matchYAML.go
index d5cf4c9..3f35438 100644
--- a/snaps/matchYAML.go
+++ b/snaps/matchYAML.go
@@ -61,7 +61,7 @@ func matchYAML(c *Config, t testingT, input any, matchers ...match.YAMLMatcher)
 	snapPath, snapPathRel := snapshotPath(c, t.Name(), false)
 	testID := testsRegistry.getTestID(snapPath, t.Name())
 	t.Cleanup(func() {
-		testsRegistry.reset(snapPath, t.Name())
+		testsRegistry.release(snapPath, t.Name())
 	})
 
 	y, err := validateYAML(input)
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index bfba3b5..8ee0a6d 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -136,6 +136,8 @@ type syncRegistry struct {
 	cleanup map[string]map[string]int
 	// highest occurrence of each test, no matter how many times the test ran
 	highest map[string]map[string]int
+	// calls of each test that have not been released yet
+	pending map[string]map[string]int
 	sync.Mutex
 }
 
@@ -148,10 +150,12 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
 		s.highest[snapPath] = make(map[string]int)
+		s.pending[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
+	s.pending[snapPath][testName]++
 	c := s.running[snapPath][testName]
 	s.highest[snapPath][testName] = max(s.highest[snapPath][testName], c)
 	s.Unlock()
@@ -166,11 +170,23 @@ func (s *syncRegistry) reset(snapPath, testName string) {
 	s.Unlock()
 }
 
+// release is called when a test ends, once for every call it made, and resets the test with the
+// last one. A cleanup of the test itself, that runs in between, can still take snapshots.
+func (s *syncRegistry) release(snapPath, testName string) {
+	s.Lock()
+	s.pending[snapPath][testName]--
+	if s.pending[snapPath][testName] == 0 {
+		s.running[snapPath][testName] = 0
+	}
+	s.Unlock()
+}
+
 func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
 		highest: make(map[string]map[string]int),
+		pending: make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -180,6 +196,8 @@ type syncStandaloneRegistry struct {
 	cleanup map[string]int
 	// highest occurrence of each path, no matter how many times the test ran
 	highest map[string]int
+	// calls of each path that have not been released yet
+	pending map[string]int
 	sync.Mutex
 }
 
@@ -188,6 +206,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
 		highest: make(map[string]int),
+		pending: make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -197,6 +216,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
+	s.pending[snapPath]++
 	c := s.running[snapPath]
 	s.highest[snapPath] = max(s.highest[snapPath], c)
 	s.Unlock()
@@ -210,6 +230,17 @@ func (s *syncStandaloneRegistry) reset(snapPath string) {
 	s.Unlock()
 }
 
+// release is called when a test ends, once for every call it made, and resets the path with the
+// last one.
+func (s *syncStandaloneRegistry) release(snapPath string) {
+	s.Lock()
+	s.pending[snapPath]--
+	if s.pending[snapPath] == 0 {
+		s.running[snapPath] = 0
+	}
+	s.Unlock()
+}
+
 // getPrevSnapshot scans file searching for a snapshot matching the given testID and returns
 // the snapshot with the line where is located inside the file.
 //
-- 
2.43.0


From 8f4a3d78c6cc6a2f7535e96614ff47e4215ebac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 16/19] fix: JSON matchers must replace exactly the value gjson
 found or report an error

---
 match/any.go    |  6 ++---
 match/custom.go |  6 ++---
 match/type.go   | 11 ++-------
 match/utils.go  | 66 +++++++++++++++++++++++++++++++++++++++++++++----
 4 files changed, 67 insertions(+), 22 deletions(-)

diff --git a/match/any.go b/match/any.go
index 8947ed6..3def753 100644
--- a/match/any.go
+++ b/match/any.go
@@ -5,8 +5,6 @@ import (
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
-	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type anyMatcher struct {
@@ -95,7 +93,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 
 	json := b
 	for _, path := range a.paths {
-		r := gjson.GetBytes(json, path)
+		r := getJSON(json, path)
 		if !r.Exists() {
 			if a.errOnMissingPath {
 				errs = append(errs, a.matcherError(errPathNotFound, path))
@@ -104,7 +102,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(json, path, a.placeholder, setJSONOptions)
+		j, err := setJSON(json, path, r, a.placeholder)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, path))
 
diff --git a/match/custom.go b/match/custom.go
index bef2a6c..e3cac8d 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -5,8 +5,6 @@ import (
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
-	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type customMatcher struct {
@@ -109,7 +107,7 @@ func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Custom matcher
 func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
-	r := gjson.GetBytes(b, c.path)
+	r := getJSON(b, c.path)
 	if !r.Exists() {
 		if c.errOnMissingPath {
 			return nil, c.matcherError(errPathNotFound)
@@ -123,7 +121,7 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
+	b, err = setJSON(b, c.path, r, value)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/type.go b/match/type.go
index 5f532e7..b723ca9 100644
--- a/match/type.go
+++ b/match/type.go
@@ -6,8 +6,6 @@ import (
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
-	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type typeMatcher[ExpectedType any] struct {
@@ -103,7 +101,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 	json := b
 
 	for _, path := range t.paths {
-		r := gjson.GetBytes(json, path)
+		r := getJSON(json, path)
 		if !r.Exists() {
 			if t.errOnMissingPath {
 				errs = append(errs, t.matcherError(errPathNotFound, path))
@@ -118,12 +116,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(
-			json,
-			path,
-			typePlaceholder(r.Value()),
-			setJSONOptions,
-		)
+		j, err := setJSON(json, path, r, typePlaceholder(r.Value()))
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
diff --git a/match/utils.go b/match/utils.go
index 245ad83..1a386b8 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -1,17 +1,18 @@
 package match
 
 import (
+	"bytes"
 	"errors"
+	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 )
 
 var (
-	errPathNotFound = errors.New("path does not exist")
-	// ReplaceInPlace must stay off, it would write in the bytes the caller passed
-	setJSONOptions = &sjson.Options{
-		Optimistic: true,
-	}
+	errPathNotFound    = errors.New("path does not exist")
+	errPathNotSettable = errors.New("value at this path can't be replaced")
+	errInvalidValue    = errors.New("placeholder is not a valid json value")
 )
 
 type JSONMatcher interface {
@@ -28,3 +29,58 @@ type MatcherError struct {
 	Matcher string
 	Path    string
 }
+
+// getJSON returns what gjson finds in json for path.
+func getJSON(json []byte, path string) gjson.Result {
+	r := gjson.GetBytes(json, path)
+	if r.Index > 0 && gjson.ParseBytes(json).Type != gjson.JSON {
+		// gjson found something that looks like json inside of a string
+		return gjson.Result{}
+	}
+
+	return r
+}
+
+// setJSON returns a copy of json having value at the places where gjson found r for path.
+//
+// sjson is only used for encoding the value, as it understands some of the paths gjson supports
+// differently and then changes something else or nothing.
+func setJSON(json []byte, path string, r gjson.Result, value any) ([]byte, error) {
+	array, err := sjson.SetBytes([]byte("[0]"), "0", value)
+	if err != nil {
+		return nil, err
+	}
+	raw := array[1 : len(array)-1]
+	if !gjson.ValidBytes(raw) {
+		return nil, errInvalidValue
+	}
+
+	indexes, values := []int{r.Index}, []gjson.Result{r}
+	switch {
+	case len(r.Indexes) > 0:
+		indexes, values = r.Indexes, r.Array()
+	case r.Index > 0:
+	case r.Raw == string(bytes.TrimSpace(json)):
+		return raw, nil
+	case r.Raw == "[]" && strings.Contains(path, "#"):
+		// no array element has the path
+		return json, nil
+	}
+
+	if len(indexes) != len(values) {
+		return nil, errPathNotSettable
+	}
+
+	out, end := make([]byte, 0, len(json)+len(raw)), 0
+	for i, index := range indexes {
+		if index <= end || !bytes.HasPrefix(json[index:], []byte(values[i].Raw)) {
+			return nil, errPathNotSettable
+		}
+
+		out = append(out, json[end:index]...)
+		out = append(out, raw...)
+		end = index + len(values[i].Raw)
+	}
+
+	return append(out, json[end:]...), nil
+}
-- 
2.43.0


From ee43af2623940d62960dc5b952560f794f3d57a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:30 +0000
Subject: [PATCH 17/19] fix: YAML matchers must replace exactly the values at a
 path or report an error

Matchers panicked on documents without a body, ignored the path $ and what follows '..key',
treated a path that doesn't fit to the structure as an error even for missing paths that are
allowed, and wrote invalid or different yaml for some placeholders and places.
---
 match/any.go                |   7 +-
 match/custom.go             |   9 +-
 match/internal/yaml/yaml.go | 367 ++++++++++++++++++++++++++++++++++--
 match/type.go               |   9 +-
 4 files changed, 361 insertions(+), 31 deletions(-)

diff --git a/match/any.go b/match/any.go
index 3def753..6b011b1 100644
--- a/match/any.go
+++ b/match/any.go
@@ -57,6 +57,7 @@ func (a *anyMatcher) ErrOnMissingPath(e bool) *anyMatcher {
 func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
+	newLine := bytes.HasSuffix(b, []byte("\n"))
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
 		return b, []MatcherError{a.matcherError(err, "*")}
@@ -64,7 +65,7 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 
 	for _, p := range a.paths {
 		path, _, exists, err := yaml.Get(f, p)
-		if err != nil {
+		if err != nil && (a.errOnMissingPath || !yaml.IsInvalidQuery(err)) {
 			errs = append(errs, a.matcherError(err, p))
 
 			continue
@@ -77,14 +78,14 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, a.placeholder); err != nil {
+		if err := yaml.Update(f, path, a.placeholder, newLine); err != nil {
 			errs = append(errs, a.matcherError(err, p))
 
 			continue
 		}
 	}
 
-	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
+	return yaml.MarshalFile(f, newLine), errs
 }
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Any matchers
diff --git a/match/custom.go b/match/custom.go
index e3cac8d..943a6ed 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -71,13 +71,14 @@ func (c *customMatcher) ErrOnMissingPath(e bool) *customMatcher {
 
 // YAML is intended to be called internally on snaps.MatchYAML for applying Custom matcher
 func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
+	newLine := bytes.HasSuffix(b, []byte("\n"))
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
 
 	path, node, exists, err := yaml.Get(f, c.path)
-	if err != nil {
+	if err != nil && (c.errOnMissingPath || !yaml.IsInvalidQuery(err)) {
 		return nil, c.matcherError(err)
 	}
 	if !exists {
@@ -88,7 +89,7 @@ func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, nil
 	}
 
-	value, err := yaml.GetValue(node)
+	value, err := path.GetValue(node)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
@@ -98,11 +99,11 @@ func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	if err := yaml.Update(f, path, result); err != nil {
+	if err := yaml.Update(f, path, result, newLine); err != nil {
 		return nil, c.matcherError(err)
 	}
 
-	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), nil
+	return yaml.MarshalFile(f, newLine), nil
 }
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Custom matcher
diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..6996056 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -1,23 +1,40 @@
 package yaml
 
 import (
-	"bytes"
 	"errors"
+	"fmt"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/parser"
 )
 
-// GetValue returns the value of the node.
-func GetValue(node ast.Node) (interface{}, error) {
-	data, err := node.MarshalYAML()
-	if err != nil {
+var (
+	errNotReplaceable = errors.New("value at this path can't be replaced")
+	errRecursivePath  = errors.New("only a key name is supported after '..'")
+)
+
+// Path represents a valid yaml path.
+type Path struct {
+	path *yaml.Path
+	// recursive is the key of a path ending with a recursive descent e.g. $.user..name,
+	// path is then what leads there.
+	recursive string
+	// doc is the first document having the path.
+	doc *ast.DocumentNode
+}
+
+// GetValue returns the value of the node at the path.
+func (p *Path) GetValue(node ast.Node) (interface{}, error) {
+	var doc, value interface{}
+
+	// the node can have aliases for anchors that are somewhere else in the document
+	d := yaml.NewDecoder(strings.NewReader(""))
+	if err := d.DecodeFromNode(p.doc.Body, &doc); err != nil {
 		return nil, err
 	}
-
-	var value interface{}
-	if err := yaml.Unmarshal(data, &value); err != nil {
+	if err := d.DecodeFromNode(node, &value); err != nil {
 		return nil, err
 	}
 
@@ -25,33 +42,81 @@ func GetValue(node ast.Node) (interface{}, error) {
 }
 
 // Get takes an ast.File and a string representing a path
-// and returns the yaml.Path, the node and a bool indicating if the node exists.
-func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
-	path, err := yaml.PathString(p)
+// and returns the Path, the node and a bool indicating if the node exists.
+//
+// A path that doesn't fit to the structure of the documents doesn't exist and an error tells why.
+func Get(f *ast.File, p string) (*Path, ast.Node, bool, error) {
+	path, err := newPath(p)
 	if err != nil {
 		return nil, nil, false, err
 	}
 
-	node, err := path.FilterFile(f)
-	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
-			return path, nil, false, nil
+	var invalidQuery error
+	for _, doc := range f.Docs {
+		node, err := path.filter(doc)
+		if err != nil {
+			if !IsInvalidQuery(err) {
+				return path, nil, false, err
+			}
+			if invalidQuery == nil {
+				invalidQuery = err
+			}
+
+			continue
+		}
+		if node != nil {
+			path.doc = doc
+			return path, node, true, nil
 		}
+	}
 
-		return path, nil, false, err
+	for _, doc := range f.Docs {
+		if path.isInherited(doc) {
+			return path, nil, false, errNotReplaceable
+		}
 	}
 
-	return path, node, true, nil
+	return path, nil, false, invalidQuery
+}
+
+// IsInvalidQuery tells if the error is about a path not fitting to the structure of a document.
+func IsInvalidQuery(err error) bool {
+	return errors.Is(err, yaml.ErrInvalidQuery)
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
-func Update(f *ast.File, path *yaml.Path, value interface{}) error {
+//
+// addNewLine is what the file is going to be marshaled with.
+// It returns an error, having the file unchanged, when there is no way to represent the value there.
+func Update(f *ast.File, path *Path, value interface{}, addNewLine bool) error {
 	b, err := yaml.Marshal(value)
 	if err != nil {
 		return err
 	}
+	jsonB, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
+		return err
+	}
+
+	encodings := []string{string(b), string(jsonB)}
+	if decode(string(b)) != decode(string(jsonB)) {
+		encodings = encodings[1:]
+	}
+
+	src, original := MarshalFile(f, addNewLine), documentValues(f)
+	for _, encoding := range encodings {
+		if path.replace(f, encoding) == nil && isRepresentable(f, original, addNewLine) {
+			return nil
+		}
+
+		prev, err := parser.ParseBytes(src, parser.ParseComments)
+		if err != nil {
+			return err
+		}
+		*f = *prev
+	}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+	return errNotReplaceable
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
@@ -59,7 +124,17 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
-		docs = append(docs, doc.String())
+		if doc.Body != nil {
+			docs = append(docs, doc.String())
+			continue
+		}
+
+		if doc.Start != nil {
+			docs = append(docs, doc.Start.Value)
+		}
+		if doc.End != nil {
+			docs = append(docs, doc.End.Value)
+		}
 	}
 
 	if addNewLine {
@@ -68,3 +143,255 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 
 	return []byte(strings.Join(docs, "\n"))
 }
+
+func newPath(p string) (*Path, error) {
+	path, err := yaml.PathString(p)
+	if err != nil {
+		return nil, err
+	}
+
+	for i := 0; i < len(p); i++ {
+		switch {
+		case strings.HasPrefix(p[i:], ".."):
+			prefix, key := p[:i], p[i+2:]
+			if strings.ContainsAny(key, ".[") {
+				return nil, errRecursivePath
+			}
+
+			path, err = yaml.PathString(prefix)
+			return &Path{path: path, recursive: key}, err
+		case strings.HasPrefix(p[i:], ".'"):
+			for i += 2; i < len(p) && p[i] != '\''; i++ {
+				if p[i] == '\\' {
+					i++
+				}
+			}
+		}
+	}
+
+	return &Path{path: path}, nil
+}
+
+// filter returns the node of the document at the path, or nil.
+func (p *Path) filter(doc *ast.DocumentNode) (ast.Node, error) {
+	if doc.Body == nil || doc.Body.Type() == ast.DirectiveType {
+		return nil, nil
+	}
+
+	node, err := p.path.FilterNode(doc.Body)
+	if err != nil || node == nil {
+		return nil, err
+	}
+	node = dropMissing(node)
+
+	if p.recursive == "" {
+		return node, nil
+	}
+
+	found := &ast.SequenceNode{BaseNode: &ast.BaseNode{}, Start: node.GetToken()}
+	walk(node, p.recursive, func(value *ast.MappingValueNode) error {
+		found.Values = append(found.Values, value.Value)
+		return nil
+	})
+	if len(found.Values) == 0 {
+		return nil, nil
+	}
+
+	return found, nil
+}
+
+// isInherited tells if the path leads through aliases, anchors or tags of the document.
+func (p *Path) isInherited(doc *ast.DocumentNode) bool {
+	var value interface{}
+	if doc.Body == nil || yaml.NodeToValue(doc.Body, &value, yaml.UseOrderedMap()) != nil {
+		return false
+	}
+	body, err := yaml.ValueToNode(value)
+	if err != nil {
+		return false
+	}
+	node, err := p.filter(&ast.DocumentNode{BaseNode: &ast.BaseNode{}, Body: body})
+
+	return err == nil && node != nil
+}
+
+// replace puts the encoded value at the path in all documents having it.
+func (p *Path) replace(f *ast.File, encoding string) error {
+	for _, doc := range f.Docs {
+		node, err := p.filter(doc)
+		if err != nil || node == nil {
+			continue
+		}
+		anchors := names(node, ast.AnchorType)
+
+		switch {
+		case p.recursive != "":
+			base, _ := p.path.FilterNode(doc.Body)
+			err = walk(dropMissing(base), p.recursive, func(value *ast.MappingValueNode) error {
+				body, err := parseValue(encoding)
+				if err != nil {
+					return err
+				}
+
+				if err := value.Replace(body); err != nil {
+					return err
+				}
+
+				return checkColumns(body)
+			})
+		case p.path.String() == "$":
+			doc.Body, err = parseValue(encoding)
+		default:
+			var body ast.Node
+			if body, err = parseValue(encoding); err == nil {
+				err = p.path.ReplaceWithNode(&ast.File{Docs: []*ast.DocumentNode{doc}}, body)
+			}
+			if err == nil {
+				err = checkColumns(body)
+			}
+		}
+		if err != nil {
+			return err
+		}
+
+		for name := range names(doc.Body, ast.AliasType) {
+			if anchors[name] {
+				// another value depends on the replaced one
+				return errNotReplaceable
+			}
+		}
+	}
+
+	return nil
+}
+
+// checkColumns returns an error if a replacement has moved keys out of the document.
+func checkColumns(node ast.Node) error {
+	for _, n := range ast.Filter(ast.MappingValueType, node) {
+		if n.(*ast.MappingValueNode).Key.GetToken().Position.Column < 1 {
+			return errNotReplaceable
+		}
+	}
+
+	return nil
+}
+
+// names returns the names of all the anchors or aliases in the node.
+func names(node ast.Node, nodeType ast.NodeType) map[string]bool {
+	names := map[string]bool{}
+	for _, n := range ast.Filter(nodeType, node) {
+		switch n := n.(type) {
+		case *ast.AnchorNode:
+			names[n.Name.GetToken().Value] = true
+		case *ast.AliasNode:
+			names[n.Value.GetToken().Value] = true
+		}
+	}
+
+	return names
+}
+
+// walk calls fn for all the outermost values with the key.
+func walk(node ast.Node, key string, fn func(*ast.MappingValueNode) error) error {
+	var children []ast.Node
+
+	switch n := node.(type) {
+	case *ast.MappingNode:
+		for _, value := range n.Values {
+			children = append(children, value)
+		}
+	case *ast.MappingValueNode:
+		if n.Key.GetToken().Value == key {
+			return fn(n)
+		}
+		children = append(children, n.Value)
+	case *ast.SequenceNode:
+		children = n.Values
+	}
+
+	for _, child := range children {
+		if err := walk(child, key, fn); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// dropMissing removes the elements a path with [*] didn't find anything in.
+func dropMissing(node ast.Node) ast.Node {
+	if sequence, ok := node.(*ast.SequenceNode); ok {
+		var found []ast.Node
+		for _, value := range sequence.Values {
+			if value != nil {
+				found = append(found, dropMissing(value))
+			}
+		}
+		if len(found) != len(sequence.Values) {
+			sequence.Values = found
+		}
+	}
+
+	return node
+}
+
+func parseValue(encoding string) (ast.Node, error) {
+	f, err := parser.ParseBytes([]byte(encoding), 0)
+	if err != nil {
+		return nil, err
+	}
+	if len(f.Docs) != 1 || f.Docs[0].Body == nil {
+		return nil, errNotReplaceable
+	}
+
+	return f.Docs[0].Body, nil
+}
+
+// isRepresentable tells if the text of the file has the same values as the file.
+func isRepresentable(f *ast.File, original []string, addNewLine bool) bool {
+	written, err := parser.ParseBytes(MarshalFile(f, addNewLine), 0)
+	if err != nil {
+		return false
+	}
+
+	values, writtenValues := documentValues(f), documentValues(written)
+	if len(values) != len(writtenValues) {
+		return false
+	}
+
+	for i, value := range values {
+		if value != writtenValues[i] || value == "" && original[i] != "" {
+			return false
+		}
+	}
+
+	return true
+}
+
+// documentValues returns a representation for the value of each document in the file, "" for the
+// ones that can't be decoded.
+func documentValues(f *ast.File) []string {
+	values := make([]string, 0, len(f.Docs))
+
+	for _, doc := range f.Docs {
+		var value interface{}
+		if doc.Body == nil {
+			values = append(values, "nothing")
+		} else if err := yaml.NodeToValue(doc.Body, &value, yaml.UseOrderedMap()); err != nil {
+			values = append(values, "")
+		} else {
+			values = append(values, fmt.Sprintf("%#v", value))
+		}
+	}
+
+	return values
+}
+
+func decode(s string) string {
+	var value interface{}
+	if err := yaml.UnmarshalWithOptions([]byte(s), &value, yaml.UseOrderedMap()); err != nil {
+		return ""
+	}
+
+	return fmt.Sprintf("%#v", value)
+}
diff --git a/match/type.go b/match/type.go
index b723ca9..8796adb 100644
--- a/match/type.go
+++ b/match/type.go
@@ -52,6 +52,7 @@ func (t *typeMatcher[T]) ErrOnMissingPath(e bool) *typeMatcher[T] {
 func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
+	newLine := bytes.HasSuffix(b, []byte("\n"))
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
 		return b, []MatcherError{t.matcherError(err, "*")}
@@ -59,7 +60,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 
 	for _, p := range t.paths {
 		path, node, exists, err := yaml.Get(f, p)
-		if err != nil {
+		if err != nil && (t.errOnMissingPath || !yaml.IsInvalidQuery(err)) {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
@@ -72,7 +73,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		value, err := yaml.GetValue(node)
+		value, err := path.GetValue(node)
 		if err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
@@ -85,14 +86,14 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value)); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder(value), newLine); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
 		}
 	}
 
-	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
+	return yaml.MarshalFile(f, newLine), errs
 }
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Type matchers
-- 
2.43.0


From 42e800acf8b0514aeabeae677df560aa181c3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 18/19] fix: the layout of a YAML placeholder must not depend
 on the value it masks

---
 match/internal/yaml/yaml.go | 143 ++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 49 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6996056..0d9827d 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -21,6 +21,8 @@ type Path struct {
 	// recursive is the key of a path ending with a recursive descent e.g. $.user..name,
 	// path is then what leads there.
 	recursive string
+	// depth is the number of sequences the values at the path are in.
+	depth int
 	// doc is the first document having the path.
 	doc *ast.DocumentNode
 }
@@ -145,11 +147,12 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 }
 
 func newPath(p string) (*Path, error) {
-	path, err := yaml.PathString(p)
+	yamlPath, err := yaml.PathString(p)
 	if err != nil {
 		return nil, err
 	}
 
+	path := &Path{path: yamlPath}
 	for i := 0; i < len(p); i++ {
 		switch {
 		case strings.HasPrefix(p[i:], ".."):
@@ -158,8 +161,12 @@ func newPath(p string) (*Path, error) {
 				return nil, errRecursivePath
 			}
 
-			path, err = yaml.PathString(prefix)
-			return &Path{path: path, recursive: key}, err
+			path.path, err = yaml.PathString(prefix)
+			path.recursive = key
+			path.depth = 1
+			return path, err
+		case strings.HasPrefix(p[i:], "[*]"):
+			path.depth++
 		case strings.HasPrefix(p[i:], ".'"):
 			for i += 2; i < len(p) && p[i] != '\''; i++ {
 				if p[i] == '\\' {
@@ -169,7 +176,7 @@ func newPath(p string) (*Path, error) {
 		}
 	}
 
-	return &Path{path: path}, nil
+	return path, nil
 }
 
 // filter returns the node of the document at the path, or nil.
@@ -188,16 +195,16 @@ func (p *Path) filter(doc *ast.DocumentNode) (ast.Node, error) {
 		return node, nil
 	}
 
-	found := &ast.SequenceNode{BaseNode: &ast.BaseNode{}, Start: node.GetToken()}
-	walk(node, p.recursive, func(value *ast.MappingValueNode) error {
-		found.Values = append(found.Values, value.Value)
-		return nil
-	})
-	if len(found.Values) == 0 {
+	values := findKey(node, p.recursive)
+	if len(values) == 0 {
 		return nil, nil
 	}
 
-	return found, nil
+	return &ast.SequenceNode{
+		BaseNode: &ast.BaseNode{},
+		Start:    node.GetToken(),
+		Values:   values,
+	}, nil
 }
 
 // isInherited tells if the path leads through aliases, anchors or tags of the document.
@@ -222,33 +229,15 @@ func (p *Path) replace(f *ast.File, encoding string) error {
 		if err != nil || node == nil {
 			continue
 		}
-		anchors := names(node, ast.AnchorType)
-
-		switch {
-		case p.recursive != "":
-			base, _ := p.path.FilterNode(doc.Body)
-			err = walk(dropMissing(base), p.recursive, func(value *ast.MappingValueNode) error {
-				body, err := parseValue(encoding)
-				if err != nil {
-					return err
-				}
 
-				if err := value.Replace(body); err != nil {
-					return err
-				}
+		anchors := names(node, ast.AnchorType)
+		nodes := map[ast.Node]bool{}
+		collect(node, p.depth, nodes)
 
-				return checkColumns(body)
-			})
-		case p.path.String() == "$":
+		if nodes[doc.Body] {
 			doc.Body, err = parseValue(encoding)
-		default:
-			var body ast.Node
-			if body, err = parseValue(encoding); err == nil {
-				err = p.path.ReplaceWithNode(&ast.File{Docs: []*ast.DocumentNode{doc}}, body)
-			}
-			if err == nil {
-				err = checkColumns(body)
-			}
+		} else {
+			err = replaceNodes(doc.Body, nodes, encoding, false)
 		}
 		if err != nil {
 			return err
@@ -265,15 +254,73 @@ func (p *Path) replace(f *ast.File, encoding string) error {
 	return nil
 }
 
-// checkColumns returns an error if a replacement has moved keys out of the document.
-func checkColumns(node ast.Node) error {
-	for _, n := range ast.Filter(ast.MappingValueType, node) {
-		if n.(*ast.MappingValueNode).Key.GetToken().Position.Column < 1 {
-			return errNotReplaceable
+// collect gathers the nodes being in as many sequences as the depth.
+func collect(node ast.Node, depth int, nodes map[ast.Node]bool) {
+	if depth == 0 {
+		nodes[node] = true
+		return
+	}
+
+	if sequence, ok := node.(*ast.SequenceNode); ok {
+		for _, value := range sequence.Values {
+			collect(value, depth-1, nodes)
 		}
 	}
+}
 
-	return nil
+// replaceNodes replaces the nodes wherever they are inside of the parent.
+func replaceNodes(parent ast.Node, nodes map[ast.Node]bool, encoding string, isFlow bool) error {
+	replace := func(node ast.Node, column int) (ast.Node, error) {
+		if !nodes[node] {
+			return node, replaceNodes(node, nodes, encoding, isFlow)
+		}
+
+		value, err := parseValue(encoding)
+		if err != nil {
+			return nil, err
+		}
+		if isFlow && isBlock(value) {
+			return nil, errNotReplaceable
+		}
+		// the indentation can't depend on the value that was there
+		value.AddColumn(column + 1)
+
+		return value, nil
+	}
+
+	var err error
+	switch n := parent.(type) {
+	case *ast.MappingNode:
+		isFlow = isFlow || n.IsFlowStyle
+		for _, value := range n.Values {
+			if err := replaceNodes(value, nodes, encoding, isFlow); err != nil {
+				return err
+			}
+		}
+	case *ast.MappingValueNode:
+		n.Value, err = replace(n.Value, n.Key.GetToken().Position.Column)
+	case *ast.SequenceNode:
+		isFlow = isFlow || n.IsFlowStyle
+		for i, value := range n.Values {
+			if n.Values[i], err = replace(value, n.Start.Position.Column); err != nil {
+				return err
+			}
+		}
+	}
+
+	return err
+}
+
+// isBlock tells if the node is a collection that needs lines on its own.
+func isBlock(node ast.Node) bool {
+	switch n := node.(type) {
+	case *ast.MappingNode:
+		return !n.IsFlowStyle
+	case *ast.SequenceNode:
+		return !n.IsFlowStyle
+	}
+
+	return node.Type() == ast.MappingValueType
 }
 
 // names returns the names of all the anchors or aliases in the node.
@@ -291,9 +338,9 @@ func names(node ast.Node, nodeType ast.NodeType) map[string]bool {
 	return names
 }
 
-// walk calls fn for all the outermost values with the key.
-func walk(node ast.Node, key string, fn func(*ast.MappingValueNode) error) error {
-	var children []ast.Node
+// findKey returns all the outermost values with the key.
+func findKey(node ast.Node, key string) []ast.Node {
+	var children, values []ast.Node
 
 	switch n := node.(type) {
 	case *ast.MappingNode:
@@ -302,7 +349,7 @@ func walk(node ast.Node, key string, fn func(*ast.MappingValueNode) error) error
 		}
 	case *ast.MappingValueNode:
 		if n.Key.GetToken().Value == key {
-			return fn(n)
+			return []ast.Node{n.Value}
 		}
 		children = append(children, n.Value)
 	case *ast.SequenceNode:
@@ -310,12 +357,10 @@ func walk(node ast.Node, key string, fn func(*ast.MappingValueNode) error) error
 	}
 
 	for _, child := range children {
-		if err := walk(child, key, fn); err != nil {
-			return err
-		}
+		values = append(values, findKey(child, key)...)
 	}
 
-	return nil
+	return values
 }
 
 // dropMissing removes the elements a path with [*] didn't find anything in.
-- 
2.43.0


From 3b77d82e42a94073059d56caca7b2ab2fd388de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 19/19] fix: a YAML document must stay verbatim when no path of
 Any or Type applies

---
 match/any.go  | 7 +++++++
 match/type.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/match/any.go b/match/any.go
index 6b011b1..931f305 100644
--- a/match/any.go
+++ b/match/any.go
@@ -63,6 +63,7 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{a.matcherError(err, "*")}
 	}
 
+	var applied bool
 	for _, p := range a.paths {
 		path, _, exists, err := yaml.Get(f, p)
 		if err != nil && (a.errOnMissingPath || !yaml.IsInvalidQuery(err)) {
@@ -83,6 +84,12 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+		applied = true
+	}
+
+	// the document is verbatim when there is nothing replaced
+	if !applied {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, newLine), errs
diff --git a/match/type.go b/match/type.go
index 8796adb..f022907 100644
--- a/match/type.go
+++ b/match/type.go
@@ -58,6 +58,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{t.matcherError(err, "*")}
 	}
 
+	var applied bool
 	for _, p := range t.paths {
 		path, node, exists, err := yaml.Get(f, p)
 		if err != nil && (t.errOnMissingPath || !yaml.IsInvalidQuery(err)) {
@@ -91,6 +92,12 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+		applied = true
+	}
+
+	// the document is verbatim when there is nothing replaced
+	if !applied {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, newLine), errs
-- 
2.43.0

