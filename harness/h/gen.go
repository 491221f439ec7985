package h

import (
	"strings"

	"pgregory.net/rapid"
)

// Lines that have broken or could break a line-framed store.
var NastyLines = []string{
	"---", "/-/-/-/", "//-/-/-/", "///-/-/-/", "-/-/-/", " ---", "--- ", "----", "--", "/-/-/-/ ",
	"", " ", "\t", "  ", "[", "]", "[]", "[ - 1]", "[TestA - 1]", "[TestA - 2]", "[TestA/sub - 1]",
	"[TestB - 1]", "[Test - 01]", " [TestA - 1]", "[TestA - 1] ", "[TestA]", "[1, 2]", "\x00", "\xff\xfe", "\xc3",
	"\u2028", "\u0085", "\v", "\f", "é", "日本", "😀", "\x1b[31;1mred\x1b[0m", "%d%s%!v", "a\rb",
	"\\n", "\\", "\"", "'", "`", "{", "}", "- a", "+ b", "@@ -1 +1 @@", "↵", "a", "b", "aa", "hello world",
}

// Line generates one line (no newline).
func Line(names ...string) *rapid.Generator[string] {
	pool := append([]string(nil), NastyLines...)
	for _, n := range names {
		pool = append(pool, "["+n+" - 1]", "["+n+" - 2]", "["+n+" - 3]")
	}
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "line kind") {
		case 0, 1, 2, 3, 4, 5:
			return rapid.SampledFrom(pool).Draw(t, "line")
		case 6:
			return rapid.SampledFrom(pool).Draw(t, "l1") + rapid.SampledFrom(pool).Draw(t, "l2")
		case 7:
			return strings.ReplaceAll(string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes")), "\n", "")
		case 8:
			return strings.ReplaceAll(rapid.StringN(0, 12, -1).Draw(t, "text"), "\n", "")
		default:
			if Rare(t, 5, "long?") {
				n := rapid.SampledFrom([]int{4095, 4096, 65535, 65536, 65537, 200000}).Draw(t, "long")
				return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "-"}).Draw(t, "of"), n)
			}
			return rapid.StringMatching(`[a-c \-/\[\]]{0,6}`).Draw(t, "alpha")
		}
	})
}

// Text generates a multi-line text; cr allows carriage returns at line ends.
func Text(cr bool, names ...string) *rapid.Generator[string] { return text(cr, false, names...) }

// TallText is Text with rare texts of many lines (up to 200 kB); for values of
// which a scenario holds a few, not for the strings inside of documents.
func TallText(cr bool, names ...string) *rapid.Generator[string] { return text(cr, true, names...) }

func text(cr, tall bool, names ...string) *rapid.Generator[string] {
	line := Line(names...)
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, 6).Draw(t, "lines")
		ls := make([]string, n)
		for i := range ls {
			ls[i] = line.Draw(t, "line")
		}
		if tall && n > 0 && Rare(t, 6, "tall?") {
			block := strings.Join(ls, "\n") + "\n"
			m := rapid.SampledFrom([]int{80, 300, 1100}).Draw(t, "tall")
			if m*len(block)/n < 200000 {
				for len(ls) < m {
					ls = append(ls, ls[:n]...)
				}
			}
		}
		s := strings.Join(ls, "\n")
		if rapid.IntRange(0, 3).Draw(t, "final nl") == 0 {
			s += "\n"
		}
		if cr {
			if rapid.IntRange(0, 3).Draw(t, "crlf") == 0 {
				s = strings.ReplaceAll(s, "\n", "\r\n")
			}
			return s
		}
		return NoCR(s)
	})
}

// NoCR removes carriage returns at the end of a line: the documented limitation of multi-entry
// files.
func NoCR(s string) string {
	for strings.Contains(s, "\r\n") {
		s = strings.ReplaceAll(s, "\r\n", "\n")
	}
	return strings.TrimRight(s, "\r")
}
