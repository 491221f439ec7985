package h

import (
	"os"

	"pgregory.net/rapid"
)

// Rare is true about once in 2^bits cases. (rapid's integers favour small values: no value of a
// range is as rare as its size suggests.)
func Rare(t *rapid.T, bits int, label string) bool {
	for i := 0; i < bits; i++ {
		if !rapid.Bool().Draw(t, label) {
			return false
		}
	}
	return true
}

// Wanted tells whether the property is the one this process checks; large parts of a corpus are
// only made if it is.
func Wanted(prop string) bool { return os.Getenv("VERIF_PROP") == prop }
