package props

import (
	"os"
	"testing"

	"github.com/gkampitakis/go-snaps/zverif/h"
)

// TestVerif is the one real test of the harness: it runs one shard of one property.
func TestVerif(t *testing.T) { h.Main(t) }

func TestMain(m *testing.M) {
	if f := os.Getenv("VERIF_CHILD"); f != "" {
		childMain(m, f)
		return
	}
	if f := os.Getenv("VERIF_CALLS"); f != "" {
		farMain(f)
	}
	os.Exit(m.Run())
}
