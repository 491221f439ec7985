// Package h is the engine of the go-snaps property checks: scenario plumbing, the rapid
// driver, evidence counters, a fake testingT, and reference readers of snapshot stores.
package h

import (
	"encoding/json"
	"fmt"
	"strconv"
)

// S is a byte string that survives JSON: it is serialised as a Go-quoted ASCII string.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	if err != nil {
		return fmt.Errorf("bad quoted string %s: %w", q, err)
	}
	*s = S(u)
	return nil
}

// Show shortens a byte string for messages.
func Show(s string) string {
	const n = 300
	if len(s) > n {
		return strconv.QuoteToASCII(s[:n]) + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return strconv.QuoteToASCII(s)
}
