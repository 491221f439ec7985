//go:build sched

package props

import (
	"time"

	"github.com/gkampitakis/go-snaps/internal/zvsched"
)

const controlled = true

type schedResult = zvsched.Result

func schedRun(fns []func(), pick func(runnable []int, last, step int) int) schedResult {
	return zvsched.Run(fns, 20*time.Second, pick)
}
