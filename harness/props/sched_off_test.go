//go:build !sched

package props

import "sync"

const controlled = false

type schedResult struct {
	Steps  int
	Trace  []string
	Stalls int
	Err    string
}

// schedRun without control: all at once.
func schedRun(fns []func(), pick func(runnable []int, last, step int) int) schedResult {
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
	return schedResult{}
}
