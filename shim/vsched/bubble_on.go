//go:build goexperiment.synctest

package vsched

import "testing/synctest"

// Available tells if executions can be scheduled in this build.
const Available = true

func bubble(f func(wait func())) { synctest.Run(func() { f(synctest.Wait) }) }
