//go:build !goexperiment.synctest

package vsched

// Available tells if executions can be scheduled in this build.
const Available = false

func bubble(func(wait func())) { panic("harness: no scheduler in this build") }
