// Package vtime is the clock.
package vtime

import (
	"time"

	"verif.local/shim/vctx"
)

// Now is time.Now.
func Now() time.Time {
	if c := vctx.Get(); c != nil && c.X.Now != nil {
		return time.Unix(0, c.X.Now())
	}
	return time.Now()
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
