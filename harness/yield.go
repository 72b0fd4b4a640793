//go:build verifyield

package main

import (
	"runtime"

	"github.com/prospik/libsignal-protocol-go/verifyield"
)

// With yield points one conversation runs at a time, and at each of them another one may go on.
func init() {
	yields = func(seed uint64, oneIn uint64) {
		runtime.GOMAXPROCS(1)
		s := seed*2862933555777941757 + 3037000493
		if oneIn == 0 {
			verifyield.Hook = nil
			return
		}
		verifyield.Hook = func() {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
			if s%oneIn == 0 {
				runtime.Gosched()
			}
		}
	}
}
