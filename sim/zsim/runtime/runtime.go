// Package runtime gives the simulated scheduler to the code under test.
package runtime

import (
	real "runtime"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

func Gosched()          { simrt.Yield() }
func GC()               {}
func NumGoroutine() int { return 1 }
func GOMAXPROCS(n int) int {
	if s := simrt.Cur(); s != nil && s.Cfg.GoProcs > 0 {
		p := s.Cfg.GoProcs
		return p
	}
	return 4
}
func NumCPU() int { return GOMAXPROCS(0) }

var _ = real.GOOS
