// Package signal: simulated processes get no signals except the kill of a crash point.
package signal

import (
	"context"

	os "github.com/bazelbuild/buildtools/zsim/os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Ignored(sig os.Signal) bool                  { return false }
func Reset(sig ...os.Signal)                      {}
func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
