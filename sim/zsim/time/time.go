// Package time runs on the simulated clock.
package time

import (
	real "time"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

func Now() real.Time                  { return real.Unix(0, simrt.Nano()).UTC() }
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { simrt.Sleep(int64(d)) }

// Timer fires once.
type Timer struct {
	C    <-chan real.Time
	c    chan real.Time
	dead *bool
	f    func()
}

func start(d real.Duration, c chan real.Time, f func(), dead *bool) {
	go simrt.Wrap(func() {
		simrt.Sleep(int64(d))
		if *dead {
			return
		}
		*dead = true
		if f != nil {
			f()
			return
		}
		simrt.S(c).Send(Now())
	})()
	simrt.Started()
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c, dead: new(bool)}
	start(d, c, nil, t.dead)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{dead: new(bool), f: f}
	start(d, nil, f, t.dead)
	return t
}

func (t *Timer) Stop() bool { was := !*t.dead; *t.dead = true; return was }
func (t *Timer) Reset(d real.Duration) bool {
	was := t.Stop()
	t.dead = new(bool)
	start(d, t.c, t.f, t.dead)
	return was
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

// Ticker fires repeatedly.
type Ticker struct {
	C    <-chan real.Time
	dead bool
}

func NewTicker(d real.Duration) *Ticker {
	c := make(chan real.Time, 1)
	t := &Ticker{C: c}
	go simrt.Wrap(func() {
		for i := 0; !t.dead && i < 10000; i++ {
			simrt.Sleep(int64(d))
			if !t.dead && simrt.ChanLen(c) == 0 {
				simrt.S(c).Send(Now())
			}
		}
	})()
	simrt.Started()
	return t
}
func (t *Ticker) Stop()                     { t.dead = true }
func (t *Ticker) Reset(d real.Duration)     {}
func Tick(d real.Duration) <-chan real.Time { return NewTicker(d).C }
