//go:build race

package fmt

import (
	real "fmt"
	"io"

	"github.com/bazelbuild/buildtools/zsim/simrt"
)

// Package fmt recycles its printers through a sync.Pool, which orders the goroutines that use it by
// chance. That would hide races, so the race detector doesn't see the pool.

func plain(a []interface{}) bool {
	for _, x := range a {
		switch x.(type) {
		case nil, string, bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, float32, float64, []string, []byte, []int:
		default:
			return false
		}
	}
	return true
}

func Sprintf(f string, a ...interface{}) string {
	if !plain(a) {
		return real.Sprintf(f, a...)
	}
	simrt.Quiet()
	s := real.Sprintf(f, a...)
	simrt.Loud()
	return s
}

func Sprint(a ...interface{}) string {
	if !plain(a) {
		return real.Sprint(a...)
	}
	simrt.Quiet()
	s := real.Sprint(a...)
	simrt.Loud()
	return s
}

func Sprintln(a ...interface{}) string {
	if !plain(a) {
		return real.Sprintln(a...)
	}
	simrt.Quiet()
	s := real.Sprintln(a...)
	simrt.Loud()
	return s
}

func Errorf(f string, a ...interface{}) error {
	if !plain(a) {
		return real.Errorf(f, a...)
	}
	simrt.Quiet()
	err := real.Errorf(f, a...)
	simrt.Loud()
	return err
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	if !plain(a) {
		return real.Fprintf(w, f, a...)
	}
	return io.WriteString(writer{w}, Sprintf(f, a...))
}

func Fprint(w io.Writer, a ...interface{}) (int, error) {
	if !plain(a) {
		return real.Fprint(w, a...)
	}
	return io.WriteString(writer{w}, Sprint(a...))
}

func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	if !plain(a) {
		return real.Fprintln(w, a...)
	}
	return io.WriteString(writer{w}, Sprintln(a...))
}

// writer has no method but Write, the one fmt uses.
type writer struct{ io.Writer }
