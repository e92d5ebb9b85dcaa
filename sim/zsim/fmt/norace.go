//go:build !race

package fmt

import real "fmt"

var (
	Sprintf  = real.Sprintf
	Sprint   = real.Sprint
	Sprintln = real.Sprintln
	Errorf   = real.Errorf
	Fprintf  = real.Fprintf
	Fprint   = real.Fprint
	Fprintln = real.Fprintln
)
