// Package fmt prints to the simulated standard output.
package fmt

import (
	real "fmt"

	os "github.com/bazelbuild/buildtools/zsim/os"
)

func Print(a ...interface{}) (int, error)            { return real.Fprint(os.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return real.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return real.Fprintf(os.Stdout, f, a...) }
func Scan(a ...interface{}) (int, error)             { return real.Fscan(os.Stdin, a...) }
func Scanln(a ...interface{}) (int, error)           { return real.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return real.Fscanf(os.Stdin, f, a...) }
