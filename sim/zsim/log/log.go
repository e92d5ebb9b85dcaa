// Package log writes to the simulated standard error.
package log

import (
	"bytes"
	"fmt"
	"io"
	real "log"

	os "github.com/bazelbuild/buildtools/zsim/os"
	time "github.com/bazelbuild/buildtools/zsim/time"
)

// Flags.
const (
	Ldate         = real.Ldate
	Ltime         = real.Ltime
	Lmicroseconds = real.Lmicroseconds
	Llongfile     = real.Llongfile
	Lshortfile    = real.Lshortfile
	LUTC          = real.LUTC
	Lmsgprefix    = real.Lmsgprefix
	LstdFlags     = real.LstdFlags
)

// Logger writes lines.
type Logger struct {
	out    io.Writer
	prefix string
	flag   int
}

var std = New(stderr{}, "", LstdFlags)

// ZsimReset gives the package its initial state.
func ZsimReset() { std = New(stderr{}, "", LstdFlags) }

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

// New returns a logger.
func New(out io.Writer, prefix string, flag int) *Logger { return &Logger{out, prefix, flag} }

// Default is the standard logger.
func Default() *Logger { return std }

// Output writes one line.
func (l *Logger) Output(depth int, s string) error {
	var b bytes.Buffer
	if l.flag&Lmsgprefix == 0 {
		b.WriteString(l.prefix)
	}
	t := time.Now()
	if l.flag&Ldate != 0 {
		b.WriteString(t.Format("2006/01/02 "))
	}
	if l.flag&Lmicroseconds != 0 {
		b.WriteString(t.Format("15:04:05.000000 "))
	} else if l.flag&Ltime != 0 {
		b.WriteString(t.Format("15:04:05 "))
	}
	if l.flag&(Lshortfile|Llongfile) != 0 {
		b.WriteString("file.go:1: ")
	}
	if l.flag&Lmsgprefix != 0 {
		b.WriteString(l.prefix)
	}
	b.WriteString(s)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		b.WriteByte('\n')
	}
	_, err := l.out.Write(b.Bytes())
	return err
}

func (l *Logger) Print(v ...interface{})            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Output(2, fmt.Sprint(v...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)); os.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) {
	s := fmt.Sprintf(f, v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicln(v ...interface{}) { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) Flags() int               { return l.flag }
func (l *Logger) SetFlags(f int)           { l.flag = f }
func (l *Logger) Prefix() string           { return l.prefix }
func (l *Logger) SetPrefix(p string)       { l.prefix = p }
func (l *Logger) Writer() io.Writer        { return l.out }
func (l *Logger) SetOutput(w io.Writer)    { l.out = w }

func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func Output(d int, s string) error      { return std.Output(d+1, s) }
func Flags() int                        { return std.flag }
func SetFlags(f int)                    { std.flag = f }
func Prefix() string                    { return std.prefix }
func SetPrefix(p string)                { std.prefix = p }
func Writer() io.Writer                 { return std.out }
func SetOutput(w io.Writer)             { std.out = w }
