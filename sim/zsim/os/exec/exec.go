// Package exec runs simulated external programs.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strings"
	"syscall"
	"time"

	os "github.com/bazelbuild/buildtools/zsim/os"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// Errors of the package.
var (
	ErrNotFound  = errors.New("executable file not found in $PATH")
	ErrDot       = errors.New("cannot run executable found relative to current directory")
	ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")
)

// Error is a failed lookup.
type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + quote(e.Name) + ": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }
func quote(s string) string    { return "\"" + s + "\"" }

// ExitError is an unsuccessful exit.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd is an external command.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration
	ctx          context.Context
	started      bool
	done         bool
	st           vfs.ExitState
	outPipe      *bytes.Buffer
	errPipe      *bytes.Buffer
	inPipe       *inPipe
	ran          bool
	startErr     error
}

// Command prepares a command.
func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}

// CommandContext prepares a command; cancellation is checked before the start only.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// LookPath finds a program.
func LookPath(file string) (string, error) {
	p, err := vfs.Cur().LookPath(file)
	if err != nil {
		if !strings.Contains(file, "/") {
			err = ErrNotFound
		}
		return "", &Error{file, err}
	}
	return p, nil
}

func (c *Cmd) String() string { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }

// Environ is the environment the command would get.
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

// run executes the program. Simulated programs run to their end at once, at Wait if their input
// is a pipe, at Start otherwise.
func (c *Cmd) run() error {
	c.ran = true
	var in io.Reader = c.Stdin
	if c.inPipe != nil {
		in = &c.inPipe.buf
	}
	st, err := vfs.Cur().Spawn(c.Path, c.Args, c.Environ(), c.Dir, in, c.Stdout, c.Stderr)
	if err != nil {
		c.startErr = &os.PathError{Op: "fork/exec", Path: c.Path, Err: err}
		return c.startErr
	}
	c.st = st
	return nil
}

// Start starts the command.
func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.started {
		return errors.New("exec: already started")
	}
	if c.Path == "" {
		return errors.New("exec: no command")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	if c.Dir != "" {
		if _, err := os.Stat(c.Dir); err != nil {
			return &os.PathError{Op: "chdir", Path: c.Dir, Err: errors.Unwrap(err)}
		}
	}
	c.started = true
	if c.inPipe == nil {
		if err := c.run(); err != nil {
			return err
		}
	}
	c.Process = &os.Process{Pid: c.st.Pid}
	return nil
}

// Wait waits for the command.
func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.done {
		return errors.New("exec: Wait was already called")
	}
	c.done = true
	if !c.ran {
		if err := c.run(); err != nil {
			return err
		}
	}
	c.ProcessState = &os.ProcessState{St: c.st}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

// Run starts the command and waits for it.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output runs the command and returns its standard output.
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, er bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &er
	}
	err := c.Run()
	if err != nil && capture {
		if ee, ok := err.(*ExitError); ok {
			ee.Stderr = er.Bytes()
		}
	}
	return out.Bytes(), err
}

// CombinedOutput also collects standard error.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

type outPipe struct{ b *bytes.Buffer }

func (p outPipe) Read(b []byte) (int, error) { return p.b.Read(b) }
func (p outPipe) Close() error               { return nil }

type inPipe struct {
	buf    bytes.Buffer
	closed bool
}

func (p *inPipe) Write(b []byte) (int, error) {
	if p.closed {
		return 0, os.ErrClosed
	}
	return p.buf.Write(b)
}
func (p *inPipe) Close() error { p.closed = true; return nil }

// StdoutPipe returns the command's output.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	c.outPipe = &bytes.Buffer{}
	c.Stdout = c.outPipe
	return outPipe{c.outPipe}, nil
}

// StderrPipe returns the command's error output.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	c.errPipe = &bytes.Buffer{}
	c.Stderr = c.errPipe
	return outPipe{c.errPipe}, nil
}

// StdinPipe returns the command's input.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.inPipe = &inPipe{}
	return c.inPipe, nil
}
