package vfs

import (
	"io"
	"path"
	"sort"
	"strings"
	"syscall"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// LookPath finds an external program.
func (w *World) LookPath(name string) (q string, err error) {
	simrt.Do(func() { q, err = w.lookPath(name) })
	return
}

func (w *World) lookPath(name string) (string, error) {
	if strings.Contains(name, "/") {
		if w.Programs[name] != nil {
			return name, nil
		}
		return "", syscall.ENOENT
	}
	for _, d := range strings.Split(w.Env["PATH"], ":") {
		if d == "" {
			continue
		}
		if p := path.Join(d, name); w.Programs[p] != nil {
			return p, nil
		}
	}
	return "", syscall.ENOENT
}

// ExitState is how a child ended.
type ExitState struct {
	Pid    int
	Code   int
	Signal string
}

// Spawn runs an external program to its end. The start error is returned when it could not be
// started. Faults of operation "exec" match the program's path: err (start fails), exit (exits with
// N without doing anything), killed (dies of SIGKILL after N bytes of output), partial (writes N
// bytes of its output, then exits with status 1), noise (works, but writes Arg to standard error).
func (w *World) Spawn(file string, args, env []string, dir string, stdin io.Reader, stdout, stderr io.Writer) (st ExitState, err error) {
	simrt.Point()
	var f *Fault
	var prog Program
	simrt.Do(func() {
		f = w.match("exec", file, false)
		e := Event{Op: "exec", Path: file, Data: strings.Join(args, "\x00"), To: dir}
		prog = w.Programs[file]
		if f != nil {
			e.Flt = f.Kind
		}
		if f != nil && f.Kind == "err" {
			err = w.errno(f)
		} else if prog == nil {
			err = syscall.ENOENT
		}
		w.nextPid++
		st.Pid = w.nextPid
		e.Err = errName(err)
		e.Pid = st.Pid
		w.log(e)
		if f != nil && (f.Kind == "crash" || f.Kind == "crashafter") {
			w.Crashed = "exec " + file
		}
	})
	if f != nil && f.Kind == "crash" {
		simrt.Kill()
	}
	if err != nil {
		return st, err
	}
	if dir == "" {
		dir = w.Cwd
	}
	c := &Child{W: w, Pid: st.Pid, Args: args, Env: env, Dir: dir, Stdin: stdin, Stdout: stdout, Stderr: stderr, Limit: -1}
	code := 0
	switch {
	case f != nil && f.Kind == "exit":
		code = f.N
		if f.Arg != "" {
			c.Err(f.Arg)
		}
	default:
		if f != nil && (f.Kind == "killed" || f.Kind == "partial" || f.Kind == "trunc") {
			c.Limit = f.N
		}
		code = prog(c)
		if f != nil {
			switch f.Kind {
			case "killed":
				c.Killed = true
			case "partial":
				code = 1
			case "fail": // does its work, then fails
				code = f.N
			case "noise":
				c.Err(f.Arg)
			}
		}
	}
	simrt.Point()
	simrt.Do(func() {
		e := Event{Op: "wait", Path: file, N: code, Pid: st.Pid}
		if c.Killed {
			st.Signal = "killed"
			e.Err = "killed"
			code = -1
		}
		st.Code = code
		w.log(e)
	})
	if f != nil && f.Kind == "crashafter" {
		simrt.Kill()
	}
	return st, nil
}

// Out writes to the child's standard output, subject to its byte limit.
func (c *Child) Out(s string) {
	if c.Limit >= 0 {
		if c.written+len(s) > c.Limit {
			s = s[:c.Limit-c.written]
		}
		c.written += len(s)
	}
	if c.Stdout != nil && s != "" {
		io.WriteString(c.Stdout, s)
	}
}

// Err writes to the child's standard error.
func (c *Child) Err(s string) {
	if c.Stderr != nil {
		io.WriteString(c.Stderr, s)
	}
}

// In reads all of the child's standard input.
func (c *Child) In() string {
	if c.Stdin == nil {
		return ""
	}
	b, _ := io.ReadAll(c.Stdin)
	return string(b)
}

// Content returns a file as the child sees it; the access is part of the history.
func (c *Child) Content(p string) (string, bool) {
	out, ok := "", false
	if !strings.HasPrefix(p, "/") {
		p = c.Dir + "/" + p
	}
	c.W.call(c.Pid, "childread", c.W.realPath(p, true), "", false, func(int) (int, error) {
		_, _, n, _, err := c.W.FS.lookup("/", p, true)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.Kind != KFile {
			return 0, syscall.EISDIR
		}
		out, ok = string(n.Data), true
		return len(out), nil
	})
	return out, ok
}

// WriteFile lets the child write a file.
func (c *Child) WriteFile(p, data string) bool {
	if !strings.HasPrefix(p, "/") {
		p = c.Dir + "/" + p
	}
	_, err := c.W.call(c.Pid, "childwrite", c.W.realPath(p, true), "", true, func(int) (int, error) {
		d, name, n, _, err := c.W.FS.lookup("/", p, true)
		if err != nil {
			return 0, err
		}
		if n == nil {
			n = c.W.FS.newInode(KFile, 0644)
			d.Ents[name] = n
		}
		n.Data = []byte(data)
		return len(data), nil
	})
	return err == nil
}

// Environ lists the process' environment.
func (w *World) Environ() []string {
	var out []string
	simrt.Do(func() {
		for k, v := range w.Env {
			out = append(out, k+"="+v)
		}
	})
	sort.Strings(out)
	return out
}
