package vfs

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// Fault is one injected failure.
type Fault struct {
	Op    string `json:"op"`              // system call, "" any
	Path  string `json:"path,omitempty"`  // resolved path, "" any
	Mut   bool   `json:"mut,omitempty"`   // only calls that change the file system
	Nth   int    `json:"nth"`             // the nth matching call fails (from 1)
	Count int    `json:"count,omitempty"` // that many calls, 0: one, -1: all later ones too
	Kind  string `json:"kind"`            // err, partial, short, crash, crashafter, crashmid, stall, vanish, appear
	Err   string `json:"err,omitempty"`
	N     int    `json:"n,omitempty"`    // bytes done before the failure; for external programs the exit status
	Arg   string `json:"arg,omitempty"`  // text for the failing program's standard error
	Data  string `json:"data,omitempty"` // replacement content for kind "replace"
	seen  int
	fired int
}

// Event is one entry of the history.
type Event struct {
	Seq  int    `json:"seq"`
	G    int    `json:"g"`
	T    int64  `json:"t"`
	Op   string `json:"op"`
	Path string `json:"path,omitempty"`
	To   string `json:"to,omitempty"`
	N    int    `json:"n"`
	Err  string `json:"err,omitempty"`
	Mut  bool   `json:"mut,omitempty"`
	Flt  string `json:"fault,omitempty"`
	Data string `json:"data,omitempty"`
	Pid  int    `json:"pid,omitempty"` // of an external program, 0: the tool itself
}

func (e Event) String() string {
	s := fmt.Sprintf("#%d g%d t=%d %s", e.Seq, e.G, e.T, e.Op)
	if e.Path != "" {
		s += " " + e.Path
	}
	if e.To != "" {
		s += " -> " + e.To
	}
	s += fmt.Sprintf(" n=%d", e.N)
	if e.Err != "" {
		s += " err=" + e.Err
	}
	if e.Flt != "" {
		s += " [" + e.Flt + "]"
	}
	if e.Pid != 0 {
		s += fmt.Sprintf(" pid=%d", e.Pid)
	}
	return s
}

// Program is a stand-in for an external program.
type Program func(c *Child) int

// Child is a running external program.
type Child struct {
	W      *World
	Pid    int
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	// Limit is the number of output bytes after which an injected fault kills it (-1: none).
	Limit   int
	written int
	Killed  bool
}

// World is the simulated machine and the process running on it.
type World struct {
	FS       *FS
	Faults   []*Fault
	Events   []Event
	Fired    map[string]int
	Programs map[string]Program
	PathDirs []string

	// the process
	Pid     int
	Args    []string
	Env     map[string]string
	EnvKeys []string
	Cwd     string
	Umask   fs.FileMode
	Std     [3]*Open
	StdinC  []int // chunk sizes of standard input
	Files   int
	MaxFD   int
	Exit    int
	Exited  bool
	Crashed string
	Signal  string
	tmpSeq  *simrt.Rng
	nextPid int
	Out     [3][]byte
	Chunks  [3][]Chunk
	Isatty  bool
	DiskMax int // bytes all files together may have, 0: unlimited
	ops     map[string]int
	Ext     map[string]interface{}
}

// Chunk is one successful write to a standard stream.
type Chunk struct {
	G    int
	Data string
}

// Open is an open file description.
type Open struct {
	W     *World
	Node  *Inode
	Path  string // resolved
	Pos   int
	Read  bool
	Write bool
	App   bool
	Std   int // 0 stdin, 1 stdout, 2 stderr, -1 file
	Shut  bool
	Wrote bool // something was written to a file through this handle
	dirs  []string
	dirI  int
	In    []byte
	inI   int
	pipeR *Pipe
	pipeW *Pipe
	FD    int
}

// Pipe connects a process with a child.
type Pipe struct {
	buf   []byte
	wshut bool
}

var cur *World

// Cur is the world of the running simulation.
func Cur() *World { return cur }

// SetCur installs the world (harness only).
func SetCur(w *World) { cur = w }

// NewWorld returns a machine with an empty file system.
func NewWorld(f *FS) *World {
	return &World{FS: f, Fired: map[string]int{}, Programs: map[string]Program{}, Env: map[string]string{}, Cwd: "/", Umask: 022, MaxFD: 1000, ops: map[string]int{}, Ext: map[string]interface{}{}, nextPid: 20000}
}

// Start prepares the world for a new process.
func (w *World) Start(pid int, args []string, env map[string]string, cwd string, stdin []byte, chunks []int, seed uint64) {
	w.Pid = pid
	w.Args = args
	w.Env = map[string]string{}
	w.EnvKeys = nil
	for k, v := range env {
		w.Env[k] = v
		w.EnvKeys = append(w.EnvKeys, k)
	}
	sort.Strings(w.EnvKeys)
	w.Cwd = cwd
	w.tmpSeq = simrt.NewRng(simrt.Mix(seed, 77))
	w.Std[0] = &Open{W: w, Std: 0, Read: true, In: stdin, Path: "/dev/stdin", FD: 0}
	w.Std[1] = &Open{W: w, Std: 1, Write: true, Path: "/dev/stdout", FD: 1}
	w.Std[2] = &Open{W: w, Std: 2, Write: true, Path: "/dev/stderr", FD: 2}
	w.StdinC = chunks
	w.Files = 3
	w.Exit, w.Exited, w.Crashed, w.Signal = 0, false, "", ""
	w.Events = nil
	w.Out = [3][]byte{}
	w.Chunks = [3][]Chunk{}
	for _, f := range w.Faults {
		f.seen, f.fired = 0, 0
	}
	w.ops = map[string]int{}
}

// ErrnoByName maps names used in plans.
var ErrnoByName = map[string]syscall.Errno{
	"EIO": syscall.EIO, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT, "ENOSPC": syscall.ENOSPC, "EPIPE": syscall.EPIPE,
	"EMFILE": syscall.EMFILE, "EISDIR": syscall.EISDIR, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "ESTALE": syscall.ESTALE,
	"EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM, "ELOOP": syscall.ELOOP, "ENOTDIR": syscall.ENOTDIR, "EPERM": syscall.EPERM,
	"EBUSY": syscall.EBUSY, "EFBIG": syscall.EFBIG, "ENOTCONN": syscall.ENOTCONN, "EAGAIN": syscall.EAGAIN, "ENFILE": syscall.ENFILE, "EXDEV": syscall.EXDEV,
	"ETXTBSY": syscall.ETXTBSY, "E2BIG": syscall.E2BIG, "ENOEXEC": syscall.ENOEXEC, "EINVAL": syscall.EINVAL,
	"ENAMETOOLONG": syscall.ENAMETOOLONG, "EEXIST": syscall.EEXIST, "ENOTEMPTY": syscall.ENOTEMPTY, "EBADF": syscall.EBADF,
}

func errName(err error) string {
	if err == nil {
		return ""
	}
	if e, ok := err.(syscall.Errno); ok {
		for n, v := range ErrnoByName {
			if v == e {
				return n
			}
		}
		return fmt.Sprintf("errno%d", int(e))
	}
	return err.Error()
}

// match returns the fault to inject into this call, if any.
func (w *World) match(op, p string, mut bool) *Fault {
	var hit *Fault
	for _, f := range w.Faults {
		if f.Op != "" && f.Op != op || f.Path != "" && f.Path != p || f.Mut && !mut {
			continue
		}
		f.seen++
		n := f.Nth
		if n == 0 {
			n = 1
		}
		c := f.Count
		if c == 0 {
			c = 1
		}
		if f.seen >= n && (c < 0 || f.seen < n+c) && hit == nil {
			hit = f
		}
	}
	if hit != nil {
		hit.fired++
		k := hit.Kind
		if hit.Err != "" {
			k += ":" + hit.Err
		}
		w.Fired[op+" "+k]++
	}
	return hit
}

// FiredFaults reports for every fault whether it was injected.
func (w *World) FiredFaults() []bool {
	out := make([]bool, len(w.Faults))
	for i, f := range w.Faults {
		out[i] = f.fired > 0
	}
	return out
}

func (w *World) log(e Event) {
	e.Seq = len(w.Events)
	e.G = simrt.CurG()
	if s := simrt.Cur(); s != nil {
		e.T = s.Now()
	}
	w.Events = append(w.Events, e)
}

// call runs one system call: scheduling point, fault, effect, event.
// do receives the number of bytes it may process (-1: all) and returns the number processed.
func (w *World) call(pid int, op, p, to string, mut bool, do func(limit int) (int, error)) (n int, err error) {
	simrt.Point()
	kill := false
	simrt.Do(func() {
		f := w.match(op, p, mut)
		e := Event{Op: op, Path: p, To: to, Mut: mut, Pid: pid}
		if f != nil {
			e.Flt = f.Kind
			switch f.Kind {
			case "err":
				err = w.errno(f)
			case "partial":
				n, err = do(f.N)
				if err == nil || err == io.EOF {
					err = w.errno(f)
				}
			case "short":
				// a call that returns without an error moves at least one byte
				lim := f.N
				if lim < 1 {
					lim = 1
				}
				n, err = do(lim)
			case "vanish":
				w.FS.Delete(p)
				n, err = do(-1)
			case "replace":
				w.FS.Put(p, Node{Data: f.Data})
				n, err = do(-1)
			case "crash":
				kill = true
			case "crashmid":
				n, err = do(f.N)
				kill = true
			case "crashafter":
				n, err = do(-1)
				kill = true
			case "stall":
				n, err = do(-1)
			default:
				n, err = do(-1)
			}
		} else {
			lim := -1
			if s := simrt.Cur(); s != nil && op == "read" && pid == 0 {
				lim = s.ShortRead()
			}
			n, err = do(lim)
			if lim > 0 && n == lim {
				w.Fired["read short"]++
			}
		}
		e.N = n
		e.Err = errName(err)
		w.log(e)
		if kill {
			w.Crashed = op + " " + p
		}
	})
	if kill {
		simrt.Kill()
	}
	return n, err
}

func (w *World) errno(f *Fault) error {
	if e, ok := ErrnoByName[f.Err]; ok {
		return e
	}
	return syscall.EIO
}

// abs makes the path a system call is logged under.
func (w *World) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = w.Cwd + "/" + p
	}
	return path.Clean(p)
}

// realPath resolves links in the directory part, so that one file has one name in the history.
func (w *World) realPath(p string, follow bool) (r string) {
	simrt.Do(func() {
		var err error
		_, _, _, r, err = w.FS.lookup(w.Cwd, p, follow)
		if err != nil || r == "" {
			r = w.abs(p)
		}
	})
	return r
}

func (w *World) used() int {
	n := 0
	var walk func(i *Inode)
	walk = func(i *Inode) {
		n += len(i.Data)
		for _, c := range i.Ents {
			walk(c)
		}
	}
	walk(w.FS.Root)
	return n
}

// OpenFile is open(2).
func (w *World) OpenFile(p string, rd, wr, app, creat, excl, trunc bool, perm fs.FileMode) (*Open, error) {
	return w.openFile(0, w.Cwd, p, rd, wr, app, creat, excl, trunc, perm)
}

func (w *World) openFile(pid int, cwd, p string, rd, wr, app, creat, excl, trunc bool, perm fs.FileMode) (*Open, error) {
	var o *Open
	op := "open"
	if creat {
		op = "create"
	}
	rp := w.realPath(p, true)
	_, err := w.call(pid, op, rp, "", wr && (trunc || creat), func(int) (int, error) {
		if p == "/dev/null" {
			o = &Open{W: w, Node: &Inode{Kind: KFile, Mode: 0666}, Path: p, Read: rd, Write: wr, Std: -1, FD: w.Files}
			return 0, nil
		}
		if k := map[string]int{"/dev/stdin": 0, "/dev/stdout": 1, "/dev/stderr": 2}[p]; p == "/dev/stdin" || k > 0 {
			if s := w.Std[k]; s != nil {
				c := *s
				o = &c
				return 0, nil
			}
		}
		dir, name, n, real, err := w.FS.lookup(cwd, p, true)
		if err != nil {
			return 0, err
		}
		if w.Files >= w.MaxFD {
			return 0, syscall.EMFILE
		}
		if n == nil {
			if !creat {
				return 0, syscall.ENOENT
			}
			if strings.HasSuffix(p, "/") {
				return 0, syscall.EISDIR
			}
			if dir.Mode&0200 == 0 {
				return 0, syscall.EACCES
			}
			n = w.FS.newInode(KFile, perm&^w.Umask&0777)
			dir.Ents[name] = n
		} else {
			if creat && excl {
				return 0, syscall.EEXIST
			}
			if n.Kind == KDir && wr {
				return 0, syscall.EISDIR
			}
			if rd && n.Mode&0400 == 0 || wr && n.Mode&0200 == 0 {
				return 0, syscall.EACCES
			}
			if trunc && wr {
				n.Data = nil
			}
		}
		o = &Open{W: w, Node: n, Path: real, Read: rd, Write: wr, App: app, Std: -1, FD: w.Files}
		w.Files++
		return 0, nil
	})
	if err != nil {
		return nil, err
	}
	return o, nil
}

// ReadF is read(2) (at >= 0: pread).
func (o *Open) ReadF(b []byte, at int) (int, error) {
	w := o.W
	if o.Shut {
		return 0, fs.ErrClosed
	}
	if o.pipeR != nil {
		n := 0
		simrt.Do(func() {
			n = copy(b, o.pipeR.buf)
			o.pipeR.buf = o.pipeR.buf[n:]
		})
		if n == 0 && len(b) > 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	return w.call(0, "read", o.Path, "", false, func(limit int) (int, error) {
		if !o.Read {
			return 0, syscall.EBADF
		}
		max := len(b)
		if limit >= 0 && limit < max {
			max = limit
		}
		if o.Std == 0 {
			if o.inI < len(w.StdinC) {
				if c := w.StdinC[o.inI]; c > 0 && c < max {
					max = c
				}
				o.inI++
			}
			n := copy(b[:max], o.In[o.Pos:])
			o.Pos += n
			if n == 0 && limit != 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		if o.Node.Kind == KDir {
			return 0, syscall.EISDIR
		}
		pos := o.Pos
		if at >= 0 {
			pos = at
		}
		if pos >= len(o.Node.Data) {
			if limit >= 0 && limit == 0 {
				return 0, nil
			}
			return 0, io.EOF
		}
		n := copy(b[:max], o.Node.Data[pos:])
		if at < 0 {
			o.Pos += n
		}
		return n, nil
	})
}

// WriteF is write(2) (at >= 0: pwrite).
func (o *Open) WriteF(b []byte, at int) (int, error) {
	w := o.W
	if o.Shut {
		return 0, fs.ErrClosed
	}
	if o.pipeW != nil {
		simrt.Do(func() { o.pipeW.buf = append(o.pipeW.buf, b...) })
		return len(b), nil
	}
	data := string(b)
	n, err := w.call(0, "write", o.Path, "", o.Std < 0 && o.Path != "/dev/null", func(limit int) (int, error) {
		if !o.Write {
			return 0, syscall.EBADF
		}
		d := data
		if limit >= 0 && limit < len(d) {
			d = d[:limit]
		}
		if o.Std > 0 {
			w.Out[o.Std] = append(w.Out[o.Std], d...)
			if d != "" {
				w.Chunks[o.Std] = append(w.Chunks[o.Std], Chunk{simrt.CurG(), d})
			}
			return len(d), nil
		}
		if o.Path == "/dev/null" {
			return len(d), nil
		}
		pos := o.Pos
		if o.App {
			pos = len(o.Node.Data)
		}
		if at >= 0 {
			pos = at
		}
		var full error
		if w.DiskMax > 0 {
			if room := w.DiskMax - w.used(); room < len(d) {
				if room < 0 {
					room = 0
				}
				d = d[:room]
				full = syscall.ENOSPC
			}
		}
		nd := make([]byte, 0, pos+len(d))
		nd = append(nd, o.Node.Data...)
		for len(nd) < pos {
			nd = append(nd, 0)
		}
		nd = append(nd[:pos], d...)
		if pos+len(d) < len(o.Node.Data) {
			nd = append(nd, o.Node.Data[pos+len(d):]...)
		}
		o.Node.Data = nd
		o.Wrote = true
		if at < 0 {
			o.Pos = pos + len(d)
		}
		return len(d), full
	})
	if err == nil && n < len(b) {
		// the os package continues after a short write
		m, err := o.WriteF(b[n:], moved(at, n))
		return n + m, err
	}
	if err == syscall.EPIPE && (o.Std == 1 || o.Std == 2) {
		// the Go runtime dies of SIGPIPE when standard output or error is a broken pipe
		w.Signal = "SIGPIPE"
		w.Exit = 141
		w.Exited = true
		simrt.Kill()
	}
	return n, err
}

func moved(at, n int) int {
	if at < 0 {
		return at
	}
	return at + n
}

// CloseF is close(2).
func (o *Open) CloseF() error {
	if o.Shut {
		return fs.ErrClosed
	}
	o.Shut = true
	if o.pipeR != nil || o.pipeW != nil {
		if o.pipeW != nil {
			o.pipeW.wshut = true
		}
		return nil
	}
	_, err := o.W.call(0, "close", o.Path, "", false, func(limit int) (int, error) {
		if limit >= 0 && o.Wrote && o.Std < 0 {
			// a delayed write fails: what was written through this handle is lost from here on
			if limit < len(o.Node.Data) {
				o.Node.Data = append([]byte(nil), o.Node.Data[:limit]...)
			}
		}
		if o.Std < 0 {
			o.W.Files--
		}
		return 0, nil
	})
	return err
}

// SyncF is fsync(2).
func (o *Open) SyncF() error {
	_, err := o.W.call(0, "fsync", o.Path, "", false, func(int) (int, error) { return 0, nil })
	return err
}

// TruncF is ftruncate(2).
func (o *Open) TruncF(size int64) error {
	_, err := o.W.call(0, "ftruncate", o.Path, "", true, func(int) (int, error) {
		return 0, truncNode(o.Node, size)
	})
	return err
}

func truncNode(n *Inode, size int64) error {
	if n == nil || n.Kind != KFile {
		return syscall.EINVAL
	}
	d := append([]byte(nil), n.Data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	n.Data = d[:size]
	return nil
}

// SeekF is lseek(2).
func (o *Open) SeekF(off int64, whence int) (int64, error) {
	if o.Shut {
		return 0, fs.ErrClosed
	}
	if o.Std >= 0 {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += int64(o.Pos)
	case 2:
		off += int64(len(o.Node.Data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	o.Pos = int(off)
	return off, nil
}

// Stat is what stat(2) returns.
type Stat struct {
	Kind int
	Mode fs.FileMode
	Size int64
	Ino  int
	Mt   int64
	Std  int
}

func statOf(n *Inode) Stat {
	s := Stat{Kind: n.Kind, Mode: n.Mode, Ino: n.Ino, Mt: n.Mtime, Std: -1}
	s.Size = int64(len(n.Data))
	if n.Kind == KLink {
		s.Size = int64(len(n.Target))
	}
	return s
}

// StatP is stat(2) or lstat(2).
func (w *World) StatP(p string, follow bool) (st Stat, err error) {
	op := "stat"
	if !follow {
		op = "lstat"
	}
	_, err = w.call(0, op, w.realPath(p, false), "", false, func(int) (int, error) {
		_, _, n, _, err := w.FS.lookup(w.Cwd, p, follow)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		st = statOf(n)
		return 0, nil
	})
	return st, err
}

// StatF is fstat(2).
func (o *Open) StatF() (st Stat, err error) {
	if o.Shut {
		return st, fs.ErrClosed
	}
	_, err = o.W.call(0, "fstat", o.Path, "", false, func(int) (int, error) {
		if o.Std >= 0 {
			st = Stat{Std: o.Std, Mode: 0600}
			return 0, nil
		}
		st = statOf(o.Node)
		return 0, nil
	})
	return st, err
}

// Dirent is a directory entry.
type Dirent struct {
	Name string
	Kind int
}

// ReadDirF is getdents(2): the remaining entries in storage order (not sorted).
func (o *Open) ReadDirF() (ents []Dirent, err error) {
	if o.Shut {
		return nil, fs.ErrClosed
	}
	_, err = o.W.call(0, "readdir", o.Path, "", false, func(limit int) (int, error) {
		if o.Std >= 0 || o.Node.Kind != KDir {
			return 0, syscall.ENOTDIR
		}
		var names []string
		for n := range o.Node.Ents {
			names = append(names, n)
		}
		// storage order: by inode number, then name
		sort.Slice(names, func(i, j int) bool {
			a, b := o.Node.Ents[names[i]].Ino, o.Node.Ents[names[j]].Ino
			ha, hb := simrt.Mix(uint64(a), simrt.HashString(names[i])), simrt.Mix(uint64(b), simrt.HashString(names[j]))
			return ha < hb
		})
		for _, n := range names {
			if limit >= 0 && len(ents) >= limit {
				break
			}
			ents = append(ents, Dirent{n, o.Node.Ents[n].Kind})
		}
		return len(ents), nil
	})
	return ents, err
}

// Unlink is unlink(2) (dir: rmdir(2)).
func (w *World) Unlink(p string, dir bool) error {
	op := "unlink"
	if dir {
		op = "rmdir"
	}
	_, err := w.call(0, op, w.realPath(p, false), "", true, func(int) (int, error) {
		d, name, n, _, err := w.FS.lookup(w.Cwd, p, false)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if dir && n.Kind != KDir {
			return 0, syscall.ENOTDIR
		}
		if !dir && n.Kind == KDir {
			return 0, syscall.EISDIR
		}
		if dir && len(n.Ents) > 0 {
			return 0, syscall.ENOTEMPTY
		}
		if d == nil {
			return 0, syscall.EBUSY
		}
		if d.Mode&0200 == 0 {
			return 0, syscall.EACCES
		}
		delete(d.Ents, name)
		return 0, nil
	})
	return err
}

// Mkdir is mkdir(2).
func (w *World) Mkdir(p string, perm fs.FileMode) error {
	_, err := w.call(0, "mkdir", w.realPath(p, false), "", true, func(int) (int, error) {
		d, name, n, _, err := w.FS.lookup(w.Cwd, strings.TrimRight(p, "/"), false)
		if err != nil {
			return 0, err
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		if d.Mode&0200 == 0 {
			return 0, syscall.EACCES
		}
		d.Ents[name] = w.FS.newInode(KDir, perm&^w.Umask&0777)
		return 0, nil
	})
	return err
}

// Rename is rename(2).
func (w *World) Rename(from, to string) error {
	_, err := w.call(0, "rename", w.realPath(from, false), w.realPath(to, false), true, func(int) (int, error) {
		fd, fn, n, _, err := w.FS.lookup(w.Cwd, from, false)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		td, tn, t, _, err := w.FS.lookup(w.Cwd, to, false)
		if err != nil {
			return 0, err
		}
		if t == n {
			return 0, nil
		}
		if fd == nil || td == nil {
			return 0, syscall.EBUSY
		}
		if fd.Mode&0200 == 0 || td.Mode&0200 == 0 {
			return 0, syscall.EACCES
		}
		if t != nil {
			if t.Kind == KDir && n.Kind != KDir {
				return 0, syscall.EISDIR
			}
			if t.Kind != KDir && n.Kind == KDir {
				return 0, syscall.ENOTDIR
			}
			if t.Kind == KDir && len(t.Ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		}
		delete(fd.Ents, fn)
		td.Ents[tn] = n
		return 0, nil
	})
	return err
}

// Symlink is symlink(2).
func (w *World) Symlink(target, p string) error {
	_, err := w.call(0, "symlink", w.realPath(p, false), target, true, func(int) (int, error) {
		d, name, n, _, err := w.FS.lookup(w.Cwd, p, false)
		if err != nil {
			return 0, err
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		l := w.FS.newInode(KLink, 0777)
		l.Target = target
		d.Ents[name] = l
		return 0, nil
	})
	return err
}

// Link is link(2).
func (w *World) Link(from, to string) error {
	_, err := w.call(0, "link", w.realPath(from, false), w.realPath(to, false), true, func(int) (int, error) {
		_, _, n, _, err := w.FS.lookup(w.Cwd, from, false)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		d, name, t, _, err := w.FS.lookup(w.Cwd, to, false)
		if err != nil {
			return 0, err
		}
		if t != nil {
			return 0, syscall.EEXIST
		}
		d.Ents[name] = n
		return 0, nil
	})
	return err
}

// Readlink is readlink(2).
func (w *World) Readlink(p string) (t string, err error) {
	_, err = w.call(0, "readlink", w.realPath(p, false), "", false, func(int) (int, error) {
		_, _, n, _, err := w.FS.lookup(w.Cwd, p, false)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.Kind != KLink {
			return 0, syscall.EINVAL
		}
		t = n.Target
		return 0, nil
	})
	return t, err
}

// Chmod is chmod(2).
func (w *World) Chmod(p string, m fs.FileMode) error {
	_, err := w.call(0, "chmod", w.realPath(p, true), "", true, func(int) (int, error) {
		_, _, n, _, err := w.FS.lookup(w.Cwd, p, true)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		n.Mode = m.Perm()
		return 0, nil
	})
	return err
}

// ChmodF is fchmod(2).
func (o *Open) ChmodF(m fs.FileMode) error {
	_, err := o.W.call(0, "chmod", o.Path, "", true, func(int) (int, error) {
		if o.Node != nil {
			o.Node.Mode = m.Perm()
		}
		return 0, nil
	})
	return err
}

// Truncate is truncate(2).
func (w *World) Truncate(p string, size int64) error {
	_, err := w.call(0, "truncate", w.realPath(p, true), "", true, func(int) (int, error) {
		_, _, n, _, err := w.FS.lookup(w.Cwd, p, true)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		return 0, truncNode(n, size)
	})
	return err
}

// Chtimes is utimensat(2).
func (w *World) Chtimes(p string, mt int64) error {
	_, err := w.call(0, "utimes", w.realPath(p, true), "", true, func(int) (int, error) {
		_, _, n, _, err := w.FS.lookup(w.Cwd, p, true)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		n.Mtime = mt
		return 0, nil
	})
	return err
}

// Chdir is chdir(2).
func (w *World) Chdir(p string) error {
	_, err := w.call(0, "chdir", w.realPath(p, true), "", false, func(int) (int, error) {
		_, _, n, r, err := w.FS.lookup(w.Cwd, p, true)
		if err != nil {
			return 0, err
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.Kind != KDir {
			return 0, syscall.ENOTDIR
		}
		w.Cwd = r
		return 0, nil
	})
	return err
}

// Getcwd is getcwd(2).
func (w *World) Getcwd() (string, error) {
	c := ""
	_, err := w.call(0, "getcwd", "", "", false, func(int) (int, error) { c = w.Cwd; return 0, nil })
	return c, err
}

// ExitProc is exit_group(2).
func (w *World) ExitProc(code int) {
	simrt.Yield()
	simrt.Do(func() {
		w.Exit = code
		w.Exited = true
		w.log(Event{Op: "exit", N: code})
	})
	simrt.Kill()
}

// TempName returns the next random name component.
func (w *World) TempName() string {
	s := ""
	simrt.Do(func() { s = fmt.Sprint(w.tmpSeq.Uint64() % 4000000000) })
	return s
}
