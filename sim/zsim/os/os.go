// Package os is the simulated operating system interface.
package os

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// File is an open file of the simulated machine.
type File struct {
	o    *vfs.Open
	name string
	std  int
}

// Standard streams and arguments; reset for every process.
var (
	Stdin  = &File{name: "/dev/stdin", std: 0}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
	Args   = []string{"tool"}
)

// ZsimReset is called at the start of every simulated process.
func ZsimReset() {
	Stdin = &File{name: "/dev/stdin", std: 0}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
	Args = append([]string(nil), vfs.Cur().Args...)
}

func w() *vfs.World {
	c := vfs.Cur()
	if c == nil {
		panic("simulated os used outside a simulation")
	}
	return c
}

func (f *File) open() *vfs.Open {
	if f == nil {
		return nil
	}
	if f.o != nil {
		return f.o
	}
	return w().Std[f.std]
}

func wrap(op, p string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &PathError{Op: op, Path: p, Err: err}
}

func wrapF(f *File, op string, err error) error {
	if err == fs.ErrClosed {
		err = ErrClosed
	}
	return wrap(op, f.name, err)
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	o, err := w().OpenFile(name, acc == O_RDONLY || acc == O_RDWR, acc == O_WRONLY || acc == O_RDWR,
		flag&O_APPEND != 0, flag&O_CREATE != 0, flag&O_EXCL != 0, flag&O_TRUNC != 0, perm)
	if err != nil {
		return nil, wrap("open", name, err)
	}
	return &File{o: o, name: name}, nil
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create creates or truncates.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// NewFile returns a file for a descriptor; only the standard ones exist.
func NewFile(fd uintptr, name string) *File {
	if fd > 2 {
		return nil
	}
	return &File{name: name, std: int(fd)}
}

// Name is the name given to Open.
func (f *File) Name() string { return f.name }

// Fd is the descriptor number.
func (f *File) Fd() uintptr {
	if o := f.open(); o != nil {
		return uintptr(o.FD)
	}
	return ^uintptr(0)
}

// Vfs gives shims access to the open file.
func (f *File) Vfs() *vfs.Open { return f.open() }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	n, err := f.open().ReadF(b, -1)
	return n, wrapF(f, "read", err)
}

func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if f == nil {
		return 0, ErrInvalid
	}
	for len(b) > 0 {
		m, e := f.open().ReadF(b, int(off))
		n += m
		b = b[m:]
		off += int64(m)
		if e != nil {
			return n, wrapF(f, "read", e)
		}
		if m == 0 {
			return n, io.EOF
		}
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	n, err := f.open().WriteF(b, -1)
	if err == nil && n != len(b) {
		err = io.ErrShortWrite
	}
	return n, wrapF(f, "write", err)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	n, err := f.open().WriteF(b, int(off))
	return n, wrapF(f, "write", err)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	return wrapF(f, "close", f.open().CloseF())
}

func (f *File) Sync() error                      { return wrapF(f, "sync", f.open().SyncF()) }
func (f *File) Truncate(size int64) error        { return wrapF(f, "truncate", f.open().TruncF(size)) }
func (f *File) Chmod(mode FileMode) error        { return wrapF(f, "chmod", f.open().ChmodF(mode)) }
func (f *File) Chown(uid, gid int) error         { return nil }
func (f *File) Chdir() error                     { return wrapF(f, "chdir", w().Chdir(f.open().Path)) }
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

// SyscallConn is not available.
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EINVAL }

func (f *File) Seek(off int64, whence int) (int64, error) {
	n, err := f.open().SeekF(off, whence)
	return n, wrapF(f, "seek", err)
}

type fileStat struct {
	name string
	st   vfs.Stat
}

func (s *fileStat) Name() string { return s.name }
func (s *fileStat) Size() int64  { return s.st.Size }
func (s *fileStat) Mode() FileMode {
	m := s.st.Mode
	if s.st.Std >= 0 {
		return m | ModeNamedPipe
	}
	switch s.st.Kind {
	case vfs.KDir:
		m |= ModeDir
	case vfs.KLink:
		m |= ModeSymlink
	}
	return m
}
func (s *fileStat) ModTime() time.Time { return time.Unix(s.st.Mt, 0) }
func (s *fileStat) IsDir() bool        { return s.Mode().IsDir() }
func (s *fileStat) Sys() interface{}   { return nil }

// Stat describes the open file.
func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	st, err := f.open().StatF()
	if err != nil {
		return nil, wrapF(f, "stat", err)
	}
	return &fileStat{path.Base(f.name), st}, nil
}

// Stat follows links.
func Stat(name string) (FileInfo, error) {
	st, err := w().StatP(name, true)
	if err != nil {
		return nil, wrap("stat", name, err)
	}
	return &fileStat{path.Base(name), st}, nil
}

// Lstat does not follow links.
func Lstat(name string) (FileInfo, error) {
	st, err := w().StatP(name, false)
	if err != nil {
		return nil, wrap("lstat", name, err)
	}
	return &fileStat{path.Base(name), st}, nil
}

// SameFile compares inodes.
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*fileStat)
	y, ok2 := b.(*fileStat)
	return ok1 && ok2 && x.st.Ino == y.st.Ino && x.st.Std == y.st.Std
}

type dirEntry struct {
	dir string
	e   vfs.Dirent
}

func (d dirEntry) Name() string { return d.e.Name }
func (d dirEntry) IsDir() bool  { return d.e.Kind == vfs.KDir }
func (d dirEntry) Type() FileMode {
	switch d.e.Kind {
	case vfs.KDir:
		return ModeDir
	case vfs.KLink:
		return ModeSymlink
	}
	return 0
}
func (d dirEntry) Info() (FileInfo, error) { return Lstat(d.dir + "/" + d.e.Name) }
func (d dirEntry) String() string          { return fs.FormatDirEntry(d) }

// ReadDir lists an open directory; the whole directory is read with one call.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	ents, err := f.open().ReadDirF()
	var out []DirEntry
	for _, e := range ents {
		out = append(out, dirEntry{f.name, e})
	}
	if err != nil {
		return out, wrapF(f, "readdirent", err)
	}
	if n > 0 && len(out) == 0 {
		return out, io.EOF
	}
	return out, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		fi, e2 := e.Info()
		if IsNotExist(e2) {
			continue
		}
		if e2 != nil {
			return out, e2
		}
		out = append(out, fi)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// ReadDir lists a directory in name order.
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 0
	if fi, err := f.Stat(); err == nil {
		size = int(fi.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Mkdir creates a directory.
func Mkdir(name string, perm FileMode) error { return wrap("mkdir", name, w().Mkdir(name, perm)) }

// MkdirAll creates a directory and its parents.
func MkdirAll(p string, perm FileMode) error {
	if st, err := Stat(p); err == nil {
		if st.IsDir() {
			return nil
		}
		return &PathError{Op: "mkdir", Path: p, Err: syscall.ENOTDIR}
	}
	if d := path.Dir(strings.TrimRight(p, "/")); d != p && d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		if st, e := Lstat(p); e == nil && st.IsDir() {
			return nil
		}
	}
	return err
}

// Remove removes a file or an empty directory.
func Remove(name string) error {
	e := w().Unlink(name, false)
	if e == nil {
		return nil
	}
	e1 := w().Unlink(name, true)
	if e1 == nil {
		return nil
	}
	if e1 != syscall.ENOTDIR {
		e = e1
	}
	return wrap("remove", name, e)
}

// RemoveAll removes a tree.
func RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, ".") && (p == "." || strings.HasSuffix(p, "/.")) {
		return &PathError{Op: "RemoveAll", Path: p, Err: syscall.EINVAL}
	}
	err := Remove(p)
	if err == nil || IsNotExist(err) {
		return nil
	}
	fi, serr := Lstat(p)
	if serr != nil {
		if IsNotExist(serr) {
			return nil
		}
		return serr
	}
	if !fi.IsDir() {
		return err
	}
	f, err := Open(p)
	if err != nil {
		if IsNotExist(err) {
			return nil
		}
		return err
	}
	names, rerr := f.Readdirnames(-1)
	f.Close()
	sort.Strings(names)
	var first error
	for _, n := range names {
		if e := RemoveAll(p + "/" + n); e != nil && first == nil {
			first = e
		}
	}
	err = Remove(p)
	if err == nil || IsNotExist(err) {
		return nil
	}
	if rerr != nil && first == nil {
		first = rerr
	}
	if first == nil {
		first = err
	}
	return first
}

// Rename renames.
func Rename(a, b string) error {
	if fi, err := w().StatP(b, false); err == nil && fi.Kind == vfs.KDir {
		if fo, err := w().StatP(a, false); err == nil && fo.Kind != vfs.KDir {
			return &LinkError{"rename", a, b, syscall.EEXIST}
		}
	}
	if err := w().Rename(a, b); err != nil {
		return &LinkError{"rename", a, b, err}
	}
	return nil
}

// Symlink creates a link.
func Symlink(a, b string) error {
	if err := w().Symlink(a, b); err != nil {
		return &LinkError{"symlink", a, b, err}
	}
	return nil
}

// Link creates a hard link.
func Link(a, b string) error {
	if err := w().Link(a, b); err != nil {
		return &LinkError{"link", a, b, err}
	}
	return nil
}

// Readlink reads a link.
func Readlink(name string) (string, error) {
	t, err := w().Readlink(name)
	return t, wrap("readlink", name, err)
}

func Chmod(name string, m FileMode) error    { return wrap("chmod", name, w().Chmod(name, m)) }
func Chown(name string, u, g int) error      { return nil }
func Lchown(name string, u, g int) error     { return nil }
func Truncate(name string, size int64) error { return wrap("truncate", name, w().Truncate(name, size)) }
func Chtimes(name string, a, m time.Time) error {
	return wrap("chtimes", name, w().Chtimes(name, m.Unix()))
}
func Chdir(dir string) error { return wrap("chdir", dir, w().Chdir(dir)) }
func Getwd() (string, error) {
	d, err := w().Getcwd()
	return d, NewSyscallError("getwd", err)
}

// TempDir is $TMPDIR or /tmp.
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func pattern(p string) (string, string, error) {
	if strings.Contains(p, "/") {
		return "", "", errors.New("pattern contains path separator")
	}
	if i := strings.LastIndex(p, "*"); i >= 0 {
		return p[:i], p[i+1:], nil
	}
	return p, "", nil
}

func join(dir, n string) string {
	if strings.HasSuffix(dir, "/") {
		return dir + n
	}
	return dir + "/" + n
}

// CreateTemp creates a temporary file.
func CreateTemp(dir, pat string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := pattern(pat)
	if err != nil {
		return nil, &PathError{Op: "createtemp", Path: pat, Err: err}
	}
	for try := 0; ; try++ {
		f, err := OpenFile(join(dir, pre+w().TempName()+suf), O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

// MkdirTemp creates a temporary directory.
func MkdirTemp(dir, pat string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := pattern(pat)
	if err != nil {
		return "", &PathError{Op: "mkdirtemp", Path: pat, Err: err}
	}
	for try := 0; ; try++ {
		name := join(dir, pre+w().TempName()+suf)
		err := Mkdir(name, 0700)
		if err == nil {
			return name, nil
		}
		if IsExist(err) && try < 10000 {
			continue
		}
		return "", err
	}
}

// Environment.

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func LookupEnv(k string) (string, bool) {
	c := vfs.Cur()
	if c == nil {
		return "", false
	}
	var v string
	var ok bool
	simrt.Do(func() { v, ok = c.Env[k] })
	return v, ok
}

func Setenv(k, v string) error  { simrt.Do(func() { w().Env[k] = v }); return nil }
func Unsetenv(k string) error   { simrt.Do(func() { delete(w().Env, k) }); return nil }
func Clearenv()                 { simrt.Do(func() { w().Env = map[string]string{} }) }
func Environ() []string         { return w().Environ() }
func ExpandEnv(s string) string { return Expand(s, Getenv) }

func Getpid() int {
	if c := vfs.Cur(); c != nil {
		return c.Pid
	}
	return 1
}
func Getppid() int                { return 2 }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Getgid() int                 { return 1000 }
func Getegid() int                { return 1000 }
func Getgroups() ([]int, error)   { return []int{1000}, nil }
func Hostname() (string, error)   { return "host", nil }
func Executable() (string, error) { return "/usr/bin/" + path.Base(Args[0]), nil }
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error)  { h, err := UserHomeDir(); return h + "/.cache", err }
func UserConfigDir() (string, error) { h, err := UserHomeDir(); return h + "/.config", err }

// Exit ends the simulated process.
func Exit(code int) { w().ExitProc(code & 0xff) }

// Pipe is not simulated.
func Pipe() (*File, *File, error) { return nil, nil, NewSyscallError("pipe2", syscall.ENFILE) }

// Process handles are only used through os/exec.
type Process struct{ Pid int }

func (p *Process) Kill() error                  { return nil }
func (p *Process) Release() error               { return nil }
func (p *Process) Signal(Signal) error          { return nil }
func (p *Process) Wait() (*ProcessState, error) { return &ProcessState{}, nil }

// ProcessState is how a child ended.
type ProcessState struct {
	St vfs.ExitState
}

func (p *ProcessState) ExitCode() int {
	if p == nil {
		return -1
	}
	return p.St.Code
}
func (p *ProcessState) Success() bool             { return p.St.Code == 0 && p.St.Signal == "" }
func (p *ProcessState) Exited() bool              { return p.St.Signal == "" }
func (p *ProcessState) Pid() int                  { return p.St.Pid }
func (p *ProcessState) Sys() interface{}          { return nil }
func (p *ProcessState) SysUsage() interface{}     { return nil }
func (p *ProcessState) UserTime() time.Duration   { return 0 }
func (p *ProcessState) SystemTime() time.Duration { return 0 }
func (p *ProcessState) String() string {
	if p.St.Signal != "" {
		return "signal: " + p.St.Signal
	}
	return "exit status " + itoa(p.St.Code)
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// FindProcess and StartProcess are not simulated.
func FindProcess(pid int) (*Process, error)                      { return &Process{pid}, nil }
func StartProcess(string, []string, *ProcAttr) (*Process, error) { return nil, syscall.ENOSYS }

// ProcAttr is the argument of StartProcess.
type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

// DirFS is a file system rooted at dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error)    { return ReadFile(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (FileInfo, error)      { return Stat(string(d) + "/" + name) }

// Not simulated.
type Root struct{}

func OpenRoot(string) (*Root, error)             { return nil, syscall.ENOSYS }
func OpenInRoot(dir, name string) (*File, error) { return Open(dir + "/" + name) }
func CopyFS(string, fs.FS) error                 { return syscall.ENOSYS }
