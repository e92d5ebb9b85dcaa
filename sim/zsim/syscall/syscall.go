// Package syscall: the few calls the code under test makes itself.
package syscall

import (
	real "syscall"

	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// Fstat describes a standard stream: a character device when the world says it is a terminal.
func Fstat(fd int, st *real.Stat_t) error {
	w := vfs.Cur()
	*st = real.Stat_t{}
	st.Mode = real.S_IFIFO | 0600
	if w.Isatty && fd <= 2 {
		st.Mode = real.S_IFCHR | 0600
		st.Rdev = 0x8800
	}
	return nil
}

func Getpid() int                           { return vfs.Cur().Pid }
func Exit(code int)                         { vfs.Cur().ExitProc(code) }
func Kill(pid int, sig real.Signal) error   { return real.EPERM }
func Exec(string, []string, []string) error { return real.ENOSYS }
func Unlink(p string) error                 { return vfs.Cur().Unlink(p, false) }
func Rename(a, b string) error              { return vfs.Cur().Rename(a, b) }
