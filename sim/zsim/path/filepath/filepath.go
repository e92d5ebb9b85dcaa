// Package filepath: the parts that look at the file system use the simulated one.
package filepath

import (
	"errors"
	"io/fs"
	real "path/filepath"
	"sort"
	"strings"
	"syscall"

	os "github.com/bazelbuild/buildtools/zsim/os"
)

// WalkFunc is called for every file.
type WalkFunc = real.WalkFunc

// Abs makes a path absolute.
func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

// EvalSymlinks resolves links.
func EvalSymlinks(p string) (string, error) {
	if p == "" {
		return "", nil
	}
	rest := p
	dest := ""
	if strings.HasPrefix(p, "/") {
		dest = "/"
	}
	links := 0
	parts := strings.Split(rest, "/")
	for len(parts) > 0 {
		c := parts[0]
		parts = parts[1:]
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			if dest == "" || dest == ".." || strings.HasSuffix(dest, "/..") {
				dest = real.Join(dest, "..")
				if dest == "." {
					dest = ".."
				}
			} else {
				dest = real.Dir(dest)
				if dest == "." {
					dest = ""
				}
			}
			continue
		}
		next := real.Join(dest, c)
		fi, err := os.Lstat(next)
		if err != nil {
			return "", err
		}
		if fi.Mode()&fs.ModeSymlink == 0 {
			if !fi.IsDir() && len(parts) > 0 {
				return "", syscall.ENOTDIR
			}
			dest = next
			continue
		}
		links++
		if links > 255 {
			return "", errors.New("EvalSymlinks: too many links")
		}
		t, err := os.Readlink(next)
		if err != nil {
			return "", err
		}
		if strings.HasPrefix(t, "/") {
			dest = "/"
		}
		parts = append(strings.Split(t, "/"), parts...)
	}
	if dest == "" {
		dest = "."
	}
	return real.Clean(dest), nil
}

// Walk walks a tree in lexical order.
func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func readDirNames(dir string) ([]string, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	return names, nil
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	names, err := readDirNames(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		name := Join(p, n)
		fi, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err = walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir walks a tree in lexical order.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(Join(p, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Glob finds matching names.
func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		fi, err := os.Stat(d)
		if err != nil || !fi.IsDir() {
			continue
		}
		names, _ := readDirNames(d)
		for _, n := range names {
			if ok, err := Match(file, n); err != nil {
				return out, err
			} else if ok {
				out = append(out, Join(d, n))
			}
		}
	}
	return out, nil
}
