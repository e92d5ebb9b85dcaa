// Package vfs is the simulated machine: file system, processes' standard streams, external programs
// and the fault injector. Every operation is a system call event of the recorded history.
package vfs

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
)

// Kind of an inode.
const (
	KFile = iota
	KDir
	KLink
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino    int
	Kind   int
	Mode   fs.FileMode // permission bits
	Data   []byte
	Ents   map[string]*Inode
	Target string
	Nlink  int
	Mtime  int64
	Sys    bool // part of the simulated system, not of the user's tree
}

// FS is a tree of inodes.
type FS struct {
	Root *Inode
	next int
}

// NewFS returns an empty file system.
func NewFS() *FS {
	f := &FS{next: 1}
	f.Root = f.newInode(KDir, 0755)
	return f
}

func (f *FS) newInode(kind int, mode fs.FileMode) *Inode {
	n := &Inode{Ino: f.next, Kind: kind, Mode: mode, Nlink: 1}
	f.next++
	if kind == KDir {
		n.Ents = map[string]*Inode{}
	}
	return n
}

// Node describes a file of a tree for setup, snapshots and plans.
type Node struct {
	Kind   string `json:"kind,omitempty"` // "" file, "dir", "link"
	Mode   uint32 `json:"mode,omitempty"`
	Data   string `json:"data,omitempty"`
	Target string `json:"target,omitempty"`
}

// Put creates a node and its parent directories without any event.
func (f *FS) Put(p string, n Node) {
	p = path.Clean(p)
	dir := f.mkdirs(path.Dir(p))
	name := path.Base(p)
	mode := fs.FileMode(n.Mode)
	switch n.Kind {
	case "dir":
		d := dir.Ents[name]
		if p == "/" {
			d = f.Root
		}
		if d == nil {
			d = f.newInode(KDir, 0755)
			dir.Ents[name] = d
		}
		if mode != 0 {
			d.Mode = mode
		}
	case "link":
		l := f.newInode(KLink, 0777)
		l.Target = n.Target
		dir.Ents[name] = l
	default:
		if mode == 0 {
			mode = 0644
		}
		i := f.newInode(KFile, mode)
		i.Data = []byte(n.Data)
		dir.Ents[name] = i
	}
}

// Delete removes a node without any event.
func (f *FS) Delete(p string) {
	dir := f.mkdirs(path.Dir(p))
	delete(dir.Ents, path.Base(p))
}

func (f *FS) mkdirs(p string) *Inode {
	cur := f.Root
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" || c == "." {
			continue
		}
		n := cur.Ents[c]
		if n == nil || n.Kind != KDir {
			n = f.newInode(KDir, 0755)
			cur.Ents[c] = n
		}
		cur = n
	}
	return cur
}

// Snapshot returns every node below p.
func (f *FS) Snapshot(p string) map[string]Node {
	out := map[string]Node{}
	n := f.peek(p)
	if n == nil {
		return out
	}
	var walk func(p string, n *Inode)
	walk = func(p string, n *Inode) {
		switch n.Kind {
		case KDir:
			out[p] = Node{Kind: "dir", Mode: uint32(n.Mode)}
			for name, c := range n.Ents {
				walk(path.Join(p, name), c)
			}
		case KLink:
			out[p] = Node{Kind: "link", Target: n.Target}
		default:
			out[p] = Node{Mode: uint32(n.Mode), Data: string(n.Data)}
		}
	}
	walk(path.Clean(p), n)
	return out
}

// peek finds a node without following symbolic links and without any event.
func (f *FS) peek(p string) *Inode {
	cur := f.Root
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" || c == "." {
			continue
		}
		if cur.Kind != KDir || cur.Ents[c] == nil {
			return nil
		}
		cur = cur.Ents[c]
	}
	return cur
}

// Paths lists a snapshot's paths in order.
func Paths(s map[string]Node) []string {
	var ps []string
	for p := range s {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// lookup resolves p; with follow, a final symbolic link is resolved too. It returns the parent
// directory, the final name (of the resolved path) and the node, if it exists.
func (f *FS) lookup(cwd, p string, follow bool) (dir *Inode, name string, n *Inode, real string, err error) {
	if p == "" {
		return nil, "", nil, "", syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, "", syscall.EINVAL
	}
	if len(p) > 4000 {
		return nil, "", nil, "", syscall.ENAMETOOLONG
	}
	trail := strings.HasSuffix(p, "/") && p != "/"
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	links := 0
	type frame struct {
		n    *Inode
		name string
	}
	stack := []frame{{f.Root, ""}}
	todo := split(p)
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if c == "." {
			continue
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		cur := stack[len(stack)-1].n
		if cur.Kind != KDir {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		if cur.Mode&0100 == 0 {
			return nil, "", nil, "", syscall.EACCES
		}
		if len(c) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		next := cur.Ents[c]
		last := len(todo) == 0
		if next == nil {
			if last {
				r := ""
				for _, fr := range stack[1:] {
					r += "/" + fr.name
				}
				return cur, c, nil, r + "/" + c, nil
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		if next.Kind == KLink && (!last || follow || trail) {
			links++
			if links > 40 {
				return nil, "", nil, "", syscall.ELOOP
			}
			if strings.HasPrefix(next.Target, "/") {
				stack = stack[:1]
			}
			todo = append(split(next.Target), todo...)
			continue
		}
		stack = append(stack, frame{next, c})
	}
	r := ""
	for _, fr := range stack[1:] {
		r += "/" + fr.name
	}
	if r == "" {
		r = "/"
	}
	top := stack[len(stack)-1]
	if trail && top.n.Kind != KDir {
		return nil, "", nil, "", syscall.ENOTDIR
	}
	var parent *Inode
	if len(stack) > 1 {
		parent = stack[len(stack)-2].n
	}
	return parent, top.name, top.n, r, nil
}

func split(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			out = append(out, c)
		}
	}
	return out
}

// Real resolves a path without any event.
func (f *FS) Real(p string) string {
	_, _, _, r, _ := f.lookup("/", p, true)
	return r
}
