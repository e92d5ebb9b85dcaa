package main

import (
	"bytes"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// The transformation and the simulated machine are validated against the real tools on the real
// kernel: the processes of the plans the checks draw are run both ways, without injected faults, and
// must leave the same tree, exit status and output. The real ones run as an unprivileged user in a
// scratch root directory.

var (
	fFidelity = flag.String("fidelity", "", "development: directory with the untransformed tools; compares them with the simulated ones")
	fCases    = flag.Int("cases", 100, "cases of every property for -fidelity")
)

const fidelityUID = 54321

// noise is what may differ: names of temporary files, times of log messages.
var fidelityNoise = []*regexp.Regexp{
	regexp.MustCompile(`/tmp/[A-Za-z0-9._-]*`),
	regexp.MustCompile(`(?m)^\d\d\d\d/\d\d/\d\d \d\d:\d\d:\d\d `),
}

func denoise(s string) string {
	for _, re := range fidelityNoise {
		s = re.ReplaceAllString(s, "~")
	}
	l := strings.SplitAfter(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "")
}

func fidelity(bin string) int {
	total, differ, skipped := 0, 0, map[string]int{}
	tools := map[string]int{}
	calls := map[string]int{}
	for _, prop := range keysOfChecks() {
		c := checks[prop]
		if prop == "C18" || prop == "C27" || prop == "C29" {
			continue
		}
		for k := 0; k < *fCases; k++ {
			rn := &Runner{Stats: newStats()}
			p := genCase(c, *fSeed, uint64(k), rn)
			if p == nil {
				continue
			}
			// processes made by the checks themselves are found by running the check
			var steps []fidStep
			if len(p.Steps) > 0 {
				for _, st := range p.Steps {
					steps = append(steps, fidStep{st, p.Tree})
				}
			}
			rn2 := &Runner{Stats: newStats(), Hook: func(f *vfs.FS, st Step) {
				if len(steps) < 12 {
					steps = append(steps, fidStep{st, Tree(f.Snapshot("/w"))})
				}
			}}
			func() {
				defer func() { recover() }()
				c.Run(p, rn2)
			}()
			for i, s := range steps {
				what, why := fidelityStep(bin, s, calls)
				switch {
				case why != "":
					skipped[why]++
				case what != "":
					total++
					differ++
					fmt.Printf("DIFFERENT %s case %d step %d: %s %q files %q stdin %q\n%s\n", prop, k, i, s.st.Tool, s.st.Args, s.st.Files, quoteShort(s.st.Stdin), what)
				default:
					total++
					tools[s.st.Tool]++
				}
			}
		}
	}
	fmt.Printf("fidelity: %d runs compared, %d different, skipped %v, tools %v\nsystem calls of the compared runs: %v\n", total, differ, skipped, tools, calls)
	if differ > 0 {
		return 1
	}
	return 0
}

type fidStep struct {
	st   Step
	tree Tree
}

func keysOfChecks() []string {
	var l []string
	for k := range checks {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func fidelityStep(bin string, s fidStep, calls map[string]int) (what, skip string) {
	st := calmed(s.st)
	st.Faults = nil
	if st.Tool == "" || st.Script != nil {
		return "", "library"
	}
	if st.Disk != 0 || st.Tty {
		st.Disk, st.Tty = 0, false
	}
	for p := range s.tree {
		if !underTree(p) && !underTmp(p) && !strings.HasPrefix(p, "/home") && !strings.HasPrefix(p, "/") {
			return "", "path " + p
		}
	}
	sfs := NewFS(s.tree)
	rn := &Runner{Stats: newStats()}
	res := rn.Exec(sfs, st)
	for _, e := range res.Events {
		if e.Op == "exec" || e.Op == "start" || e.Pid != 0 {
			return "", "helper program"
		}
	}
	if !res.Ended() {
		return "", "does not end"
	}
	root, err := os.MkdirTemp("", "fidelity")
	if err != nil {
		return err.Error(), ""
	}
	defer func() {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				os.Chmod(p, 0700)
			}
			return nil
		})
		os.RemoveAll(root)
	}()
	os.Chmod(root, 0755)
	init := NewFS(s.tree)
	snap := init.Snapshot("/")
	if err := materialise(root, snap); err != nil {
		return "", "tree: " + err.Error()
	}
	os.MkdirAll(root+"/usr/bin", 0755)
	exe := root + "/usr/bin/" + st.Tool
	os.MkdirAll(filepath.Dir(exe), 0755)
	if err := os.Link(filepath.Join(bin, filepath.Base(st.Tool)), exe); err != nil {
		b, err := os.ReadFile(filepath.Join(bin, filepath.Base(st.Tool)))
		if err != nil {
			return "", "no binary " + st.Tool
		}
		os.WriteFile(exe, b, 0755)
	}
	args := append(append([]string{"/usr/bin/" + st.Tool}, st.Args...), st.Files...)
	cmd := &exec.Cmd{Path: "/usr/bin/" + st.Tool, Args: args}
	cmd.Dir = st.Cwd
	if cmd.Dir == "" {
		cmd.Dir = "/w"
	}
	env := map[string]string{"PATH": "/usr/bin", "HOME": "/home/u"}
	for k, v := range st.Env {
		env[k] = v
	}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Stdin = strings.NewReader(st.Stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Chroot: root, Credential: &syscall.Credential{Uid: fidelityUID, Gid: fidelityUID}}
	t := time.AfterFunc(20*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err = cmd.Run()
	t.Stop()
	if cmd.ProcessState == nil {
		return "", "cannot run: " + err.Error()
	}
	for _, e := range res.Events {
		calls[e.Op]++
	}
	var d []string
	if c := cmd.ProcessState.ExitCode(); c != res.Exit {
		d = append(d, fmt.Sprintf("  exit status: real %d, simulated %d", c, res.Exit))
	}
	a, b := denoise(out.String()), denoise(res.Stdout)
	if st.Tool == "buildozer" && strings.Contains(strings.Join(st.Args, " "), "-output_") {
		// one message that holds the records of the files in any order
		a, b = sortedBytes(a), sortedBytes(b)
	}
	if a != b {
		d = append(d, "  stdout: "+firstDiff(a, b))
	}
	if a, b := denoise(errb.String()), denoise(res.Stderr); a != b {
		d = append(d, "  stderr: "+firstDiff(a, b))
	}
	real := map[string]vfs.Node{}
	filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		q := strings.TrimPrefix(p, root)
		if q == "" || q == "/usr" || strings.HasPrefix(q, "/usr/") || q == "/dev" || strings.HasPrefix(q, "/dev/") {
			return nil
		}
		i, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		n := vfs.Node{Mode: uint32(i.Mode().Perm())}
		switch {
		case i.IsDir():
			n.Kind = "dir"
		case i.Mode()&fs.ModeSymlink != 0:
			n.Kind = "link"
			n.Mode = 0
			n.Target, _ = os.Readlink(p)
		default:
			b, _ := os.ReadFile(p)
			n.Data = string(b)
		}
		real[q] = n
		return nil
	})
	simd := map[string]vfs.Node{}
	for q, n := range sfs.Snapshot("/") {
		if q == "/" || q == "/usr" || strings.HasPrefix(q, "/usr/") || q == "/dev" || strings.HasPrefix(q, "/dev/") {
			continue
		}
		if n.Kind == "link" {
			n.Mode = 0
		}
		simd[q] = n
	}
	if q, how := diffTree(real, simd, func(string) bool { return false }); q != "" {
		d = append(d, fmt.Sprintf("  %s: simulated %s", q, how))
	}
	return strings.Join(d, "\n"), ""
}

func sortedBytes(s string) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

// materialise writes a tree below root, owned by the unprivileged user.
func materialise(root string, snap map[string]vfs.Node) error {
	ps := vfs.Paths(snap)
	own := func(p string) { os.Lchown(p, fidelityUID, fidelityUID) }
	for _, q := range ps {
		n := snap[q]
		p := root + q
		switch n.Kind {
		case "dir":
			if err := os.MkdirAll(p, 0755); err != nil {
				return err
			}
			own(p)
		case "link":
			os.Symlink(n.Target, p)
			own(p)
		default:
			if err := os.WriteFile(p, []byte(n.Data), 0644); err != nil {
				return err
			}
			os.Chmod(p, fs.FileMode(n.Mode))
			own(p)
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		if n := snap[ps[i]]; n.Kind == "dir" && ps[i] != "/" {
			os.Chmod(root+ps[i], fs.FileMode(n.Mode))
		}
	}
	return nil
}
