package main

import (
	"path"
	"regexp"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// DiffCall is what a diff program was asked to compare and what it saw.
type DiffCall struct {
	Args  []string
	Old   string
	New   string
	OldOK bool
	NewOK bool
}

// tmpName matches the names of temporary files, which are random.
var tmpName = regexp.MustCompile(`^/tmp/.*`)

// installPrograms puts the stand-ins for external programs on the machine.
func installPrograms(w *vfs.World) {
	diff := func(c *vfs.Child) int {
		args := c.Args
		if len(args) > 1 && path.Base(args[0]) == "env" {
			args = args[1:]
		}
		// bash -c 'cmd "$@"' -- old new
		if len(args) > 2 && args[0] == "bash" && args[1] == "-c" {
			cmd := strings.Fields(args[2])
			rest := args[3:]
			if len(rest) > 0 && (rest[0] == "--" || rest[0] == "bash") {
				rest = rest[1:]
			}
			var a []string
			for _, f := range cmd {
				if f == `"$@"` || f == `$@` {
					a = append(a, rest...)
				} else {
					a = append(a, f)
				}
			}
			args = a
		}
		if len(args) == 0 {
			return 127
		}
		prog := path.Base(args[0])
		switch prog {
		case "diff", "tkdiff", "mydiff":
		default:
			c.Err("bash: " + args[0] + ": command not found\n")
			return 127
		}
		var files []string
		for _, a := range args[1:] {
			if !strings.HasPrefix(a, "-") && a != ":" {
				files = append(files, a)
			}
		}
		var calls []DiffCall
		simrt.Do(func() { calls, _ = w.Ext["diff"].([]DiffCall) })
		rc := 0
		for i := 0; i+1 < len(files); i += 2 {
			d := DiffCall{Args: files[i : i+2]}
			d.Old, d.OldOK = c.Content(files[i])
			d.New, d.NewOK = c.Content(files[i+1])
			calls = append(calls, d)
			if !d.OldOK || !d.NewOK {
				c.Err("diff: " + files[i] + ": cannot read\n")
				rc = 2
				continue
			}
			if d.Old != d.New {
				c.Out("--- " + tmpName.ReplaceAllString(files[i], "/tmp/N") + "\n+++ " + path.Base(files[i+1])[:3] + "\n" + sum(d.Old) + " " + sum(d.New) + "\n")
				if rc == 0 {
					rc = 1
				}
			}
		}
		simrt.Do(func() { w.Ext["diff"] = calls })
		return rc
	}
	w.Programs["/usr/bin/bf"] = bfProgram
	w.Programs["/usr/bin/env"] = diff
	w.Programs["/usr/bin/bash"] = diff
	w.Programs["/usr/bin/diff"] = diff
	w.Programs["/usr/bin/tkdiff"] = diff
	w.Programs["/usr/bin/mydiff"] = diff
}
