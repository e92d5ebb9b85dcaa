package main

import (
	"sort"
	"strings"
	"time"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// minimise reduces a failing plan while the same class of violation remains.
func minimise(c *Check, p *Plan, v *Violation, known []KnownFinding) *Replay {
	deadline := time.Now().Add(12 * time.Second)
	best, bestV := p, v
	steps := 0
	fails := func(q *Plan) *Violation {
		defer func() { recover() }()
		n, want := 1, 1
		if simrt.RaceOn {
			n, want = 4, 2
		}
		var last *Violation
		for got := 0; n > 0 && got < want; n-- {
			w := runCheck(c, q, &Runner{Stats: newStats()})
			if w != nil && w.Class == v.Class && isKnown(known, c.Prop, w) == nil {
				got++
				last = w
			}
			if got < want && n == 1 {
				return nil
			}
		}
		return last
	}
	try := func(q *Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		if w := fails(q); w != nil {
			best, bestV = q, w
			steps++
			return true
		}
		return false
	}
	for round := 0; round < 6; round++ {
		before := steps
		// whole processes
		for i := len(best.Steps) - 1; i >= 0 && len(best.Steps) > 1; i-- {
			q := best.clone()
			q.Steps = append(q.Steps[:i], q.Steps[i+1:]...)
			try(q)
		}
		for i := range best.Steps {
			shrinkStep(best, i, try, func() *Plan { return best })
		}
		// operations of the scenario
		for size := len(best.Ops); size >= 1; size /= 2 {
			for at := 0; at+size <= len(best.Ops); {
				q := best.clone()
				q.Ops = append(append([]string(nil), best.Ops[:at]...), best.Ops[at+size:]...)
				if !try(q) {
					at += size
				}
			}
		}
		// numbers and names of a scenario without simulated Go processes (C27)
		if len(best.Steps) == 0 {
			for _, k := range sortedKeys(best.I) {
				if best.I[k] != 0 {
					q := best.clone()
					q.I[k] = 0
					try(q)
				}
			}
			for i := len(best.Names) - 1; i >= 0; i-- {
				q := best.clone()
				q.Names = append(append([]string(nil), q.Names[:i]...), q.Names[i+1:]...)
				try(q)
			}
		}
		// files of the tree
		for _, path := range vfs.Paths(best.Tree) {
			q := best.clone()
			delete(q.Tree, path)
			for i := range q.Steps {
				var keep []string
				for _, f := range q.Steps[i].Files {
					if abs(q.Steps[i].Cwd, f) != path {
						keep = append(keep, f)
					}
				}
				q.Steps[i].Files = keep
			}
			q.Names = without(q.Names, path)
			if !try(q) {
				if len(q.Names) < len(best.Names) {
					continue
				}
			}
		}
		// contents, by lines
		for _, path := range vfs.Paths(best.Tree) {
			n := best.Tree[path]
			if n.Kind != "" || len(n.Data) < 2 {
				continue
			}
			lines := strings.SplitAfter(n.Data, "\n")
			for size := len(lines) / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= len(lines); {
					q := best.clone()
					rest := append(append([]string(nil), lines[:at]...), lines[at+size:]...)
					m := q.Tree[path]
					m.Data = strings.Join(rest, "")
					q.Tree[path] = m
					if try(q) {
						lines = rest
					} else {
						at += size
					}
				}
			}
		}
		if steps == before || time.Now().After(deadline) {
			break
		}
	}
	// write the remaining schedules out as explicit decisions, and drop those that do not matter
	for i := range best.Steps {
		if pol := best.Steps[i].Sched.Policy; pol == "random" || pol == "pct" {
			rn := &Runner{Stats: newStats(), Taken: map[string]map[int]int{}}
			runCheck(c, best, rn)
			if taken, ok := rn.Taken[schedKey(best.Steps[i])]; ok && len(taken) < 5000 {
				q := best.clone()
				q.Steps[i].Sched.Policy = "list"
				q.Steps[i].Sched.Choices = taken
				if try(q) {
					shrinkStep(best, i, try, func() *Plan { return best })
				}
			}
		}
	}
	rn := &Runner{Stats: newStats(), Keep: true}
	if w := runCheck(c, best, rn); w != nil {
		bestV = w
	}
	return &Replay{Property: c.Prop, Class: bestV.Class, Key: bestV.Key, Message: bestV.Msg, Shrinks: steps, Plan: best, Trace: rn.Trace}
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func without(xs []string, x string) []string {
	var out []string
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func shrinkStep(p *Plan, i int, try func(*Plan) bool, cur func() *Plan) {
	if i >= len(cur().Steps) {
		return
	}
	edit := func(f func(s *Step)) bool {
		if i >= len(cur().Steps) {
			return false
		}
		q := cur().clone()
		f(&q.Steps[i])
		return try(q)
	}
	// faults
	for j := len(cur().Steps[i].Faults) - 1; j >= 0; j-- {
		edit(func(s *Step) { s.Faults = append(s.Faults[:j], s.Faults[j+1:]...) })
	}
	// scheduling: plain FIFO, then without single features, then as an explicit list of decisions
	if cur().Steps[i].Sched.Policy != "fifo" && cur().Steps[i].Sched.Policy != "list" {
		edit(func(s *Step) { s.Sched.Policy = "fifo"; s.Sched.Quantum = 0; s.Sched.Latency = 0 })
	}
	edit(func(s *Step) { s.Sched.MapSeed = 0 })
	edit(func(s *Step) { s.Sched.Latency = 0 })
	edit(func(s *Step) { s.Sched.Short = 0 })
	edit(func(s *Step) { s.Sched.Quantum = 0 })
	if cur().Steps[i].Sched.Policy == "list" {
		var keys []int
		for k := range cur().Steps[i].Sched.Choices {
			keys = append(keys, k)
		}
		sort.Ints(keys)
		for size := len(keys); size >= 1; size /= 2 {
			for at := 0; at+size <= len(keys); {
				if edit(func(s *Step) {
					for _, k := range keys[at : at+size] {
						delete(s.Sched.Choices, k)
					}
				}) {
					keys = append(append([]int(nil), keys[:at]...), keys[at+size:]...)
				} else {
					at += size
				}
			}
		}
	}
	if len(cur().Steps[i].Chunks) > 0 {
		edit(func(s *Step) { s.Chunks = nil })
	}
	// files on the command line
	fs := cur().Steps[i].Files
	for size := len(fs); size >= 1; size /= 2 {
		for at := 0; at+size <= len(fs); {
			rest := append(append([]string(nil), fs[:at]...), fs[at+size:]...)
			if edit(func(s *Step) { s.Files = rest }) {
				fs = rest
			} else {
				at += size
			}
		}
	}
	sc := cur().Steps[i].Script
	for j := len(sc) - 1; j >= 0; j-- {
		edit(func(s *Step) { s.Script = append(s.Script[:j], s.Script[j+1:]...) })
	}
	if in := cur().Steps[i].Stdin; len(in) > 1 {
		lines := strings.SplitAfter(in, "\n")
		for j := len(lines) - 1; j >= 0; j-- {
			rest := append(append([]string(nil), lines[:j]...), lines[j+1:]...)
			if edit(func(s *Step) { s.Stdin = strings.Join(rest, "") }) {
				lines = rest
			}
		}
	}
}

var _ = simrt.Mix
