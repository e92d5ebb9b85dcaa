// Package simrt is the deterministic runtime the transformed code runs on: one goroutine holds
// the baton at any time, every operation that could depend on scheduling, time or map order is a
// point where the seeded scheduler decides.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Sched configures one simulated process' scheduler.
type Sched struct {
	Policy  string      `json:"policy"`            // fifo, random, pct, list
	Seed    uint64      `json:"seed"`              // scheduling, latency
	MapSeed uint64      `json:"mapseed"`           // map iteration order; 0 is the canonical order
	Quantum int         `json:"quantum,omitempty"` // mean number of yields between preemptions, 0: none
	Depth   int         `json:"depth,omitempty"`   // pct: number of priority change points
	Latency int         `json:"latency,omitempty"` // mean simulated microseconds of a system call, 0: none
	Short   int         `json:"short,omitempty"`   // percentage of reads that return less than asked for
	Choices map[int]int `json:"choices,omitempty"` // list: decision number -> index of the runnable goroutine
	MaxStep int64       `json:"maxstep,omitempty"`
	MaxCall int         `json:"maxcall,omitempty"`
	Clock   int64       `json:"clock,omitempty"` // start, unix seconds
	GoProcs int         `json:"goprocs,omitempty"`
}

const (
	gEmbryo = iota
	gReady
	gBlocked
	gSleeping
	gDone
)

// G is a simulated goroutine.
type G struct {
	ID    int
	wake  chan struct{}
	st    int8
	until int64
	why   string
	prio  uint64
	seq   int64
	sel   *waiter
}

// Sim is one simulated process' scheduler.
type Sim struct {
	Cfg       Sched
	rng       *Rng
	mapRng    *Rng
	lat       *Rng
	short     *Rng
	dec       *Rng
	qua       *Rng
	gs        []*G
	cur       *G
	now       int64 // ns since start
	seq       int64
	Decisions int
	Taken     map[int]int // non-default decisions
	SchedHash uint64
	Switches  int
	Calls     int
	steps     int64
	quantum   int64
	chans     map[uintptr]*hchan
	toCtl     chan struct{}
	ctlReq    func()
	ctlPark   bool
	dead      bool
	over      bool
	Deadlock  string
	Hang      string
	Panic     string
	PanicAt   string
	MapIters  int
	MapShuf   int
	Spawned   int
	MaxReady  int
	stopped   chan struct{}
	changeAt  map[int]bool
	prioLow   uint64
	races     int
	inOp      bool
	OnDead    func() // called once when the process ends in any way
	proc      interface{}
}

var sim *Sim
var active bool
var left int64 // yields until the slow path

// Active reports whether code runs under the simulator.
func Active() bool { return active }

// Proc returns the process attached to the running simulation.
func Proc() interface{} {
	if sim == nil {
		return nil
	}
	return sim.proc
}

// Cur returns the scheduler of the running process.
func Cur() *Sim { return sim }

// CurG returns the number of the running goroutine.
func CurG() int {
	if sim == nil || sim.cur == nil {
		return 0
	}
	return sim.cur.ID
}

type pkgReset struct {
	path string
	f    func()
}

type tool struct {
	main func()
	deps map[string]bool
}

var pkgs []pkgReset
var tools = map[string]*tool{}

// RegisterPkg adds a package whose state is reset for every process, in import order.
func RegisterPkg(path string, f func()) { pkgs = append(pkgs, pkgReset{path, f}) }

// RegisterTool adds a command and the packages it consists of.
func RegisterTool(name string, f func(), deps string) {
	t := &tool{main: f, deps: map[string]bool{}}
	for _, d := range strings.Fields(deps) {
		t.deps[d] = true
	}
	tools[name] = t
}

// Tools lists the commands.
func Tools() []string {
	var s []string
	for n := range tools {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

// Main is what the simulated process of a command executes: package initialisation, then main.
// An empty name initialises every package that is not a command.
func Main(name string) func() {
	if name == "" {
		cmd := map[string]bool{}
		for n := range tools {
			cmd["github.com/bazelbuild/buildtools/"+n] = true
		}
		return func() {
			for _, p := range pkgs {
				if !cmd[p.path] {
					p.f()
				}
			}
		}
	}
	t := tools[name]
	if t == nil {
		return nil
	}
	return func() {
		for _, p := range pkgs {
			if t.deps[p.path] {
				p.f()
			}
		}
		t.main()
	}
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

const chunk = 4096

// Run executes f as the main goroutine of a simulated process and returns when the process ended.
func Run(cfg Sched, proc interface{}, onDead func(), f func()) *Sim {
	if sim != nil {
		panic("simrt: nested Run")
	}
	if cfg.MaxStep == 0 {
		cfg.MaxStep = 60_000_000
	}
	if cfg.MaxCall == 0 {
		cfg.MaxCall = 400_000
	}
	s := &Sim{Cfg: cfg, rng: NewRng(Mix(cfg.Seed, 1)), lat: NewRng(Mix(cfg.Seed, 2)), short: NewRng(Mix(cfg.Seed, 6)), dec: NewRng(Mix(cfg.Seed, 4)), qua: NewRng(Mix(cfg.Seed, 5)), mapRng: NewRng(Mix(cfg.MapSeed, 3)),
		Taken: map[int]int{}, chans: map[uintptr]*hchan{}, toCtl: make(chan struct{}), stopped: make(chan struct{}), proc: proc, OnDead: onDead}
	s.steps = cfg.MaxStep
	s.quantum = s.nextQuantum()
	if cfg.Policy == "pct" {
		s.changeAt = map[int]bool{}
		for i := 0; i < cfg.Depth; i++ {
			s.changeAt[s.rng.Intn(200)] = true
		}
		s.prioLow = 1 << 20
	}
	races0 := raceErrors()
	sim = s
	left = chunk
	g := s.newG()
	g.st = gReady
	go s.run(g, f)
	active = true
	raceDisable()
	s.cur = g
	g.wake <- struct{}{}
	// serve requests until the process ended
	for {
		<-s.toCtl
		if RaceOn {
			// the goroutine that stopped happened before what the controller does, but not the other way
			raceEnable()
			raceAcquire(unsafe.Pointer(&procSync))
			raceDisable()
		}
		if s.over {
			break
		}
		s.ctlReq()
		s.ctlReq = nil
		next := s.pick()
		if next == nil {
			break
		}
		s.cur = next
		next.wake <- struct{}{}
	}
	raceEnable()
	s.races = raceErrors() - races0
	// unwind what is left; a dead process has no effects any more
	s.dead = true
	s.over = true
	raceDisable()
	for _, g := range s.gs {
		if g.st != gDone {
			if g.st == gEmbryo {
				// its go statement may never have been reached
				continue
			}
			s.cur = g
			g.wake <- struct{}{}
			<-s.stopped
		}
	}
	raceEnable()
	// what this process did happened before the next process
	raceAcquire(unsafe.Pointer(&procSync))
	active = false
	sim = nil
	return s
}

// Races is the number of data races reported during the run.
func (s *Sim) Races() int { return s.races }

// Now is the simulated time in nanoseconds since the start of the process.
func (s *Sim) Now() int64 { return s.now }

func (s *Sim) newG() *G {
	g := &G{ID: len(s.gs), wake: make(chan struct{})}
	g.prio = s.rng.Uint64()>>1 | 1<<40
	s.gs = append(s.gs, g)
	s.Spawned++
	return g
}

func (s *Sim) nextQuantum() int64 {
	if s.Cfg.Quantum <= 0 {
		return 2_000_000
	}
	return int64(1 + s.qua.Intn(2*s.Cfg.Quantum))
}

// run is the body of the real goroutine behind g.
func (s *Sim) run(g *G, f func()) {
	normal := false
	defer func() {
		if !normal && !s.dead {
			if r := recover(); r != nil {
				s.recordPanic(r)
			}
		} else if !normal {
			recover()
		}
		s.finish(g)
	}()
	raceDisable()
	<-g.wake
	raceEnable()
	if s.dead {
		return
	}
	f()
	normal = true
}

func (s *Sim) recordPanic(r interface{}) {
	s.Panic = fmt.Sprint(r)
	st := string(debug.Stack())
	// keep the frames of the code under test
	var keep []string
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.Contains(l, "buildtools/") && !strings.Contains(l, "/zsim/") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "created by") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			_ = i
			keep = append(keep, strings.TrimPrefix(l, "github.com/bazelbuild/buildtools/"))
		}
	}
	if len(keep) > 6 {
		keep = keep[:6]
	}
	s.PanicAt = strings.Join(keep, " < ")
}

// procSync is the address of the happens-before edges from the goroutines to the controller, and so from
// one process to the next one. The controller never releases it: goroutines are not ordered by it.
var procSync byte

// finish ends goroutine g; the real goroutine terminates afterwards.
func (s *Sim) finish(g *G) {
	raceRelease(unsafe.Pointer(&procSync))
	raceDisable()
	defer raceEnable()
	if s.dead {
		g.st = gDone
		s.stopped <- struct{}{}
		return
	}
	if s.Panic != "" || g.ID == 0 {
		// the process ends: panic, or return from main
		g.st = gDone
		s.die()
		return
	}
	s.ctlReq = func() { g.st = gDone; s.hash(uint64(g.ID), 99) }
	s.toCtl <- struct{}{}
}

func (s *Sim) die() {
	if s.OnDead != nil {
		s.OnDead()
	}
	s.over = true
	s.toCtl <- struct{}{}
}

// Kill ends the process at this point; nothing it does afterwards has an effect.
// It must be called by the running goroutine and does not return.
func Kill() {
	s := sim
	if s == nil {
		panic("simrt: Kill outside a simulation")
	}
	if !s.dead {
		s.cur.st = gDone
		s.killing()
	}
	runtime.Goexit()
}

func (s *Sim) killing() {
	g := s.cur
	raceRelease(unsafe.Pointer(&procSync))
	raceDisable()
	// the goroutine is unwound by the controller like all others
	g.st = gReady
	if s.OnDead != nil {
		s.OnDead()
	}
	s.over = true
	s.toCtl <- struct{}{}
	<-g.wake
	raceEnable()
}

func (s *Sim) hash(vs ...uint64) {
	for _, v := range vs {
		s.SchedHash = (s.SchedHash ^ v) * 1099511628211
	}
}

// op is a scheduling point: f runs with exclusive access to the simulator's state and may block the
// running goroutine by changing its state.
func op(f func(g *G)) {
	s := sim
	if s.dead {
		runtime.Goexit()
	}
	g := s.cur
	raceRelease(unsafe.Pointer(&procSync))
	raceDisable()
	if RaceOn {
		s.ctlReq = func() { f(g) }
		s.toCtl <- struct{}{}
		<-g.wake
	} else {
		f(g)
		next := s.pick()
		if next == nil {
			s.over = true
			s.toCtl <- struct{}{}
			<-g.wake
		} else if next != g {
			s.cur = next
			next.wake <- struct{}{}
			<-g.wake
		}
	}
	raceEnable()
	if s.dead {
		runtime.Goexit()
	}
}

// Do runs f with exclusive access to simulated state, without a scheduling decision.
func Do(f func()) {
	s := sim
	if s == nil {
		f()
		return
	}
	if s.dead {
		runtime.Goexit()
	}
	if !RaceOn {
		f()
		return
	}
	op2(f)
}

func op2(f func()) {
	s := sim
	g := s.cur
	raceRelease(unsafe.Pointer(&procSync))
	raceDisable()
	keep := false
	s.ctlReq = func() { f(); keep = true; s.ctlPark = true }
	s.toCtl <- struct{}{}
	<-g.wake
	_ = keep
	raceEnable()
	if s.dead {
		runtime.Goexit()
	}
}

// pick chooses the next goroutine to run.
func (s *Sim) pick() *G {
	if s.ctlPark {
		s.ctlPark = false
		return s.cur
	}
	for {
		var ready []*G
		if s.cur != nil && s.cur.st == gReady {
			ready = append(ready, s.cur)
		}
		var rest []*G
		for _, g := range s.gs {
			if g != s.cur && g.st == gReady {
				rest = append(rest, g)
			}
		}
		sort.SliceStable(rest, func(i, j int) bool { return rest[i].seq < rest[j].seq })
		ready = append(ready, rest...)
		if len(ready) > s.MaxReady {
			s.MaxReady = len(ready)
		}
		if len(ready) > 0 {
			i := 0
			if len(ready) > 1 {
				i = s.decide(ready)
				if i != 0 {
					s.Taken[s.Decisions] = i
				}
				s.Decisions++
			}
			if ready[i] != s.cur {
				s.Switches++
				s.seq++
				if s.cur != nil {
					s.cur.seq = s.seq
				}
				s.hash(uint64(ready[i].ID), uint64(s.Calls))
			}
			return ready[i]
		}
		// nothing can run: advance the clock
		var next *G
		for _, g := range s.gs {
			if g.st == gSleeping && (next == nil || g.until < next.until || g.until == next.until && g.seq < next.seq) {
				next = g
			}
		}
		if next == nil {
			if s.repoll() {
				continue
			}
			var w []string
			for _, g := range s.gs {
				if g.st == gBlocked {
					w = append(w, fmt.Sprintf("g%d: %s", g.ID, g.why))
				}
			}
			s.Deadlock = strings.Join(w, "; ")
			if s.OnDead != nil {
				s.OnDead()
			}
			return nil
		}
		if next.until > s.now {
			s.now = next.until
		}
		next.st = gReady
	}
}

func (s *Sim) decide(ready []*G) int {
	switch s.Cfg.Policy {
	case "random":
		return s.dec.Intn(len(ready))
	case "pct":
		if s.changeAt[s.Decisions] {
			s.prioLow--
			ready[0].prio = s.prioLow
		}
		b := 0
		for i, g := range ready {
			if g.prio > ready[b].prio {
				b = i
			}
		}
		return b
	case "list":
		if c, ok := s.Cfg.Choices[s.Decisions]; ok && c < len(ready) {
			return c
		}
		return 0
	}
	return 0
}

// Y is a yield point; the transformer puts one at the start of every function and loop body.
func Y() {
	if !active {
		return
	}
	left--
	if left <= 0 {
		ySlow()
	}
}

func ySlow() {
	s := sim
	if s == nil {
		return
	}
	if s.dead {
		left = chunk
		runtime.Goexit()
	}
	s.steps -= chunk
	left = chunk
	if s.Cfg.Quantum > 0 && s.Cfg.Quantum < chunk {
		// account in smaller pieces when preemption is fine grained
		left = int64(s.Cfg.Quantum)
		s.steps += chunk - left
	}
	s.quantum -= left
	if s.steps <= 0 {
		s.hang("no end after " + fmt.Sprint(s.Cfg.MaxStep) + " steps")
	}
	if s.steps%(1<<16) < chunk {
		var pc [1]uintptr
		if runtime.Callers(200_000, pc[:]) > 0 {
			s.hang("recursion deeper than 200000 frames")
		}
	}
	if s.quantum <= 0 {
		op(func(g *G) {
			s.quantum = s.nextQuantum()
			s.hash(uint64(g.ID), 7)
		})
	}
}

func (s *Sim) hang(why string) {
	s.Hang = why
	Kill()
}

// Point is a scheduling point before a system call; with latencies configured the goroutine is
// suspended for a random simulated time.
func Point() {
	s := sim
	if s == nil {
		return
	}
	op(func(g *G) {
		s.Calls++
		if s.Cfg.Latency > 0 {
			// mostly short, sometimes very long
			d := int64(s.lat.Intn(2*s.Cfg.Latency) + 1)
			if s.lat.Intn(10) == 0 {
				d *= int64(10 + s.lat.Intn(100))
			}
			s.sleep(g, d*1000)
		}
	})
	if s.Calls > s.Cfg.MaxCall {
		s.hang("more than " + fmt.Sprint(s.Cfg.MaxCall) + " system calls")
	}
}

func (s *Sim) sleep(g *G, ns int64) {
	s.seq++
	g.st = gSleeping
	g.until = s.now + ns
	g.seq = s.seq
	g.why = "sleep"
}

// Sleep suspends the running goroutine.
func Sleep(ns int64) {
	s := sim
	if s == nil {
		return
	}
	if ns <= 0 {
		Yield()
		return
	}
	op(func(g *G) { s.sleep(g, ns) })
}

// Yield lets the scheduler choose.
func Yield() {
	if sim == nil {
		return
	}
	op(func(g *G) {})
}

// Nano is the simulated wall clock.
func Nano() int64 {
	if sim == nil {
		return 1_600_000_000_000_000_000
	}
	base := sim.Cfg.Clock
	if base == 0 {
		base = 1_600_000_000
	}
	return base*1_000_000_000 + sim.now
}

// block suspends g until ready is called for it.
func (s *Sim) block(g *G, why string) {
	g.st = gBlocked
	g.why = why
}

func (s *Sim) ready(g *G) {
	if g.st == gBlocked {
		s.seq++
		g.st = gReady
		g.seq = s.seq
	}
}

// WaitUntil blocks until cond holds; cond is evaluated whenever Wake is called for the same key.
type WaitQ struct{ gs []*G }

// Wait blocks the running goroutine on q.
func (q *WaitQ) Wait(why string) {
	s := sim
	op(func(g *G) { q.gs = append(q.gs, g); s.block(g, why) })
}

// WakeAll makes every waiting goroutine runnable.
func (q *WaitQ) WakeAll() {
	if sim == nil {
		return
	}
	Do(func() {
		for _, g := range q.gs {
			sim.ready(g)
		}
		q.gs = nil
	})
}

// WakeOne makes the longest waiting goroutine runnable.
func (q *WaitQ) WakeOne() {
	if sim == nil {
		return
	}
	Do(func() {
		if len(q.gs) > 0 {
			sim.ready(q.gs[0])
			q.gs = q.gs[1:]
		}
	})
}

// Rand is the process' own random source (math/rand and friends).
func Rand() uint64 {
	if sim == nil {
		return 4
	}
	return sim.mapRng.Uint64()
}

// Wrap registers a new goroutine and returns f wrapped so that it runs under the scheduler.
func Wrap[F any](f F) F {
	if sim == nil || sim.dead {
		return f
	}
	s := sim
	g := embryo()
	fv := reflect.ValueOf(f)
	w := reflect.MakeFunc(fv.Type(), func(args []reflect.Value) []reflect.Value {
		s.run(g, func() {
			if fv.Type().IsVariadic() {
				fv.CallSlice(args)
			} else {
				fv.Call(args)
			}
		})
		return nil
	})
	return w.Interface().(F)
}

func embryo() (g *G) {
	Do(func() { g = sim.newG(); g.st = gEmbryo })
	return g
}

// Started makes goroutines whose go statement has been executed runnable.
func Started() {
	if sim == nil {
		return
	}
	s := sim
	op(func(cur *G) {
		for _, g := range s.gs {
			if g.st == gEmbryo {
				s.seq++
				g.seq = s.seq
				g.st = gReady
			}
		}
	})
}

// Spawn starts f as a goroutine; for harness code.
func Spawn(f func()) {
	s := sim
	if s == nil {
		panic("simrt: Spawn outside a simulation")
	}
	var g *G
	Do(func() { g = s.newG(); g.st = gEmbryo })
	go s.run(g, f)
	Started()
}

// Quiet and Loud enclose library calls whose internal synchronisation says nothing about the program.
func Quiet() { raceDisable() }
func Loud()  { raceEnable() }

// ShortRead returns the number of bytes the current read may return, or -1.
func (s *Sim) ShortRead() int {
	if s.Cfg.Short == 0 || s.short.Intn(100) >= s.Cfg.Short {
		return -1
	}
	return 1 + s.short.Intn(1<<uint(s.short.Intn(13)))
}
