// Package simrt is the runtime of the simulator: it decides which of the
// simulated tasks runs between any two statements of the instrumented code.
//
// Tasks are goroutines, but exactly one of them, the holder of the token,
// runs at any time; it hands the token over in Y, which the instrumenter
// inserts in front of every statement of the code under test. Handing over
// is hidden from the race detector (raceOff/raceOn), so that in a race build
// two accesses are reported as a race unless the code under test itself
// orders them, even though here they never run at the same time.
//
// This package is compiled without race instrumentation, see check.py.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

const (
	stRun     = iota // may be chosen
	stBlocked        // waits for a simulated lock
	stStalled        // parked by the plan until nothing else can run
	stSleep          // until a point in simulated time
	stDone
)

// A Task is a simulated caller thread.
type Task struct {
	ID      int
	User    any
	wake    chan struct{}
	state   int
	on      uintptr
	dying   bool
	mapCtr  uint64
	noPre   int
	Child   bool // started by the code under test
	site    uint32
	ranOnce bool
	until   time.Duration
	steps   int
}

// Seg is one piece of a schedule: task T runs N yields, or until it stops if
// N is negative.
type Seg struct {
	T int `json:"t"`
	N int `json:"n"`
}

// Mode is how a schedule is generated.
type Mode struct {
	Kind string `json:"kind"` // geo, call, bias, pct, seq
	Mean int    `json:"mean,omitempty"`
	Bias uint64 `json:"bias,omitempty"`
	Mod  int    `json:"mod,omitempty"`
	Pts  []int  `json:"pts,omitempty"`
}

// Config of a run.
type Config struct {
	Seed     uint64
	Carry    bool // time goes on where it was after the last run
	Mode     Mode
	Replay   []Seg // if HaveReplay, the schedule to follow
	HaveSegs bool
	MaxSteps int
	Antlr    bool // statements of the parser runtime are yield points
	MapOrder int  // 0 sorted, 1 reversed, 2 shuffled anew at every range
}

// Result of a run.
type Result struct {
	Segs         []Seg
	Steps        int
	Switches     int
	Deadlock     string
	StepLimit    bool
	StallBlocked string // tasks that waited for a stalled one
	Escaped      []string
	Hash         uint64
	Spawned      int
	Leaked       int // goroutines of the code under test that never ended
	Stalls       int
	Blocks       int
}

type sched struct {
	cfg     Config
	rng     *RNG
	tasks   []*Task
	cur     *Task
	left    int // yields until the next planned switch
	ran     int // yields in the present segment
	segIx   int
	ptIx    int
	res     Result
	killing bool
	wg      sync.WaitGroup
	over    chan struct{}

	meetings *meeting
	sleepers int
	due      time.Duration // nothing is due before
	timers   []*timer
	waking   bool
	jumps    int  // over time
	ending   bool // all callers are done
}

var (
	active bool
	s      *sched
	// Hits counts how often each statement was passed.
	Hits [1 << 17]uint32
	// SwitchAt counts switches at each statement.
	SwitchAt [1 << 17]uint32
	// progress is read by the watchdog.
	progress uint64
)

// Progress is a counter that moves while simulated code moves.
//
//go:noinline
func Progress() uint64 { return progress }

// Active tells whether a simulation is running.
//
//go:noinline
func Active() bool { return active }

// Dying tells if the run is being ended: the running task is on its way out.
//
//go:noinline
func Dying() bool { return active && s.cur.dying }

// Cur is the running task, nil outside simulations.
//
//go:noinline
func Cur() *Task {
	if !active {
		return nil
	}
	return s.cur
}

// Steps is the logical clock.
//
//go:noinline
func Steps() int {
	if s == nil {
		return 0
	}
	return s.res.Steps
}

// OwnSteps is how many steps the running task has made.
//
//go:noinline
func OwnSteps() int {
	if !active {
		return 0
	}
	return s.cur.steps
}

// Y is a yield point, inserted before each statement of the code under test.
//
//go:noinline
func Y(site uint32) {
	if !active {
		return
	}
	yield(site, false, false)
}

// YA is Y for the statements of the parser runtime.
//
//go:noinline
func YA(site uint32) {
	if !active || !s.cfg.Antlr {
		return
	}
	yield(site, false, false)
}

// YM is a yield point at a call of the document model or of a callback.
//
//go:noinline
func YM(site uint32) {
	if !active {
		return
	}
	yield(site, true, false)
}

//go:noinline
func yield(site uint32, call, force bool) {
	t := s.cur
	if t.dying {
		return
	}
	progress++
	s.res.Steps++
	t.steps++
	t.site = site
	Hits[site&(1<<17-1)]++
	if s.res.Steps > s.cfg.MaxSteps {
		s.res.StepLimit = true
		s.killing = true
	}
	if s.killing {
		t.dying = true
		runtime.Goexit()
	}
	if s.sleepers > 0 || len(s.timers) > 0 {
		s.wakeSleepers()
	}
	if t.noPre > 0 {
		return
	}
	s.ran++
	if s.cfg.HaveSegs {
		if s.left > 0 {
			s.left--
			if s.left == 0 {
				s.preempt(t)
			}
		}
		return
	}
	sw := force
	switch s.cfg.Mode.Kind {
	case "geo":
		s.left--
		sw = sw || s.left <= 0
	case "call":
		if call {
			s.left--
			sw = sw || s.left <= 0
		}
	case "bias":
		s.left--
		sw = sw || s.left <= 0
		if !sw && Mix(s.cfg.Mode.Bias, uint64(site))%uint64(s.cfg.Mode.Mod) == 0 {
			sw = s.rng.P(0.5)
		}
	case "pct":
		if s.ptIx < len(s.cfg.Mode.Pts) && s.res.Steps >= s.cfg.Mode.Pts[s.ptIx] {
			s.ptIx++
			sw = true
		}
	}
	if sw {
		s.preempt(t)
	}
}

//go:noinline
func (s *sched) newLeft() int {
	switch s.cfg.Mode.Kind {
	case "geo", "call", "bias":
		return s.rng.Geo(s.cfg.Mode.Mean)
	}
	return 1 << 60
}

//go:noinline
func (s *sched) runnable(not *Task) int {
	n := 0
	for _, t := range s.tasks {
		if t.state == stRun && t != not {
			n++
		}
	}
	return n
}

// choose picks the next task; nil if none can run.
//
//go:noinline
func (s *sched) choose(not *Task) *Task {
	if s.cfg.HaveSegs {
		if s.runnable(nil) == 0 {
			return nil
		}
		for s.segIx < len(s.cfg.Replay) {
			g := s.cfg.Replay[s.segIx]
			s.segIx++
			if g.N == 0 {
				continue
			}
			if g.T >= 0 && g.T < len(s.tasks) && s.tasks[g.T].state == stRun {
				s.left = g.N
				return s.tasks[g.T]
			}
		}
		s.left = -1
		if not != nil && not.state == stRun {
			return not
		}
		for _, t := range s.tasks {
			if t.state == stRun {
				return t
			}
		}
		return nil
	}
	n := s.runnable(not)
	if n == 0 {
		if not != nil && not.state == stRun {
			return not
		}
		return nil
	}
	k := s.rng.N(n)
	for _, t := range s.tasks {
		if t.state == stRun && t != not {
			if k == 0 {
				s.left = s.newLeft()
				return t
			}
			k--
		}
	}
	panic("simrt: choose")
}

//go:noinline
func (s *sched) record(t *Task, n int) {
	s.res.Segs = append(s.res.Segs, Seg{T: t.ID, N: n})
	s.res.Hash = Mix(s.res.Hash, uint64(t.ID), uint64(t.site), uint64(n))
}

// preempt moves the token from t, which could go on.
//
//go:noinline
func (s *sched) preempt(t *Task) {
	if !s.cfg.HaveSegs && s.runnable(t) == 0 {
		s.left = s.newLeft()
		return
	}
	n := s.choose(t)
	if n == t {
		return
	}
	s.record(t, s.ran)
	s.res.Switches++
	SwitchAt[t.site&(1<<17-1)]++
	s.handover(t, n)
}

//go:noinline
func (s *sched) handover(from, to *Task) {
	s.ran = 0
	s.cur = to
	raceOff()
	to.wake <- struct{}{}
	<-from.wake
	raceOn()
	if s.killing && !from.dying {
		from.dying = true
		runtime.Goexit()
	}
}

// next is choose for a task that cannot go on: it resolves stalls and detects
// deadlocks.
//
//go:noinline
func (s *sched) next() *Task {
	n := s.choose(nil)
	if n != nil {
		return n
	}
	var blocked []*Task
	var sleeping *Task // for long, while others cannot go on
	callers, stalled := false, 0
	for _, t := range s.tasks {
		if t.state == stStalled {
			stalled++
		}
		if t.state == stSleep && !t.Child && s.jumps >= 100 {
			sleeping = t
		}
		if t.state == stBlocked {
			blocked = append(blocked, t)
		}
		callers = callers || t.state != stDone && !t.Child
	}
	if s.sleepers > 0 || len(s.timers) > 0 {
		limit, far := 100000, 1<<62-elapsed()
		switch {
		case !callers:
			// what is left may take a second, 50 times
			if !s.ending {
				s.ending, s.jumps = true, 0
			}
			limit, far = 50, time.Second
		case stalled > 0:
			limit = 100
		}
		for s.jumps < limit && s.jump(far) {
			s.jumps++
			if n := s.choose(nil); n != nil {
				return n
			}
		}
		if !callers || stalled == 0 {
			for _, t := range s.tasks {
				if t.state == stSleep {
					blocked = append(blocked, t)
				}
			}
		}
	}
	if !callers && len(blocked) > 0 {
		// left behind by the code under test, when all callers are done
		s.res.Leaked = len(blocked)
		s.killing = true
		return blocked[0]
	}
	for _, t := range s.tasks {
		if t.state == stStalled {
			if len(blocked) > 0 && s.res.StallBlocked == "" {
				s.res.StallBlocked = fmt.Sprintf("task %d cannot go on while task %d is stalled", blocked[0].ID, t.ID)
			}
			if sleeping != nil && s.res.StallBlocked == "" {
				s.res.StallBlocked = fmt.Sprintf("task %d sleeps and wakes without end while task %d is stalled", sleeping.ID, t.ID)
			}
			s.jumps = 0
			t.state = stRun
			return s.choose(nil)
		}
	}
	if len(blocked) > 0 {
		ids := []int{}
		for _, t := range blocked {
			ids = append(ids, t.ID)
		}
		s.res.Deadlock = fmt.Sprintf("tasks %v wait for each other", ids)
		s.killing = true
		return blocked[0]
	}
	return nil
}

// wait parks the current task, whose state is no longer stRun.
//
//go:noinline
func (s *sched) wait(t *Task) {
	s.record(t, -1)
	n := s.next()
	if n == t {
		s.ran = 0
		if s.killing {
			t.dying = true
			runtime.Goexit()
		}
		return
	}
	s.handover(t, n)
}

// Block parks the current task until WakeAll(key).
//
//go:noinline
func Block(key uintptr) {
	t := s.cur
	if t.dying {
		runtime.Goexit()
	}
	progress++
	s.res.Blocks++
	t.state = stBlocked
	t.on = key
	s.wait(t)
	t.state = stRun
}

// WakeAll makes the tasks that are parked on key runnable.
//
//go:noinline
func WakeAll(key uintptr) {
	if !active {
		return
	}
	for _, t := range s.tasks {
		if t.state == stBlocked && t.on == key {
			t.state = stRun
		}
	}
}

// Stall parks the current task until no other task can run.
//
//go:noinline
func Stall() {
	if !active || s.cur.dying {
		return
	}
	t := s.cur
	s.res.Stalls++
	t.state = stStalled
	s.wait(t)
	t.state = stRun
}

// Abort ends the run: the present task and all others exit.
//
//go:noinline
func Abort() {
	if !active || s.cur.dying {
		return
	}
	s.killing = true
	s.cur.dying = true
	runtime.Goexit()
}

// Pause hands the token to another runnable task, if there is one, as a
// planned event: a delay.
//
//go:noinline
func Pause() {
	if !active {
		return
	}
	yield(9, true, true)
}

// NoPreempt brackets harness code that must not be interrupted.
//
//go:noinline
func NoPreempt(d int) {
	if active {
		s.cur.noPre += d
	}
}

// Go starts a task for a go statement of the code under test.
//
//go:noinline
func Go(f func()) {
	if !active {
		go f()
		return
	}
	t := &Task{ID: len(s.tasks), wake: make(chan struct{}, 1), Child: true, User: s.cur.User}
	s.tasks = append(s.tasks, t)
	s.res.Spawned++
	s.start(t, f)
}

//go:noinline
func (s *sched) start(t *Task, f func()) {
	s.wg.Add(1)
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		defer s.finish(t)
		defer func() {
			if r := recover(); r != nil {
				s.res.Escaped = append(s.res.Escaped, fmt.Sprintf("task %d: panic: %v\n%s", t.ID, r, debug.Stack()))
			}
		}()
		if s.killing {
			t.dying = true
			return
		}
		f()
	}()
}

//go:noinline
func (s *sched) finish(t *Task) {
	t.state = stDone
	t.dying = true
	var n *Task
	if s.killing {
		for _, x := range s.tasks {
			if x.state != stDone {
				n = x
				break
			}
		}
	} else {
		s.record(t, -1)
		n = s.next()
	}
	s.wg.Done()
	s.ran = 0
	raceOff()
	if n == nil {
		s.over <- struct{}{}
	} else {
		s.cur = n
		n.wake <- struct{}{}
	}
	raceOn()
}

// Run runs fns as tasks 0..n-1 to completion.
//
//go:noinline
func Run(cfg Config, users []any, fns []func()) *Result {
	before := s
	then := time.Duration(0)
	if cfg.Carry && before != nil {
		then = elapsed()
	}
	s = &sched{cfg: cfg, rng: NewRNG(Mix(cfg.Seed, 77)), over: make(chan struct{}, 1), due: 1<<63 - 1}
	if cfg.Carry && before != nil {
		s.timers, s.due = before.timers, 0
	}
	for i := range fns {
		s.tasks = append(s.tasks, &Task{ID: i, wake: make(chan struct{}, 1), User: users[i]})
	}
	for i, f := range fns {
		s.start(s.tasks[i], f)
	}
	slept = then
	first := s.choose(nil)
	s.cur = first
	active = true
	raceOff()
	first.wake <- struct{}{}
	<-s.over
	raceOn()
	active = false
	s.wg.Wait() // orders what the tasks did before what follows
	return &s.res
}

// Forget lets go of what the last run recorded.
//
//go:noinline
func Forget() {
	s.tasks, s.res.Segs = nil, nil
}

// SetMapSeed sets what the order of map iteration outside runs depends on.
//
//go:noinline
func SetMapSeed(seed uint64, order int) {
	idleSeed, idleCtr, idleOrder = seed, 0, order
}

var (
	idleSeed, idleCtr uint64
	idleOrder         int
)

//go:noinline
func mapOrder() (int, *RNG) {
	if active {
		s.cur.mapCtr++
		return s.cfg.MapOrder, NewRNG(Mix(s.cfg.Seed, 5, uint64(s.cur.ID), s.cur.mapCtr))
	}
	idleCtr++
	return idleOrder, NewRNG(Mix(idleSeed, 6, idleCtr))
}
