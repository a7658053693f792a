// Package simrt is the deterministic simulator's runtime. The instrumented
// copy of the library under test calls into it at every synchronisation
// operation, every access to memory another task could reach, every loop
// iteration and every map iteration. Exactly one task runs at any time; which
// one runs next is decided here, by the run's Strategy, and nowhere else.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Point kinds: what a task was about to do when it could be preempted.
const (
	KRead = iota
	KWrite
	KLoop
	KLock
	KUnlock
	KCallback
	KOp
	KAtomic
	KChan
	KForced
)

type taskState int

const (
	tRunnable taskState = iota
	tBlocked
	tSleeping
	tDone
)

// Task is one simulated caller thread.
type Task struct {
	ID      int
	Name    string
	state   taskState
	wake    chan struct{}
	vc      vclock
	Steps   int // points this task has passed
	waitWhy string
	wakeAt  int64
	mapIter int
	lent    []loan
	OpUID   int  // operation the task is executing, or executed last
	OpBase  int  // Steps when that operation started
	Budget  int  // steps the operation may take (0: no limit)
	held    int  // simulated locks held, any mode
	stalled bool // frozen by the stall fault
	fault   bool // asleep because of an injected stall in caller code
	exited  chan struct{}
	gotVal  any // what its last channel operation received
	gotOK   bool
	lib     bool // a goroutine of the library, not a caller
}

// Switch is one scheduling decision: while task From executed operation Op,
// at the operation's own step Step, control went to task To. Forced switches
// happen because From could not continue.
type Switch struct {
	From   int    `json:"from"`
	Op     int    `json:"op"`
	Step   int    `json:"step"`
	To     int    `json:"to"`
	Forced bool   `json:"forced,omitempty"`
	At     string `json:"at,omitempty"`
	Kind   int    `json:"-"`
	Site   int    `json:"-"`
}

// Strategy decides every interleaving.
type Strategy interface {
	// Preempt is asked at every point; it returns the task to run next
	// (cur to go on). runnable always contains cur.
	Preempt(s *Sim, cur *Task, runnable []*Task, kind int) *Task
	// Next is asked when cur cannot continue; runnable is not empty.
	Next(s *Sim, cur *Task, runnable []*Task) *Task
}

// Fatal outcome classes.
const (
	OutDeadlock = "deadlock"
	OutNoProg   = "no-progress"
	OutFatal    = "fatal"
	OutRace     = "race"
	OutPanic    = "panic"
	OutHarness  = "harness"
)

// Outcome is set when a run cannot continue or an invariant broke.
type Outcome struct {
	Class  string
	Detail string
}

// Sim is one simulated execution.
type Sim struct {
	tasks     []*Task
	cur       *Task
	Steps     int
	MaxSteps  int
	Strat     Strategy
	Trace     []Switch
	Seq       int // global event sequence number
	Now       int64
	MapSeed   uint64
	RaceOn    bool
	shadow    map[uintptr]*cell
	extShadow map[extKey]*cell

	keep     []any
	races    []RaceReport
	syncs    map[any]*syncState
	Out      *Outcome
	aborting bool
	main     chan struct{}
	digest   uint64
	Counts   [16]int
	Preempts int
	curSite  int
	pending  int // callers that have not finished
	libs     int // goroutines of the library that have not finished
	rngState uint64
	timers   int
	rbuf     []*Task
	phase0   int // first task of the current phase
	AtomicN  int
}

// S is the active simulation, nil outside one.
var S *Sim

// NewSim prepares a simulation; it becomes the active one.
func NewSim(strat Strategy, maxSteps int, mapSeed uint64, raceOn bool) *Sim {
	s := &Sim{
		MaxSteps: maxSteps,
		Strat:    strat,
		MapSeed:  mapSeed,
		RaceOn:   raceOn,
		main:     make(chan struct{}),
		digest:   14695981039346656037,
		rngState: mapSeed ^ 0x9e3779b97f4a7c15,
	}
	if raceOn {
		s.shadow = map[uintptr]*cell{}
	}
	S = s
	return s
}

// Close ends the simulation.
func (s *Sim) Close() {
	if s.libs > 0 && !s.aborting {
		s.reap() // what the library leaves running
	}
	if S == s {
		S = nil
	}
}

// Cur is the running task.
func (s *Sim) Cur() *Task { return s.cur }

// Digest is a hash over every event of the run so far.
func (s *Sim) Digest() uint64 { return s.digest }

func (s *Sim) mix(x uint64) {
	s.digest = (s.digest ^ x) * 1099511628211
	s.digest ^= s.digest >> 29
}

// Mix folds a harness-level event into the digest.
func (s *Sim) Mix(x uint64) { s.mix(x) }

// NextSeq stamps an event.
func (s *Sim) NextSeq() int { s.Seq++; return s.Seq }

// Phase runs the given functions as concurrent tasks to completion (or until
// the run is aborted). Successive phases are ordered: everything in one phase
// happens before everything in the next.
func (s *Sim) Phase(names []string, fns []func()) {
	if s.Out != nil {
		return
	}
	var join vclock
	for _, t := range s.tasks {
		join = join.join(t.vc)
	}
	var started []*Task
	s.phase0 = len(s.tasks)
	for i, f := range fns {
		started = append(started, s.newTask(names[i], join, f))
	}
	if len(started) == 0 {
		return
	}
	s.pending = len(started)
	first := started[0]
	if len(started) > 1 {
		first = s.Strat.Next(s, nil, started)
	}
	s.Trace = append(s.Trace, Switch{From: -1, To: first.ID, Forced: true, Kind: KForced})
	s.cur = first
	first.wake <- struct{}{}
	<-s.main
	if s.Out != nil {
		s.reap()
	}
}

func (s *Sim) newTask(name string, vc vclock, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	t.vc = vc.clone()
	t.vc = t.vc.set(t.ID, 1)
	s.tasks = append(s.tasks, t)
	go func() {
		defer close(t.exited)
		<-t.wake
		if s.aborting {
			t.state = tDone
			return
		}
		normal := false
		defer func() {
			if s.aborting {
				recover()
				t.state = tDone
				return
			}
			if !normal {
				if r := recover(); r != nil {
					if t.lib {
						s.fail(OutFatal, fmt.Sprintf("a goroutine the library started panicked, which ends the process: %v", r))
						t.state = tDone
						s.main <- struct{}{}
						return
					}
					s.fail(OutHarness, fmt.Sprintf("task %s panicked outside an operation: %v\n%s", t.Name, r, debug.Stack()))
					t.state = tDone
					s.main <- struct{}{}
					return
				}
				// a Goexit that was not caught by the harness: the task is gone
			}
			s.taskDone(t)
		}()
		f()
		normal = true
	}()
	return t
}

// Begin starts a new operation of the task: it settles what the last one left.
func (t *Task) Begin() {
	if S != nil && S.cur == t {
		S.settle()
	}
	t.lent = nil
}

func (s *Sim) taskDone(t *Task) {
	s.settle()
	t.state = tDone
	if t.lib {
		s.libs--
	} else {
		s.pending--
	}
	if s.pending == 0 && s.libs == 0 {
		s.main <- struct{}{}
		return
	}
	next, ok := s.next(t)
	if !ok && s.pending == 0 { // the library's goroutines wait for work
		s.main <- struct{}{}
		return
	}
	if !ok {
		s.fail(OutDeadlock, s.describeBlocked())
		s.main <- struct{}{}
		return
	}
	s.record(t, next, true, KForced, 0)
	s.cur = next
	next.wake <- struct{}{}
}

func (s *Sim) fail(class, detail string) {
	if s.Out == nil {
		s.Out = &Outcome{Class: class, Detail: detail}
	}
}

// Live is the number of tasks that have not finished and do not wait for a
// point in time.
func (s *Sim) Live() int {
	n := 0
	for _, t := range s.tasks {
		if t.state != tDone && t.state != tSleeping {
			n++
		}
	}
	return n
}

// reap unwinds every task that has not finished; their deferred calls run with
// the simulator inert.
func (s *Sim) reap() {
	s.aborting = true
	for _, t := range s.tasks {
		if t.state == tDone {
			continue
		}
		s.cur = t
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
}

// abortSelf is called on a task that hit a fatal outcome.
func (s *Sim) abortSelf() {
	t := s.cur
	s.main <- struct{}{}
	<-t.wake
	runtime.Goexit()
}

func (s *Sim) runnable() []*Task {
	r := s.rbuf[:0]
	for _, t := range s.tasks[s.phase0:] {
		if t.state == tRunnable {
			r = append(r, t)
		}
	}
	if s.libs > 0 {
		for _, t := range s.tasks[:s.phase0] {
			if t.lib && t.state == tRunnable {
				r = append(r, t)
			}
		}
	}
	s.rbuf = r
	return r
}

func (s *Sim) next(cur *Task) (*Task, bool) {
	r := s.runnable()
	if len(r) == 0 && s.pending == 0 {
		return nil, false
	}
	if len(r) == 0 {
		// nothing runnable: advance simulated time to the next sleeper
		var first *Task
		for _, t := range s.tasks {
			if t.state == tSleeping && (first == nil || t.wakeAt < first.wakeAt) {
				first = t
			}
		}
		if first == nil {
			return nil, false
		}
		if first.fault {
			// only callers that stalled inside their own code are left: whoever
			// still waits is blocked by them
			for _, t := range s.tasks {
				if t.state == tBlocked && !t.lib {
					return nil, false
				}
			}
		}
		if first.wakeAt > s.Now {
			s.Now = first.wakeAt
		}
		for _, t := range s.tasks {
			if t.state == tSleeping && t.wakeAt <= s.Now {
				t.state = tRunnable
			}
		}
		r = s.runnable()
	}
	if len(r) == 1 {
		return r[0], true
	}
	return s.Strat.Next(s, cur, r), true
}

func (s *Sim) record(from, to *Task, forced bool, kind, site int) {
	s.mix(uint64(from.ID)<<32 | uint64(from.Steps))
	s.mix(uint64(to.ID))
	s.Trace = append(s.Trace, Switch{From: from.ID, Op: from.OpUID, Step: from.Steps - from.OpBase, To: to.ID, Forced: forced, Kind: kind, Site: site})
}

// point is a place where the running task may be preempted.
func (s *Sim) point(kind, site int) {
	if s.aborting {
		return
	}
	t := s.cur
	if len(t.lent) > 0 {
		s.settle()
	}
	s.Steps++
	s.Now++
	t.Steps++
	s.curSite = site
	s.Counts[kind]++
	if s.Steps > s.MaxSteps {
		s.fail(OutNoProg, fmt.Sprintf("run exceeded %d simulated steps; task %s is at %s", s.MaxSteps, t.Name, SiteName(site)))
		s.abortSelf()
	}
	if t.Budget > 0 && t.Steps-t.OpBase > t.Budget {
		s.fail(OutNoProg, fmt.Sprintf("one operation of task %s exceeded %d steps of its own; it is at %s", t.Name, t.Budget, SiteName(site)))
		s.abortSelf()
	}
	if s.pending <= 1 && s.libs == 0 {
		return
	}
	r := s.runnable()
	if len(r) <= 1 {
		return
	}
	n := s.Strat.Preempt(s, t, r, kind)
	if n == nil || n == t {
		return
	}
	s.Preempts++
	s.record(t, n, false, kind, site)
	s.handoff(t, n)
}

func (s *Sim) handoff(from, to *Task) {
	s.cur = to
	to.wake <- struct{}{}
	<-from.wake
	if s.aborting {
		runtime.Goexit()
	}
}

// block parks the running task until unblock.
func (s *Sim) block(why string, site int) {
	t := s.cur
	t.state = tBlocked
	t.waitWhy = why + " at " + SiteName(site)
	n, ok := s.next(t)
	if !ok && s.pending == 0 { // a goroutine of the library, at a quiet moment
		s.main <- struct{}{}
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
		return
	}
	if !ok {
		s.fail(OutDeadlock, s.describeBlocked())
		s.abortSelf()
	}
	s.record(t, n, true, KForced, site)
	if n == t { // woken by the clock
		s.cur = t
		return
	}
	s.handoff(t, n)
}

func (s *Sim) unblock(t *Task) {
	if t.state == tBlocked {
		t.state = tRunnable
		t.waitWhy = ""
	}
}

func (s *Sim) describeBlocked() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.state == tBlocked {
			fmt.Fprintf(&b, "[%s waits for %s] ", t.Name, t.waitWhy)
		}
		if t.state == tSleeping {
			fmt.Fprintf(&b, "[%s is stalled in its own code] ", t.Name)
		}
	}
	return strings.TrimSpace(b.String())
}

// Fatal reports what the Go runtime would have killed the process for.
func (s *Sim) Fatal(msg string) {
	if s.aborting {
		return
	}
	s.fail(OutFatal, msg)
	s.abortSelf()
}

// Aborting tells whether the run is being torn down.
func (s *Sim) Aborting() bool { return s.aborting }

// Callback is a point inside caller-supplied code the library is running.
func Callback() {
	if S != nil {
		S.point(KCallback, 0)
	}
}

// OpPoint is a point between two operations of a task.
func OpPoint() {
	if S != nil {
		S.point(KOp, 0)
	}
}

// Tick is executed at the top of every loop iteration of the library.
func Tick(site int) {
	if s := S; s != nil && s.cur != nil {
		s.point(KLoop, site)
	}
}

// Sleep parks the running task for d units of simulated time.
func Sleep(d int64, site int) {
	s := S
	if s == nil || s.aborting || s.cur == nil {
		return
	}
	t := s.cur
	t.wakeAt = s.Now + d
	if d <= 0 {
		s.point(KOp, site)
		return
	}
	t.state = tSleeping
	t.waitWhy = "sleep"
	n, ok := s.next(t)
	if !ok && s.pending == 0 { // a goroutine of the library, at a quiet moment
		s.main <- struct{}{}
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
		return
	}
	if !ok {
		s.fail(OutDeadlock, s.describeBlocked())
		s.abortSelf()
	}
	s.record(t, n, true, KForced, site)
	if n == t {
		s.cur = t
		return
	}
	s.handoff(t, n)
}

// Stall parks the running task for d units of simulated time as a fault of the
// caller: nobody else may have to wait for it.
func Stall(d int64) {
	s := S
	if s == nil || s.aborting || s.cur == nil {
		return
	}
	t := s.cur
	t.fault = true
	defer func() { t.fault = false }()
	Sleep(d, 0)
}

// Go starts a goroutine of the library as a task.
func Go(f func()) {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: go statement outside a simulation")
	}
	if s.aborting {
		return
	}
	p := s.cur
	s.newTask(p.Name+"/go", p.vc, f).lib = true
	p.vc = p.vc.inc(p.ID)
	s.libs++
	s.point(KOp, 0)
}

// Rand is the seeded stream behind math/rand in instrumented code.
func Rand() uint64 {
	s := S
	if s == nil {
		return 4
	}
	s.rngState += 0x9e3779b97f4a7c15
	return mix64(s.rngState)
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Sites maps site numbers to file:line; a generated file fills it in.
var Sites []string

// SiteName names an instrumented place.
func SiteName(i int) string {
	if i > 0 && i < len(Sites) {
		return Sites[i]
	}
	if i <= 0 {
		return "?"
	}
	return fmt.Sprintf("site%d", i)
}

var resets []func()

// OnReset registers a function that puts package state back to its initial
// value. Packages register in dependency order.
func OnReset(f func()) { resets = append(resets, f) }

var roots []any

// OnRoots registers pointers to package variables of an instrumented package.
func OnRoots(p ...any) { roots = append(roots, p...) }

// Roots are all package variables of the instrumented packages.
func Roots() []any { return roots }

// ResetGlobals puts the state of every instrumented package back to what it
// was when the program started, so that no run sees what an earlier one did.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}
