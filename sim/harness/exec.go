package harness

import (
	"fmt"
	"k8s.io/apimachinery/pkg/labels"
	"runtime/debug"
	"strings"

	"verif.local/sim/simrt"
)

// Exec is one execution of a case.
type Exec struct {
	shared  map[int]labels.Set
	kept    map[int]*keptEntry // the entry each caller got last
	c       *Case
	sim     *simrt.Sim
	systems []system
	pub     []simrt.Clock // how callers hand each other a clone
	ev      []*Event
	faults  map[string]int
	probes  map[string]int
	overlap int // operations that overlapped another one
	open    int
	bad     string // first unexpected panic
	badOp   *Event
}

// Result is what a run produced.
type Result struct {
	Events  []*Event
	Out     *simrt.Outcome
	Trace   []simrt.Switch
	Digest  uint64
	Steps   int
	Now     int64
	Preempt int
	Faults  map[string]int
	Overlap int
	Sched   uint64 // hash of the case and its switch sequence
	Panic   string
	Counts  [16]int
}

func (x *Exec) fired(kind string) { x.faults[kind]++ }

// The fault the operation carries strikes before the At-th entry.
func (x *Exec) drainPoint(op *Op, i int) {
	simrt.OpPoint()
	if op.F == "" || i != op.At || simrt.Inert() {
		return
	}
	switch op.F {
	case "stall": // the caller forgets the iterator for a long while
		x.fired("hold")
		simrt.Stall(int64(1000000 + op.At))
	case "own": // the caller itself changes what it iterates over
		if op.Sub == nil || x.bad != "" {
			return
		}
		x.fired("own")
		t := x.sim.Cur()
		uid, base, budget := t.OpUID, t.OpBase, t.Budget
		x.call(x.taskOf(op.U), op.Sub)
		t.OpUID, t.OpBase, t.Budget = uid, base, budget
	}
}

func (x *Exec) taskOf(uid int) int {
	for i := len(x.ev) - 1; i >= 0; i-- {
		if x.ev[i].Op.U == uid {
			return x.ev[i].Task
		}
	}
	return 0
}

// maxOpSteps bounds any single call in the properties that are not about the
// amount of work (C13 has its own, much tighter bound): no call on the sizes
// generated here comes within an order of magnitude of it on a correct tree.
const maxOpSteps = 6000000

// maxRunSteps only guards the harness itself.
const maxRunSteps = 1 << 30

func (x *Exec) budget() int { return x.c.StepBudget() }

// StepBudget is how many steps one call may take.
func (c *Case) StepBudget() int {
	if c.Budget > 0 {
		return c.Budget
	}
	if len(c.Insts) > 0 && (isSet(c.Insts[0].Sys) || isBase(c.Insts[0].Sys)) { // a list that grows for ever is costly to follow
		return maxOpSteps / 3
	}
	if c.Race { // tracking is slow, and a call that never ends must be reported in time
		return maxOpSteps / 2
	}
	return maxOpSteps
}

// Run executes a case.
func Run(c *Case) *Result {
	simrt.ResetGlobals()
	strat, st := makeStrat(c.Strat)
	s := simrt.NewSim(strat, maxRunSteps, c.Map, c.Race)
	defer s.Close()
	x := &Exec{c: c, sim: s, shared: map[int]labels.Set{}, kept: map[int]*keptEntry{}, faults: map[string]int{}, probes: map[string]int{}}
	x.systems = make([]system, len(c.Insts))
	x.pub = make([]simrt.Clock, len(c.Insts))
	// Construction runs inside the simulation too: constructors are library code.
	s.Phase([]string{"setup"}, []func(){func() {
		for i, k := range c.Insts {
			if k.Off {
				continue
			}
			x.construct(i, k)
		}
		x.runOps(0, c.Init)
	}})
	if x.bad == "" && s.Out == nil {
		var names []string
		var fns []func()
		for i := range c.Tasks {
			ops := c.Tasks[i]
			id := i + 1
			names = append(names, fmt.Sprintf("caller%d", id))
			fns = append(fns, func() { x.runOps(id, ops) })
		}
		s.Phase(names, fns)
	}
	if x.bad == "" && s.Out == nil && len(c.Post) > 0 {
		s.Phase([]string{"after"}, []func(){func() { x.runOps(len(c.Tasks)+1, c.Post) }})
	}
	r := &Result{Events: x.ev, Out: s.Out, Trace: s.Trace, Digest: s.Digest(), Steps: s.Steps, Now: s.Now,
		Preempt: s.Preempts, Faults: x.faults, Overlap: x.overlap, Panic: x.bad, Counts: s.Counts}
	if st != nil && st.Fired > 0 {
		r.Faults["task-frozen"] += st.Fired
	}
	h := caseHash(c)
	for _, sw := range s.Trace {
		h = hash64(h, uint64(sw.From+1)<<40|uint64(sw.Op), uint64(sw.Step)<<8|uint64(sw.To))
	}
	r.Sched = h
	for _, e := range x.ev {
		r.Digest = hash64(r.Digest, uint64(e.Op.U), uint64(e.Inv), uint64(e.Ret), strHash(e.Res.String()))
	}
	for i := range r.Trace {
		r.Trace[i].At = simrt.SiteName(r.Trace[i].Site)
	}
	return r
}

func caseHash(c *Case) uint64 {
	h := hash64(strHash(c.Prop), c.Map)
	for _, k := range c.Insts {
		h = hash64(h, strHash(k.Sys), k.Lo, k.Hi, k.Size, uint64(k.Len))
	}
	f := func(ops []Op) {
		for _, o := range ops {
			h = hash64(h, strHash(o.K), o.ID, uint64(o.L)<<32|uint64(o.I), o.N, uint64(o.D), uint64(o.S))
		}
		h = hash64(h, 77)
	}
	f(c.Init)
	for _, t := range c.Tasks {
		f(t)
	}
	f(c.Post)
	return h
}

func (x *Exec) construct(i int, k Cfg) {
	defer func() {
		if simrt.Inert() {
			return
		}
		if r := recover(); r != nil {
			x.note(fmt.Sprintf("constructing %+v panicked: %v", k, r), nil)
		}
	}()
	t := x.sim.Cur()
	t.Begin()
	t.OpBase, t.Budget = t.Steps, x.budget()
	x.systems[i] = newSystem(k)
	t.Budget = 0
}

func (x *Exec) note(msg string, e *Event) {
	if x.bad == "" {
		x.bad = msg
		x.badOp = e
	}
}

// runOps performs a caller's operations. A selector may exit the goroutine;
// the caller then goes on from a deferred call, as a test framework or a
// supervisor would.
func (x *Exec) runOps(task int, ops []Op) {
	i := 0
	done := false
	defer func() {
		if done || simrt.Inert() {
			return
		}
		// the goroutine is exiting because of an injected Goexit
		e := x.lastOf(task)
		if e == nil || e.Ret != 0 || e.Op.F != "goexit" {
			return
		}
		e.Res = Res{Pan: "goexit"}
		x.finish(e)
		x.runOps(task, ops[i+1:])
	}()
	for ; i < len(ops); i++ {
		if x.bad != "" {
			break
		}
		simrt.OpPoint()
		x.call(task, &ops[i])
	}
	done = true
}

func (x *Exec) lastOf(task int) *Event {
	for i := len(x.ev) - 1; i >= 0; i-- {
		if x.ev[i].Task == task {
			return x.ev[i]
		}
	}
	return nil
}

func (x *Exec) finish(e *Event) {
	if e.Ret == 0 {
		e.Ret = x.sim.NextSeq()
		x.open--
	}
}

func (x *Exec) call(task int, op *Op) {
	e := &Event{Op: *op, Task: task}
	x.ev = append(x.ev, e)
	t := x.sim.Cur()
	t.Begin()
	t.OpUID, t.OpBase, t.Budget = op.U, t.Steps, x.budget()
	e.Inv = x.sim.NextSeq()
	if x.open > 0 {
		x.overlap++
	}
	x.open++
	sys := x.systems[op.I]
	x.pub[op.I].Acquire()
	if sys == nil {
		e.Res = Res{Skip: true}
		x.finish(e)
		return
	}
	func() {
		defer func() {
			if simrt.Inert() {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(injected); ok {
				e.Res = Res{Pan: "injected"}
				return
			}
			if op.F == "nil" {
				x.fired("nil-argument")
				e.Res = Res{Pan: "nil"}
				return
			}
			e.Res = Res{Pan: fmt.Sprint(r)}
			x.note(fmt.Sprintf("%s panicked: %v\n%s", op, r, libStack(string(debug.Stack()))), e)
		}()
		changed := x.reread(task, op)
		if op.K == "Cycle" {
			e.Res = x.cycle(op, sys)
			return
		}
		e.Res = sys.do(x, op, func() { x.finish(e) })
		if changed != "" && e.Res.Bad == "" {
			e.Res.Bad = changed
		}
	}()
	x.finish(e)
	e.Steps = t.Steps - t.OpBase
	t.Budget = 0
}

// An entry that a call returned describes that call's instant for good.
type keptEntry struct {
	read func() (KV, string)
	was  KV
	from string
}

func (x *Exec) keep(op *Op, was KV, read func() (KV, string)) {
	if x.c.Own && !simrt.Inert() {
		x.kept[x.sim.Cur().ID] = &keptEntry{read, was, op.String()}
	}
}

// reread lets a caller look again at the entry it got last.
func (x *Exec) reread(task int, op *Op) string {
	k := x.kept[x.sim.Cur().ID]
	if k == nil || op.U%2 == 0 {
		return ""
	}
	simrt.OpPoint()
	now, bad := k.read()
	if bad == "" && now != k.was {
		bad = fmt.Sprintf("it showed %v then and shows %v now", k.was, now)
	}
	if bad != "" {
		return fmt.Sprintf("the entry obtained from %s has changed: %s", k.from, bad)
	}
	return ""
}

// scribble overwrites a listing the caller got: it belongs to the caller.
func scribble[T any](x *Exec, op *Op, l []T) {
	if !x.c.Own || op.U%3 != 0 || len(l) == 0 {
		return
	}
	x.fired("scribble")
	var z T
	simrt.SW(l, 0)
	for i := range l {
		l[i] = z
	}
	if cap(l) > len(l) {
		_ = append(simrt.App(l, 0), z)
	}
}

// libStack keeps the library's frames of a stack trace.
func libStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.Contains(l, "henderiw/idxtable") && i+1 < len(lines) {
			f := strings.TrimSpace(lines[i+1])
			if j := strings.Index(f, " +0x"); j > 0 {
				f = f[:j]
			}
			if j := strings.LastIndex(f, "idxtable/"); j >= 0 {
				f = f[j+len("idxtable/"):]
			}
			out = append(out, f)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}
