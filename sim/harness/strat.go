package harness

import (
	"verif.local/sim/simrt"
)

// stallState freezes one task for a while at one of its points.
type stallState struct {
	rng    *RNG
	n      int // stalls left
	task   int
	until  int // sim step
	Fired  int
	active bool
}

func (st *stallState) filter(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task) (out []*simrt.Task) {
	if !st.active {
		return rs
	}
	if s.Steps >= st.until {
		st.active = false
		return rs
	}
	for _, t := range rs {
		if t.ID != st.task {
			out = append(out, t)
		}
	}
	if len(out) == 0 { // everyone else waits for it: the stall is over
		st.active = false
		return rs
	}
	return out
}

// randStrat preempts with a fixed probability at every point.
type randStrat struct {
	rng   *RNG
	p     float64
	locky bool
	st    *stallState
}

func (r *randStrat) Preempt(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task, kind int) *simrt.Task {
	if r.st != nil {
		if r.st.n > 0 && !r.st.active && r.rng.P(0.004) {
			r.st.n--
			r.st.Fired++
			r.st.active = true
			r.st.task = cur.ID
			r.st.until = s.Steps + 200 + r.rng.N(20000)
		}
		rs = r.st.filter(s, cur, rs)
		if r.st.active && cur.ID == r.st.task {
			return rs[r.rng.N(len(rs))]
		}
	}
	p := r.p
	if r.locky && (kind == simrt.KLock || kind == simrt.KUnlock || kind == simrt.KOp || kind == simrt.KCallback) {
		p = 0.5
	}
	if !r.rng.P(p) {
		return cur
	}
	return rs[r.rng.N(len(rs))]
}

func (r *randStrat) Next(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task) *simrt.Task {
	if r.st != nil {
		rs = r.st.filter(s, cur, rs)
	}
	return rs[r.rng.N(len(rs))]
}

// pctStrat is probabilistic concurrency testing: random task priorities and a
// few priority change points.
type pctStrat struct {
	rng    *RNG
	prio   map[int]int
	change []int
	low    int
	seen   int
}

func newPCT(seed uint64, depth, length int) *pctStrat {
	p := &pctStrat{rng: NewRNG(seed), prio: map[int]int{}, low: 0}
	for i := 0; i < depth; i++ {
		p.change = append(p.change, p.rng.N(length))
	}
	return p
}

func (p *pctStrat) of(t *simrt.Task) int {
	v, ok := p.prio[t.ID]
	if !ok {
		v = 1000 + p.rng.N(1<<20)
		p.prio[t.ID] = v
	}
	return v
}

func (p *pctStrat) best(rs []*simrt.Task) *simrt.Task {
	var b *simrt.Task
	bp := 0
	for _, t := range rs {
		if v := p.of(t); b == nil || v > bp {
			b, bp = t, v
		}
	}
	return b
}

func (p *pctStrat) Preempt(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task, kind int) *simrt.Task {
	p.seen++
	for _, c := range p.change {
		if c == p.seen {
			p.low--
			p.prio[cur.ID] = p.low
		}
	}
	return p.best(rs)
}

func (p *pctStrat) Next(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task) *simrt.Task {
	return p.best(rs)
}

// serialStrat only switches between operations.
type serialStrat struct{ rng *RNG }

func (r *serialStrat) Preempt(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task, kind int) *simrt.Task {
	if kind != simrt.KOp {
		return cur
	}
	return rs[r.rng.N(len(rs))]
}

func (r *serialStrat) Next(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task) *simrt.Task {
	return rs[r.rng.N(len(rs))]
}

// traceStrat follows a recorded schedule; where the run no longer matches it,
// the running task goes on and the lowest runnable task is next.
type traceStrat struct {
	at     map[[3]int]int
	forced map[[3]int][]int // a task can block several times in a row without a step between
	first  []int
	Used   int
}

func newTrace(sw []simrt.Switch) *traceStrat {
	t := &traceStrat{at: map[[3]int]int{}, forced: map[[3]int][]int{}}
	for _, s := range sw {
		k := [3]int{s.From, s.Op, s.Step}
		switch {
		case s.From < 0:
			t.first = append(t.first, s.To)
		case s.Forced:
			t.forced[k] = append(t.forced[k], s.To)
		default:
			t.at[k] = s.To
		}
	}
	return t
}

func (p *traceStrat) Preempt(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task, kind int) *simrt.Task {
	to, ok := p.at[[3]int{cur.ID, cur.OpUID, cur.Steps - cur.OpBase}]
	if !ok {
		return cur
	}
	for _, t := range rs {
		if t.ID == to {
			p.Used++
			return t
		}
	}
	return cur
}

func (p *traceStrat) Next(s *simrt.Sim, cur *simrt.Task, rs []*simrt.Task) *simrt.Task {
	if cur == nil {
		for _, f := range p.first {
			for _, t := range rs {
				if t.ID == f {
					return t
				}
			}
		}
		return rs[0]
	}
	k := [3]int{cur.ID, cur.OpUID, cur.Steps - cur.OpBase}
	if to := p.forced[k]; len(to) > 0 {
		p.forced[k] = to[1:]
		for _, t := range rs {
			if t.ID == to[0] {
				p.Used++
				return t
			}
		}
	}
	return rs[0]
}

func makeStrat(c StratCfg) (simrt.Strategy, *stallState) {
	switch c.Kind {
	case "rand":
		r := &randStrat{rng: NewRNG(c.Seed), p: c.P, locky: c.Locky}
		if c.Stall > 0 {
			r.st = &stallState{rng: r.rng, n: c.Stall}
		}
		return r, r.st
	case "pct":
		return newPCT(c.Seed, c.Depth, c.Len), nil
	case "serial":
		return &serialStrat{rng: NewRNG(c.Seed)}, nil
	case "trace":
		return newTrace(c.Switch), nil
	}
	panic("unknown strategy " + c.Kind)
}
