package simrt

import (
	"fmt"
	"unsafe"
)

// vclock is a vector clock indexed by task id.
type vclock []uint32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) set(i int, x uint32) vclock {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i] = x
	return v
}

func (v vclock) inc(i int) vclock { return v.set(i, v.get(i)+1) }

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

// Clock is a synchronisation object's clock.
type Clock struct{ vc vclock }

// Acquire orders everything released into c before the running task's future.
func (c *Clock) Acquire() {
	if s := S; s != nil && s.cur != nil && s.RaceOn {
		s.settle()
		s.cur.vc = s.cur.vc.join(c.vc)
	}
}

// Release publishes the running task's past into c.
func (c *Clock) Release() {
	if s := S; s != nil && s.cur != nil && s.RaceOn {
		s.settle()
		c.vc = c.vc.join(s.cur.vc)
		s.cur.vc = s.cur.vc.inc(s.cur.ID)
	}
}

// Join merges o into c.
func (c *Clock) Join(o *Clock) { c.vc = c.vc.join(o.vc) }

// Reset forgets what was released into c.
func (c *Clock) Reset() { c.vc = nil }

type access struct {
	task  int
	clk   uint32
	mask  uint8
	write bool
	site  int
}

type cell struct {
	acc []access
}

// RaceReport is a pair of conflicting accesses no synchronisation orders.
type RaceReport struct {
	SiteA, SiteB   int
	WriteA, WriteB bool
	TaskA, TaskB   int
}

func (r RaceReport) String() string {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	return fmt.Sprintf("unsynchronised %s at %s (task %d) and %s at %s (task %d)",
		k(r.WriteA), SiteName(r.SiteA), r.TaskA, k(r.WriteB), SiteName(r.SiteB), r.TaskB)
}

// touch checks one access to [p, p+n) against the happens-before relation.
func (s *Sim) touch(p unsafe.Pointer, n uintptr, write bool, site int, keep any) {
	if n == 0 || p == nil {
		return
	}
	base := uintptr(p)
	end := base + n
	for w := base &^ 7; w < end; w += 8 {
		lo, hi := uintptr(0), uintptr(8)
		if w < base {
			lo = base - w
		}
		if w+8 > end {
			hi = end - w
		}
		mask := uint8(0xff<<lo) & uint8(0xff>>(8-hi))
		s.touchWord(w, mask, write, site, keep)
		keep = nil
	}
}

func (s *Sim) touchWord(w uintptr, mask uint8, write bool, site int, keep any) {
	c := s.shadow[w]
	if c == nil {
		c = &cell{}
		s.shadow[w] = c
		if keep != nil {
			s.keep = append(s.keep, keep)
		}
	}
	s.touchCell(c, mask, write, site)
}

func (s *Sim) touchCell(c *cell, mask uint8, write bool, site int) {
	t := s.cur
	my := t.vc.get(t.ID)
	out := c.acc[:0]
	raced := false
	var rep RaceReport
	for _, a := range c.acc {
		ordered := a.task == t.ID || a.clk <= t.vc.get(a.task)
		if a.mask&mask != 0 && !ordered && (a.write || write) && !raced {
			raced = true
			rep = RaceReport{SiteA: a.site, SiteB: site, WriteA: a.write, WriteB: write, TaskA: a.task, TaskB: t.ID}
		}
		// an older access is superseded when the new one is at least as strong
		if a.mask&^mask == 0 && ordered && (write || !a.write) {
			continue
		}
		out = append(out, a)
	}
	c.acc = append(out, access{task: t.ID, clk: my, mask: mask, write: write, site: site})
	if raced {
		s.races = append(s.races, rep)
		if s.Out == nil {
			s.fail(OutRace, rep.String())
			s.abortSelf()
		}
	}
}

// Races lists the races found.
func (s *Sim) Races() []RaceReport { return s.races }
