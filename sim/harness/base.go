package harness

import (
	"fmt"
	"sort"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"

	"verif.local/sim/simsync"
)

// The generic tree has no lock of its own: its owner sees to it that a writer
// is alone. Readers overlap.

func isBase(sys string) bool { return len(sys) > 5 && sys[:5] == "treeb" }

type bval struct {
	k Key
	d int
}

type baseSys struct {
	mu    simsync.RWMutex
	t     *tree.Tree[bval]
	w     int
	multi bool
}

func newBase(c Cfg) *baseSys {
	s := &baseSys{w: width(c.Sys), multi: c.Size == 1}
	switch s.w {
	case 16:
		s.t = tree.NewTree[bval]("sim", id16.IsLeftBitSet, 16)
	case 32:
		s.t = tree.NewTree[bval]("sim", id32.IsLeftBitSet, 32)
	default:
		s.t = tree.NewTree[bval]("sim", id64.IsLeftBitSet, 64)
	}
	return s
}

func sameVal(a, b bval) bool { return a == b }
func anyVal(a, b bval) bool  { return true }

func (s *baseSys) do(x *Exec, op *Op, ret func()) Res {
	k := Key{op.ID, op.L}
	v := bval{k, op.D}
	write := func(f func() Res) Res {
		s.mu.Lock()
		defer s.mu.Unlock()
		return f()
	}
	added := func(more bool, n int) Res { return Res{B: more, N: n} }
	id := mkID(s.w, op.ID, op.L)
	switch op.K {
	case "Claim", "Update":
		return write(func() Res {
			if !s.multi {
				return added(s.t.Set(id, v))
			}
			if op.K == "Claim" {
				return added(s.t.Add(id, v, sameVal))
			}
			return added(s.t.Add(id, v, nil))
		})
	case "Release":
		return write(func() Res { return Res{N: s.t.Delete(id, anyVal, v)} })
	case "Delete":
		return write(func() Res {
			if op.U%2 == 0 {
				return Res{N: s.t.Delete(id, sameVal, v)}
			}
			return Res{N: s.t.DeleteWithBuffer(make([]bval, op.U%5, 8), id, sameVal, v)}
		})
	case "GetAll":
		s.mu.RLock()
		defer s.mu.RUnlock()
		return s.drain(x, op, s.t.Iterate())
	case "Iterate": // on a copy of the caller's own, without the lock
		s.mu.RLock()
		c := s.t.Clone()
		s.mu.RUnlock()
		ret()
		return s.drain(x, op, c.Iterate())
	case "Clone":
		s.mu.RLock()
		c := &baseSys{t: s.t.Clone(), w: s.w, multi: s.multi}
		s.mu.RUnlock()
		x.systems[op.J] = c
		x.pub[op.J].Release()
		return Res{}
	}
	panic("harness: generic tree op " + op.K)
}

func (s *baseSys) drain(x *Exec, op *Op, it *tree.TreeIterator[bval]) Res {
	r := Res{}
	seen := map[Key]bool{}
	var buf []bval
	for it.Next() {
		x.drainPoint(op, len(r.L))
		var vs []bval
		if op.U%2 == 0 {
			vs = it.Vals()
		} else {
			buf = it.ValsWithBuffer(buf[:0])
			vs = buf
		}
		if len(vs) == 0 {
			r.Bad = "the iterator stops at a prefix without values"
			return r
		}
		for _, v := range vs {
			if v.k != vs[0].k {
				r.Bad = fmt.Sprintf("values of %s and %s at one prefix", vs[0].k, v.k)
				return r
			}
			r.L = append(r.L, KV{v.k, v.d})
		}
		if seen[vs[0].k] {
			r.Bad = fmt.Sprintf("prefix %s is visited twice", vs[0].k)
			return r
		}
		seen[vs[0].k] = true
	}
	if op.U%3 == 0 && it.Next() {
		r.Bad = "iterator goes on after its end"
	}
	return r
}

// ---- model: each prefix has a multiset of values

func (m *Model) list(vs []int) int {
	sort.Ints(vs)
	s := fmt.Sprint(vs)
	if m.listNo == nil {
		m.listNo = map[string]int{}
	}
	n, ok := m.listNo[s]
	if !ok {
		n = len(m.lists)
		m.lists = append(m.lists, vs)
		m.listNo[s] = n
	}
	return n
}

func (m *Model) stepBase(i *minst, op *Op, r *Res) string {
	k := Key{op.ID, op.L}
	var old []int
	if n, had := i.m[k]; had {
		old = m.lists[n]
	}
	set := func(vs []int) {
		if len(vs) == 0 {
			m.del(op.I, k)
			return
		}
		m.put(op.I, k, m.list(vs))
	}
	without := func(d int) (vs []int) {
		for _, o := range old {
			if o != d {
				vs = append(vs, o)
			}
		}
		return
	}
	switch op.K {
	case "Claim", "Update":
		vs := []int{op.D}
		if i.c.Size == 1 {
			vs = append(vs, old...)
			if op.K == "Claim" && len(without(op.D)) < len(old) {
				vs = append([]int(nil), old...)
			}
		}
		if r.B != (len(vs) > len(old)) || r.N != len(vs) {
			return fmt.Sprintf("reported %d values, one more than before: %v; there were %v and are %v", r.N, r.B, old, vs)
		}
		set(vs)
	case "Release", "Delete":
		var vs []int
		if op.K == "Delete" {
			vs = without(op.D)
		}
		if r.N != len(old)-len(vs) {
			return fmt.Sprintf("reported %d values deleted of %v, which leaves %v", r.N, old, vs)
		}
		if len(vs) < len(old) {
			set(vs)
		}
	case "GetAll", "Iterate":
		got := map[Key][]int{}
		for _, kv := range r.L {
			got[kv.K] = append(got[kv.K], kv.D)
		}
		for gk, vs := range got {
			n, ok := i.m[gk]
			if !ok {
				return fmt.Sprintf("lists values %v at %s, where there are none", vs, gk)
			}
			if n != m.list(vs) {
				return fmt.Sprintf("lists values %v at %s, where there are %v", vs, gk, m.lists[n])
			}
		}
		if len(got) != len(i.m) {
			return fmt.Sprintf("lists %d prefixes, there are %d", len(got), len(i.m))
		}
	case "Clone":
		m.cloneTo(op.I, op.J)
	default:
		panic("model: generic tree op " + op.K)
	}
	return ""
}
