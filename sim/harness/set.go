package harness

import (
	"fmt"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"

	"verif.local/sim/simsync"
)

// A set instance is an id set builder, which its owner locks, and one finished
// id set, which never changes and which callers share without a lock.

func isSet(sys string) bool { return strings.HasPrefix(sys, "set") }

type idSet interface {
	Ranges() []tree.Range
	IDs() []tree.ID
	free(bits uint8) (tree.ID, idSet, bool)
}

type builder interface {
	AddId(tree.ID)
	RemoveId(tree.ID)
	AddRange(tree.Range)
	RemoveRange(tree.Range)
	addSet(idSet)
	build() (idSet, error)
}

type b16 struct{ *id16.IDSetBuilder }
type b32 struct{ *id32.IDSetBuilder }
type b64 struct{ *id64.IDSetBuilder }
type s16 struct{ *id16.IDSet }
type s32 struct{ *id32.IDSet }
type s64 struct{ *id64.IDSet }

func (b b16) addSet(s idSet) { b.AddSet(s.(s16).IDSet) }
func (b b32) addSet(s idSet) { b.AddSet(s.(s32).IDSet) }
func (b b64) addSet(s idSet) { b.AddSet(s.(s64).IDSet) }

func (b b16) build() (idSet, error) { s, err := b.IPSet(); return s16{s}, err }
func (b b32) build() (idSet, error) { s, err := b.IPSet(); return s32{s}, err }
func (b b64) build() (idSet, error) { s, err := b.IPSet(); return s64{s}, err }

func (s s16) free(n uint8) (tree.ID, idSet, bool) {
	id, r, ok := s.RemoveFreePrefix(n)
	return id, s16{r}, ok
}
func (s s32) free(n uint8) (tree.ID, idSet, bool) {
	id, r, ok := s.RemoveFreePrefix(n)
	return id, s32{r}, ok
}
func (s s64) free(n uint8) (tree.ID, idSet, bool) {
	id, r, ok := s.RemoveFreePrefix(n)
	return id, s64{r}, ok
}

type setSys struct {
	mu  simsync.Mutex
	b   builder
	set idSet
	w   int
}

func newSetSys(w int) *setSys {
	s := &setSys{w: w}
	switch w {
	case 16:
		s.b, s.set = b16{&id16.IDSetBuilder{}}, s16{&id16.IDSet{}}
	case 32:
		s.b, s.set = b32{&id32.IDSetBuilder{}}, s32{&id32.IDSet{}}
	default:
		s.b, s.set = b64{&id64.IDSetBuilder{}}, s64{&id64.IDSet{}}
	}
	return s
}

func (s *setSys) rng(op *Op) tree.Range {
	if op.U%2 == 0 {
		t := fmt.Sprintf("%0*d-%d", int(op.U%7), op.ID, op.N)
		var r tree.Range
		var err error
		switch s.w {
		case 16:
			r, err = id16.ParseRange(t)
		case 32:
			r, err = id32.ParseRange(t)
		default:
			r, err = id64.ParseRange(t)
		}
		if err == nil {
			return r
		}
	}
	switch s.w {
	case 16:
		return id16.RangeFrom(uint16(op.ID), uint16(op.N))
	case 32:
		return id32.RangeFrom(uint32(op.ID), uint32(op.N))
	}
	return id64.RangeFrom(op.ID, op.N)
}

func (s *setSys) do(x *Exec, op *Op, ret func()) Res {
	locked := func(f func() Res) Res {
		s.mu.Lock()
		defer s.mu.Unlock()
		return f()
	}
	id := mkID(s.w, op.ID, op.L)
	switch op.K {
	case "AddID":
		return locked(func() Res { s.b.AddId(id); return Res{} })
	case "RemoveID":
		return locked(func() Res { s.b.RemoveId(id); return Res{} })
	case "AddRange":
		return locked(func() Res { s.b.AddRange(s.rng(op)); return Res{} })
	case "RemoveRange":
		return locked(func() Res { s.b.RemoveRange(s.rng(op)); return Res{} })
	case "AddSet":
		return locked(func() Res { s.b.addSet(s.set); return Res{} })
	case "Build":
		var set idSet
		var err error
		locked(func() Res { set, err = s.b.build(); return Res{} })
		ret()
		r := s.read(x, op, set)
		r.B = err != nil
		return r
	case "GetAll":
		return s.read(x, op, s.set)
	case "Split":
		id, rest, ok := s.set.free(op.L)
		if !ok {
			r := s.read(x, op, rest)
			r.B = false
			return r
		}
		if id == nil {
			return Res{Bad: "no prefix"}
		}
		r := s.read(x, op, rest)
		r.B, r.Has, r.Key = true, true, Key{id.ID(), id.Length()}
		return r
	case "Clone":
		c := newSetSys(s.w)
		var set idSet
		var err error
		locked(func() Res { set, err = s.b.build(); return Res{} })
		c.set = set
		c.b.addSet(set)
		x.systems[op.J] = c
		x.pub[op.J].Release()
		return Res{B: err != nil}
	}
	panic("harness: id set op " + op.K)
}

// asPrefixes tells whether a call reads a set as prefixes instead of ranges.
func asPrefixes(op *Op) bool { return op.U%3 == 1 }

func (s *setSys) read(x *Exec, op *Op, set idSet) Res {
	r := Res{}
	if asPrefixes(op) {
		ids := set.IDs()
		for _, id := range ids {
			if id == nil {
				return Res{Bad: "nil prefix"}
			}
			r.L = append(r.L, KV{K: Key{id.ID(), id.Length()}})
		}
		scribble(x, op, ids)
		return r
	}
	rs := set.Ranges()
	for _, g := range rs {
		if g == nil || g.From() == nil || g.To() == nil {
			return Res{Bad: "nil range"}
		}
		r.L = append(r.L, KV{Key{ID: g.From().ID()}, int(g.To().ID())})
	}
	scribble(x, op, rs)
	return r
}

// ---- model: sets are sorted lists of disjoint spans that do not touch

type spanSet []struct{ a, b uint64 }

func (s spanSet) add(a, b uint64) spanSet {
	var out spanSet
	put := false
	for _, o := range s {
		switch {
		case o.b < a && o.b+1 < a:
			out = append(out, o)
		case b < o.a && b+1 < o.a:
			if !put {
				out = append(out, struct{ a, b uint64 }{a, b})
				put = true
			}
			out = append(out, o)
		default:
			a, b = min(a, o.a), max(b, o.b)
		}
	}
	if !put {
		out = append(out, struct{ a, b uint64 }{a, b})
	}
	return out
}

func (s spanSet) remove(a, b uint64) spanSet {
	var out spanSet
	for _, o := range s {
		if o.b < a || b < o.a {
			out = append(out, o)
			continue
		}
		if o.a < a {
			out = append(out, struct{ a, b uint64 }{o.a, a - 1})
		}
		if o.b > b {
			out = append(out, struct{ a, b uint64 }{b + 1, o.b})
		}
	}
	return out
}

func (m *Model) span(s spanSet) int {
	if m.spanNo == nil {
		m.spanNo = map[string]int{}
	}
	t := fmt.Sprint(s)
	n, ok := m.spanNo[t]
	if !ok {
		n = len(m.spans)
		m.spans = append(m.spans, s)
		m.spanNo[t] = n
	}
	return n
}

var (
	keyPending = Key{ID: 0} // what the builder holds
	keySet     = Key{ID: 1} // the finished set
	keyErr     = Key{ID: 2} // a refused addition has not been reported yet
)

func (m *Model) stepSet(i *minst, op *Op, r *Res) string {
	get := func(k Key) spanSet {
		if n, ok := i.m[k]; ok {
			return m.spans[n]
		}
		return nil
	}
	pend, set := get(keyPending), get(keySet)
	w := uint8(width(i.c.Sys))
	a, b := op.ID, op.N
	ok := a <= b
	if op.K == "AddID" || op.K == "RemoveID" {
		ok = op.L <= w
		if ok {
			a &= maskOf(w, op.L)
			b = a | (topID(w) &^ maskOf(w, op.L))
		}
	}
	switch op.K {
	case "AddID", "RemoveID", "AddRange", "RemoveRange":
		switch {
		case !ok:
			m.put(op.I, keyErr, 1)
		case op.K[0] == 'A':
			m.put(op.I, keyPending, m.span(pend.add(a, b)))
		default:
			m.put(op.I, keyPending, m.span(pend.remove(a, b)))
		}
	case "AddSet":
		for _, o := range set {
			pend = pend.add(o.a, o.b)
		}
		m.put(op.I, keyPending, m.span(pend))
	case "Build", "Clone":
		if _, bad := i.m[keyErr]; bad != r.B {
			return fmt.Sprintf("reported an error: %v; there was an invalid addition or removal to report: %v", r.B, bad)
		}
		m.del(op.I, keyErr)
		if op.K == "Build" {
			return sameSpans(op, w, pend, r.L)
		}
		m.cloneTo(op.I, op.J)
		m.put(op.J, keySet, m.span(pend))
	case "GetAll":
		return sameSpans(op, w, set, r.L)
	case "Split":
		if !r.B {
			for _, o := range set {
				for _, p := range decompose(w, o.a, o.b) {
					if p.L <= op.L {
						return fmt.Sprintf("found no prefix of length %d, although %s is in the set", op.L, p)
					}
				}
			}
			return sameSpans(op, w, set, r.L)
		}
		if r.Key.L != op.L || r.Key.ID&^maskOf(w, op.L) != 0 {
			return fmt.Sprintf("gave out %s, which is not a prefix of length %d", r.Key, op.L)
		}
		a, b := r.Key.ID, r.Key.ID|(topID(w)&^maskOf(w, op.L))
		in := false
		for _, o := range set {
			in = in || o.a <= a && b <= o.b
		}
		if !in {
			return fmt.Sprintf("gave out %s, which is not in the set %v", r.Key, set)
		}
		return sameSpans(op, w, set.remove(a, b), r.L)
	default:
		panic("model: id set op " + op.K)
	}
	return ""
}

func sameSpans(op *Op, w uint8, s spanSet, l []KV) string {
	var want []KV
	for _, o := range s {
		if !asPrefixes(op) {
			want = append(want, KV{Key{ID: o.a}, int(o.b)})
			continue
		}
		for _, p := range decompose(w, o.a, o.b) {
			want = append(want, KV{K: p})
		}
	}
	if len(want) != len(l) {
		return fmt.Sprintf("lists %v, the set is %v", l, want)
	}
	for j := range l {
		if l[j] != want[j] {
			return fmt.Sprintf("lists %v, the set is %v", l, want)
		}
	}
	return ""
}
