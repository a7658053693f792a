package harness

import (
	"fmt"
	"maps"
	"math"
	"math/big"
	"net/netip"
	"runtime"
	"strconv"
	"strings"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"

	"verif.local/sim/simrt"
)

// ---- data tokens and labels

func isTree(sys string) bool { return len(sys) > 4 && sys[:4] == "tree" }

func width(sys string) int {
	switch sys {
	case "t16", "tree16", "treeb16", "set16":
		return 16
	case "t32", "tree32", "treeb32", "set32":
		return 32
	}
	return 64
}

func class(d int) int { return d % 3 }

// odd marks tokens whose label set differs from that of the token without the
// mark but has the same text.
const odd = 1 << 40

// labelsFor builds the label set of op's token; a negative token has none.
func labelsFor(op *Op) labels.Set {
	d := op.D
	if d < 0 {
		if op.U%3 == 0 {
			return labels.Set{}
		}
		return nil
	}
	l := labels.Set{"v": strconv.Itoa(d &^ odd), "c": strconv.Itoa(class(d &^ odd))}
	switch shape(d) {
	case 1:
		l["x"] = ""
	case 2:
		l["x"], l["a/y"] = "1", "z"
	}
	if d&odd != 0 {
		k, v, _ := strings.Cut(l.String(), "=")
		return labels.Set{k: v}
	}
	return l
}

// shape is which further labels the set of a token has.
func shape(d int) int { return d % 4 }

// labels is what a call passes: often one and the same set in every call with
// the same data, on whichever instance, as a caller does that keeps its labels.
func (x *Exec) labels(op *Op) labels.Set {
	if op.D <= 0 || op.U%2 == 0 {
		return labelsFor(op)
	}
	l, ok := x.shared[op.D]
	if !ok {
		l = labelsFor(op)
		x.shared[op.D] = l
	}
	return l
}

// tokenOf is the inverse; it reports a label set no caller ever supplied.
func tokenOf(l labels.Set) (int, string) {
	if len(l) == 0 {
		return -1, ""
	}
	d, err := strconv.Atoi(l["v"])
	if _, ok := l["v"]; !ok {
		for k, v := range l {
			_, v, _ = strings.Cut(k+"="+v, "v=")
			v, _, _ = strings.Cut(v, ",")
			d, err = strconv.Atoi(v)
			d |= odd
		}
	}
	if err != nil || d < 0 || !maps.Equal(l, labelsFor(&Op{D: d})) {
		return 0, fmt.Sprintf("labels %v were never supplied", l)
	}
	return d, ""
}

// Selector kinds.
const (
	selC0 = iota
	selC1
	selC2
	selAll
	selNone
	selIn01
	selNotC0
	selExistsV
	selNotExistsV
	selValue // v = op.N
	selNotValue
	selAbove
	selBelow
	selClassAbove // class 0 and above op.N
	selContra     // matches nothing, but is not labels.Nothing
	selExistsX
	selXEmpty
	selNotXEmpty
	selXOrEmpty
	selTwo
	nSel
)

func selMatch(kind int, n uint64, d int) bool {
	plain := d >= 0 && d&odd == 0 // has the label v, and c is a class
	switch kind {
	case selC0, selC1, selC2:
		return plain && class(d) == kind
	case selAll:
		return true
	case selNone:
		return false
	case selIn01:
		return plain && class(d) != 2
	case selNotC0:
		return !plain || class(d) != 0
	case selExistsV:
		return plain
	case selNotExistsV:
		return !plain
	case selValue:
		return plain && uint64(d) == n
	case selNotValue:
		return !plain || uint64(d) != n
	case selAbove:
		return plain && uint64(d) > n
	case selBelow:
		return plain && uint64(d) < n
	case selClassAbove:
		return plain && class(d) == 0 && uint64(d) > n
	case selContra:
		return false
	case selExistsX:
		return plain && shape(d)%3 != 0
	case selXEmpty:
		return plain && shape(d) == 1
	case selNotXEmpty:
		return !plain || shape(d) != 1
	case selXOrEmpty:
		return plain && shape(d)%3 != 0
	case selTwo:
		return plain && shape(d) == 2
	}
	panic("selector kind")
}

func req(k string, op selection.Operator, v ...string) labels.Selector {
	r, err := labels.NewRequirement(k, op, v)
	if err != nil {
		panic(err)
	}
	return labels.NewSelector().Add(*r)
}

func parse(text string) labels.Selector {
	s, err := labels.Parse(text)
	if err != nil {
		panic(err)
	}
	return s
}

func baseSelector(kind int, n uint64) labels.Selector {
	switch kind {
	case selC0, selC1, selC2:
		return labels.SelectorFromSet(labels.Set{"c": strconv.Itoa(kind)})
	case selAll:
		return labels.Everything()
	case selNone:
		return labels.Nothing()
	case selIn01:
		return req("c", selection.In, "0", "1")
	case selNotC0:
		return req("c", selection.NotIn, "0")
	case selExistsV:
		return req("v", selection.Exists)
	case selNotExistsV:
		return req("v", selection.DoesNotExist)
	case selValue:
		return req("v", selection.Equals, strconv.FormatUint(n, 10))
	case selNotValue:
		return req("v", selection.NotEquals, strconv.FormatUint(n, 10))
	case selAbove:
		return req("v", selection.GreaterThan, strconv.FormatUint(n, 10))
	case selBelow:
		return req("v", selection.LessThan, strconv.FormatUint(n, 10))
	case selClassAbove:
		return parse(fmt.Sprintf("c=0,v>%d", n))
	case selContra:
		return parse("c=0,c=1")
	case selExistsX:
		return req("x", selection.Exists)
	case selXEmpty:
		return labels.SelectorFromSet(labels.Set{"x": ""})
	case selNotXEmpty:
		return req("x", selection.NotEquals, "")
	case selXOrEmpty:
		return parse("x in (1,)")
	case selTwo:
		return labels.SelectorFromSet(labels.Set{"x": "1", "a/y": "z"})
	}
	panic("selector kind")
}

// injected marks panics the simulator put into a selector.
type injected struct{}

// simSelector is a caller's selector: running it can be preempted, and the
// fault the operation carries strikes at its At-th call.
type simSelector struct {
	labels.Selector
	x     *Exec
	op    *Op
	calls int
}

func (s *simSelector) Matches(l labels.Labels) bool {
	s.calls++
	if !simrt.Inert() {
		simrt.Callback()
		if s.op.F != "" && s.calls == s.op.At+1 {
			s.x.fired(s.op.F)
			switch s.op.F {
			case "panic":
				panic(injected{})
			case "goexit":
				runtime.Goexit()
			case "stall":
				simrt.Stall(int64(1000000 + s.op.At))
			case "reenter":
				for _, k := range []string{"Size", "GetAll"} {
					s.x.systems[s.op.I].do(s.x, &Op{U: s.op.U, K: k, I: s.op.I}, func() {})
				}
			}
		}
	}
	return s.Selector.Matches(l)
}

func (x *Exec) selector(op *Op) labels.Selector {
	if op.F == "nil" {
		return nil
	}
	return &simSelector{Selector: baseSelector(op.S, op.N), x: x, op: op}
}

// ---- systems

// system is one instance under test. do performs one call; for calls that
// yield iterators it calls ret before draining.
type system interface {
	do(x *Exec, op *Op, ret func()) Res
}

func newSystem(c Cfg) system {
	if c.Inv && c.Sys != "ip" {
		c.Lo, c.Hi = c.Hi, c.Lo
	}
	switch c.Sys {
	case "idx":
		return &idxSys{idxtable.NewTable[int](c.Size)}
	case "t16":
		return &tblSys{table16.New(uint16(c.Lo), uint16(c.Hi)), 16}
	case "t32":
		return &tblSys{table32.New(uint32(c.Lo), uint32(c.Hi)), 32}
	case "t64":
		if c.Wide {
			return &tblSys{table64.New(0, math.MaxUint64), 64}
		}
		return &tblSys{table64.New(c.Lo, c.Hi), 64}
	case "ip":
		f, t := netip.MustParseAddr(c.From), netip.MustParseAddr(c.To)
		if c.Inv && f.BitLen() == t.BitLen() {
			return &ipSys{t: iptable.New(t, f), from: f, to: t}
		}
		return &ipSys{t: iptable.New(f, t), from: f, to: t}
	case "tree16", "tree32", "tree64":
		var g gtree.GTree
		var err error
		switch c.Sys {
		case "tree16":
			g, err = tree16.New("sim", c.Len)
		case "tree32":
			g, err = tree32.New("sim", c.Len)
		default:
			g, err = tree64.New("sim", c.Len)
		}
		if err != nil {
			panic(err)
		}
		return &treeSys{g, width(c.Sys)}
	}
	if isBase(c.Sys) {
		return newBase(c)
	}
	if isSet(c.Sys) {
		return newSetSys(width(c.Sys))
	}
	panic("unknown system " + c.Sys)
}

type idxSys struct{ t idxtable.Table[int] }

func errRes(err error) Res { return Res{Err: err != nil} }

func entRes(x *Exec, op *Op, e idxtable.Entry[int], err error) Res {
	if err != nil {
		return Res{Err: true}
	}
	if e == nil {
		return Res{Bad: "nil entry without an error"}
	}
	r := Res{Has: true, Key: Key{ID: e.ID()}, D: e.Data()}
	x.keepIdx(op, e)
	return r
}

func (x *Exec) keepIdx(op *Op, e idxtable.Entry[int]) {
	read := func() (KV, string) { return KV{Key{ID: e.ID()}, e.Data()}, "" }
	was, _ := read()
	x.keep(op, was, read)
}

func keysRes(x *Exec, op *Op, ids []uint64, err error) Res {
	r := Res{Err: err != nil}
	if err != nil {
		return r
	}
	for _, id := range ids {
		r.L = append(r.L, KV{K: Key{ID: id}})
	}
	scribble(x, op, ids)
	return r
}

func (s *idxSys) do(x *Exec, op *Op, ret func()) Res {
	switch op.K {
	case "Get":
		e, err := s.t.Get(op.ID)
		return entRes(x, op, e, err)
	case "Claim":
		return errRes(s.t.Claim(op.ID, op.D))
	case "ClaimFree":
		e, err := s.t.ClaimDynamic(op.D)
		return entRes(x, op, e, err)
	case "ClaimRange":
		return errRes(s.t.ClaimRange(op.ID, op.N, op.D))
	case "ClaimSize":
		es, err := s.t.ClaimSize(op.N, op.D)
		r := Res{Err: err != nil}
		if err == nil {
			for _, e := range es {
				r.L = append(r.L, KV{Key{ID: e.ID()}, e.Data()})
			}
			scribble(x, op, es)
		}
		return r
	case "Release":
		return errRes(s.t.Release(op.ID))
	case "Update":
		return errRes(s.t.Update(op.ID, op.D))
	case "Size":
		return Res{N: s.t.Size()}
	case "Has":
		return Res{B: s.t.Has(op.ID)}
	case "IsFree":
		return Res{B: s.t.IsFree(op.ID)}
	case "FindFree":
		id, err := s.t.FindFree()
		if err != nil {
			return Res{Err: true}
		}
		return Res{Has: true, Key: Key{ID: id}}
	case "FindRange":
		ids, err := s.t.FindFreeRange(op.ID, op.N)
		return keysRes(x, op, ids, err)
	case "FindSize":
		ids, err := s.t.FindFreeSize(op.N)
		return keysRes(x, op, ids, err)
	case "GetAll":
		r := Res{}
		es := s.t.GetAll()
		for _, e := range es {
			if e == nil {
				r.Bad = "nil entry in listing"
				return r
			}
			r.L = append(r.L, KV{Key{ID: e.ID()}, e.Data()})
			x.keepIdx(op, e)
		}
		scribble(x, op, es)
		return r
	case "Iterate":
		it := s.t.Iterate()
		ret()
		r := Res{}
		for it.Next() {
			x.drainPoint(op, len(r.L))
			e := it.Value()
			id := it.ID()
			r.Con = append(r.Con, it.IsConsecutive())
			if e == nil {
				r.Bad = fmt.Sprintf("iterator yields id %d without an entry", id)
				return r
			}
			if e.ID() != id {
				r.Bad = fmt.Sprintf("iterator yields id %d with the entry of %d", id, e.ID())
				return r
			}
			r.L = append(r.L, KV{Key{ID: id}, e.Data()})
			x.keepIdx(op, e)
		}
		if op.U%3 == 0 && it.Next() {
			r.Bad = "iterator goes on after its end"
		}
		return r
	case "IterateFree":
		it := s.t.IterateFree()
		ret()
		r := Res{}
		for it.Next() {
			x.drainPoint(op, len(r.L))
			r.Con = append(r.Con, it.IsConsecutive())
			r.L = append(r.L, KV{K: Key{ID: it.ID()}})
		}
		if op.U%3 == 0 && it.Next() {
			r.Bad = "iterator goes on after its end"
		}
		return r
	}
	panic("harness: idx op " + op.K)
}

type tblSys struct {
	t table.Table
	w int
}

// treeEnt reads an entry of a tree, or (w < 0) of a range table, whose ids are
// of full length.

func treeEnt(e tree.Entry, w int) (KV, string) {
	if e == nil {
		return KV{}, "nil entry"
	}
	id := e.ID()
	if id == nil {
		return KV{}, "entry without an id"
	}
	d, bad := tokenOf(e.Labels())
	k := Key{ID: id.ID()}
	if w > 0 {
		k.L = id.Length()
	} else if int(id.Length()) != -w && bad == "" {
		bad = fmt.Sprintf("entry of id %d has a prefix length of %d", id.ID(), id.Length())
	}
	return KV{k, d}, bad
}

func (x *Exec) keepTree(op *Op, e tree.Entry, was KV, w int) {
	text := ""
	if x.c.Own && op.U%8 == 1 {
		text = e.String()
	}
	x.keep(op, was, func() (KV, string) {
		kv, bad := treeEnt(e, w)
		if text == "" {
			return kv, bad
		}
		if t := e.String(); t != text {
			bad = fmt.Sprintf("it was %q and is %q", text, t)
		}
		if !e.Equal(e) {
			bad = "it does not equal itself"
		}
		return kv, bad
	})
}

func treeRes(x *Exec, op *Op, e tree.Entry, err error, w int) Res {
	if err != nil {
		return Res{Err: true}
	}
	kv, bad := treeEnt(e, w)
	if bad == "" {
		x.keepTree(op, e, kv, w)
	}
	return Res{Has: true, Key: kv.K, D: kv.D, Bad: bad}
}

func treeList(x *Exec, op *Op, es tree.Entries, w int) Res {
	r := Res{}
	for _, e := range es {
		kv, bad := treeEnt(e, w)
		if bad != "" {
			r.Bad = bad
		} else {
			x.keepTree(op, e, kv, w)
		}
		r.L = append(r.L, kv)
	}
	scribble(x, op, es)
	return r
}

func (s *tblSys) do(x *Exec, op *Op, ret func()) Res {
	switch op.K {
	case "Get":
		e, err := s.t.Get(op.ID)
		return treeRes(x, op, e, err, -s.w)
	case "Claim":
		return errRes(s.t.Claim(op.ID, x.labels(op)))
	case "ClaimFree":
		e, err := s.t.ClaimFree(x.labels(op))
		return treeRes(x, op, e, err, -s.w)
	case "Release":
		return errRes(s.t.Release(op.ID))
	case "Update":
		return errRes(s.t.Update(op.ID, x.labels(op)))
	case "Size":
		return Res{N: s.t.Size()}
	case "Has":
		return Res{B: s.t.Has(op.ID)}
	case "IsFree":
		return Res{B: s.t.IsFree(op.ID)}
	case "FindFree":
		id, err := s.t.FindFree()
		if err != nil {
			return Res{Err: true}
		}
		return Res{Has: true, Key: Key{ID: id}}
	case "GetAll":
		return treeList(x, op, s.t.GetAll(), -s.w)
	case "GetByLabel":
		return treeList(x, op, s.t.GetByLabel(x.selector(op)), -s.w)
	}
	panic("harness: table op " + op.K)
}

type ipSys struct {
	t        iptable.IPTable
	from, to netip.Addr
}

func addrAdd(a netip.Addr, n uint64, high uint8) netip.Addr {
	b := a.As16()
	v := new(big.Int).SetBytes(b[:])
	v.Add(v, new(big.Int).SetUint64(n))
	v.Add(v, new(big.Int).Lsh(big.NewInt(int64(high)), 64))
	var o [16]byte
	v.FillBytes(o[:])
	r := netip.AddrFrom16(o)
	if a.Is4() {
		return r.Unmap()
	}
	return r
}

// offsetOf is the distance of a from the range start, or an error text.
func (s *ipSys) offsetOf(a netip.Addr) (Key, string) {
	if a.Is4() != s.from.Is4() || a.Compare(s.from) < 0 || a.Compare(s.to) > 0 {
		return Key{}, fmt.Sprintf("address %s is not in %s-%s", a, s.from, s.to)
	}
	x, y := a.As16(), s.from.As16()
	d := new(big.Int).Sub(new(big.Int).SetBytes(x[:]), new(big.Int).SetBytes(y[:]))
	return Key{ID: new(big.Int).And(d, new(big.Int).SetUint64(math.MaxUint64)).Uint64(), L: uint8(d.Rsh(d, 64).Uint64())}, ""
}

func (s *ipSys) addr(op *Op) string {
	if op.A != "" {
		return op.A
	}
	a := addrAdd(s.from, op.ID, op.L)
	switch op.U % 7 { // the same address can be written in several ways
	case 0:
		return a.StringExpanded()
	case 1:
		if a.Is6() && !a.Is4In6() {
			return strings.ToUpper(a.String())
		}
	}
	return a.String()
}

func (s *ipSys) route(x *Exec, op *Op) nipam.Route {
	a, err := netip.ParseAddr(s.addr(op))
	if err != nil {
		a = s.from
	}
	return nipam.NewRoute(netip.PrefixFrom(a, a.BitLen()), x.labels(op), routeData(op.D))
}

// routeData is the data the route with token d carries besides its labels.
func routeData(d int) map[string]any {
	if d <= 0 || d%3 == 0 {
		return nil
	}
	return map[string]any{"t": d}
}

func (s *ipSys) routeKV(rt nipam.Route) (KV, string) {
	off, bad := s.offsetOf(rt.Prefix().Addr())
	d, bad2 := tokenOf(rt.Labels())
	if !rt.Prefix().IsValid() || rt.Prefix().Bits() != rt.Prefix().Addr().BitLen() {
		return KV{}, fmt.Sprintf("route %v was never supplied", rt.Prefix())
	}
	if w := routeData(d); len(rt.GetData()) != len(w) || w != nil && rt.GetData()["t"] != w["t"] {
		return KV{}, fmt.Sprintf("route %v carries data %v instead of %v", rt.Prefix(), rt.GetData(), w)
	}
	if bad == "" {
		bad = bad2
	}
	return KV{off, d}, bad
}

func (s *ipSys) keepRoute(x *Exec, op *Op, rt nipam.Route, was KV) {
	x.keep(op, was, func() (KV, string) { return s.routeKV(rt) })
}

func (s *ipSys) do(x *Exec, op *Op, ret func()) Res {
	list := func(rs nipam.Routes) Res {
		r := Res{}
		for _, rt := range rs {
			kv, bad := s.routeKV(rt)
			if bad != "" {
				r.Bad = bad
			} else {
				s.keepRoute(x, op, rt, kv)
			}
			r.L = append(r.L, kv)
		}
		scribble(x, op, rs)
		return r
	}
	switch op.K {
	case "Get":
		rt, err := s.t.Get(s.addr(op))
		if err != nil {
			return Res{Err: true}
		}
		kv, bad := s.routeKV(rt)
		if bad == "" {
			s.keepRoute(x, op, rt, kv)
		}
		return Res{Has: true, Key: kv.K, D: kv.D, Bad: bad}
	case "Claim":
		return errRes(s.t.Claim(s.addr(op), s.route(x, op)))
	case "Release":
		return errRes(s.t.Release(s.addr(op)))
	case "Update":
		return errRes(s.t.Update(s.addr(op), s.route(x, op)))
	case "Size":
		return Res{N: s.t.Size()}
	case "Has":
		return Res{B: s.t.Has(s.addr(op))}
	case "IsFree":
		return Res{B: s.t.IsFree(s.addr(op))}
	case "FindFree":
		a, err := s.t.FindFree()
		if err != nil {
			return Res{Err: true}
		}
		off, bad := s.offsetOf(a)
		return Res{Has: true, Key: off, Bad: bad}
	case "GetAll":
		return list(s.t.GetAll())
	case "GetByLabel":
		return list(s.t.GetByLabel(x.selector(op)))
	}
	panic("harness: ip op " + op.K)
}

type treeSys struct {
	t gtree.GTree
	w int
}

func mkID(w int, id uint64, l uint8) tree.ID {
	switch w {
	case 16:
		return id16.NewID(uint16(id), l)
	case 32:
		return id32.NewID(uint32(id), l)
	}
	return id64.NewID(id, l)
}

func (s *treeSys) id(op *Op) tree.ID {
	if op.F == "nil" {
		return nil
	}
	return mkID(s.w, op.ID, op.L)
}

func (s *treeSys) do(x *Exec, op *Op, ret func()) Res {
	switch op.K {
	case "Get":
		e, err := s.t.Get(s.id(op))
		return treeRes(x, op, e, err, s.w)
	case "Claim":
		return errRes(s.t.ClaimID(s.id(op), x.labels(op)))
	case "Update":
		return errRes(s.t.Update(s.id(op), x.labels(op)))
	case "ClaimFree":
		e, err := s.t.ClaimFree(x.labels(op))
		return treeRes(x, op, e, err, s.w)
	case "ClaimRange":
		return errRes(s.t.ClaimRange(op.A, x.labels(op)))
	case "Release":
		return errRes(s.t.ReleaseID(s.id(op)))
	case "ReleaseByLabel":
		return errRes(s.t.ReleaseByLabel(x.selector(op)))
	case "Children":
		return treeList(x, op, s.t.Children(s.id(op)), s.w)
	case "Parents":
		return treeList(x, op, s.t.Parents(s.id(op)), s.w)
	case "Print":
		if op.N == 0 {
			s.t.PrintNodes()
		} else {
			s.t.PrintValues()
		}
		return Res{}
	case "GetByLabel":
		return treeList(x, op, s.t.GetByLabel(x.selector(op)), s.w)
	case "GetAll":
		return treeList(x, op, s.t.GetAll(), s.w)
	case "Size":
		return Res{N: s.t.Size()}
	case "Iterate":
		it := s.t.Iterate()
		ret()
		r := Res{}
		for it.Next() {
			x.drainPoint(op, len(r.L))
			kv, bad := treeEnt(it.Entry(), s.w)
			if bad != "" {
				r.Bad = bad
				return r
			}
			r.L = append(r.L, kv)
			x.keepTree(op, it.Entry(), kv, s.w)
		}
		if op.U%3 == 0 && it.Next() {
			r.Bad = "iterator goes on after its end"
		}
		return r
	case "Clone":
		c := s.t.Clone()
		if c == nil {
			return Res{Bad: "nil clone"}
		}
		x.systems[op.J] = &treeSys{c, s.w}
		x.pub[op.J].Release()
		return Res{}
	}
	panic("harness: tree op " + op.K)
}
