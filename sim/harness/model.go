package harness

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Model is the sequential reference for every kind of instance: a map from key
// to data token per instance. It knows nothing of how the library works.
type Model struct {
	insts []*minst
	hash  uint64
	log   []undo
	salt  uint64
	// Claims judges ownership only: refused claims need no justification and
	// free searches and listings may return anything.
	Claims bool
	lists  [][]int // value lists of generic trees, by number
	listNo map[string]int
	spans  []spanSet // contents of id sets, by number
	spanNo map[string]int
}

type minst struct {
	c      Cfg
	m      map[Key]int
	live   bool
	lo, hi uint64
	empty  bool  // no id is valid
	w      uint8 // id width of trees
	ip     int   // ip: 0 no
}

type undo struct {
	inst int
	k    Key
	old  int
	had  bool
	kind int // 0 key, 1 clone
	prev *minst
	h    uint64
}

func NewModel(c *Case) *Model {
	m := &Model{}
	for _, k := range c.Insts {
		m.insts = append(m.insts, newInst(k))
	}
	return m
}

func newInst(k Cfg) *minst {
	i := &minst{c: k, m: map[Key]int{}, live: !k.Off}
	i.empty = k.Inv
	switch k.Sys {
	case "idx":
		if k.Size == 0 {
			i.empty = true
		} else {
			i.hi = k.Size - 1
		}
	case "t16", "t32", "t64", "set16", "set32", "set64":
		i.lo, i.hi = k.Lo, k.Hi
	case "ip":
		i.hi = k.Hi // last offset
	default:
		i.w = uint8(width(k.Sys))
		i.hi = topID(k.Len)
	}
	return i
}

// topID is the largest id of a tree of length l.
func topID(l uint8) uint64 {
	if l >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<l - 1
}

func (m *Model) Hash() uint64 { return m.hash }
func (m *Model) Mark() int    { return len(m.log) }

func (m *Model) entHash(inst int, k Key, d int) uint64 {
	return hash64(m.salt+uint64(inst)+1, k.ID, uint64(k.L), uint64(int64(d)))
}

func (m *Model) Undo(mark int) {
	for len(m.log) > mark {
		u := m.log[len(m.log)-1]
		m.log = m.log[:len(m.log)-1]
		m.hash = u.h
		if u.kind == 1 {
			m.insts[u.inst] = u.prev
			continue
		}
		if u.had {
			m.insts[u.inst].m[u.k] = u.old
		} else {
			delete(m.insts[u.inst].m, u.k)
		}
	}
}

func (m *Model) put(inst int, k Key, d int) {
	old, had := m.insts[inst].m[k]
	m.log = append(m.log, undo{inst: inst, k: k, old: old, had: had, h: m.hash})
	if had {
		m.hash ^= m.entHash(inst, k, old)
	}
	m.hash ^= m.entHash(inst, k, d)
	m.insts[inst].m[k] = d
}

func (m *Model) del(inst int, k Key) {
	old, had := m.insts[inst].m[k]
	if !had {
		return
	}
	m.log = append(m.log, undo{inst: inst, k: k, old: old, had: had, h: m.hash})
	m.hash ^= m.entHash(inst, k, old)
	delete(m.insts[inst].m, k)
}

func (m *Model) cloneTo(src, dst int) {
	m.log = append(m.log, undo{inst: dst, kind: 1, prev: m.insts[dst], h: m.hash})
	n := &minst{}
	*n = *m.insts[src]
	n.live = true
	n.m = make(map[Key]int, len(m.insts[src].m))
	for k, d := range m.insts[src].m {
		n.m[k] = d
		m.hash ^= m.entHash(dst, k, d)
	}
	m.insts[dst] = n
}

func (i *minst) inRange(id uint64) bool { return !i.empty && id >= i.lo && id <= i.hi }

// optional tells whether k is an id of the range that no 64-bit index can name.
func (i *minst) optional(k Key) bool {
	if !i.c.Wide {
		return false
	}
	if i.c.Sys == "ip" {
		return k.L == 1 || k.L == 2 || k.L == 0 && k.ID > i.hi
	}
	return k.ID > i.hi
}

func (i *minst) full() bool {
	return i.empty || (len(i.m) > 0 && uint64(len(i.m)-1) == i.hi-i.lo)
}

func (i *minst) freeCount() uint64 { // saturating
	if i.empty {
		return 0
	}
	n := i.hi - i.lo
	if uint64(len(i.m)) == 0 {
		if n == ^uint64(0) {
			return n
		}
		return n + 1
	}
	return n - uint64(len(i.m)-1)
}

// validAddr tells whether the textual address override is usable. Generators
// only put unusable ones in A.
func (i *minst) valid(op *Op) bool {
	if i.c.Sys == "ip" && op.A != "" {
		return false
	}
	return i.inRange(op.ID) && (i.c.Sys != "ip" || op.L == 0)
}

// ---- prefixes

func maskOf(w, l uint8) uint64 { // ones in the top l of w bits
	if l == 0 {
		return 0
	}
	if l >= w {
		return topID(w)
	}
	return topID(w) &^ topID(w-l)
}

func overlaps(w uint8, a, b Key) bool {
	l := a.L
	if b.L < l {
		l = b.L
	}
	mk := maskOf(w, l)
	return a.ID&mk == b.ID&mk
}

// decompose is the minimal list of prefixes covering a..b.
func decompose(w uint8, a, b uint64) []Key {
	var out []Key
	for {
		n := uint8(bits.TrailingZeros64(a)) // alignment of a
		if a == 0 || n > w {
			n = w
		}
		for n > 0 && (topID(n) > b-a) {
			n--
		}
		out = append(out, Key{a, w - n})
		last := a + topID(n)
		if last >= b {
			return out
		}
		a = last + 1
	}
}

// parseRange accepts "a-b" with decimal ids of the width, a <= b <= hi.
func (i *minst) parseRange(s string) (a, b uint64, ok bool) {
	x, y, found := strings.Cut(s, "-")
	if !found {
		return
	}
	a, e1 := strconv.ParseUint(x, 10, int(i.w))
	b, e2 := strconv.ParseUint(y, 10, int(i.w))
	return a, b, e1 == nil && e2 == nil && a <= b && b <= i.hi
}

// covered tells whether every id of the tree's capacity is under some entry.
func (i *minst) covered() bool {
	type span struct{ a, b uint64 }
	l := make([]span, 0, len(i.m))
	for k := range i.m {
		mk := maskOf(i.w, k.L)
		l = append(l, span{k.ID & mk, k.ID&mk | (topID(i.w) &^ mk)})
	}
	sort.Slice(l, func(x, y int) bool { return l[x].a < l[y].a })
	at := uint64(0) // every id below is covered
	for _, s := range l {
		if s.a > at {
			return false
		}
		if s.b >= i.hi {
			return true
		}
		at = max(at, s.b+1)
	}
	return false
}

// ---- steps

func kvSet(l []KV) (map[Key]int, string) {
	m := make(map[Key]int, len(l))
	for _, kv := range l {
		if _, dup := m[kv.K]; dup {
			return nil, fmt.Sprintf("%s is listed twice", kv.K)
		}
		m[kv.K] = kv.D
	}
	return m, ""
}

// sameList compares a listing with the entries that satisfy f.
func (i *minst) sameList(l []KV, f func(k Key, d int) bool) string {
	got, w := kvSet(l)
	if w != "" {
		return w
	}
	n := 0
	for k, d := range i.m {
		if !f(k, d) {
			continue
		}
		n++
		gd, ok := got[k]
		if !ok {
			return fmt.Sprintf("listing misses %s:%d (has %v)", k, d, l)
		}
		if gd != d {
			return fmt.Sprintf("listing has %s:%d, the entry's data is %d", k, gd, d)
		}
	}
	if n != len(got) {
		for k, d := range got {
			md, ok := i.m[k]
			if !ok || !f(k, md) {
				return fmt.Sprintf("listing has %s:%d, which does not belong", k, d)
			}
		}
	}
	return ""
}

func ascending(l []KV) string {
	for j := 1; j < len(l); j++ {
		a, b := l[j-1].K, l[j].K
		if a.L > b.L || a.L == b.L && a.ID >= b.ID {
			return fmt.Sprintf("not in ascending order: %s before %s", l[j-1].K, l[j].K)
		}
	}
	return ""
}

// Step applies a call with its observed result; it returns "" if a sequential
// execution from this state could have produced the result.
func (m *Model) Step(op *Op, r *Res) string {
	i := m.insts[op.I]
	if !i.live {
		return "instance does not exist yet"
	}
	if r.Pan != "" {
		// injected: the call must have had no effect
		return ""
	}
	if r.Bad != "" && !m.Claims {
		return r.Bad
	}
	if op.K == "Cycle" {
		return "" // everything it claimed is released
	}
	if op.F == "nil" {
		return "" // refused or a no-op, whatever it returns
	}
	if isBase(i.c.Sys) {
		return m.stepBase(i, op, r)
	}
	if isSet(i.c.Sys) {
		return m.stepSet(i, op, r)
	}
	if isTree(i.c.Sys) {
		return m.stepTree(i, op, r)
	}
	return m.stepTable(i, op, r)
}

func (m *Model) wantErr(r *Res, want bool, why string) string {
	if r.Err == want {
		return ""
	}
	if r.Err {
		if m.Claims {
			return ""
		}
		return "refused, although " + why
	}
	return "succeeded, although " + why
}

func (m *Model) stepTable(i *minst, op *Op, r *Res) string {
	k := Key{ID: op.ID}
	if i.c.Sys == "ip" {
		k.L = op.L
	}
	d, had := i.m[k]
	valid := i.valid(op)
	opt := i.optional(k) && op.A == ""
	if op.A != "" {
		had = false
	}
	if opt { // may be refused; otherwise an id like any other
		valid = true
		if r.Err && !had || op.K == "IsFree" && !r.B && !had {
			return ""
		}
	}
	switch op.K {
	case "Claim":
		switch {
		case !valid:
			return m.wantErr(r, true, "the id is out of range")
		case had:
			return m.wantErr(r, true, "the id is owned")
		}
		if r.Err {
			return m.wantErr(r, false, "the id is free")
		}
		m.put(op.I, k, op.D)
	case "ClaimFree":
		if r.Err {
			if !i.full() && !m.Claims {
				return "found nothing free, although the table is not full"
			}
			return ""
		}
		if !i.inRange(r.Key.ID) && !i.optional(r.Key) {
			return fmt.Sprintf("gave out %s, which is out of range", r.Key)
		}
		if od, taken := i.m[r.Key]; taken {
			return fmt.Sprintf("gave out %s, which is owned (data %d)", r.Key, od)
		}
		if r.D != op.D && !m.Claims {
			return fmt.Sprintf("returned an entry with data %d", r.D)
		}
		m.put(op.I, r.Key, op.D)
	case "FindFree":
		if m.Claims {
			return ""
		}
		if r.Err {
			if !i.full() {
				return "found nothing free, although the table is not full"
			}
			return ""
		}
		if !i.inRange(r.Key.ID) && !i.optional(r.Key) {
			return fmt.Sprintf("found %s, which is out of range", r.Key)
		}
		if _, taken := i.m[r.Key]; taken {
			return fmt.Sprintf("found %s, which is owned", r.Key)
		}
	case "ClaimRange", "FindRange":
		claim := op.K == "ClaimRange"
		if m.Claims && !claim {
			return ""
		}
		if op.N == 0 { // what an empty range means is left open; it claims nothing
			if len(r.L) > 0 {
				return "an empty range returned ids"
			}
			return ""
		}
		last := op.ID + op.N - 1
		ok := i.inRange(op.ID) && last >= op.ID && i.inRange(last)
		taken := Key{}
		isTaken := false
		if ok {
			if op.N <= uint64(len(i.m)) {
				for id := op.ID; ; id++ {
					if _, t := i.m[Key{ID: id}]; t {
						taken, isTaken = Key{ID: id}, true
						break
					}
					if id == last {
						break
					}
				}
			} else {
				for ek := range i.m {
					if ek.ID >= op.ID && ek.ID <= last {
						taken, isTaken = ek, true
						break
					}
				}
			}
		}
		if r.Err {
			if ok && !isTaken && !m.Claims {
				return "refused, although the whole range is free"
			}
			return ""
		}
		if !ok {
			return "succeeded, although the range does not fit the table"
		}
		if isTaken {
			return fmt.Sprintf("succeeded, although %s of the range is owned", taken)
		}
		if !claim {
			if uint64(len(r.L)) != op.N {
				return fmt.Sprintf("returned %d ids", len(r.L))
			}
			for j, kv := range r.L {
				if kv.K.ID != op.ID+uint64(j) {
					return fmt.Sprintf("returned ids %v", r.L)
				}
			}
			return ""
		}
		for id := op.ID; ; id++ {
			m.put(op.I, Key{ID: id}, op.D)
			if id == last {
				break
			}
		}
	case "ClaimSize", "FindSize":
		claim := op.K == "ClaimSize"
		if m.Claims && !claim {
			return ""
		}
		if op.N == 0 {
			if len(r.L) > 0 {
				return "a request for no ids returned some"
			}
			return ""
		}
		if r.Err {
			if op.N <= i.freeCount() && !m.Claims {
				return fmt.Sprintf("refused, although %d ids are free", i.freeCount())
			}
			return ""
		}
		if uint64(len(r.L)) != op.N {
			return fmt.Sprintf("returned %d ids", len(r.L))
		}
		if _, w := kvSet(r.L); w != "" {
			return w
		}
		for _, kv := range r.L {
			if !i.inRange(kv.K.ID) {
				return fmt.Sprintf("returned %s, which is out of range", kv.K)
			}
			if _, t := i.m[kv.K]; t {
				return fmt.Sprintf("returned %s, which is owned", kv.K)
			}
			if claim && kv.D != op.D {
				return fmt.Sprintf("returned an entry with data %d", kv.D)
			}
		}
		if claim {
			for _, kv := range r.L {
				m.put(op.I, kv.K, op.D)
			}
		}
	case "Release":
		if !valid {
			return m.wantErr(r, true, "the id is out of range")
		}
		if r.Err {
			if m.Claims {
				return ""
			}
			return "refused, although the id is in range"
		}
		m.del(op.I, k)
	case "Update":
		switch {
		case !valid:
			return m.wantErr(r, true, "the id is out of range")
		case !had:
			return m.wantErr(r, true, "the id is not owned")
		}
		if r.Err {
			return m.wantErr(r, false, "the id is owned")
		}
		m.put(op.I, k, op.D)
	default:
		if m.Claims && op.K != "Get" && op.K != "Has" && op.K != "IsFree" {
			return ""
		}
		switch op.K {
		case "Get":
			if !valid || !had {
				return m.wantErr(r, true, "there is no such entry")
			}
			if r.Err {
				return "found nothing, although the id is owned"
			}
			if r.Key != k || r.D != d {
				return fmt.Sprintf("returned %s:%d, the entry is %s:%d", r.Key, r.D, k, d)
			}
		case "Has":
			if r.B != (valid && had) {
				return fmt.Sprintf("Has is %v, the id is owned: %v", r.B, valid && had)
			}
		case "IsFree":
			if !valid {
				if i.c.Sys != "idx" && r.B {
					return "an id out of range is reported free"
				}
				return ""
			}
			if r.B == had {
				return fmt.Sprintf("IsFree is %v, the id is owned: %v", r.B, had)
			}
		case "Size":
			if r.N != len(i.m) {
				return fmt.Sprintf("Size is %d, there are %d entries", r.N, len(i.m))
			}
		case "GetAll", "Iterate":
			if w := i.sameList(r.L, func(Key, int) bool { return true }); w != "" {
				return w
			}
			if w := ascending(r.L); w != "" {
				return w
			}
			return consecutive(r)
		case "GetByLabel":
			if w := i.sameList(r.L, func(_ Key, d int) bool { return selMatch(op.S, op.N, d) }); w != "" {
				return w
			}
			return ascending(r.L)
		case "IterateFree":
			if uint64(len(r.L)) != i.freeCount() {
				return fmt.Sprintf("iterated %d free ids, %d are free", len(r.L), i.freeCount())
			}
			if w := ascending(r.L); w != "" {
				return w
			}
			for _, kv := range r.L {
				if _, t := i.m[kv.K]; t || !i.inRange(kv.K.ID) {
					return fmt.Sprintf("iterated %s as free", kv.K)
				}
			}
			return consecutive(r)
		default:
			panic("model: table op " + op.K)
		}
	}
	return ""
}

// consecutive checks the iterator's own statement that an id directly follows
// the one before.
func consecutive(r *Res) string {
	for j, c := range r.Con {
		want := j > 0 && r.L[j-1].K.ID+1 == r.L[j].K.ID
		if c != want {
			return fmt.Sprintf("IsConsecutive is %v at %s of %v", c, r.L[j].K, r.L)
		}
	}
	return ""
}

func (m *Model) stepTree(i *minst, op *Op, r *Res) string {
	k := Key{op.ID, op.L}
	d, had := i.m[k]
	valid := op.ID <= i.hi && op.L <= i.w
	switch op.K {
	case "Claim", "Update":
		if !valid {
			return m.wantErr(r, true, "the id is beyond the capacity or the prefix is longer than the id")
		}
		if r.Err {
			return m.wantErr(r, false, "the id is within the capacity")
		}
		m.put(op.I, k, op.D)
	case "ClaimFree":
		if r.Err {
			if !i.covered() {
				return "found nothing free, although some id is covered by no entry"
			}
			return ""
		}
		if r.Key.L != i.w || r.Key.ID > i.hi {
			return fmt.Sprintf("gave out %s, which is not an id of the capacity", r.Key)
		}
		for ek, ed := range i.m {
			if overlaps(i.w, ek, r.Key) {
				return fmt.Sprintf("gave out %s, which entry %s:%d covers", r.Key, ek, ed)
			}
		}
		if r.D != op.D {
			return fmt.Sprintf("returned an entry with data %d", r.D)
		}
		m.put(op.I, r.Key, op.D)
	case "ClaimRange":
		a, b, ok := i.parseRange(op.A)
		if !ok {
			return m.wantErr(r, true, "the range is not valid for the tree")
		}
		if r.Err {
			return m.wantErr(r, false, "the range is valid")
		}
		for _, p := range decompose(i.w, a, b) {
			m.put(op.I, p, op.D)
		}
	case "Release":
		if !valid {
			return m.wantErr(r, true, "the id is beyond the capacity or the prefix is longer than the id")
		}
		if r.Err {
			return m.wantErr(r, false, "the id is within the capacity")
		}
		m.del(op.I, k)
	case "ReleaseByLabel":
		if r.Err {
			return "refused"
		}
		var gone []Key
		for ek, ed := range i.m {
			if selMatch(op.S, op.N, ed) {
				gone = append(gone, ek)
			}
		}
		for _, g := range gone {
			m.del(op.I, g)
		}
	case "Get":
		if !had {
			return m.wantErr(r, true, "there is no such entry")
		}
		if r.Err {
			return "found nothing, although the entry exists"
		}
		if r.Key != k || r.D != d {
			return fmt.Sprintf("returned %s:%d, the entry is %s:%d", r.Key, r.D, k, d)
		}
	case "Children":
		return i.sameList(r.L, func(ek Key, _ int) bool { return ek.L > k.L && overlaps(i.w, ek, k) })
	case "Parents":
		return i.sameList(r.L, func(ek Key, _ int) bool { return ek.L < k.L && overlaps(i.w, ek, k) })
	case "Print":
	case "GetByLabel":
		return i.sameList(r.L, func(_ Key, d int) bool { return selMatch(op.S, op.N, d) })
	case "GetAll", "Iterate":
		return i.sameList(r.L, func(Key, int) bool { return true })
	case "Size":
		if r.N != len(i.m) {
			return fmt.Sprintf("Size is %d, there are %d entries", r.N, len(i.m))
		}
	case "Clone":
		if r.Err || r.Bad != "" {
			return "clone failed"
		}
		m.cloneTo(op.I, op.J)
	default:
		panic("model: tree op " + op.K)
	}
	return ""
}
