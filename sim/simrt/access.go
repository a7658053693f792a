package simrt

import (
	"fmt"
	"iter"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

func live() *Sim {
	if s := S; s != nil && s.cur != nil && !s.aborting {
		return s
	}
	return nil
}

// Ld is a read of memory other tasks may reach.
func Ld[T any](p *T, site int) T {
	if s := live(); s != nil {
		s.point(KRead, site)
		if s.RaceOn {
			s.touch(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site, p)
		}
	}
	return *p
}

// St is a write (or read-modify-write) of such memory.
func St[T any](p *T, site int) *T {
	if s := live(); s != nil {
		s.point(KWrite, site)
		if s.RaceOn {
			s.touch(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site, p)
		}
	}
	return p
}

// Rmw is op= or ++ on such memory: a read, a preemption point, then a write.
// (The two halves of x.f += 1 are separate accesses to other tasks; the
// instrumented code still executes them together, so only the order is varied.)
func Rmw[T any](p *T, site int) *T { return St(p, site) }

type eface struct {
	_ unsafe.Pointer
	p unsafe.Pointer
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR is a read of a map (index, len, comparison of contents).
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	if s := live(); s != nil {
		s.point(KRead, site)
		if s.RaceOn {
			s.touch(mapPtr(m), 8, false, site, m)
		}
	}
	return m
}

// MW is a write to a map (assignment, delete, clear).
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	if s := live(); s != nil {
		s.point(KWrite, site)
		if s.RaceOn {
			s.touch(mapPtr(m), 8, true, site, m)
		}
	}
	return m
}

// SR is a read of all elements of a slice, SW a write of them.
func SR[S1 ~[]E, E any](x S1, site int) S1 {
	sliceTouch([]E(x), false, site)
	return x
}

func SW[S1 ~[]E, E any](x S1, site int) S1 {
	sliceTouch([]E(x), true, site)
	return x
}

func sliceTouch[E any](x []E, write bool, site int) {
	s := live()
	if s == nil || len(x) == 0 {
		return
	}
	k := KRead
	if write {
		k = KWrite
	}
	s.point(k, site)
	if s.RaceOn {
		var e E
		s.touch(unsafe.Pointer(&x[0]), unsafe.Sizeof(e)*uintptr(len(x)), write, site, &x[0])
	}
}

// App is the slice an append extends: with spare capacity the next slot is
// written in place, otherwise every element is read.
func App[S1 ~[]E, E any](x S1, site int) S1 {
	s := live()
	if s != nil && len(x) > maxList && !s.aborting {
		s.fail(OutNoProg, fmt.Sprintf("a list grew beyond %d elements at %s", maxList, SiteName(site)))
		s.abortSelf()
	}
	if s == nil || !s.RaceOn || cap(x) == 0 {
		return x
	}
	var e E
	if cap(x) > len(x) {
		y := []E(x)[: len(x)+1 : len(x)+1]
		s.touch(unsafe.Pointer(&y[len(x)]), unsafe.Sizeof(e), true, site, &y[len(x)])
	} else {
		s.touch(unsafe.Pointer(&x[0]), unsafe.Sizeof(e)*uintptr(len(x)), false, site, &x[0])
	}
	return x
}

// maxList is the length of a list that no workload comes near; a loop that
// appends for ever must be reported before the memory is used up.
const maxList = 1 << 21

// RangeSlice iterates a slice, reading each element as it is reached.
func RangeSlice[S1 ~[]E, E any](x S1, site int) iter.Seq2[int, E] {
	return func(yield func(int, E) bool) {
		for i := 0; i < len(x); i++ {
			if !yield(i, Ld(&x[i], site)) {
				return
			}
		}
	}
}

// RangeMap iterates a map in an order chosen by the run's seed. As in Go, an
// entry deleted before it is reached is not produced.
func RangeMap[M ~map[K]V, K comparable, V any](m M, site int) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		MR[M, K, V](m, site)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		if s := live(); s != nil {
			t := s.cur
			t.mapIter++
			r := mix64(s.MapSeed ^ uint64(t.ID)<<40 ^ uint64(t.mapIter))
			switch r % 4 {
			case 0: // ascending
			case 1:
				for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			default:
				for i := len(keys) - 1; i > 0; i-- {
					r = mix64(r + 0x9e3779b97f4a7c15)
					j := int(r % uint64(i+1))
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			MR[M, K, V](m, site)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	case []uint32:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []uint16:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	default:
		strs := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			strs[i] = fmt.Sprintf("%v", k)
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		copy(keys, out)
	}
}

// MapAll, MapKeys and MapValues stand in for maps.All, maps.Keys and
// maps.Values: the order is the seeded one.
func MapAll[M ~map[K]V, K comparable, V any](m M, site int) iter.Seq2[K, V] {
	return RangeMap(m, site)
}

func MapKeys[M ~map[K]V, K comparable, V any](m M, site int) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(m, site) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M, site int) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap(m, site) {
			if !yield(v) {
				return
			}
		}
	}
}

// Ext announces that code the simulator does not run on gets hold of *p and
// may read or change it.
func Ext[T any](p *T, site int) *T {
	if s := live(); s != nil && p != nil {
		s.point(KWrite, site)
		if s.RaceOn {
			s.lend(unsafe.Pointer(p), reflect.TypeFor[T](), site, p)
		}
	}
	return p
}

// ExtS does so for the elements of a slice.
func ExtS[S1 ~[]E, E any](x S1, site int) S1 {
	if s := live(); s != nil && len(x) > 0 {
		s.point(KWrite, site)
		if s.RaceOn {
			var e E
			s.cur.lent = append(s.cur.lent, loan{val: reflect.ValueOf([]E(x)), site: site,
				at: unsafe.Pointer(&x[0]), n: unsafe.Sizeof(e) * uintptr(len(x)), keep: &x[0]})
		}
	}
	return x
}

// Arm is evaluated last before a call of foreign code that gets the last n
// objects announced.
func Arm[T any](x T, n int) T {
	if s := live(); s != nil && s.RaceOn {
		l := s.cur.lent
		for i := len(l) - 1; i >= 0 && n > 0; i-- {
			if !l[i].armed {
				l[i].armed = true
				l[i].before = digest(l[i].val, loanDepth)
				n--
			}
		}
	}
	return x
}

const loanDepth = 5

// loan is an object in the hands of foreign code, until the next point.
type loan struct {
	val    reflect.Value
	armed  bool
	before uint64
	site   int
	obj    extKey
	at     unsafe.Pointer
	n      uintptr
	keep   any
}

type extKey struct {
	p uintptr
	t reflect.Type
}

func (s *Sim) lend(p unsafe.Pointer, t reflect.Type, site int, keep any) {
	l := loan{site: site, keep: keep}
	if !synchronised(t, 0) {
		l.val = reflect.ValueOf(keep)
		l.obj = extKey{uintptr(p), t}
	}
	s.cur.lent = append(s.cur.lent, l)
}

// settle decides what foreign code did with the objects the running task lent
// it. No other task has run since.
func (s *Sim) settle() {
	t := s.cur
	if t == nil || len(t.lent) == 0 {
		return
	}
	var done []loan
	keep := t.lent[:0]
	for _, l := range t.lent {
		if l.armed {
			done = append(done, l)
		} else {
			keep = append(keep, l)
		}
	}
	t.lent = keep
	for _, l := range done {
		if !l.val.IsValid() {
			continue
		}
		wrote := digest(l.val, loanDepth) != l.before
		if l.obj.t == nil {
			s.touch(l.at, l.n, wrote, l.site, l.keep)
			continue
		}
		c := s.extShadow[l.obj]
		if c == nil {
			c = &cell{}
			if s.extShadow == nil {
				s.extShadow = map[extKey]*cell{}
			}
			s.extShadow[l.obj] = c
			s.keep = append(s.keep, l.keep)
		}
		s.touchCell(c, 1, wrote, l.site)
	}
}

// synchronised reports types that may synchronise their methods themselves.
func synchronised(t reflect.Type, depth int) bool {
	if p := t.PkgPath(); p == "sync" || p == "sync/atomic" || strings.HasSuffix(p, "internal/sync") || strings.HasSuffix(p, "runtime/internal/atomic") {
		return true
	}
	if depth > 4 {
		return false
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if synchronised(t.Field(i).Type, depth+1) {
				return true
			}
		}
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return synchronised(t.Elem(), depth+1)
	}
	return false
}

// digest is a hash of what v holds, a few levels deep.
func digest(v reflect.Value, depth int) uint64 {
	if !v.IsValid() {
		return 0
	}
	const k = 0x9e3779b97f4a7c15
	h := uint64(v.Kind()) * k
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h++
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h ^= uint64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h ^= v.Uint()
	case reflect.Float32, reflect.Float64:
		h ^= math.Float64bits(v.Float())
	case reflect.String:
		for _, b := range []byte(v.String()) {
			h = (h ^ uint64(b)) * 1099511628211
		}
	case reflect.Pointer:
		if v.IsNil() {
			break
		}
		h ^= uint64(v.Pointer())
		if depth > 0 {
			h = mix64(h) ^ digest(v.Elem(), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h = mix64(h) ^ digest(v.Field(i), depth-1)
		}
	case reflect.Slice, reflect.Array:
		h ^= uint64(v.Len())
		if v.Kind() == reflect.Slice {
			h = mix64(h) ^ uint64(v.Pointer())
		}
		for i := 0; depth > 0 && i < v.Len() && i < 1024; i++ {
			h = mix64(h) ^ digest(v.Index(i), depth-1)
		}
	case reflect.Map:
		h ^= uint64(v.Len())
		if depth > 0 {
			sum := uint64(0)
			for it := v.MapRange(); it.Next(); {
				sum += mix64(digest(it.Key(), depth-1)) ^ digest(it.Value(), depth-1)
			}
			h = mix64(h) ^ sum
		}
	case reflect.Interface:
		if !v.IsNil() && depth > 0 {
			h = mix64(h) ^ digest(v.Elem(), depth-1)
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		h ^= uint64(v.Pointer())
	}
	return mix64(h)
}

// P is the identity on a pointer; it keeps a generic result out of a slice expression.
//
//go:noinline
func P[T any](p *T) *T { return p }
