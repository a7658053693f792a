package simrt

import (
	"io"
	"iter"
	"math/rand"
	"time"
	"unsafe"
)

// Channels: the simulator keeps each channel's queue itself, keyed by the
// channel's identity; real channel operations never run.

type syncState struct {
	buf    []any
	cap    int
	closed bool
	recvq  []*chWaiter
	sendq  []*chWaiter
	clk    Clock
	keep   any
}

type chWaiter struct {
	sel *chSel
	idx int
	val any
}

type chSel struct {
	t    *Task
	done bool
	idx  int
	val  any
	ok   bool
	panc bool
}

func chState[T any](c <-chan T) *syncState {
	s := S
	if s.syncs == nil {
		s.syncs = map[any]*syncState{}
	}
	k := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	st := s.syncs[k]
	if st == nil {
		st = &syncState{cap: cap(c), keep: c}
		s.syncs[k] = st
	}
	return st
}

// Case is one case of a select.
type Case struct {
	st   *syncState
	send bool
	val  any
}

// CaseOf is a case of a select; the value it received comes out with its type.
type CaseOf[T any] struct{ Case }

func RecvCase[C ~chan T | ~<-chan T, T any](c C) CaseOf[T] {
	cc := (<-chan T)(c)
	if cc == nil {
		return CaseOf[T]{}
	}
	return CaseOf[T]{Case{st: chState(cc)}}
}

func SendCase[C ~chan T | ~chan<- T, T any](c C, v T) CaseOf[T] {
	k := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if k == nil {
		return CaseOf[T]{Case{send: true}}
	}
	rc := *(*<-chan T)(unsafe.Pointer(&c))
	return CaseOf[T]{Case{st: chState(rc), send: true, val: v}}
}

func (st *syncState) popRecv() *chWaiter {
	for len(st.recvq) > 0 {
		w := st.recvq[0]
		st.recvq = st.recvq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (st *syncState) popSend() *chWaiter {
	for len(st.sendq) > 0 {
		w := st.sendq[0]
		st.sendq = st.sendq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func pendingW(q []*chWaiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (c Case) ready() bool {
	st := c.st
	if st == nil {
		return false
	}
	if c.send {
		return st.closed || len(st.buf) < st.cap || pendingW(st.recvq)
	}
	return len(st.buf) > 0 || pendingW(st.sendq) || st.closed
}

// run performs a ready case.
func (c Case) run(s *Sim) (any, bool) {
	st := c.st
	st.clk.Acquire()
	st.clk.Release()
	if c.send {
		if st.closed {
			panic("send on closed channel")
		}
		if w := st.popRecv(); w != nil {
			w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, c.val, true
			s.unblock(w.sel.t)
			return nil, true
		}
		st.buf = append(st.buf, c.val)
		return nil, true
	}
	if len(st.buf) > 0 {
		v := st.buf[0]
		st.buf = st.buf[1:]
		if w := st.popSend(); w != nil {
			st.buf = append(st.buf, w.val)
			w.sel.done, w.sel.idx = true, w.idx
			s.unblock(w.sel.t)
		}
		return v, true
	}
	if w := st.popSend(); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		s.unblock(w.sel.t)
		return w.val, true
	}
	return nil, false
}

// Select runs one ready case (a seeded choice among several) or waits.
func Select(hasDefault bool, site int, cases ...Case) int {
	s := live()
	if s == nil {
		if Inert() {
			return -1
		}
		panic("simrt: channel operation outside a simulation")
	}
	s.point(KChan, site)
	var ready []int
	for i, c := range cases {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[Pick(len(ready))]
		s.cur.gotVal, s.cur.gotOK = cases[i].run(s)
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &chSel{t: s.cur}
	for i, c := range cases {
		if c.st == nil {
			continue
		}
		w := &chWaiter{sel: sel, idx: i, val: c.val}
		if c.send {
			c.st.sendq = append(c.st.sendq, w)
		} else {
			c.st.recvq = append(c.st.recvq, w)
		}
	}
	for !sel.done {
		s.block("channel operation", site)
	}
	if c := cases[sel.idx]; c.st != nil {
		c.st.clk.Acquire()
		c.st.clk.Release()
	}
	if sel.panc {
		panic("send on closed channel")
	}
	s.cur.gotVal, s.cur.gotOK = sel.val, sel.ok
	return sel.idx
}

func cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func got() (any, bool) {
	if s := live(); s != nil {
		return s.cur.gotVal, s.cur.gotOK
	}
	return nil, false
}

func Got[T any](CaseOf[T]) T {
	v, _ := got()
	return cast[T](v)
}

func Got2[T any](CaseOf[T]) (T, bool) {
	v, ok := got()
	return cast[T](v), ok
}

func ChanRecv[C ~chan T | ~<-chan T, T any](c C, site int) T {
	k := RecvCase[C, T](c)
	Select(false, site, k.Case)
	return Got(k)
}

func ChanRecv2[C ~chan T | ~<-chan T, T any](c C, site int) (T, bool) {
	k := RecvCase[C, T](c)
	Select(false, site, k.Case)
	return Got2(k)
}

func ChanSend[C ~chan T | ~chan<- T, T any](c C, v T, site int) {
	Select(false, site, SendCase[C, T](c, v).Case)
}

func ChanClose[C ~chan T | ~chan<- T, T any](c C) {
	s := live()
	if s == nil {
		return
	}
	s.point(KChan, 0)
	st := chState(*(*<-chan T)(unsafe.Pointer(&c)))
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	st.clk.Acquire()
	st.clk.Release()
	for _, w := range st.recvq {
		if !w.sel.done {
			w.sel.done, w.sel.idx = true, w.idx
			s.unblock(w.sel.t)
		}
	}
	for _, w := range st.sendq {
		if !w.sel.done {
			w.sel.done, w.sel.idx, w.sel.panc = true, w.idx, true
			s.unblock(w.sel.t)
		}
	}
	st.recvq, st.sendq = nil, nil
}

func ChanLen[C ~chan T | ~<-chan T | ~chan<- T, T any](c C) int {
	if live() == nil {
		return 0
	}
	return len(chState(*(*<-chan T)(unsafe.Pointer(&c))).buf)
}

func ChanCap[C ~chan T | ~<-chan T | ~chan<- T, T any](c C) int {
	return cap(*(*<-chan T)(unsafe.Pointer(&c)))
}

func RangeChan[C ~chan T | ~<-chan T, T any](c C, site int) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := ChanRecv2[C, T](c, site)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Time: one simulated step is one microsecond.

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func TimeNow() time.Time {
	if s := live(); s != nil {
		return epoch.Add(time.Duration(s.Now) * time.Microsecond)
	}
	return epoch
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

func TimeSleep(d time.Duration) { Sleep(int64(d/time.Microsecond)+1, 0) }

func TimeAfter(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() {
		TimeSleep(d)
		ChanSend(c, TimeNow(), 0)
	})
	return c
}

// Timer and Ticker stand for those of package time.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	f   func()
	gen int // counts settings; an older one has no effect
	on  bool
}

func (t *Timer) start(d time.Duration) {
	t.gen++
	t.on = true
	gen := t.gen
	Go(func() {
		TimeSleep(d)
		if !t.on || t.gen != gen {
			return
		}
		t.on = false
		if t.f != nil {
			t.f()
			return
		}
		Select(true, 0, SendCase(t.c, TimeNow()).Case)
	})
}

func (t *Timer) Stop() bool {
	was := t.on
	t.on = false
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.on
	t.start(d)
	return was
}

func TimeNewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	gen int
}

func (t *Ticker) start(d time.Duration) {
	t.gen++
	gen := t.gen
	Go(func() {
		for i := 0; i < 1000; i++ {
			TimeSleep(d)
			if t.gen != gen {
				return
			}
			Select(true, 0, SendCase(t.c, TimeNow()).Case)
		}
	})
}

func (t *Ticker) Stop()                 { t.gen++ }
func (t *Ticker) Reset(d time.Duration) { t.start(d) }

func TimeNewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func Gosched() { Point(KOp) }

// math/rand top-level functions.

type src struct{}

func (src) Int63() int64    { return int64(Rand() >> 1) }
func (src) Uint64() uint64  { return Rand() }
func (src) Seed(seed int64) {}

var rnd = rand.New(src{})

func RandInt() int                        { return rnd.Int() }
func RandIntn(n int) int                  { return rnd.Intn(n) }
func RandIntN(n int) int                  { return rnd.Intn(n) }
func RandInt31() int32                    { return rnd.Int31() }
func RandInt32() int32                    { return rnd.Int31() }
func RandInt63() int64                    { return rnd.Int63() }
func RandInt64() int64                    { return rnd.Int63() }
func RandInt63n(n int64) int64            { return rnd.Int63n(n) }
func RandInt64N(n int64) int64            { return rnd.Int63n(n) }
func RandInt31n(n int32) int32            { return rnd.Int31n(n) }
func RandInt32N(n int32) int32            { return rnd.Int31n(n) }
func RandUint() uint                      { return uint(rnd.Uint64()) }
func RandUint32() uint32                  { return rnd.Uint32() }
func RandUint64() uint64                  { return rnd.Uint64() }
func RandUintN(n uint) uint               { return uint(rnd.Uint64() % uint64(n)) }
func RandUint32N(n uint32) uint32         { return uint32(rnd.Uint64() % uint64(n)) }
func RandUint64N(n uint64) uint64         { return rnd.Uint64() % n }
func RandFloat32() float32                { return rnd.Float32() }
func RandFloat64() float64                { return rnd.Float64() }
func RandNormFloat64() float64            { return rnd.NormFloat64() }
func RandExpFloat64() float64             { return rnd.ExpFloat64() }
func RandPerm(n int) []int                { return rnd.Perm(n) }
func RandShuffle(n int, f func(i, j int)) { rnd.Shuffle(n, f) }
func RandRead(p []byte) (int, error)      { return rnd.Read(p) }
func RandSeed(seed int64)                 {}

var RandReader io.Reader = readerFunc(RandRead)

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

func RandN[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(rnd.Uint64() % uint64(n))
}
