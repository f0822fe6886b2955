package vsched

import (
	"sort"
	"time"
	"unsafe"
)

// ---- mutexes

type muState struct {
	writer  bool
	pending int
	readers int
	clock   vclock // released by writers
	rclock  vclock // released by readers
}

func (x *Exec) mu(a uintptr) *muState {
	m := x.mus[a]
	if m == nil {
		m = &muState{}
		x.mus[a] = m
	}
	return m
}

func MuLock(p unsafe.Pointer, what string) {
	x := act()
	if x == nil {
		return
	}
	x.sync(uintptr(p), true, what+".Lock")
	m := x.mu(uintptr(p))
	// A writer first excludes other writers and new readers, then waits for
	// the readers that are inside.
	x.block("another writer", func() bool { return !m.writer && m.pending == 0 })
	if m.readers > 0 {
		m.pending++
		x.block("readers to leave", func() bool { return m.readers == 0 })
		if dead() {
			return
		}
		m.pending--
	}
	m.writer = true
	x.cur.clock.join(&m.clock)
	x.cur.clock.join(&m.rclock)
}

func MuTryLock(p unsafe.Pointer, what string) bool {
	x := act()
	if x == nil {
		return true
	}
	x.sync(uintptr(p), true, what+".TryLock")
	m := x.mu(uintptr(p))
	if m.writer || m.readers > 0 || m.pending > 0 {
		return false
	}
	m.writer = true
	x.cur.clock.join(&m.clock)
	x.cur.clock.join(&m.rclock)
	return true
}

func MuUnlock(p unsafe.Pointer, what string) {
	x := act()
	if x == nil {
		return
	}
	x.sync(uintptr(p), true, what+".Unlock")
	m := x.mu(uintptr(p))
	if !m.writer {
		x.fail("fatal", "unlock of an unlocked mutex (the Go runtime aborts the process on this)")
		x.end(x.cur)
	}
	m.writer = false
	m.clock.join(&x.cur.clock)
	x.cur.clock[x.cur.id]++
}

func MuRLock(p unsafe.Pointer, what string) {
	x := act()
	if x == nil {
		return
	}
	x.sync(uintptr(p), false, what+".RLock")
	m := x.mu(uintptr(p))
	x.block("a writer (held or waiting)", func() bool { return !m.writer && m.pending == 0 })
	m.readers++
	x.cur.clock.join(&m.clock)
}

func MuTryRLock(p unsafe.Pointer, what string) bool {
	x := act()
	if x == nil {
		return true
	}
	x.sync(uintptr(p), false, what+".TryRLock")
	m := x.mu(uintptr(p))
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	x.cur.clock.join(&m.clock)
	return true
}

func MuRUnlock(p unsafe.Pointer, what string) {
	x := act()
	if x == nil {
		return
	}
	x.sync(uintptr(p), false, what+".RUnlock")
	m := x.mu(uintptr(p))
	if m.readers == 0 {
		x.fail("fatal", "RUnlock of a mutex not held for reading (the Go runtime aborts the process on this)")
		x.end(x.cur)
	}
	m.readers--
	m.rclock.join(&x.cur.clock)
	x.cur.clock[x.cur.id]++
}

// MuHeld reports whether a mutex is still held (harness assertions).
func (x *Exec) HeldMutexes() int {
	n := 0
	for _, m := range x.mus {
		if m.writer || m.readers > 0 {
			n++
		}
	}
	return n
}

// HeldMutexes counts the mutexes held right now.
func HeldMutexes() int {
	if x := act(); x != nil {
		return x.HeldMutexes()
	}
	return 0
}

// ---- atomics and generic happens-before objects

func Atomic(p unsafe.Pointer, write bool, what string) {
	x := act()
	if x == nil {
		return
	}
	x.sync(uintptr(p), write, what)
	c := x.clocks[uintptr(p)]
	if c == nil {
		c = &vclock{}
		x.clocks[uintptr(p)] = c
	}
	x.cur.clock.join(c)
	c.join(&x.cur.clock)
	x.cur.clock[x.cur.id]++
}

// Wait blocks until cond holds, acquiring from object p.
func Wait(p unsafe.Pointer, what string, cond func() bool) {
	x := act()
	if x == nil {
		return
	}
	x.block(what, cond)
	if dead() {
		return
	}
	if c := x.clocks[uintptr(p)]; c != nil {
		x.cur.clock.join(c)
	}
}

// ---- channels

type waiter struct {
	t      *thread
	fired  bool
	which  int
	val    any
	ok     bool
	clock  vclock
	closed bool
}

type qitem struct {
	w   *waiter
	idx int
	val any
	clk vclock
}

type slot struct {
	v any
	c vclock
}

type chanState struct {
	cap    int
	buf    []slot
	closed bool
	cclk   vclock
	recvq  []*qitem
	sendq  []*qitem
	sends  int
	recvs  []vclock
	timer  bool
}

func (x *Exec) ch(a uintptr, capacity int, keep any) *chanState {
	c := x.chans[a]
	if c == nil {
		c = &chanState{cap: capacity}
		x.chans[a] = c
		x.keep = append(x.keep, keep)
	}
	return c
}

func popq(q *[]*qitem) *qitem {
	for len(*q) > 0 {
		i := (*q)[0]
		*q = (*q)[1:]
		if !i.w.fired && !i.w.t.done {
			return i
		}
	}
	return nil
}

func liveq(q []*qitem, me *thread) bool {
	for _, i := range q {
		if !i.w.fired && !i.w.t.done && i.w.t != me {
			return true
		}
	}
	return false
}

func (c *chanState) canSend(me *thread) bool {
	return c.closed || len(c.buf) < c.cap || liveq(c.recvq, me)
}
func (c *chanState) canRecv(me *thread) bool {
	return len(c.buf) > 0 || c.closed || liveq(c.sendq, me)
}

// doSend completes a send known to be possible; it panics on a closed channel.
func (x *Exec) doSend(c *chanState, v any) {
	me := x.cur
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	me.clock[me.id]++
	if i := popq(&c.recvq); i != nil {
		i.w.fired, i.w.which, i.w.val, i.w.ok, i.w.clock = true, i.idx, v, true, me.clock
		me.clock.join(&i.clk)
		me.clock[me.id]++
		return
	}
	if c.sends >= c.cap && c.sends-c.cap < len(c.recvs) {
		me.clock.join(&c.recvs[c.sends-c.cap])
	}
	c.sends++
	c.buf = append(c.buf, slot{v, me.clock})
	me.clock[me.id]++
}

func (x *Exec) doRecv(c *chanState) (any, bool) {
	me := x.cur
	if len(c.buf) > 0 {
		s := c.buf[0]
		c.buf = c.buf[1:]
		me.clock.join(&s.c)
		c.recvs = append(c.recvs, me.clock)
		me.clock[me.id]++
		if i := popq(&c.sendq); i != nil {
			i.clk.join(&me.clock)
			c.sends++
			c.buf = append(c.buf, slot{i.val, i.clk})
			i.w.fired, i.w.which, i.w.clock = true, i.idx, me.clock
		}
		return s.v, true
	}
	if i := popq(&c.sendq); i != nil {
		me.clock.join(&i.clk)
		i.w.fired, i.w.which, i.w.clock = true, i.idx, me.clock
		me.clock[me.id]++
		return i.val, true
	}
	if c.closed {
		me.clock.join(&c.cclk)
		return nil, false
	}
	panic("vsched: receive not possible")
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func chAddr[T any](c chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func Send[T any](c chan<- T, v T) {
	if dead() {
		return
	}
	x := act()
	if x == nil {
		c <- v
		return
	}
	a := *(*uintptr)(unsafe.Pointer(&c))
	x.chanSend(a, cap(c), c == nil, c, v)
}

func (x *Exec) chanSend(a uintptr, capacity int, isNil bool, keep any, v any) {
	if isNil {
		x.block("send on a nil channel", func() bool { return false })
		return
	}
	x.sync(a, true, "send")
	s := x.ch(a, capacity, keep)
	me := x.cur
	if s.canSend(me) {
		x.doSend(s, v)
		return
	}
	w := &waiter{t: me}
	me.clock[me.id]++
	s.sendq = append(s.sendq, &qitem{w: w, val: v, clk: me.clock})
	me.clock[me.id]++
	x.block("a receiver", func() bool { return w.fired })
	if dead() {
		return
	}
	if w.closed {
		panic(plainError("send on closed channel"))
	}
	me.clock.join(&w.clock)
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	var zero T
	if dead() {
		return zero, false
	}
	x := act()
	if x == nil {
		v, ok := <-c
		return v, ok
	}
	a := *(*uintptr)(unsafe.Pointer(&c))
	v, ok := x.chanRecv(a, cap(c), c == nil, c)
	if v == nil {
		return zero, ok
	}
	return v.(T), ok
}

func (x *Exec) chanRecv(a uintptr, capacity int, isNil bool, keep any) (any, bool) {
	if isNil {
		x.block("receive on a nil channel", func() bool { return false })
		return nil, false
	}
	x.sync(a, true, "receive")
	s := x.ch(a, capacity, keep)
	me := x.cur
	if s.canRecv(me) {
		return x.doRecv(s)
	}
	w := &waiter{t: me}
	me.clock[me.id]++
	s.recvq = append(s.recvq, &qitem{w: w, clk: me.clock})
	x.block("a sender", func() bool { return w.fired })
	if dead() {
		return nil, false
	}
	me.clock.join(&w.clock)
	return w.val, w.ok
}

func Close[T any](c chan<- T) {
	if dead() {
		return
	}
	x := act()
	if x == nil {
		close(c)
		return
	}
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	a := *(*uintptr)(unsafe.Pointer(&c))
	x.sync(a, true, "close")
	s := x.ch(a, cap(c), c)
	if s.closed {
		panic(plainError("close of closed channel"))
	}
	me := x.cur
	s.closed = true
	s.cclk = me.clock
	me.clock[me.id]++
	for i := popq(&s.recvq); i != nil; i = popq(&s.recvq) {
		i.w.fired, i.w.which, i.w.ok, i.w.clock = true, i.idx, false, s.cclk
	}
	for i := popq(&s.sendq); i != nil; i = popq(&s.sendq) {
		i.w.fired, i.w.which, i.w.closed, i.w.clock = true, i.idx, true, s.cclk
	}
}

func ChanLen[T any](c <-chan T) int {
	x := act()
	if x == nil || c == nil {
		return len(c)
	}
	a := *(*uintptr)(unsafe.Pointer(&c))
	x.sync(a, false, "len(chan)")
	s := x.ch(a, cap(c), c)
	if s.timer {
		return 0
	}
	return len(s.buf)
}

// Case of a select.
type Case interface {
	addr() (uintptr, int, any)
	isSend() bool
	value() any
	deliver(v any, ok bool)
}

type RCase[T any] struct {
	c   <-chan T
	Val T
	Ok  bool
}

func RC[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }
func (r *RCase[T]) addr() (uintptr, int, any) {
	return *(*uintptr)(unsafe.Pointer(&r.c)), cap(r.c), r.c
}
func (r *RCase[T]) isSend() bool { return false }
func (r *RCase[T]) value() any   { return nil }
func (r *RCase[T]) deliver(v any, ok bool) {
	if v != nil {
		r.Val = v.(T)
	}
	r.Ok = ok
}

type SCase[T any] struct {
	c chan<- T
	v T
}

type SHalf[T any] struct{ c chan<- T }

func SC[T any](c chan<- T) SHalf[T]   { return SHalf[T]{c} }
func (h SHalf[T]) With(v T) *SCase[T] { return &SCase[T]{h.c, v} }
func (r *SCase[T]) addr() (uintptr, int, any) {
	return *(*uintptr)(unsafe.Pointer(&r.c)), cap(r.c), r.c
}
func (r *SCase[T]) isSend() bool           { return true }
func (r *SCase[T]) value() any             { return r.v }
func (r *SCase[T]) deliver(v any, ok bool) {}

// Select returns the index of the case taken, or -1 for default.
func Select(hasDefault bool, cs ...Case) int {
	if dead() {
		return -2
	}
	x := act()
	if x == nil {
		return realSelect(hasDefault, cs)
	}
	me := x.cur
	st := make([]*chanState, len(cs))
	for i, c := range cs {
		a, n, k := c.addr()
		if a == 0 {
			continue
		}
		st[i] = x.ch(a, n, k)
	}
	pointed := false
	for i, c := range cs {
		if st[i] == nil {
			continue
		}
		a, _, _ := c.addr()
		// one scheduling point for the whole select
		if !pointed {
			before := x.Steps
			x.sync(a, true, "select")
			pointed = x.Steps != before
		} else {
			x.touchOnly(a, "select")
		}
	}
	var ready []int
	for i, c := range cs {
		if st[i] == nil {
			continue
		}
		if c.isSend() && st[i].canSend(me) || !c.isSend() && st[i].canRecv(me) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		p := 0
		if len(ready) > 1 && x.phase == phRun {
			p = x.choose(len(ready), make([]uint8, len(ready)), "select among ready cases")
		}
		i := ready[p]
		if cs[i].isSend() {
			x.doSend(st[i], cs[i].value())
		} else {
			v, ok := x.doRecv(st[i])
			cs[i].deliver(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	w := &waiter{t: me}
	me.clock[me.id]++
	for i, c := range cs {
		if st[i] == nil {
			continue
		}
		it := &qitem{w: w, idx: i, val: c.value(), clk: me.clock}
		if c.isSend() {
			st[i].sendq = append(st[i].sendq, it)
		} else {
			st[i].recvq = append(st[i].recvq, it)
		}
	}
	x.block("a select case", func() bool { return w.fired })
	if dead() {
		return -2
	}
	if w.closed {
		panic(plainError("send on closed channel"))
	}
	me.clock.join(&w.clock)
	cs[w.which].deliver(w.val, w.ok)
	return w.which
}

func (x *Exec) touchOnly(a uintptr, what string) {
	if x.phase == phRun {
		k := x.keyFor(a, 0)
		t := x.touch[a]
		if t == nil {
			x.touch[a] = &touched{tid: x.cur.id, keys: []Key{k}, write: true}
		} else if t.tid != x.cur.id {
			t.multi, t.write = true, true
			for _, o := range append(t.keys, k) {
				if o.Kind != 2 && !S.Promoted[o] {
					S.New[o] = what
				}
			}
		}
	}
}

func realSelect(hasDefault bool, cs []Case) int {
	panic("vsched: select outside an execution")
}

// ---- timers and the clock

type timer struct {
	when   int64
	seq    int
	fn     func()
	clk    vclock
	period int64
}

const epoch = int64(1600000000) * 1e9

func NowNano() (int64, bool) {
	if x := act(); x != nil {
		return epoch + x.now, true
	}
	return 0, false
}

func (x *Exec) addTimer(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	x.timerSeq++
	t := &timer{when: x.now + d, seq: x.timerSeq, fn: fn}
	if x.cur != nil {
		t.clk = x.cur.clock
		x.cur.clock[x.cur.id]++
	}
	x.timers = append(x.timers, t)
	sort.SliceStable(x.timers, func(i, j int) bool {
		a, b := x.timers[i], x.timers[j]
		if a.when != b.when {
			return a.when < b.when
		}
		return a.seq < b.seq
	})
	return t
}

func (x *Exec) delTimer(t *timer) bool {
	for i, u := range x.timers {
		if u == t {
			x.timers = append(append([]*timer{}, x.timers[:i]...), x.timers[i+1:]...)
			return true
		}
	}
	return false
}

func (x *Exec) fireNext() {
	t := x.timers[0]
	x.timers = append([]*timer{}, x.timers[1:]...)
	if t.when > x.now {
		x.now = t.when
	}
	x.Steps++
	if x.logOn {
		x.logf("timer %d fires at %dms", t.seq, x.now/1e6)
	}
	t.fn()
}

// Sleep suspends the thread in virtual time.
func Sleep(d time.Duration) {
	if dead() {
		return
	}
	x := act()
	if x == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		x.point("sleep 0")
		return
	}
	fired := false
	x.addTimer(int64(d), func() { fired = true })
	x.block("the clock (sleep)", func() bool { return fired })
}

// VTimer is a virtual timer delivering on a channel.
type VTimer struct {
	t    *timer
	c    chan time.Time
	f    func()
	tick int64
}

func NewVTimer(d time.Duration, f func(), period bool) (*VTimer, <-chan time.Time) {
	v := &VTimer{f: f}
	if f == nil {
		v.c = make(chan time.Time, 1)
	}
	if period {
		v.tick = int64(d)
	}
	v.arm(d)
	return v, v.c
}

func (v *VTimer) state(x *Exec) *chanState {
	a := *(*uintptr)(unsafe.Pointer(&v.c))
	s := x.ch(a, 1, v.c)
	s.timer = true
	return s
}

func (v *VTimer) arm(d time.Duration) {
	x := act()
	if x == nil {
		return
	}
	if v.c != nil {
		v.state(x)
	}
	var t *timer
	t = x.addTimer(int64(d), func() {
		if v.tick > 0 {
			v.arm(time.Duration(v.tick))
		} else {
			v.t = nil
		}
		if v.f != nil {
			n := x.spawn(v.f)
			n.clock.join(&t.clk)
			return
		}
		s := v.state(x)
		now := time.Unix(0, epoch+x.now)
		if i := popq(&s.recvq); i != nil {
			i.w.fired, i.w.which, i.w.val, i.w.ok, i.w.clock = true, i.idx, now, true, t.clk
			return
		}
		if len(s.buf) == 0 {
			s.buf = append(s.buf, slot{now, t.clk})
		}
	})
	v.t = t
}

// OldTimers selects the timers of programs whose go.mod says go 1.22 or less:
// Stop and Reset leave a value already sent where it is.
var OldTimers bool

// Stop and Reset follow Go 1.23 and later (no stale value is received after
// they return) unless OldTimers is set.
func (v *VTimer) Stop() bool {
	x := act()
	if x == nil {
		return false
	}
	was := v.t != nil && x.delTimer(v.t)
	v.t = nil
	if v.c != nil && !OldTimers {
		s := v.state(x)
		was = was || len(s.buf) > 0
		s.buf = nil
	}
	return was
}

func (v *VTimer) Reset(d time.Duration) bool {
	was := v.Stop()
	if v.tick > 0 {
		v.tick = int64(d)
	}
	v.arm(d)
	return was
}
