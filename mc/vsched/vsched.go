// Package vsched is a controlled scheduler for an instrumented copy of golisp.
//
// Every goroutine of the program under test is a thread of one execution, and
// exactly one thread runs at a time. At a scheduling point the explorer picks
// the thread (or the clock) that goes on. Locks, channels, timers and the
// clock are modelled here; vector clocks find conflicting accesses that no
// synchronisation orders.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

const maxThreads = 12

type vclock [maxThreads]uint32

func (a *vclock) join(b *vclock) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

type thread struct {
	id      int
	wake    chan struct{}
	gone    chan struct{}
	done    bool
	killed  bool
	clock   vclock
	enabled func() bool // nil: runnable
	what    string
	daemon  bool
}

// Key names a shared object or location across executions of a configuration.
type Key struct {
	Kind uint8 // 0 touched during setup (ordinal), 1 static data, 2 program site
	N    uint64
}

type access struct {
	tid  int
	clk  uint32
	site uint32
}

type shadow struct {
	w     access
	hasW  bool
	reads []access
}

type touched struct {
	tid   int
	multi bool
	write bool
	keys  []Key
}

type Violation struct {
	Kind string
	Msg  string
}

type Choice struct {
	N      int
	Costs  []uint8
	Chosen int
	Label  string
}

const (
	phSetup = iota
	phRun
	phPost
	phDead
)

type Exec struct {
	threads  []*thread
	cur      *thread
	phase    int
	setupN   uint64
	names    map[uintptr]uint64
	shadows  map[uintptr]*shadow
	mus      map[uintptr]*muState
	chans    map[uintptr]*chanState
	clocks   map[uintptr]*vclock
	touch    map[uintptr]*touched
	timers   []*timer
	timerSeq int
	forced   int // times the clock overtook a thread that could run
	now      int64
	prefix   []uint8
	Trace    []Choice
	Steps    int
	Viol     *Violation
	finished chan struct{}
	maxSteps int
	Capped   bool
	logOn    bool
	Log      []string
	ended    bool
	keep     []any
	tick     int
	diverged bool
	addrs    map[unsafe.Pointer]uintptr
}

// Shared is exploration state kept over the executions of one configuration.
type Shared struct {
	Promoted map[Key]bool
	New      map[Key]string
}

// NewShared returns the state a configuration starts from.
func NewShared() *Shared {
	return &Shared{Promoted: map[Key]bool{}, New: map[Key]string{}}
}

var (
	X    *Exec
	S    = NewShared()
	sink unsafe.Pointer
	// SiteNames is filled by the instrumented package (index = site id).
	SiteNames []string
)

// ignored addresses take part in neither scheduling nor race detection
// (counters that only feed diagnostics).
var ignored = map[uintptr]bool{}

func Ignore(p unsafe.Pointer) { ignored[uintptr(p)] = true }

func act() *Exec {
	x := X
	if x == nil || x.phase == phDead || x.cur == nil {
		return nil
	}
	return x
}

func dead() bool { x := X; return x != nil && x.phase == phDead }

var globalLo, globalHi uintptr

func init() {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return
	}
	exe, _ := os.Readlink("/proc/self/exe")
	last := false
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 5 {
			continue
		}
		var a, z uintptr
		fmt.Sscanf(f[0], "%x-%x", &a, &z)
		isExe := len(f) >= 6 && f[5] == exe
		// the mapping right after the executable's is its bss; the Go heap
		// may be at any (random) address and must not be taken for it
		if isExe || (last && len(f) == 5 && a == globalHi) {
			if globalLo == 0 {
				globalLo = a
			}
			if z > globalHi {
				globalHi = z
			}
			last = true
		} else {
			last = false
		}
	}
}

func (x *Exec) keyFor(addr uintptr, site uint32) Key {
	if addr >= globalLo && addr < globalHi {
		return Key{1, uint64(addr)}
	}
	if n, ok := x.names[addr]; ok {
		return Key{0, n}
	}
	return Key{2, uint64(site)}
}

func (k Key) String() string {
	switch k.Kind {
	case 0:
		return fmt.Sprintf("obj%d", k.N)
	case 1:
		return fmt.Sprintf("global@%x", k.N)
	}
	return "at " + siteName(uint32(k.N))
}

func siteName(s uint32) string {
	if int(s) < len(SiteNames) {
		return SiteNames[s]
	}
	return fmt.Sprintf("pc%d", s)
}

func (x *Exec) logf(f string, a ...any) {
	if x.logOn && x.phase == phRun {
		x.Log = append(x.Log, fmt.Sprintf("t%d: ", x.cur.id)+fmt.Sprintf(f, a...))
	}
}

// Logf lets a harness add to the schedule log.
func Logf(f string, a ...any) {
	if x := act(); x != nil {
		x.logf(f, a...)
	}
}

func (x *Exec) fail(kind, msg string) {
	if x.Viol == nil {
		x.Viol = &Violation{kind, msg}
	}
}

func (x *Exec) choose(n int, costs []uint8, label string) int {
	i := len(x.Trace)
	c := 0
	if i < len(x.prefix) {
		c = int(x.prefix[i])
		if c >= n {
			x.diverged = true
			c = 0
		}
	}
	x.Trace = append(x.Trace, Choice{N: n, Costs: costs, Chosen: c, Label: label})
	return c
}

func (t *thread) runnable() bool {
	return !t.done && (t.enabled == nil || t.enabled())
}

// reschedule gives the baton to the thread chosen by the explorer and returns
// when the calling thread has it again (or at once if the caller is done).
func (x *Exec) reschedule(label string) {
	me := x.cur
	x.Steps++
	if x.Steps > x.maxSteps {
		x.Capped = true
		x.end(me)
		return
	}
	for {
		var cand []*thread
		meOK := me.runnable()
		if meOK {
			cand = append(cand, me)
		}
		for _, t := range x.threads {
			if t != me && t.runnable() {
				cand = append(cand, t)
			}
		}
		if len(cand) == 0 {
			if len(x.timers) > 0 {
				if x.Steps > x.maxSteps {
					x.Capped = true
					x.end(me)
					return
				}
				x.fireNext()
				continue
			}
			var bl []string
			for _, t := range x.threads {
				if !t.done {
					bl = append(bl, fmt.Sprintf("t%d waits for %s", t.id, t.what))
				}
			}
			x.fail("deadlock", "no thread can run: "+strings.Join(bl, "; "))
			x.end(me)
			return
		}
		pick := 0
		if x.phase == phRun {
			n := len(cand)
			clock := len(x.timers) > 0
			if clock {
				n++
			}
			if n > 1 {
				costs := make([]uint8, n)
				for i := range costs {
					if i == len(cand) || (meOK && i > 0) {
						costs[i] = 1
					}
				}
				pick = x.choose(n, costs, label)
			}
		}
		if pick == len(cand) {
			if x.logOn {
				x.logf("clock advances to the next timer")
			}
			x.forced++
			x.fireNext()
			continue
		}
		nx := cand[pick]
		if nx == me {
			return
		}
		if x.logOn && meOK {
			x.logf("PREEMPTED before: %s; t%d runs", label, nx.id)
		} else if x.logOn {
			x.logf("%s; t%d runs", label, nx.id)
		}
		x.cur = nx
		nx.wake <- struct{}{}
		if me.done {
			return
		}
		<-me.wake
		if me.killed {
			runtime.Goexit()
		}
		return
	}
}

func (x *Exec) end(me *thread) {
	if !x.ended {
		x.ended = true
		x.phase = phDead
		close(x.finished)
	}
	if !me.done {
		me.killed = true
		runtime.Goexit()
	}
}

// block suspends the current thread until cond holds.
func (x *Exec) block(what string, cond func() bool) {
	if cond() {
		return
	}
	me := x.cur
	me.enabled, me.what = cond, what
	x.reschedule("blocks on " + what)
	me.enabled, me.what = nil, ""
}

func (x *Exec) point(what string) {
	if x.phase != phRun {
		return
	}
	if x.logOn {
		x.logf("%s", what)
	}
	x.reschedule(what)
}

// Yield is a scheduling point for harness code.
func Yield(what string) {
	if x := act(); x != nil {
		x.point(what)
	}
}

// Tick returns a fresh logical time (harness histories).
func Tick() int {
	if x := act(); x != nil {
		x.tick++
		return x.tick
	}
	return 0
}

// Go starts a thread.
func Go(f func()) {
	if dead() {
		return
	}
	x := act()
	if x == nil {
		go f()
		return
	}
	x.spawn(f)
	x.point("go")
}

func (x *Exec) spawn(f func()) *thread {
	if len(x.threads) >= maxThreads {
		x.Capped = true
		if x.cur != nil {
			x.end(x.cur)
		}
		panic("too many threads")
	}
	t := &thread{id: len(x.threads), wake: make(chan struct{}, 1), gone: make(chan struct{})}
	if p := x.cur; p != nil {
		t.clock = p.clock
		p.clock[p.id]++
	}
	t.clock[t.id] = 1
	x.threads = append(x.threads, t)
	go func() {
		defer close(t.gone)
		defer x.exit(t)
		<-t.wake
		if t.killed {
			return
		}
		defer func() {
			if r := recover(); r != nil && x.phase != phDead {
				x.fail("panic", fmt.Sprintf("panic escaped from thread t%d: %v\n%s", t.id, r, shortStack()))
			}
		}()
		f()
	}()
	return t
}

func shortStack() string {
	l := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i := 0; i+1 < len(l); i++ {
		if strings.Contains(l[i], "golisp") && !strings.Contains(l[i], "/") {
			out = append(out, strings.TrimSpace(l[i]))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (x *Exec) exit(t *thread) {
	t.done = true
	if x.phase == phDead {
		return
	}
	if t.id == 0 || x.Viol != nil {
		x.end(t)
		return
	}
	x.reschedule("exit")
}

// Run executes body as thread 0 of a fresh execution following prefix.
func Run(prefix []uint8, maxSteps int, logOn bool, body func()) *Exec {
	x := &Exec{
		names: map[uintptr]uint64{}, shadows: map[uintptr]*shadow{}, mus: map[uintptr]*muState{},
		chans: map[uintptr]*chanState{}, clocks: map[uintptr]*vclock{}, touch: map[uintptr]*touched{},
		prefix: prefix, finished: make(chan struct{}), maxSteps: maxSteps, logOn: logOn,
	}
	X = x
	t := x.spawn(body)
	x.cur = t
	t.wake <- struct{}{}
	<-x.finished
	for i := 0; i < len(x.threads); i++ {
		u := x.threads[i]
		select {
		case <-u.gone:
			continue
		default:
		}
		if !u.done && !u.killed {
			u.killed = true
			u.wake <- struct{}{}
		}
		<-u.gone
	}
	X = nil
	if x.diverged {
		x.Viol = &Violation{"diverge", "a replayed schedule diverged"}
	}
	return x
}

// StartRun ends the setup phase: from here on the explorer makes choices.
func StartRun() {
	if x := act(); x != nil {
		x.phase = phRun
	}
}

// Parallel runs the functions as threads and waits for all of them.
func Parallel(fs ...func()) {
	x := act()
	x.phase = phRun
	ts := make([]*thread, len(fs))
	for i, f := range fs {
		ts[i] = x.spawn(f)
	}
	x.block("the harness threads to end", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		x.cur.clock.join(&t.clock)
	}
}

// Post ends the explored phase; what follows runs without choices.
func Post() {
	if x := act(); x != nil {
		x.phase = phPost
	}
}

// Quiesce lets every other thread run until all are done or blocked (timers
// fire as needed) and returns the number still blocked.
func Quiesce() int {
	x := act()
	me := x.cur
	x.block("quiescence", func() bool {
		for _, t := range x.threads {
			if t != me && t.runnable() {
				return false
			}
		}
		return len(x.timers) == 0
	})
	n := 0
	for _, t := range x.threads {
		if t != me && !t.done {
			n++
		}
	}
	for _, t := range x.threads {
		me.clock.join(&t.clock)
	}
	return n
}

// ---- sharing and races

// sync reports an operation on a synchronisation object. It becomes a
// scheduling point once the object is known to be used by several threads
// with at least one write.
func (x *Exec) sync(addr uintptr, write bool, what string) {
	if ignored[addr] {
		return
	}
	switch x.phase {
	case phSetup:
		if _, ok := x.names[addr]; !ok {
			x.setupN++
			x.names[addr] = x.setupN
		}
		return
	case phPost:
		return
	}
	var site uint32
	_, named := x.names[addr]
	if !named && !(addr >= globalLo && addr < globalHi) {
		var pcs [1]uintptr
		runtime.Callers(4, pcs[:])
		site = uint32(pcs[0]) | 1<<31
	}
	k := x.keyFor(addr, site)
	t := x.touch[addr]
	if t == nil {
		t = &touched{tid: x.cur.id, keys: []Key{k}}
		x.touch[addr] = t
	} else {
		if t.tid != x.cur.id {
			t.multi = true
		}
		has := false
		for _, o := range t.keys {
			has = has || o == k
		}
		if !has {
			t.keys = append(t.keys, k)
		}
	}
	t.write = t.write || write
	if t.multi && t.write {
		for _, o := range t.keys {
			if !S.Promoted[o] {
				S.New[o] = what
			}
		}
	}
	if S.Promoted[k] {
		x.point(what)
	}
}

func (x *Exec) mem(addr, size uintptr, write bool, site uint32, isMap bool) {
	if addr < 4096 || ignored[addr] {
		return
	}
	if x.phase == phSetup {
		if _, ok := x.names[addr]; !ok {
			x.setupN++
			x.names[addr] = x.setupN
		}
		return
	}
	if x.phase != phRun {
		return
	}
	k := x.keyFor(addr, site)
	if S.Promoted[k] {
		w := "read"
		if write {
			w = "write"
		}
		if x.logOn {
			w = w + " " + siteName(site)
		}
		x.point(w)
	}
	me := x.cur
	if size > 64 {
		size = 64
	}
	for a := addr; a == addr || a < addr+size; a += 8 {
		sh := x.shadows[a]
		if sh == nil {
			sh = &shadow{}
			x.shadows[a] = sh
		}
		if sh.hasW && sh.w.tid != me.id && sh.w.clk > me.clock[sh.w.tid] {
			x.race(k, addr, a, size, sh.w, write, true, site, isMap)
		}
		if write {
			for _, r := range sh.reads {
				if r.tid != me.id && r.clk > me.clock[r.tid] {
					x.race(k, addr, a, size, r, write, false, site, isMap)
				}
			}
			sh.w, sh.hasW = access{me.id, me.clock[me.id], site}, true
			sh.reads = sh.reads[:0]
		} else {
			f := false
			for i := range sh.reads {
				if sh.reads[i].tid == me.id {
					sh.reads[i] = access{me.id, me.clock[me.id], site}
					f = true
				}
			}
			if !f {
				sh.reads = append(sh.reads, access{me.id, me.clock[me.id], site})
			}
		}
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func (x *Exec) race(k Key, base, a, size uintptr, o access, w, ow bool, site uint32, isMap bool) {
	if !S.Promoted[k] {
		S.New[k] = "race"
	}
	ok := x.keyFor(base, o.site)
	if !S.Promoted[ok] {
		S.New[ok] = "race"
	}
	if isMap {
		x.fail("map-race", fmt.Sprintf("concurrent map %s at %s and map %s at %s with nothing to order them (the Go runtime aborts the process on this)",
			rw(w), siteName(site), rw(ow), siteName(o.site)))
	} else if size > 8 {
		x.fail("torn-race", fmt.Sprintf("unordered %s at %s and %s at %s of a value of %d bytes (it can be seen half-written)",
			rw(w), siteName(site), rw(ow), siteName(o.site), size))
	}
}

// R records a read of *p and returns p.
func R[T any](p *T, site uint32) *T {
	if x := act(); x != nil {
		sink = unsafe.Pointer(p)
		x.mem(uintptr(unsafe.Pointer(p)), unsafe.Sizeof(*p), false, site, false)
	}
	return p
}

// Ptr is a location about to be assigned.
type Ptr[T any] struct {
	p    *T
	site uint32
}

func P[T any](p *T, site uint32) Ptr[T] {
	if X != nil {
		sink = unsafe.Pointer(p)
	}
	return Ptr[T]{p, site}
}

func (q Ptr[T]) Set(v T) {
	if x := act(); x != nil {
		x.mem(uintptr(unsafe.Pointer(q.p)), unsafe.Sizeof(*q.p), true, q.site, false)
	}
	*q.p = v
}

// slices: code that goes through the elements, appends and copies. At most 64
// elements are reported.
func slots[S ~[]E, E any](s S, from, n int, write bool, site uint32) {
	x := act()
	if x == nil {
		return
	}
	if n > 64 {
		n = 64
	}
	s = s[:cap(s)]
	for i := from; i < from+n && i < len(s); i++ {
		sink = unsafe.Pointer(&s[i])
		if z := unsafe.Sizeof(s[i]); z > 0 {
			x.mem(uintptr(unsafe.Pointer(&s[i])), z, write, site, false)
		}
	}
}

// SliceR and SliceW: all elements are read or written.
func SliceR[S ~[]E, E any](s S, site uint32) S { slots[S, E](s, 0, len(s), false, site); return s }
func SliceW[S ~[]E, E any](s S, site uint32) S { slots[S, E](s, 0, len(s), true, site); return s }

// SliceA: n elements are appended, in place if there is room.
func SliceA[S ~[]E, E any](s S, site uint32, n int) S {
	if len(s)+n <= cap(s) {
		slots[S, E](s, len(s), n, true, site)
	} else {
		slots[S, E](s, 0, len(s), false, site)
	}
	return s
}

func AppendAll[S ~[]E, T ~[]E, E any](s S, t T, site uint32) S {
	slots[T, E](t, 0, len(t), false, site)
	SliceA[S, E](s, site, len(t))
	return append(s, t...)
}

func Copy[S ~[]E, T ~[]E, E any](s S, t T, site uint32) int {
	n := min(len(s), len(t))
	slots[T, E](t, 0, n, false, site)
	slots[S, E](s, 0, n, true, site)
	return copy(s, t)
}

// ObjR and ObjW: an object of the standard library that is not meant for
// several threads at once is looked at or used.
func ObjR[T any](p *T, site uint32) *T { return obj(p, false, site) }
func ObjW[T any](p *T, site uint32) *T { return obj(p, true, site) }

func obj[T any](p *T, write bool, site uint32) *T {
	if x := act(); x != nil && p != nil {
		sink = unsafe.Pointer(p)
		x.mem(uintptr(unsafe.Pointer(p)), max(16, unsafe.Sizeof(*p)), write, site, false)
	}
	return p
}

// Addr stands for uintptr(p): the n-th distinct pointer so converted in an
// execution is the number n (times 16), so that comparisons repeat.
func Addr(p unsafe.Pointer) uintptr {
	x := act()
	if x == nil || p == nil {
		return uintptr(p)
	}
	if x.addrs == nil {
		x.addrs = map[unsafe.Pointer]uintptr{}
	}
	if n, ok := x.addrs[p]; ok {
		return n
	}
	n := uintptr(len(x.addrs)+1) * 16
	x.addrs[p] = n
	return n
}

func mapAddr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return *(*uintptr)(unsafe.Pointer(&m))
}

func MapR[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if x := act(); x != nil && m != nil {
		x.mem(mapAddr(m), 8, false, site, true)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if x := act(); x != nil && m != nil {
		x.mem(mapAddr(m), 8, true, site, true)
	}
	return m
}

type MapPtr[K comparable, V any] struct {
	m    map[K]V
	site uint32
}

func MP[M ~map[K]V, K comparable, V any](m M, site uint32) MapPtr[K, V] {
	return MapPtr[K, V]{m, site}
}

func (q MapPtr[K, V]) Set(k K, v V) {
	if x := act(); x != nil && q.m != nil {
		x.mem(mapAddr(q.m), 8, true, q.site, true)
	}
	q.m[k] = v
}

// MapKeys returns the keys in a fixed order.
func MapKeys[M ~map[K]V, K comparable, V any](m M, site uint32) []K {
	MapR(m, site)
	type ks struct {
		k K
		s string
	}
	l := make([]ks, 0, len(m))
	for k := range m {
		l = append(l, ks{k, fmt.Sprintf("%v", k)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	out := make([]K, len(l))
	for i := range l {
		out[i] = l[i].k
	}
	return out
}

// Dead ends a goroutine that reaches a select while its execution is being
// torn down.
func Dead() string {
	if dead() {
		runtime.Goexit()
	}
	return "vsched: unreachable select case"
}

// Forced is how often the clock went on although a thread could run.
func Forced() int {
	if x := act(); x != nil {
		return x.forced
	}
	return 0
}
