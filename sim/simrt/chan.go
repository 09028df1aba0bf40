//go:build go1.21

package simrt

import (
	"reflect"
	"runtime"
	"sync/atomic"
	"time"
	"unsafe"
)

// Channels keep their native types. Buffered channels are operated natively, without
// ever blocking; for unbuffered channels the rendezvous is simulated.

type waiter struct {
	ch    unsafe.Pointer
	send  bool
	val   unsafe.Pointer // value to send, or place to receive into
	grp   *group
	idx   int
	edgeA int32
	edgeB int32
}

type group struct {
	fired int // index of case which has fired, or -1
	by    *waiter
	ok    bool
}

var chans []*waiter // waiting senders and receivers, in order of arrival
var closedChans []unsafe.Pointer

//go:norace
func addWaiter(w *waiter) {
	n := make([]*waiter, 0, len(chans)+1)
	for _, o := range chans {
		if o.grp.fired < 0 {
			n = n[:len(n)+1]
			n[len(n)-1] = o
		}
	}
	n = n[:len(n)+1]
	n[len(n)-1] = w
	chans = n
}

//go:norace
func findWaiter(ch unsafe.Pointer, send bool, not *group) *waiter {
	for _, w := range chans {
		if w.ch == ch && w.send == send && w.grp.fired < 0 && w.grp != not {
			return w
		}
	}
	return nil
}

//go:norace
func isClosed(ch unsafe.Pointer) bool {
	for _, c := range closedChans {
		if c == ch {
			return true
		}
	}
	return false
}

//go:norace
func markClosed(ch unsafe.Pointer) {
	n := make([]unsafe.Pointer, len(closedChans)+1)
	for i := range closedChans {
		n[i] = closedChans[i]
	}
	n[len(n)-1] = ch
	closedChans = n
}

func ptr[T any](ch T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Case is a case of a select statement.
type Case interface {
	// try performs the operation if it can be done without blocking.
	try(g *group) bool
	enqueue(g *group, idx int)
	fire(w *waiter)
	poll() bool // may the operation be possible?
	native() reflect.SelectCase
	received(v reflect.Value, ok bool)
}

// RCase receives from a channel.
type RCase[T any] struct {
	ch <-chan T
	p  unsafe.Pointer
	V  T
	OK bool
	w  *waiter
	// received natively, from a sender or closer which is not instrumented
	got bool
}

// SCase sends to a channel.
type SCase[T any] struct {
	ch chan<- T
	p  unsafe.Pointer
	v  T
	w  *waiter
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch, p: ptr(ch)} }

// SendCase is curried: the type of the channel alone decides T.
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, p: ptr(ch), v: v} }
}

func (c *RCase[T]) try(g *group) bool {
	if c.ch == nil {
		return false
	}
	if c.got {
		c.got = false
		return true
	}
	if cap(c.ch) == 0 {
		if w := findWaiter(c.p, true, g); w != nil {
			raceAcquire(unsafe.Pointer(&w.edgeA))
			c.take(w)
			raceRelease(unsafe.Pointer(&w.edgeB))
			return true
		}
	}
	select {
	case v, ok := <-c.ch:
		c.V, c.OK = v, ok
		return true
	default:
	}
	return false
}

//go:norace
func (c *RCase[T]) take(w *waiter) {
	c.V, c.OK = *(*T)(w.val), true
	w.grp.fired, w.grp.by = w.idx, w
}

//go:norace
func (c *RCase[T]) enqueue(g *group, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	c.w = &waiter{ch: c.p, val: unsafe.Pointer(&c.V), grp: g, idx: idx}
	raceRelease(unsafe.Pointer(&c.w.edgeA))
	addWaiter(c.w)
}

//go:norace
func (c *RCase[T]) fire(w *waiter) {
	raceAcquire(unsafe.Pointer(&w.edgeB))
	c.OK = true
}

//go:norace
func (c *RCase[T]) poll() bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 || c.got || isClosed(c.p) {
		return true
	}
	if cap(c.ch) == 0 {
		raceDisable()
		select {
		case v, ok := <-c.ch:
			if ok {
				c.V, c.OK, c.got = v, true, true
			}
			raceEnable()
			return true
		default:
		}
		raceEnable()
	}
	return false
}

func (c *SCase[T]) try(g *group) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if isClosed(c.p) {
			panic("send on closed channel")
		}
		if w := findWaiter(c.p, false, g); w != nil {
			raceAcquire(unsafe.Pointer(&w.edgeA))
			c.give(w)
			raceRelease(unsafe.Pointer(&w.edgeB))
			return true
		}
		return false
	}
	select {
	case c.ch <- c.v:
		return true
	default:
	}
	return false
}

//go:norace
func (c *SCase[T]) give(w *waiter) {
	*(*T)(w.val) = c.v
	w.grp.fired, w.grp.by = w.idx, w
}

//go:norace
func (c *SCase[T]) enqueue(g *group, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	c.w = &waiter{ch: c.p, send: true, val: unsafe.Pointer(&c.v), grp: g, idx: idx}
	raceRelease(unsafe.Pointer(&c.w.edgeA))
	addWaiter(c.w)
}

//go:norace
func (c *SCase[T]) fire(w *waiter) {
	raceAcquire(unsafe.Pointer(&w.edgeB))
}

//go:norace
func (c *SCase[T]) poll() bool {
	if c.ch == nil {
		return false
	}
	return len(c.ch) < cap(c.ch) || isClosed(c.p)
}

// Select simulates a select statement. It returns the index of the case performed,
// or -1 for the default case.
func Select(hasDefault bool, cases ...Case) int {
	if !active() {
		return nativeSelect(hasDefault, cases)
	}
	syncPoint()
	for {
		start := selectStart(len(cases))
		for i := range cases {
			k := (i + start) % len(cases)
			if cases[k].try(nil) {
				syncPoint()
				return k
			}
		}
		if hasDefault {
			return -1
		}
		g := &group{fired: -1}
		for i, c := range cases {
			c.enqueue(g, i)
		}
		parkSelect(g, cases)
		if i := g.firedCase(); i >= 0 {
			cases[i].fire(g.byWaiter())
			return i
		}
	}
}

//go:norace
func (g *group) firedCase() int {
	if g.fired < 0 {
		g.fired = 1 << 30 // withdraw all waiters
		return -1
	}
	return g.fired
}

//go:norace
func (g *group) byWaiter() *waiter { return g.by }

//go:norace
func selectStart(n int) int {
	if n < 2 || s.sched.Exhausted() {
		return 0
	}
	return s.sched.Intn(n)
}

type selectCond struct {
	g     *group
	cases []Case
}

//go:norace
func (c *selectCond) ready() bool {
	if c.g.fired >= 0 {
		return true
	}
	for _, k := range c.cases {
		if k.poll() {
			return true
		}
	}
	return false
}

//go:norace
func parkSelect(g *group, cases []Case) {
	park("channel", &selectCond{g, cases})
}

// --- Native operation ----------------------------------------------------------

// Outside of simulated runs (initialization of the simulator's process, warming up)
// everything works natively.

func (c *RCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RCase[T]) received(v reflect.Value, ok bool) {
	c.V, _ = v.Interface().(T)
	c.OK = ok
}

func (c *SCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SCase[T]) received(v reflect.Value, ok bool) {}

func nativeSelect(hasDefault bool, cases []Case) int {
	if s.aborting {
		runtime.Goexit()
	}
	var sc []reflect.SelectCase
	for _, c := range cases {
		sc = append(sc, c.native())
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	atomic.AddInt32(&natives, -1)
	i, v, ok := reflect.Select(sc)
	atomic.AddInt32(&natives, 1)
	if i == len(cases) {
		return -1
	}
	if sc[i].Dir == reflect.SelectRecv {
		cases[i].received(v, ok)
	}
	return i
}

// natives counts goroutines which run natively and do not wait for a channel.
var natives int32 = 1

func nativeGo(f func()) {
	atomic.AddInt32(&natives, 1)
	go func() {
		defer atomic.AddInt32(&natives, -1)
		f()
	}()
}

// settle waits for the end of all native goroutines.
func settle() {
	for i := 0; atomic.LoadInt32(&natives) > 1 && i < 2000; i++ {
		time.Sleep(time.Millisecond)
	}
}

// Send simulates ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(ch)(v)) }
}

// Recv simulates <-ch.
func Recv[T any](ch <-chan T) T {
	c := RecvCase(ch)
	Select(false, c)
	return c.V
}

// Recv2 simulates v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Select(false, c)
	return c.V, c.OK
}

// RangeInit prepares a loop over a channel.
func RangeInit[T any](ch <-chan T) (<-chan T, T) {
	var zero T
	return ch, zero
}

// Close simulates close(ch).
func Close[T any](ch chan<- T) {
	close(ch)
	if active() {
		markClosed(ptr(ch))
		syncPoint()
	}
}

// Forever blocks.
func Forever() bool {
	park("nothing (empty select)", never{})
	return true
}

// --- go statements -----------------------------------------------------------

func Go0(f func()) {
	if !active() {
		if s.aborting {
			return
		}
		nativeGo(f)
		return
	}
	spawn("", f)
	syncPoint()
}
func Go1[A any](f func(A), a A)            { Go0(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B) { Go0(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) {
	Go0(func() { f(a, b, c) })
}
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	Go0(func() { f(a, b, c, d) })
}
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, e E) {
	Go0(func() { f(a, b, c, d, e) })
}
func Go6[A, B, C, D, E, F any](f func(A, B, C, D, E, F), a A, b B, c C, d D, e E, g F) {
	Go0(func() { f(a, b, c, d, e, g) })
}
