//go:build go1.21

package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"
	"unicode"
	"unsafe"

	"golang.org/x/text/unicode/rangetable"
)

// syncPoint is called after synchronizing operations: a preferred place for switching.
//
//go:norace
func syncPoint() {
	if !s.on || s.aborting || s.coop || s.strat == 0 || s.sched.Exhausted() || s.cur.noPreempt > 0 {
		return
	}
	if s.sched.Intn(4) == 1 {
		account()
		s.granted, fuel = 0, 0
		slow(s.cur.lastSite)
	}
}

// --- Locks -------------------------------------------------------------------

//go:norace
func active() bool { return s.on && !s.aborting }

// MutexLock simulates m.Lock().
func MutexLock(m *sync.Mutex) {
	if !active() {
		if s.aborting {
			m.TryLock()
			return
		}
		m.Lock()
		return
	}
	syncPoint()
	for !m.TryLock() {
		waitLock(unsafe.Pointer(m), "mutex")
	}
}

// MutexUnlock simulates m.Unlock().
func MutexUnlock(m *sync.Mutex) {
	if s.aborting {
		return // the process state is thrown away
	}
	lockFreed(unsafe.Pointer(m))
	m.Unlock()
	syncPoint()
}

func RWLock(m *sync.RWMutex) {
	if !active() {
		if s.aborting {
			return
		}
		m.Lock()
		return
	}
	syncPoint()
	for !m.TryLock() {
		waitLock(unsafe.Pointer(m), "rwmutex")
	}
}

func RWUnlock(m *sync.RWMutex) {
	if s.aborting {
		return
	}
	m.Unlock()
	lockFreed(unsafe.Pointer(m))
	syncPoint()
}

func RWRLock(m *sync.RWMutex) {
	if !active() {
		if s.aborting {
			return
		}
		m.RLock()
		return
	}
	syncPoint()
	for !m.TryRLock() {
		waitLock(unsafe.Pointer(m), "rwmutex")
	}
}

func RWRUnlock(m *sync.RWMutex) {
	if s.aborting {
		return
	}
	m.RUnlock()
	lockFreed(unsafe.Pointer(m))
	syncPoint()
}

// Locker and the other aliases are for instrumented code.
type Locker = sync.Locker

// Duration is time.Duration.
type Duration = time.Duration

// RLocker is satisfied by sync.RWMutex.
type RLocker interface {
	RLock()
	RUnlock()
}

func LockerLock(l sync.Locker) {
	switch l := l.(type) {
	case *sync.Mutex:
		MutexLock(l)
	case *sync.RWMutex:
		RWLock(l)
	default:
		if m := innerLock(l); m != nil {
			LockerLock(m)
			return
		}
		l.Lock()
	}
}

func LockerUnlock(l sync.Locker) {
	switch l := l.(type) {
	case *sync.Mutex:
		MutexUnlock(l)
	case *sync.RWMutex:
		RWUnlock(l)
	default:
		if m := innerLock(l); m != nil {
			LockerUnlock(m)
			return
		}
		l.Unlock()
	}
}

func RLockerRLock(l RLocker) {
	if m, ok := innerLock(l).(*sync.RWMutex); ok {
		RWRLock(m)
		return
	}
	l.RLock()
}

func RLockerRUnlock(l RLocker) {
	if m, ok := innerLock(l).(*sync.RWMutex); ok {
		RWRUnlock(m)
		return
	}
	l.RUnlock()
}

// innerLock finds the lock a type has inherited its methods from. There is none if
// the methods are the type's own: then they are instrumented.
func innerLock(l interface{}) sync.Locker {
	switch l := l.(type) {
	case *sync.RWMutex:
		return l
	case *sync.Mutex:
		return l
	}
	v := reflect.ValueOf(l)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	m, ok := v.Type().MethodByName("Lock")
	if !ok {
		return nil
	}
	pc := m.Func.Pointer()
	if file, _ := runtime.FuncForPC(pc).FileLine(pc); file != "<autogenerated>" {
		return nil
	}
	for i := 0; i < v.Elem().NumField(); i++ {
		if !v.Elem().Type().Field(i).Anonymous {
			continue
		}
		f := v.Elem().Field(i)
		if f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface {
			if f.IsNil() {
				continue
			}
			if f.Kind() == reflect.Interface {
				f = f.Elem()
			}
		} else {
			f = f.Addr()
		}
		if f.Kind() != reflect.Ptr {
			continue
		}
		// unexported fields are not accessible otherwise
		if l := innerLock(reflect.NewAt(f.Type().Elem(), f.UnsafePointer()).Interface()); l != nil {
			return l
		}
	}
	return nil
}

type rlocker struct{ m *sync.RWMutex }

func (r rlocker) Lock()   { RWRLock(r.m) }
func (r rlocker) Unlock() { RWRUnlock(r.m) }

// RWRLocker is m.RLocker().
func RWRLocker(m *sync.RWMutex) sync.Locker { return rlocker{m} }

// Bind0 and so on are method values.
func Bind0[T any](f func(T), x T) func()                { return func() { f(x) } }
func Bind1[T, A any](f func(T, A), x T) func(A)         { return func(a A) { f(x, a) } }
func Bind0R[T, R any](f func(T) R, x T) func() R        { return func() R { return f(x) } }
func Bind1R[T, A, R any](f func(T, A) R, x T) func(A) R { return func(a A) R { return f(x, a) } }

// locks which somebody waits for; an entry is dropped whenever the lock is freed
type lockWait struct {
	p    unsafe.Pointer
	free bool
}

//go:norace
func waitLock(p unsafe.Pointer, why string) {
	w := &lockWait{p: p}
	addLockWait(w)
	park(why, w)
}

var lockWaits []*lockWait

//go:norace
func addLockWait(w *lockWait) {
	n := make([]*lockWait, 0, len(lockWaits)+1)
	for _, o := range lockWaits {
		if !o.free {
			n = n[:len(n)+1]
			n[len(n)-1] = o
		}
	}
	n = n[:len(n)+1]
	n[len(n)-1] = w
	lockWaits = n
}

//go:norace
func lockFreed(p unsafe.Pointer) {
	for _, w := range lockWaits {
		if w.p == p {
			w.free = true
		}
	}
}

// --- Once ------------------------------------------------------------------

type onceEntry struct {
	p       unsafe.Pointer
	running bool
}

var onces []*onceEntry

//go:norace
func onceFor(p unsafe.Pointer) *onceEntry {
	for _, o := range onces {
		if o.p == p {
			return o
		}
	}
	o := &onceEntry{p: p}
	n := make([]*onceEntry, len(onces)+1)
	for i := range onces {
		n[i] = onces[i]
	}
	n[len(n)-1] = o
	onces = n
	return o
}

//go:norace
func (o *onceEntry) set(b bool) { o.running = b }

//go:norace
func (o *onceEntry) isRunning() bool { return o.running }

// OnceDo simulates once.Do(f).
func OnceDo(once *sync.Once, f func()) {
	if !active() {
		if s.aborting {
			return
		}
		once.Do(f)
		return
	}
	syncPoint()
	o := onceFor(unsafe.Pointer(once))
	if o.isRunning() {
		park("once", o)
	}
	// Either done (returns at once) or not yet started. f may be preempted, but nobody
	// else will touch the real once in the meantime.
	once.Do(func() {
		o.set(true)
		defer o.set(false)
		f()
	})
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	once := &sync.Once{}
	return func() { OnceDo(once, f) }
}

// --- WaitGroup ---------------------------------------------------------------

type wgEntry struct {
	p unsafe.Pointer
	n int
}

var wgs []*wgEntry

//go:norace
func wgFor(p unsafe.Pointer) *wgEntry {
	for _, o := range wgs {
		if o.p == p {
			return o
		}
	}
	o := &wgEntry{p: p}
	n := make([]*wgEntry, len(wgs)+1)
	for i := range wgs {
		n[i] = wgs[i]
	}
	n[len(n)-1] = o
	wgs = n
	return o
}

//go:norace
func (w *wgEntry) add(d int) { w.n += d }

func WGAdd(wg *sync.WaitGroup, d int) {
	if s.aborting {
		return
	}
	wg.Add(d)
	if active() {
		wgFor(unsafe.Pointer(wg)).add(d)
		syncPoint()
	}
}

func WGDone(wg *sync.WaitGroup) { WGAdd(wg, -1) }

func WGWait(wg *sync.WaitGroup) {
	if active() {
		wgPark(wgFor(unsafe.Pointer(wg)))
	} else if s.aborting {
		return
	}
	wg.Wait()
}

//go:norace
func wgPark(w *wgEntry) {
	if w.n > 0 {
		park("waitgroup", w)
	}
}

func WGGo(wg *sync.WaitGroup, f func()) {
	WGAdd(wg, 1)
	Go0(func() {
		defer WGDone(wg)
		f()
	})
}

// --- Cond ------------------------------------------------------------------

type condWaiter struct {
	p     unsafe.Pointer
	fired bool
}

var conds []*condWaiter

//go:norace
func addCond(w *condWaiter) {
	n := make([]*condWaiter, 0, len(conds)+1)
	for _, o := range conds {
		if !o.fired {
			n = n[:len(n)+1]
			n[len(n)-1] = o
		}
	}
	n = n[:len(n)+1]
	n[len(n)-1] = w
	conds = n
}

func CondWait(c *sync.Cond) {
	if !active() {
		if s.aborting {
			runtime.Goexit()
		}
		c.Wait()
		return
	}
	w := &condWaiter{p: unsafe.Pointer(c)}
	addCond(w)
	LockerUnlock(c.L)
	condPark(w)
	LockerLock(c.L)
}

//go:norace
func condPark(w *condWaiter) {
	if !w.fired {
		park("cond", w)
	}
}

//go:norace
func condFire(p unsafe.Pointer, all bool) {
	for _, w := range conds {
		if w.p == p && !w.fired {
			w.fired = true
			if !all {
				return
			}
		}
	}
}

func CondSignal(c *sync.Cond)    { condFire(unsafe.Pointer(c), false); syncPoint() }
func CondBroadcast(c *sync.Cond) { condFire(unsafe.Pointer(c), true); syncPoint() }

// --- Pool ------------------------------------------------------------------

type poolEntry struct {
	p     unsafe.Pointer
	items []*poolItem
	edge  int32
}

type poolItem struct{ v interface{} }

var pools []*poolEntry

//go:norace
func poolFor(p unsafe.Pointer) *poolEntry {
	for _, o := range pools {
		if o.p == p {
			return o
		}
	}
	o := &poolEntry{p: p}
	n := make([]*poolEntry, len(pools)+1)
	for i := range pools {
		n[i] = pools[i]
	}
	n[len(n)-1] = o
	pools = n
	return o
}

//go:norace
func (e *poolEntry) push(v interface{}) {
	n := make([]*poolItem, len(e.items)+1)
	for i := range e.items {
		n[i] = e.items[i]
	}
	n[len(n)-1] = &poolItem{v}
	e.items = n
}

//go:norace
func (e *poolEntry) pop() (interface{}, bool) {
	if len(e.items) == 0 {
		return nil, false
	}
	v := e.items[len(e.items)-1].v
	e.items = e.items[:len(e.items)-1]
	return v, true
}

// PoolGet simulates a sync.Pool with one list for all processors.
func PoolGet(p *sync.Pool) interface{} {
	if !active() {
		return p.Get()
	}
	syncPoint()
	e := poolFor(unsafe.Pointer(p))
	v, ok := e.pop()
	if ok {
		raceAcquire(unsafe.Pointer(&e.edge))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, v interface{}) {
	if v == nil {
		return
	}
	if !active() {
		p.Put(v)
		return
	}
	e := poolFor(unsafe.Pointer(p))
	raceRelease(unsafe.Pointer(&e.edge))
	e.push(v)
	syncPoint()
}

//go:norace
func resetSync() {
	lockWaits, onces, wgs, conds, pools, chans, closedChans = nil, nil, nil, nil, nil, nil, nil
	timers = nil
}

// --- Maps --------------------------------------------------------------------

// MapOrder returns the keys of a map in an order decided by the scheduling stream.
func MapOrder[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
	if active() && len(keys) > 1 {
		o := mapShift(len(keys))
		keys = append(keys[o:], keys[:o]...)
	}
	return keys
}

// keyLess orders keys of a map. It does not use package fmt for the usual types: its pool
// synchronizes goroutines.
func keyLess(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() != y.Kind() {
		return x.Kind() < y.Kind()
	}
	switch x.Kind() {
	case reflect.String:
		return x.String() < y.String()
	case reflect.Bool:
		return !x.Bool() && y.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int() < y.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return x.Uint() < y.Uint()
	}
	return fmt.Sprintf("%#v", a) < fmt.Sprintf("%#v", b)
}

//go:norace
func mapShift(n int) int {
	if s.sched.Exhausted() {
		return 0
	}
	return s.sched.Intn(n)
}

// --- Range tables ------------------------------------------------------------

var rangeTables [NumSites]struct {
	in  []rune
	out *unicode.RangeTable
}

// RangeTable memoizes rangetable.New: creating the big tables is pure, but would take
// most of the time of a simulated process start.
func RangeTable(site int, orig func(...rune) *unicode.RangeTable, r ...rune) *unicode.RangeTable {
	if t := memoTable(site, r); t != nil {
		return t
	}
	t := rangetable.New(r...)
	storeTable(site, r, t)
	return t
}

//go:norace
func memoTable(site int, r []rune) *unicode.RangeTable {
	m := &rangeTables[site]
	if m.out == nil || len(m.in) != len(r) {
		return nil
	}
	for i, x := range m.in {
		if r[i] != x {
			return nil
		}
	}
	return m.out
}

//go:norace
func storeTable(site int, r []rune, t *unicode.RangeTable) {
	m := &rangeTables[site]
	m.in, m.out = r, t
}

// --- Conditions to wait for -----------------------------------------------------

//go:norace
func (w *lockWait) ready() bool { return w.free }

//go:norace
func (o *onceEntry) ready() bool { return !o.running }

//go:norace
func (w *wgEntry) ready() bool { return w.n <= 0 }

//go:norace
func (w *condWaiter) ready() bool { return w.fired }
