//go:build go1.21

// Package simrt is the runtime of the simulator: a seeded scheduler for the goroutines
// of instrumented code, with simulated channels, locks and time.
//
// Goroutines of a simulated run are real goroutines, but exactly one of them is allowed
// to run at any time; all others are parked. Who runs, and for how many steps, is
// decided by the scheduling stream of the run. A step is a statement of instrumented
// code (see tool/instrument). Handing over control is hidden from the race detector:
// happens-before edges exist only where the code under test synchronizes.
package simrt

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// G is a simulated goroutine.
type G struct {
	id        int
	name      string
	wake      chan struct{}
	pred      cond   // nil if runnable
	why       string // what it is waiting for
	wakeAt    int64  // virtual time to wake up, if sleeping
	done      bool
	prio      int
	noPreempt int
	edge      int32 // address for race edges of join
	lastSite  uint32
	daemon    bool // does not keep a run going: a timer, or started by package initialization
}

// Violation is what went wrong in a run.
type Violation struct {
	Class  string `json:"class"`
	Msg    string `json:"msg"`
	Detail string `json:"-"` // may differ between runs (stack traces)
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// Config configures a run.
type Config struct {
	Sched    *Stream
	MaxSteps int64
	Reset    func()
	Trace    bool
}

// Result is the outcome of a run.
type Result struct {
	Viol     *Violation
	Steps    int64
	VTime    int64 // µs
	Switches int64
	Hash     uint64 // of the sequence of context switches (who, where)
	Spawned  int
	Strategy string
	Trace    []TraceEvent
}

type sim struct {
	on       bool
	sched    *Stream
	gs       []*G
	cur      *G
	steps    int64
	maxSteps int64
	vtime    int64
	switches int64
	hash     uint64
	viol     *Violation
	aborting bool
	finished chan struct{}
	main     *G
	strat    int
	qmax     int
	low      int
	victim   int
	granted  int
	syncDiv  int
	runEdge  int32
	memCheck int64
	trace    []TraceEvent
	tracing  bool
	coop     bool
	initing  bool
}

var s sim

// fuel is the number of steps until the scheduler takes over again.
var fuel int = 1 << 62

// Seen flags the sites which have been executed in this process.
var Seen [NumSites]uint8

const inf = 1 << 40

// Yield is called before every statement of instrumented code.
//
//go:norace
func Yield(site uint32) {
	Seen[site] = 1
	fuel--
	if fuel <= 0 {
		slow(site)
	}
}

//go:norace
func setFuel(n int) {
	if n < 1 {
		n = 1
	}
	s.granted = n
	fuel = n
}

//go:norace
func account() {
	used := s.granted - fuel
	if used > 0 {
		s.steps += int64(used)
		s.vtime += int64(used)
	}
	s.granted = fuel
}

//go:norace
func slow(site uint32) {
	if !s.on {
		fuel = 1 << 62
		return
	}
	account()
	if s.aborting {
		setFuel(inf)
		return
	}
	g := s.cur
	g.lastSite = site
	if s.steps > s.maxSteps {
		FailNow("no-progress", "step budget of %d exhausted in goroutine %s", s.maxSteps, g.name)
	}
	if g.noPreempt > 0 {
		setFuel(1)
		return
	}
	if s.steps-s.memCheck > 3<<20 {
		s.memCheck = s.steps
		checkMem()
	}
	wakeSleepers()
	n := s.pick(true)
	s.quantum()
	if n != g {
		s.switchTo(n, g)
	}
}

// quantum decides how long the next goroutine is allowed to run.
//
//go:norace
func (s *sim) quantum() {
	left := s.maxSteps - s.steps + 1
	q := int(inf)
	if !s.coop && !s.sched.Exhausted() {
		switch s.strat {
		case 0: // cooperative: run until blocked
		default:
			q = 1 + s.sched.Intn(s.qmax)
		}
	}
	if q > 1<<18 {
		q = 1 << 18
	}
	if int64(q) > left {
		q = int(left)
	}
	setFuel(q)
}

var pickBuf [256]*G

// pick decides which goroutine is next. preempt is true if the current one could go on.
// Returns nil if there is none.
//
//go:norace
func (s *sim) pick(preempt bool) *G {
	n := 0
	for _, g := range s.gs {
		if !g.done && (g.pred == nil || g.pred.ready()) && n < len(pickBuf) {
			pickBuf[n] = g
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return pickBuf[0]
	}
	if s.coop || s.sched.Exhausted() || s.strat == 0 {
		if preempt { // cooperative, but not unfair: take turns after a long time
			for i := 0; i < n; i++ {
				if pickBuf[i].id > s.cur.id {
					return pickBuf[i]
				}
			}
			return pickBuf[0]
		}
		if s.coop || s.sched.Exhausted() {
			return pickBuf[0]
		}
	}
	switch s.strat {
	case 3: // priorities with change points
		if preempt {
			s.low--
			s.cur.prio = s.low
		}
		best := pickBuf[0]
		for _, g := range pickBuf[:n] {
			if g.prio > best.prio {
				best = g
			}
		}
		return best
	case 4: // starve one goroutine
		k := 0
		for i := 0; i < n; i++ {
			if pickBuf[i].id != s.victim {
				pickBuf[k] = pickBuf[i]
				k++
			}
		}
		if k < n && s.sched.Intn(128) == 127 { // starved, but not forever
			return pickBuf[s.sched.Intn(n)]
		}
		if k == 1 {
			return pickBuf[0]
		}
		return pickBuf[s.sched.Intn(k)]
	}
	return pickBuf[s.sched.Intn(n)]
}

//go:norace
func (s *sim) switchTo(n, from *G) {
	s.switches++
	s.hash = Mix(s.hash ^ uint64(n.id)<<32 ^ uint64(from.lastSite))
	if s.tracing {
		s.addTrace(TraceEvent{Step: s.steps, From: from.name, To: n.name, Site: from.lastSite, Why: from.why})
	}
	s.cur = n
	raceDisable()
	n.wake <- struct{}{}
	if !from.done {
		<-from.wake
	}
	raceEnable()
	if from.done {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
}

//go:norace
func wakeSleepers() {
	for _, g := range s.gs {
		if g.wakeAt != 0 && g.wakeAt <= s.vtime && !g.done {
			g.wakeAt = 0
			g.pred = nil
		}
	}
}

// cond is what a parked goroutine waits for. (No closure: closures are instrumented for
// race detection even if the enclosing function is not.)
type cond interface{ ready() bool }

type never struct{}

//go:norace
func (never) ready() bool { return false }

type isDone struct{ g *G }

//go:norace
func (c *isDone) ready() bool { return c.g.done }

type isAwake struct{ g *G }

//go:norace
func (c *isAwake) ready() bool { return c.g.wakeAt == 0 }

// park blocks the current goroutine until pred is true.
//
//go:norace
func park(why string, pred cond) {
	if s.aborting {
		runtime.Goexit()
	}
	account()
	g := s.cur
	g.pred, g.why = pred, why
	s.schedule()
	g.pred, g.why = nil, ""
}

// schedule gives away control. The current goroutine is blocked or done.
//
//go:norace
func (s *sim) schedule() {
	for {
		wakeSleepers()
		n := s.pick(false)
		if n != nil {
			g := s.cur
			s.quantum()
			if n != g {
				s.switchTo(n, g)
			}
			return
		}
		// nobody is runnable: advance the clock to the next sleeper
		var next *G
		for _, g := range s.gs {
			if !g.done && g.wakeAt != 0 && (next == nil || g.wakeAt < next.wakeAt) {
				next = g
			}
		}
		if next == nil {
			break
		}
		s.vtime = next.wakeAt
	}
	// nothing will ever happen again
	var b strings.Builder
	n := 0
	for _, g := range s.gs {
		if !g.done && !g.daemon {
			if n > 0 {
				b.WriteString("; ")
			}
			b.WriteString(g.name + " waits for " + g.why)
			n++
		}
	}
	if n > 0 {
		class := "deadlock"
		if s.main.done {
			class = "leak"
		}
		if s.viol == nil {
			s.viol = &Violation{Class: class, Msg: b.String()}
		}
	}
	s.abort()
}

// abort ends the run: all other goroutines are made to exit, one after the other.
//
//go:norace
func (s *sim) abort() {
	s.aborting = true
	me := s.cur
	if !me.done {
		runtime.Goexit() // exit() will continue
	}
	s.reap()
}

//go:norace
func (s *sim) reap() {
	for _, g := range s.gs {
		if !g.done {
			s.cur = g
			setFuel(inf)
			raceDisable()
			g.wake <- struct{}{}
			raceEnable()
			return // g will call exit()
		}
	}
	raceDisable()
	close(s.finished)
	raceEnable()
}

// exit is called at the end of every goroutine.
//
//go:norace
func exit(g *G) {
	account()
	g.done = true
	g.pred = nil
	raceRelease(unsafe.Pointer(&g.edge))
	raceRelease(unsafe.Pointer(&s.runEdge))
	if s.aborting {
		s.reap()
		return
	}
	if s.viol != nil {
		s.abort()
		return
	}
	live := false
	for _, o := range s.gs {
		if !o.done && !o.daemon {
			live = true
		}
	}
	if !live {
		s.aborting = true // daemons
		s.reap()
		return
	}
	s.schedule()
}

func spawn(name string, f func()) *G {
	g := newG(name)
	go body(g, f)
	return g
}

// setInit starts or ends the initialization of packages: no preemption, and goroutines
// started by it may live as long as the process.
//
//go:norace
func setInit(b bool) {
	s.initing = b
	Cooperative(b)
}

//go:norace
func daemon(g *G) { g.daemon = true }

//go:norace
func undaemon() { s.cur.daemon = false }

//go:norace
func newG(name string) *G {
	g := &G{id: len(s.gs), name: name, wake: make(chan struct{}, 1)}
	if name == "" {
		g.name = "g" + strconv.Itoa(g.id)
	}
	g.daemon = s.initing
	if s.strat == 3 {
		g.prio = 1 + s.sched.Intn(1000)
	}
	n := make([]*G, len(s.gs)+1)
	for i := range s.gs {
		n[i] = s.gs[i]
	}
	n[len(n)-1] = g
	s.gs = n
	return g
}

func body(g *G, f func()) {
	defer exit(g)
	defer func() {
		if isAborting() {
			return
		}
		if p := recover(); p != nil {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			setViol(&Violation{Class: "panic", Msg: fmt.Sprint(p), Detail: string(buf)})
		}
	}()
	waitFirst(g)
	f()
}

//go:norace
func isAborting() bool { return s.aborting }

//go:norace
func setViol(v *Violation) {
	if s.viol == nil {
		s.viol = v
	}
}

//go:norace
func waitFirst(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}

// FailNow records a violation and ends the run.
func FailNow(class, format string, args ...interface{}) {
	setViol(&Violation{Class: class, Msg: fmt.Sprintf(format, args...)})
	endG()
}

//go:norace
func endG() {
	s.aborting = true
	runtime.Goexit()
}

var stratNames = []string{"cooperative", "random", "random", "priorities", "starve"}

// Run executes main as the first goroutine of a simulated run, and all goroutines
// started by it, under the control of the scheduler.
func Run(cfg Config, main func()) Result {
	resetSync()
	s = sim{sched: cfg.Sched, maxSteps: cfg.MaxSteps, finished: make(chan struct{}), hash: 1, tracing: cfg.Trace}
	fuel = 1 << 62
	settle()
	s.on = true
	s.strat = []int{0, 1, 1, 1, 2, 2, 3, 3, 4}[s.sched.Intn(9)]
	switch s.strat {
	case 1:
		s.qmax = []int{2, 5, 20, 80, 300}[s.sched.Intn(5)]
	case 2:
		s.qmax = []int{1000, 4000, 20000}[s.sched.Intn(3)]
	case 3:
		s.qmax = []int{30, 300, 3000}[s.sched.Intn(3)]
	case 4:
		s.qmax = []int{5, 50, 500}[s.sched.Intn(3)]
		s.victim = s.sched.Intn(6)
	}
	s.main = spawn("main", func() {
		if cfg.Reset != nil { // process start
			setInit(true)
			cfg.Reset()
			setInit(false)
		}
		main()
	})
	s.cur = s.main
	s.quantum()
	raceDisable()
	s.main.wake <- struct{}{}
	<-s.finished
	raceEnable()
	raceAcquire(unsafe.Pointer(&s.runEdge))
	s.on = false
	fuel = 1 << 62
	return Result{Viol: s.viol, Steps: s.steps, VTime: s.vtime, Switches: s.switches, Hash: s.hash,
		Spawned: len(s.gs), Strategy: stratNames[s.strat], Trace: s.trace}
}

// checkMem ends a run which eats up all memory.
func checkMem() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 3<<30 {
		FailNow("no-progress", "memory exhausted")
	}
}

// TraceEvent is a context switch or a message of the scenario.
type TraceEvent struct {
	Step int64  `json:"step"`
	From string `json:"from,omitempty"`
	To   string `json:"to,omitempty"`
	Site uint32 `json:"-"`
	At   string `json:"at,omitempty"`
	Why  string `json:"blocked_on,omitempty"`
	Msg  string `json:"msg,omitempty"`
}

//go:norace
func (s *sim) addTrace(e TraceEvent) {
	if len(s.trace) >= 4000 {
		return
	}
	n := s.trace
	if len(n) == cap(n) {
		n = make([]TraceEvent, len(s.trace), 2*len(s.trace)+64)
		for i := range s.trace {
			n[i] = s.trace[i]
		}
	}
	n = n[:len(n)+1]
	n[len(n)-1] = e
	s.trace = n
}

// Note adds a message to the trace of the run, if it is traced.
//
//go:norace
func Note(msg string) {
	if s.tracing {
		s.addTrace(TraceEvent{Step: Steps(), From: s.cur.name, Msg: msg})
	}
}

// Tracing is true if the run is traced.
//
//go:norace
func Tracing() bool { return s.tracing }

// Cooperative switches preemption off (and on again).
//
//go:norace
func Cooperative(b bool) {
	s.coop = b
	if s.on && !s.aborting {
		account()
		s.quantum()
	}
}

// --- API for scenarios -------------------------------------------------------

// Spawn starts a goroutine of the scenario.
func Spawn(name string, f func()) *G {
	return spawn(name, f)
}

// Join waits for goroutines to finish.
func Join(gs ...*G) {
	for _, g := range gs {
		g := g
		joinOne(g)
	}
}

//go:norace
func joinOne(g *G) {
	if !g.done {
		park("join of "+g.name, &isDone{g})
	}
	raceAcquire(unsafe.Pointer(&g.edge))
}

// Point is a possible preemption point of the scenario.
//
//go:norace
func Point() {
	Yield(0)
}

// Steps returns the number of steps of the run up to now.
//
//go:norace
func Steps() int64 {
	return s.steps + int64(s.granted-fuel)
}

// RaceErrors returns the number of data races reported in this process.
func RaceErrors() int { return raceErrors() }

// NoPreempt and Preempt bracket code called back from external code.
//
//go:norace
func NoPreempt() {
	if s.on {
		s.cur.noPreempt++
	}
}

//go:norace
func Preempt() {
	if s.on {
		s.cur.noPreempt--
	}
}

// --- Time -----------------------------------------------------------------

// Sleep blocks for a span of virtual time.
func Sleep(d time.Duration) {
	us := int64(d / time.Microsecond)
	if us < 1 {
		us = 1
	}
	sleep(us)
}

//go:norace
func sleep(us int64) {
	if !s.on {
		return
	}
	account()
	g := s.cur
	g.wakeAt = s.vtime + us
	park("clock", &isAwake{g})
}

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now returns the virtual time.
func Now() time.Time {
	return epoch.Add(time.Duration(vnow()) * time.Microsecond)
}

//go:norace
func vnow() int64 {
	account()
	return s.vtime
}

// Since returns the virtual time elapsed since t.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Gosched gives other goroutines a chance.
//
//go:norace
func Gosched() {
	if s.on && !s.aborting && s.cur.noPreempt == 0 {
		account()
		s.granted, fuel = 0, 0
		slow(s.cur.lastSite)
	}
}

// Std selects the simulated replacement for a function of the standard library.
func Std[T any](orig, repl T) T { return repl }

// Current is the goroutine which is running.
//
//go:norace
func Current() *G { return s.cur }
