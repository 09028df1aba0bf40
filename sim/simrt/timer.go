//go:build go1.21

package simrt

import (
	"io"
	"time"
	"unsafe"
)

// --- timers in virtual time ------------------------------------------------------

type timerEntry struct {
	p      unsafe.Pointer // the timer or ticker
	ch     chan time.Time
	f      func()
	period int64
	gen    int // a pending expiration is void if gen has changed
	armed  bool
}

var timers []*timerEntry

//go:norace
func timerFor(p unsafe.Pointer) *timerEntry {
	for _, t := range timers {
		if t.p == p {
			return t
		}
	}
	return nil
}

//go:norace
func addTimer(t *timerEntry) {
	n := make([]*timerEntry, len(timers)+1)
	for i := range timers {
		n[i] = timers[i]
	}
	n[len(n)-1] = t
	timers = n
}

//go:norace
func (t *timerEntry) arm() int {
	t.gen++
	t.armed = true
	return t.gen
}

//go:norace
func (t *timerEntry) disarm() bool {
	was := t.armed
	t.gen++
	t.armed = false
	return was
}

//go:norace
func (t *timerEntry) due(gen int) bool {
	if t.gen != gen {
		return false
	}
	t.armed = t.period > 0
	return true
}

func (t *timerEntry) start(d time.Duration) {
	gen := t.arm()
	daemon(spawn("timer", func() {
		for {
			Sleep(d)
			if !t.due(gen) {
				return
			}
			if t.f != nil {
				undaemon()
				t.f()
				return
			}
			select {
			case t.ch <- Now():
			default:
			}
			if t.period == 0 {
				return
			}
		}
	}))
	syncPoint()
}

func NewTimer(d time.Duration) *time.Timer {
	if !active() {
		return time.NewTimer(d)
	}
	ch := make(chan time.Time, 1)
	t := &time.Timer{C: ch}
	e := &timerEntry{p: unsafe.Pointer(t), ch: ch}
	addTimer(e)
	e.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	if !active() {
		return time.AfterFunc(d, f)
	}
	t := &time.Timer{}
	e := &timerEntry{p: unsafe.Pointer(t), f: f}
	addTimer(e)
	e.start(d)
	return t
}

func NewTicker(d time.Duration) *time.Ticker {
	if !active() {
		return time.NewTicker(d)
	}
	ch := make(chan time.Time, 1)
	t := &time.Ticker{C: ch}
	e := &timerEntry{p: unsafe.Pointer(t), ch: ch, period: 1}
	addTimer(e)
	e.start(d)
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func TimerStop(t *time.Timer) bool {
	if e := timerFor(unsafe.Pointer(t)); e != nil {
		return e.disarm()
	}
	if s.aborting {
		return false
	}
	return t.Stop()
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	if e := timerFor(unsafe.Pointer(t)); e != nil {
		if !active() {
			return false
		}
		was := e.disarm()
		e.start(d)
		return was
	}
	return t.Reset(d)
}

func TickerStop(t *time.Ticker) {
	if e := timerFor(unsafe.Pointer(t)); e != nil {
		e.disarm()
		return
	}
	if !s.aborting {
		t.Stop()
	}
}

func TickerReset(t *time.Ticker, d time.Duration) {
	if e := timerFor(unsafe.Pointer(t)); e != nil {
		if active() {
			e.disarm()
			e.start(d)
		}
		return
	}
	t.Reset(d)
}

// After is time.After in virtual time.
func After(d time.Duration) <-chan time.Time {
	return NewTimer(d).C
}

// --- io.Pipe ---------------------------------------------------------------------

type pipeState struct {
	data       chan []byte
	ack        chan int
	rdone      chan struct{}
	wdone      chan struct{}
	rerr, werr error
	rclosed    bool
	wclosed    bool
	lock       chan struct{}
}

// PipeReader is io.PipeReader.
type PipeReader struct{ p *pipeState }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ p *pipeState }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipeState{data: make(chan []byte), ack: make(chan int), rdone: make(chan struct{}),
		wdone: make(chan struct{}), lock: make(chan struct{}, 1)}
	return &PipeReader{p}, &PipeWriter{p}
}

//go:norace
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.rclosed {
		return 0, io.ErrClosedPipe
	}
	if p.wclosed {
		return 0, p.werr
	}
	d, w, c := RecvCase[[]byte](p.data), RecvCase[struct{}](p.wdone), RecvCase[struct{}](p.rdone)
	switch Select(false, d, w, c) {
	case 0:
		n := copy(b, d.V)
		Send[int](p.ack)(n)
		return n, nil
	case 1:
		return 0, p.werr
	}
	return 0, io.ErrClosedPipe
}

//go:norace
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

//go:norace
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if !r.p.rclosed {
		r.p.rclosed, r.p.rerr = true, err
		Close[struct{}](r.p.rdone)
	}
	return nil
}

//go:norace
func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	Send[struct{}](p.lock)(struct{}{})
	defer Recv[struct{}](p.lock)
	for once := true; once || len(b) > 0; once = false {
		if p.wclosed {
			return n, io.ErrClosedPipe
		}
		if p.rclosed {
			return n, p.rerr
		}
		c, x, y := SendCase[[]byte](p.data)(b), RecvCase[struct{}](p.rdone), RecvCase[struct{}](p.wdone)
		switch Select(false, c, x, y) {
		case 0:
			k := Recv[int](p.ack)
			b = b[k:]
			n += k
		case 1:
			return n, p.rerr
		case 2:
			return n, io.ErrClosedPipe
		}
	}
	return n, nil
}

//go:norace
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

//go:norace
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if !w.p.wclosed {
		w.p.wclosed, w.p.werr = true, err
		Close[struct{}](w.p.wdone)
	}
	return nil
}
