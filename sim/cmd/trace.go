//go:build go1.21

package main

import (
	"fmt"
	"io"

	"github.com/npillmayer/schuko/tracing"
	"github.com/npillmayer/uax/verifsim/simrt"
)

// tracer is the client's tracing. It may format all messages (as on level Debug), and it
// watches goroutines of the library which are at work on behalf of finished calls.
type tracer struct {
	tracing.Trace // does nothing
	format        bool
	watch         bool
	seen          []*simrt.G // goroutines which have been tracing or calling the client
	finished      int        // those of them whose work has to be done
	late          string
}

var curTracer *tracer // of the current run, if any

// setTracing draws the tracing of a run.
func setTracing(c *Ctx, watch bool) {
	curTracer = nil
	format := c.F.OneIn(12)
	if !format && !watch {
		tracing.SetTraceSelector(nil)
		return
	}
	if format {
		c.fault(fTracing)
	}
	curTracer = &tracer{Trace: tracing.NoOpTrace(), format: format, watch: watch}
	tracing.SetTraceSelector(curTracer)
}

func (t *tracer) Select(string) tracing.Trace {
	t.touch("tracer")
	return t
}

func (t *tracer) P(string, interface{}) tracing.Trace { return t }

func (t *tracer) Errorf(f string, args ...interface{}) { t.printf(f, args) }
func (t *tracer) Infof(f string, args ...interface{})  { t.printf(f, args) }
func (t *tracer) Debugf(f string, args ...interface{}) { t.printf(f, args) }

func (t *tracer) printf(f string, args []interface{}) {
	if t.format {
		fmt.Fprintf(io.Discard, f, args...)
	}
}

// touch notes that the current goroutine uses an object of the client's.
//
//go:norace
func (t *tracer) touch(what string) {
	if t == nil || !t.watch {
		return
	}
	g := simrt.Current()
	for i, x := range t.seen {
		if x == g {
			if i < t.finished && t.late == "" {
				t.late = what
			}
			return
		}
	}
	t.seen = append(t.seen, g)
}

// begin and end enclose a call of the library by the only goroutine of the client: all other
// goroutines which have been seen have done their work at the end.
//
//go:norace
func (t *tracer) begin() {
	if t != nil {
		t.seen, t.finished = nil, 0
	}
}

//go:norace
func (t *tracer) end() {
	if t == nil {
		return
	}
	g := simrt.Current()
	var s []*simrt.G
	for _, x := range t.seen {
		if x != g {
			s = append(s, x)
		}
	}
	t.seen, t.finished = s, len(s)
}
