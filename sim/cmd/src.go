//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/npillmayer/uax/verifsim/simrt"
)

// Simulated input: readers which deliver a text in pieces, late, or not at all.

// errDisk is the error of a failing reader. It is wrapped in different ways.
var errDisk = errors.New("simulated read error")

type customErr struct{ op string }

func (e *customErr) Error() string { return "simulated " + e.op }

// netErr is an error which claims to be temporary or a timeout.
type netErr struct{ temp, timeout bool }

func (e *netErr) Error() string   { return "simulated network error" }
func (e *netErr) Temporary() bool { return e.temp }
func (e *netErr) Timeout() bool   { return e.timeout }

// failure describes how a reader fails.
type failure struct {
	at       int // after how many bytes (runes for rune readers); -1: never
	err      error
	withData bool // together with the last piece of data
	recover  bool // the next read would succeed
	panics   bool
	silent   bool // zero bytes and no error, for ever
	kind     int
}

func (f *failure) active() bool { return f != nil && f.at >= 0 }

var errPanicValue = "simulated panic of a reader"

// genFailure chooses a failure at position at.
func genFailure(c *Ctx, at int, allowPanic bool) *failure {
	f := &failure{at: at, err: errDisk, kind: fReadErr}
	switch pick(c.F, 4, 2, 2, 1, 1, 1, 4) {
	case 1:
		f.err = &customErr{"device failure"}
	case 6: // errors which invite special treatment
		f.err = []error{&netErr{temp: true}, &netErr{timeout: true}, os.ErrDeadlineExceeded, context.Canceled, syscall.EINTR, syscall.EAGAIN,
			io.ErrNoProgress, io.ErrShortBuffer, bufio.ErrTooLong, os.ErrClosed}[c.F.Intn(10)]
		f.kind = fTempErr
	case 2:
		f.err = io.ErrUnexpectedEOF
		f.kind = fErrAtEOFKind
	case 3:
		f.err = fmt.Errorf("while reading: %w", io.EOF)
		f.kind = fErrAtEOFKind
	case 4:
		f.err = io.ErrClosedPipe
	case 5:
		f.err = fmt.Errorf("wrapped: %w", errDisk)
	}
	switch pick(c.F, 4, 3, 2) {
	case 1:
		f.withData = true
	case 2:
		f.recover = true
	}
	if allowPanic && c.F.OneIn(8) {
		f.panics = true
	}
	return f
}

// step is one delivery of a byte reader.
type step struct {
	n     int // bytes at most; 0: all
	delay int // µs
	zero  bool
}

// genSteps plans how a reader delivers a text.
func genSteps(c *Ctx, n int) []step {
	mode := pick(c.F, 3, 3, 3, 2)
	if mode == 0 || n == 0 {
		return nil // all at once
	}
	var steps []step
	for got := 0; got < n && len(steps) < 400; {
		var s step
		switch mode {
		case 1: // byte by byte
			s.n = 1
		case 2: // small pieces
			s.n = 1 + c.F.Intn(5)
		case 3:
			s.n = 1 + c.F.Intn(40)
		}
		if c.F.OneIn(5) {
			s.delay = 1 + c.F.Intn(400)
			if c.F.OneIn(10) {
				s.delay *= 1000 // stall
			}
		}
		if c.F.OneIn(12) {
			steps = append(steps, step{zero: true})
		}
		got += s.n
		steps = append(steps, s)
	}
	return steps
}

// byteReader is a simulated io.Reader.
type byteReader struct {
	c     *Ctx
	data  []byte
	steps []step
	next  int
	pos   int
	fail  *failure
	fails int
	reads int
}

func (r *byteReader) Read(p []byte) (int, error) {
	curTracer.touch("reader")
	simrt.Point()
	curTracer.touch("reader")
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if r.next < len(r.steps) {
		s := r.steps[r.next]
		r.next++
		if s.delay > 0 {
			if s.delay > 1000 {
				r.c.fault(fStall)
			} else {
				r.c.fault(fDelay)
			}
			simrt.Sleep(time.Duration(s.delay) * time.Microsecond)
		}
		if s.zero {
			r.c.fault(fZeroRead)
			return 0, nil
		}
		if s.n > 0 && s.n < n {
			n = s.n
		}
	}
	limit := len(r.data)
	failing := r.fail.active() && (r.fails == 0 || !r.fail.recover)
	if failing && r.fail.at < limit {
		limit = r.fail.at
	}
	if n > limit-r.pos {
		n = limit - r.pos
	} else if n < len(p) && n < limit-r.pos {
		r.c.fault(fShortRead)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if failing && r.pos == limit && (n == 0 || r.fail.withData) {
		r.fails++
		if r.fail.panics {
			r.c.fault(fPanicReader)
			panic(errPanicValue)
		}
		if r.fail.silent {
			if r.fails == 1 {
				r.c.fault(fNoProgress)
			}
			return n, nil
		}
		r.c.fault(r.fail.kind)
		if n > 0 {
			r.c.fault(fReadErrWithData)
		}
		return n, r.fail.err
	}
	if n == 0 {
		if r.fails > 0 {
			r.c.fault(fTransient)
		}
		return 0, io.EOF
	}
	return n, nil
}

// runeSource is a simulated io.RuneReader.
type runeSource struct {
	c     *Ctx
	runes []rune
	delay []int // µs before each rune, may be nil
	pos   int
	fail  *failure
	fails int
	reads int
}

func (r *runeSource) ReadRune() (rune, int, error) {
	simrt.Point()
	r.reads++
	if r.pos < len(r.delay) && r.delay[r.pos] > 0 {
		r.c.fault(fDelay)
		d := r.delay[r.pos]
		r.delay[r.pos] = 0
		simrt.Sleep(time.Duration(d) * time.Microsecond)
	}
	if r.fail.active() && r.pos >= r.fail.at && (r.fails == 0 || !r.fail.recover) {
		r.fails++
		if r.fail.panics {
			r.c.fault(fPanicReader)
			panic(errPanicValue)
		}
		if r.fails == 1 {
			r.c.fault(r.fail.kind)
		}
		if r.fail.withData { // a rune which must not be used
			return 'x', 1, r.fail.err
		}
		return 0, 0, r.fail.err
	}
	if r.pos >= len(r.runes) {
		return 0, 0, io.EOF
	}
	if r.fails > 0 {
		r.c.fault(fTransient)
	}
	x := r.runes[r.pos]
	r.pos++
	return x, utf8.RuneLen(x), nil
}

// pipe is a reader fed by another goroutine.
type pipe struct {
	ch   chan []byte
	rest []byte
	err  error
	fin  *failure
	c    *Ctx
}

// newPipe starts a producer for data. The channel has room for everything, so that a
// consumer may stop reading.
func newPipe(c *Ctx, data []byte, steps []step, fail *failure) *pipe {
	pieces := [][]byte{}
	delays := []int{}
	end := len(data)
	if fail.active() && fail.at < end {
		end = fail.at
	}
	pos := 0
	for i := 0; pos < end; i++ {
		n, d := end-pos, 0
		if i < len(steps) {
			if steps[i].n > 0 && steps[i].n < n {
				n = steps[i].n
			}
			d = steps[i].delay
		}
		pieces = append(pieces, data[pos:pos+n])
		delays = append(delays, d)
		pos += n
	}
	p := &pipe{ch: make(chan []byte, len(pieces)+1), fin: fail, c: c}
	ch := p.ch
	simrt.Spawn("producer", func() {
		for i, x := range pieces {
			if delays[i] > 0 {
				c.fault(fStall)
				simrt.Sleep(time.Duration(delays[i]) * time.Microsecond)
			}
			simrt.Point()
			simrt.Send(ch)(x)
		}
		simrt.Close(ch)
	})
	return p
}

func (p *pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.rest) == 0 {
		x, ok := simrt.Recv2(p.ch)
		if !ok {
			if p.fin.active() {
				p.c.fault(p.fin.kind)
				return 0, p.fin.err
			}
			return 0, io.EOF
		}
		p.rest = x
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	p.c.fault(fShortRead)
	return n, nil
}

// delivery is a way of getting a text to a segmenter.
type delivery struct {
	kind  int
	steps []step
	delay []int
	bufsz int
	fail  *failure
}

const (
	dSlice = iota
	dStrings
	dBytes
	dBufio
	dRunes
	dPipe
	nDeliveries
)

var deliveryNames = []string{"slice", "strings.Reader", "bytes.Reader", "chunked reader", "rune reader", "pipe"}

func genDelivery(c *Ctx, nbytes, nrunes int, slice bool) delivery {
	d := delivery{kind: c.F.Intn(nDeliveries), bufsz: 16}
	if d.kind == dSlice && !slice {
		d.kind = dStrings
	}
	switch d.kind {
	case dBufio, dPipe:
		d.steps = genSteps(c, nbytes)
		d.bufsz = []int{16, 17, 64, 4096}[c.F.Intn(4)]
	case dRunes:
		if c.F.OneIn(2) {
			d.delay = make([]int, nrunes)
			for i := range d.delay {
				if c.F.OneIn(4) {
					d.delay[i] = 1 + c.F.Intn(300)
				}
			}
		}
	}
	return d
}

// open makes the rune reader of a delivery (not for slices).
func (d *delivery) open(c *Ctx, text string) io.RuneReader {
	switch d.kind {
	case dBytes:
		return bytes.NewReader([]byte(text))
	case dBufio:
		return bufio.NewReaderSize(&byteReader{c: c, data: []byte(text), steps: d.steps, fail: d.fail}, d.bufsz)
	case dRunes:
		return &runeSource{c: c, runes: []rune(text), delay: append([]int{}, d.delay...), fail: d.fail}
	case dPipe:
		return bufio.NewReaderSize(newPipe(c, []byte(text), d.steps, d.fail), d.bufsz)
	}
	return strings.NewReader(text)
}

// corrupt damages some bytes.
func corrupt(c *Ctx, b []byte) []byte {
	n := 1 + c.F.Intn(3)
	for i := 0; i < n && len(b) > 0; i++ {
		p := c.F.Intn(len(b))
		switch c.F.Intn(5) {
		case 0:
			b = append([]byte{}, b...)
			b[p] ^= 1 << uint(c.F.Intn(8))
			c.fault(fBitFlip)
		case 1:
			l := 1 + c.F.Intn(3)
			if p+l > len(b) {
				l = len(b) - p
			}
			b = append(append([]byte{}, b[:p]...), b[p+l:]...)
			c.fault(fByteLoss)
		case 2:
			l := 1 + c.F.Intn(3)
			if p+l > len(b) {
				l = len(b) - p
			}
			b = append(append(append([]byte{}, b[:p+l]...), b[p:p+l]...), b[p+l:]...)
			c.fault(fByteDup)
		case 3:
			b = b[:p]
			c.fault(fTruncate)
		case 4:
			x := []byte{0x80, 0xbf, 0xc0, 0xff, 0xed, 0xf4, 0xe2}[c.F.Intn(7)]
			b = append(append(append([]byte{}, b[:p]...), x), b[p:]...)
			c.fault(fIllegalByte)
		}
	}
	return b
}
