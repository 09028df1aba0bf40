//go:build go1.21

package main

import (
	"bufio"
	"errors"
	"io"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/verifsim/simrt"
)

var segReal = []string{"segment (Segmenter, queue, output buffer, simple word breaker)", "uax29 word breaker", "grapheme breaker", "emoji tables", "uax rune publisher, recognizers and their pool", "go-commons-pool (instrumented as well)", "bufio"}
var segStubs = []string{"input readers and their producers (simulated)", "goroutine scheduler (seeded)", "clock (virtual)", "sync and channels of the library (simulated)", "client-written breakers (scripted)", "rangetable.New (memoized)"}
var segAssume = []string{"preemption happens between statements of library code and at synchronizing operations", "texts are drawn from an alphabet of 46 characters covering all UAX#29 classes, and of other characters of these classes"}

func init() {
	register(&property{id: "P01", maxSteps: 400000000, variants: []variant{
		{"deliveries", 20, p01Deliveries, false},
		{"corrupt bytes", 8, p01Corrupt, false},
		{"queue growth", 2, p01Long, false},
		{"buffer limit", 6, p01Limit, false},
		{"any slice of runes", 2, p01Slices, false},
	}, rule: "A run draws a text, a breaker combination and two or three ways of delivery (slice, string reader, chunked and delayed reader, rune reader, pipe with a producer goroutine); the concatenation of the segments must be the text, and all deliveries must agree.",
		real: segReal, stubs: segStubs, assume: segAssume, probes: []string{"segment longer than 64 runes", "more than one breaker", "illegal bytes in text", "ErrTooLong", "segment exactly as long as the limit", "queue of more than 1000 runes"}})
	register(&property{id: "P02", variants: []variant{
		{"failing rune reader", 6, p02Runes, false},
		{"failing byte reader", 6, p02Bytes, false},
		{"bounded calls", 4, p02Bounded, false},
		{"not initialized", 1, p02Uninit, false},
	}, rule: "A run draws a text, breakers, a position and a way of failing; the segments delivered must be exactly those of the undisturbed text which were settled by the runes read, then the error must be reported, identically and for ever.",
		real: segReal, stubs: segStubs, assume: segAssume, probes: []string{"failure before the first rune", "failure after the last rune", "segments delivered before failure", "runes withheld at failure", "reader recovered, segmenter did not go on", "failure within a character", "bound reached before the failure"}})
	register(&property{id: "P03", variants: []variant{
		{"histories", 10, p03Histories, false},
	}, rule: "A run is a history of 2–6 (rarely up to 65) phases, each initializing the same segmenter with a new text (reader or slice), possibly failing, panicking, too long or abandoned at any step; every observation of every phase is compared to a new segmenter.",
		real: segReal, stubs: segStubs, assume: segAssume, probes: []string{"abandoned in mid-text", "read error", "reader panicked", "ErrTooLong", "bounded calls", "slice after stream", "stream after slice", "buffer set too late"}})
	register(&property{id: "P04", variants: []variant{
		{"bounds", 8000, p04Bounds, false},
		{"large texts", 1, p04Large, false},
	}, rule: "A run draws a text, breakers, a delivery and a sequence of Next and BoundedNext calls with random bounds; every call is compared to a model working on the natural breaks of the text.",
		real: segReal, stubs: segStubs, assume: segAssume, probes: []string{"natural break before bound", "fragment cut at bound", "bound reached, nothing delivered", "bound within multi-byte text", "Next after bounded calls", "bound decreased"}})
	register(&property{id: "P05", variants: []variant{
		{"client breakers", 10, p05Scripted, false},
		{"library breakers", 4, p05Library, false},
		{"default breaker", 2, p05Default, false},
	}, rule: "A run draws the complete behaviour of 1–3 client breakers (match lengths, penalties for the current and earlier positions), settings and a text; segments, penalties and the number of runes read must be those of a batch model.",
		real: segReal, stubs: segStubs, assume: segAssume, probes: []string{"break on zero penalty", "break by secondary breakers", "penalty reported late", "text after the last break not delivered", "position held by an active match", "breakers which are not pointers"}})
}

// --- P01 ---------------------------------------------------------------------

func checkConserved(c *Ctx, what string, segs []seg, text string, err error) {
	var b strings.Builder
	for i, s := range segs {
		if s.text == "" {
			c.fail("empty-segment", "%s: segment %d is empty", what, i)
		}
		if utf8.RuneCountInString(s.text) > 64 {
			c.probe(0)
		}
		b.WriteString(s.text)
	}
	if err != nil {
		c.fail("error", "%s: Err() is %q after segmenting a complete text", what, err.Error())
	}
	if b.String() != text {
		c.fail("text-lost", "%s: text is %+q, segments are %s", what, clip(text), showSegs(segs))
	}
	c.eval(1)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// p01Slices: a slice of runes may hold any 32-bit number.
func p01Slices(c *Ctx) {
	setup()
	text := genText(c.G, 30)
	for k := 1 + c.F.Intn(3); k > 0 && len(text) > 0; k-- {
		text[c.F.Intn(len(text))] = []rune{0xd800, 0xdfff, -1, -0x7fffffff, 0x110000, 0x7fffffff, 0xfffe, 0x10ffff, 0x80, 0xffff}[c.F.Intn(10)]
		c.fault(fIllegalRune)
	}
	sp := genSpec(c.G, len(text), true, true)
	s := sp.newSegmenter()
	s.InitFromSlice(append([]rune{}, text...))
	var got []rune
	n := 0
	for ; s.Next() && n <= len(text); n++ {
		view(c, s)
		if len(s.Runes()) == 0 {
			c.fail("empty-segment", "text %x, breakers %s: segment %d is empty", text, sp, n)
		}
		got = append(got, s.Runes()...)
	}
	c.eval(1)
	if err := s.Err(); err != nil {
		c.fail("error", "text %x, breakers %s: Err() is %v", text, sp, err)
	}
	same := len(got) == len(text)
	for i := range text {
		same = same && got[i] == text[i]
	}
	if !same {
		c.fail("text-lost", "text %x, breakers %s: segments are %x", text, sp, got)
	}
	c.sayf("slice %x, breakers %s: %d segments", text, sp, n)
	c.out(itoa(n))
}

// normal is the text a stream of these bytes consists of.
func normal(s string) string { return string([]rune(s)) }

func p01Deliveries(c *Ctx) {
	text := string(genText(c.G, 60))
	p01Run(c, text, genSpec(c.G, utf8.RuneCountInString(text), true, true))
}

func p01Corrupt(c *Ctx) {
	b := []byte(string(genText(c.G, 40)))
	for k := 1 + c.F.Intn(3); k > 0; k-- {
		b = corrupt(c, b)
	}
	if !utf8.Valid(b) {
		c.probe(2)
	}
	p01Run(c, string(b), genSpec(c.G, len(b), true, true))
}

func p01Run(c *Ctx, text string, sp *segSpec) {
	setup()
	if len(sp.breakers) > 1 {
		c.probe(1)
	}
	want := normal(text)
	nr := utf8.RuneCountInString(text)
	c.sayf("text %+q, breakers %s;", clip(text), sp)
	var first []seg
	firstName := ""
	for k := 0; k < 2+c.F.Intn(2); k++ {
		d := genDelivery(c, len(text), nr, true)
		if k == 0 {
			d = delivery{kind: dStrings}
		}
		s := sp.newSegmenter()
		initWith(c, s, &d, text)
		segs := drain(c, s, nr+1)
		if s.Next() {
			c.fail("endless", "Next() is true after false")
		}
		name := deliveryNames[d.kind]
		checkConserved(c, name, segs, want, s.Err())
		c.out(showSegs(segs))
		c.sayf(" %s: %d segments;", name, len(segs))
		if k == 0 {
			first, firstName = segs, name
		} else if !sameSegs(first, segs) {
			c.fail("delivery", "text %+q, breakers %s: by %s: %s, by %s: %s", clip(text), sp, firstName, showSegs(first), name, showSegs(segs))
		}
	}
}

func p01Long(c *Ctx) {
	setup()
	// long segments and a long queue: one breaker holds, others decide
	// (the library needs quadratic time for these)
	n := []int{200, 1000, 2000, 4050, 5000}[pick(c.G, 6, 6, 3, 2, 1)]
	n += c.G.Intn(100)
	var text []rune
	sp := &segSpec{}
	switch c.G.Intn(4) {
	case 0: // one long word for the default breaker
		text = repeat([]rune("abcde1_é世"), n)
	case 1: // several long words
		for len(text) < n {
			text = append(text, repeat([]rune("xyz"), 1+c.G.Intn(n))...)
			text = append(text, ' ')
		}
	case 2: // a client breaker without any break until the end
		sp.breakers, sp.weights = []int{bScripted}, []int{1}
		sp.scripts = []*script{{lam: []int{0}, pen: [][]int{nil}, eot: []int{0, -25000}}}
		text = repeat([]rune("ab c"), n)
	case 3: // word breaker on a long word
		sp.breakers, sp.weights, sp.scripts = []int{bWord}, []int{1}, []*script{nil}
		text = repeat([]rune("abc"), minInt(n, 700))
	}
	if len(text) > 1000 {
		c.probe(5)
	}
	d := genDelivery(c, 0, 0, true)
	d.steps = nil
	if c.F.OneIn(2) {
		d.steps = genSteps(c, len(text))
	}
	s := sp.newSegmenter()
	if d.kind == dSlice {
		s.InitFromSlice(text)
	} else {
		s.Init(d.open(c, string(text)))
	}
	segs := drain(c, s, len(text)+1)
	c.sayf("%d runes, breakers %s, by %s: %d segments", len(text), sp, deliveryNames[d.kind], len(segs))
	checkConserved(c, deliveryNames[d.kind], segs, string(text), s.Err())
	want := sp.model(text)
	if !sameSegs(segs, want) {
		c.fail("long", "%d runes with breakers %s are cut into %d segments instead of %d", len(text), sp, len(segs), len(want))
	}
	c.out(showSegs(segs))
}

func repeat(p []rune, n int) []rune {
	r := make([]rune, 0, n+len(p))
	for len(r) < n {
		r = append(r, p...)
	}
	return r[:n]
}

// p01Limit: segments around the limit of the buffer.
func p01Limit(c *Ctx) {
	setup()
	sp := &segSpec{bufcap: 1 + c.G.Intn(8)}
	sp.max = c.G.Intn(24)
	switch c.G.Intn(6) {
	case 0: // a limit only
		sp.bufcap, sp.max = -1, maxInt(sp.max, 1)
	case 1:
		sp.max = -1 - sp.max
	case 2:
		sp.preset = c.G.Intn(9)
	}
	big := c.G.OneIn(40)
	if big { // default limit
		sp.bufcap = 0
	}
	lim := sp.limit()
	var text []rune
	for k := 1 + c.G.Intn(4); k > 0; k-- {
		n := 1 + c.G.Intn(lim+2)
		if c.G.OneIn(3) {
			n = lim
		} else if c.G.OneIn(3) {
			n = lim + 1
		}
		text = append(text, repeat([]rune("wörtz"), n)...)
		text = append(text, repeat([]rune(" "), 1+c.G.Intn(2))...)
	}
	d := genDelivery(c, len(text), len(text), true)
	if big {
		d.steps = nil
	}
	if len(d.delay) > 0 {
		d.delay = make([]int, len(text))
	}
	s := sp.newSegmenter()
	early := c.G.OneIn(3) // set the limit in advance
	if early {
		sp.setBuffer(s)
	}
	if d.kind == dSlice {
		s.InitFromSlice(text)
	} else {
		s.Init(d.open(c, string(text)))
	}
	if !early {
		sp.setBuffer(s)
	}
	got := drain(c, s, len(text)+1)
	var want []seg
	tooLong := false
	for _, x := range modelDefault(text) {
		n := utf8.RuneCountInString(x.text)
		if n > lim && d.kind != dSlice {
			tooLong = true
			break
		}
		if n == lim {
			c.probe(4)
		}
		want = append(want, x)
	}
	c.sayf("words around limit %d, %d runes, by %s: %d segments, err %v", lim, len(text), deliveryNames[d.kind], len(got), s.Err())
	if !sameSegs(got, want) {
		c.fail("limit", "limit %d, by %s, text %+q: segments %s, want %s", lim, deliveryNames[d.kind], clip(string(text)), showSegs(got), showSegs(want))
	}
	if tooLong {
		c.probe(3)
		c.fault(fTooLong)
		for k := 0; k < 3; k++ {
			if s.Err() != segment.ErrTooLong {
				c.fail("limit", "segment longer than %d runes: Err() is %v", lim, s.Err())
			}
			if s.Next() {
				c.fail("limit", "Next() goes on after ErrTooLong with %+q", clip(s.Text()))
			}
		}
	} else if s.Err() != nil {
		c.fail("limit", "no segment is longer than %d runes, but Err() is %v", lim, s.Err())
	}
	c.eval(1)
	c.out(showSegs(got))
}

// --- P02 ---------------------------------------------------------------------

// undisturbed segments text and records how many runes had been read for each segment.
func undisturbed(c *Ctx, sp *segSpec, text []rune) []seg {
	src := &runeSource{c: c, runes: text}
	s := sp.newSegmenter()
	s.Init(src)
	var out []seg
	for s.Next() {
		x := view(c, s)
		x.reads = src.reads
		out = append(out, x)
		if len(out) > len(text)+1 {
			c.fail("endless", "segmenter does not stop")
		}
	}
	return out
}

func checkFailed(c *Ctx, what string, got, want []seg, s *segment.Segmenter, err error) {
	if !sameSegs(got, want) {
		c.fail("settled", "%s: delivered %s, want %s", what, showSegs(got), showSegs(want))
	}
	for k := many(c, 3, 300); k > 0; k-- {
		if s.Err() != err {
			c.fail("error-lost", "%s: Err() is %v, want %v", what, s.Err(), err)
		}
		if s.Next() {
			c.fail("goes-on", "%s: Next() delivers %+q after the failure", what, s.Text())
		}
		none(c, s)
	}
	c.eval(1)
	c.out(showSegs(got))
}

func p02Runes(c *Ctx) {
	setup()
	text := genText(c.G, 30)
	sp := genSpec(c.G, len(text), true, true)
	k := c.F.Intn(len(text) + 1)
	f := genFailure(c, k, false)
	ref := undisturbed(c, sp, text)
	src := &runeSource{c: c, runes: text, fail: f}
	s := sp.newSegmenter()
	s.Init(src)
	got := drain(c, s, len(text)+1)
	var want []seg
	n := 0
	for _, x := range ref {
		if x.reads <= k {
			want = append(want, x)
			n += utf8.RuneCountInString(x.text)
		}
	}
	p02Probes(c, k, len(text), len(want), n, f)
	c.sayf("text %+q, breakers %s, fails after %d runes with %q: %d segments", string(text), sp, k, f.err, len(got))
	checkFailed(c, "text "+quote(text)+", breakers "+sp.String()+", fails after "+itoa(k)+" runes", got, want, s, f.err)
}

func p02Probes(c *Ctx, k, n, segs, delivered int, f *failure) {
	if k == 0 {
		c.probe(0)
	}
	if k == n {
		c.probe(1)
	}
	if segs > 0 {
		c.probe(2)
	}
	if delivered < k {
		c.probe(3)
	}
	if f.recover {
		c.probe(4)
	}
}

func p02Bytes(c *Ctx) {
	setup()
	text := genText(c.G, 30)
	data := []byte(string(text))
	sp := genSpec(c.G, len(text), true, true)
	k := c.F.Intn(len(data) + 1)
	f := genFailure(c, k, false)
	if c.F.OneIn(8) {
		f.silent, f.err, f.recover, f.withData = true, io.ErrNoProgress, false, false
	}
	d := genDelivery(c, len(data), len(text), false)
	d.kind = dBufio
	if d.steps == nil && c.F.OneIn(2) {
		d.steps = genSteps(c, len(data))
	}
	d.fail = f
	// what can be known of the text by then; a cut within a character makes illegal bytes
	avail := []rune(string(data[:k]))
	if !utf8.Valid(data[:k]) {
		c.fault(fCutInRune)
		c.probe(5)
	}
	ref := undisturbed(c, sp, avail)
	s := sp.newSegmenter()
	s.Init(bufio.NewReaderSize(&byteReader{c: c, data: data, steps: d.steps, fail: f}, d.bufsz))
	got := drain(c, s, len(data)+1)
	var want []seg
	n := 0
	for _, x := range ref {
		if x.reads <= len(avail) {
			want = append(want, x)
			n += utf8.RuneCountInString(x.text)
		}
	}
	p02Probes(c, k, len(data), len(want), n, f)
	c.sayf("text %+q, breakers %s, fails after %d bytes with %q: %d segments", string(text), sp, k, f.err, len(got))
	checkFailed(c, "text "+quote(text)+", breakers "+sp.String()+", fails after "+itoa(k)+" bytes", got, want, s, f.err)
}

// p02Bounded: the same calls on a source which does not fail tell what is settled by k runes.
func p02Bounded(c *Ctx) {
	setup()
	text := genText(c.G, 30)
	sp := genSpec(c.G, len(text), true, true)
	k := c.F.Intn(len(text) + 1)
	f := genFailure(c, k, false)
	ref, src := sp.newSegmenter(), &runeSource{c: c, runes: text}
	ref.Init(src)
	bad := &runeSource{c: c, runes: text, fail: f}
	s := sp.newSegmenter()
	s.Init(bad)
	log := ""
	failed := 0
	for i := 0; i < 3*len(text)+8 && failed < 4; i++ {
		op := segOp{bound: -1}
		if c.G.Intn(4) != 0 {
			op.bound = c.G.Intn(len(text) + 3)
			if c.G.OneIn(3) {
				op.bound = minInt(src.pos+c.G.Intn(4), len(text)+2)
			}
			log += " B" + itoa(op.bound)
		} else {
			log += " N"
		}
		want := observe(c, ref, op)
		if src.reads > k {
			want = observation{err: f.err}
			failed++
		}
		got := observe(c, s, op)
		log += "=" + quote([]rune(got.text))
		c.eval(1)
		if got != want {
			c.fail("settled", "text %+q failing after %d runes, breakers %s, calls%s: got %+q, %v, penalties (%d,%d), error %v, want %+q, %v, (%d,%d), %v", string(text), k, sp, clip(log), got.text, got.ok, got.p0, got.p1, got.err, want.text, want.ok, want.p0, want.p1, want.err)
		}
		if got.err == segment.ErrBoundReached {
			c.fault(fBoundHit)
			c.probe(6)
		}
		if !want.ok && want.err == nil {
			break
		}
	}
	c.sayf("text %+q failing after %d runes, breakers %s, calls%s", string(text), k, sp, clip(log))
	c.out(log)
}

func p02Uninit(c *Ctx) {
	early := c.G.OneIn(2)
	if early {
		setup()
	}
	sp := genSpec(c.G, 4, true, true)
	s := sp.newSegmenter()
	c.fault(fNotInitialized)
	for k := 0; k < 1+c.G.Intn(3); k++ {
		ok := false
		if c.G.OneIn(2) {
			ok = s.BoundedNext(c.G.Intn(10))
		} else {
			ok = s.Next()
		}
		if ok || s.Err() != segment.ErrNotInitialized || s.Text() != "" {
			c.fail("not-initialized", "Next() without Init() is %v, Text() %+q, Err() %v", ok, s.Text(), s.Err())
		}
	}
	// and it may be used afterwards
	if !early {
		setup()
	}
	text := genText(c.G, 10)
	s.Init(strings.NewReader(string(text)))
	got := drain(c, s, len(text)+1)
	checkConserved(c, "after ErrNotInitialized", got, string(text), s.Err())
	c.sayf("breakers %s before Init, then text %+q", sp, string(text))
}

// --- P03 ---------------------------------------------------------------------

type segOp struct {
	bound int // -1: Next
}

type phase struct {
	text   []rune
	d      delivery
	fail   *failure
	ops    []segOp
	finish bool
	void   bool // no input at all: nil
	misuse int  // operation after which a client tries to set the buffer, -1: never
}

func genPhase(c *Ctx, long bool) phase {
	ph := phase{text: genText(c.G, 24), misuse: -1}
	if c.G.OneIn(10) {
		ph.misuse = c.G.Intn(4)
	}
	if c.G.OneIn(20) {
		ph.void, ph.text, long = true, nil, false
	}
	if long {
		ph.text = append(ph.text, repeat([]rune("lang"), 10+c.G.Intn(8))...)
	}
	nb := len(string(ph.text))
	ph.d = genDelivery(c, nb, len(ph.text), true)
	if ph.d.kind == dPipe {
		ph.d.kind = dBufio
	}
	if ph.d.kind != dSlice && c.F.OneIn(3) {
		ph.d.kind = []int{dBufio, dRunes}[c.F.Intn(2)]
		n := nb
		if ph.d.kind == dRunes {
			n = len(ph.text)
		}
		ph.d.fail = genFailure(c, c.F.Intn(n+1), true)
		ph.d.fail.recover = false
	}
	n := 1 + c.G.Intn(6)
	for i := 0; i < n; i++ {
		op := segOp{bound: -1}
		if c.G.OneIn(4) {
			op.bound = c.G.Intn(len(ph.text) + 3)
		}
		ph.ops = append(ph.ops, op)
	}
	ph.finish = c.F.OneIn(3)
	return ph
}

func p03Histories(c *Ctx) {
	setup()
	sp := genSpec(c.G, 30, true, true)
	limited := c.G.OneIn(5)
	if limited {
		sp.bufcap, sp.max = 4, 4+c.G.Intn(12)
	}
	sp.zero = [2]bool{c.G.OneIn(6), c.G.OneIn(6)}
	nph := many(c, 2+c.G.Intn(5), 60)
	phases := make([]phase, nph)
	for i := range phases {
		phases[i] = genPhase(c, limited && c.G.OneIn(3))
	}
	s := sp.newSegmenter()
	prevSlice := -1
	for i := range phases {
		ph := &phases[i]
		fresh := sp.newSegmenter()
		start := func(x *segment.Segmenter, first bool) {
			d := ph.d
			if d.fail != nil {
				f := *d.fail
				d.fail = &f
			}
			switch {
			case ph.void && d.kind == dSlice:
				x.InitFromSlice(nil)
			case ph.void && d.fail == nil:
				x.Init(nil)
			default:
				initWith(c, x, &d, string(ph.text))
			}
			if first {
				sp.setBuffer(x)
			}
			if x == s && c.G.OneIn(4) { // without effect before the start
				x.Buffer(make([]byte, 3), 2)
			}
		}
		start(s, i == 0 || limited && c.G.OneIn(2))
		start(fresh, true)
		slice := 0
		if ph.d.kind == dSlice {
			slice = 1
		}
		if prevSlice == 0 && slice == 1 {
			c.probe(5)
		}
		if prevSlice == 1 && slice == 0 {
			c.probe(6)
		}
		prevSlice = slice
		if i > 0 {
			c.fault(fReinit)
		}
		c.sayf("[%+q by %s", string(ph.text), deliveryNames[ph.d.kind])
		ended := false
		for k := 0; !ended; k++ {
			op := segOp{bound: -1}
			if k < len(ph.ops) {
				op = ph.ops[k]
			} else if !ph.finish || k > len(ph.text)+10 {
				break
			}
			a := observe(c, s, op)
			b := observe(c, fresh, op)
			c.eval(1)
			if a != b {
				c.fail("history", "phase %d, text %+q by %s, breakers %s, operation %d (bound %d): used segmenter: %v, new segmenter: %v",
					i, string(ph.text), deliveryNames[ph.d.kind], sp, k, op.bound, a, b)
			}
			c.out(a.text)
			if op.bound >= 0 {
				c.probe(4)
			}
			if k == ph.misuse && !a.panicked {
				c.probe(7)
				if !panics(func() { s.Buffer(make([]byte, k), 2) }) {
					c.fail("buffer", "phase %d, text %+q by %s: Buffer does not panic after operation %d", i, string(ph.text), deliveryNames[ph.d.kind], k)
				}
				for _, buf := range [][]rune{make([]rune, 0, 1+k), nil} {
					if !panics(func() { s.RuneBuffer(buf, 2) }) {
						c.fail("buffer", "phase %d, text %+q by %s: RuneBuffer does not panic after operation %d", i, string(ph.text), deliveryNames[ph.d.kind], k)
					}
				}
			}
			if a.panicked {
				c.probe(2)
				ended = true
			}
			if !a.ok && a.err != nil && a.err != segment.ErrBoundReached {
				if a.err == segment.ErrTooLong {
					c.fault(fTooLong)
					c.probe(3)
				} else {
					c.probe(1)
				}
				ended = k >= len(ph.ops)
			} else if !a.ok && op.bound < 0 {
				ended = true
			}
		}
		if !ended {
			c.fault(fAbandon)
			c.probe(0)
		}
		c.sayf("] ")
	}
}

type observation struct {
	ok       bool
	text     string
	p0, p1   int
	err      error
	panicked bool
}

// observe performs one operation and records everything which is visible of it.
func observe(c *Ctx, s *segment.Segmenter, op segOp) observation {
	var o observation
	p := attempt(func() {
		if op.bound >= 0 {
			o.ok = s.BoundedNext(op.bound)
		} else {
			o.ok = s.Next()
		}
	})
	if p != nil {
		o.panicked = true
		return o
	}
	o.err = s.Err()
	if o.err != nil && o.err != segment.ErrBoundReached && o.err != segment.ErrTooLong {
		// errors are values made by the simulated readers; the same one for both
		if errors.Is(o.err, segment.ErrNotInitialized) {
			c.fail("error", "initialized segmenter reports %v", o.err)
		}
	}
	if o.ok {
		v := view(c, s)
		o.text, o.p0, o.p1 = v.text, v.p0, v.p1
	} else {
		o.text = s.Text()
	}
	return o
}

// --- P04 ---------------------------------------------------------------------

func p04Bounds(c *Ctx) {
	setup()
	text := genText(c.G, 40)
	sp := genSpec(c.G, len(text), true, true)
	sp.keepWord(c.G, len(text))
	p04Run(c, text, sp)
}

// p04Large: positions beyond 64 K.
func p04Large(c *Ctx) {
	setup()
	var text []rune
	for len(text) < 66000 {
		text = append(text, genText(c.G, 20)...)
		text = append(append(text, ' '), stretch("", 'a', 50+c.G.Intn(100), " ")...)
	}
	sp := genSpec(c.G, 0, false, true)
	for has(sp.breakers, bGrapheme) { // too many segments
		sp = genSpec(c.G, 0, false, true)
	}
	p04Run(c, text, sp)
}

func has(list []int, x int) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

func p04Run(c *Ctx, text []rune, sp *segSpec) {
	// natural breaks
	nat := undisturbed(c, sp, text)
	type brk struct{ at, p0, p1 int }
	var breaks []brk
	at := 0
	for _, x := range nat {
		at += utf8.RuneCountInString(x.text)
		breaks = append(breaks, brk{at, x.p0, x.p1})
	}
	if at != len(text) {
		c.fail("text-lost", "text %+q, segments %s", string(text), showSegs(nat))
	}
	d := genDelivery(c, len(string(text)), len(text), true)
	s := sp.newSegmenter()
	initWith(c, s, &d, string(text))
	pos, last := 0, 0
	log := ""
	for k := 0; k < 3*len(text)+8; k++ {
		bounded := c.G.Intn(4) != 0
		bound := 1 << 40
		if bounded {
			bound = c.G.Intn(len(text) + 3)
			if len(text) > 10000 { // get on
				bound = maxInt(0, pos-200) + c.G.Intn(3000)
			}
			if c.G.OneIn(3) {
				bound = minInt(pos+c.G.Intn(4), len(text)+2)
			}
			if c.G.OneIn(16) {
				bound = []int{-1, -2, -1 << 40, 1 << 40, math.MaxInt64, math.MinInt32, math.MaxInt32}[c.G.Intn(7)]
			}
			if bound < last {
				c.fault(fBoundDecrease)
				c.probe(5)
			}
			last = bound
		}
		ok := false
		if bounded {
			ok = s.BoundedNext(bound)
			log += " B" + itoa(bound)
		} else {
			ok = s.Next()
			log += " N"
			c.probe(4)
		}
		t := ""
		if ok {
			t = view(c, s).text
			log += "=" + quote([]rune(t))
		} else {
			log += "=false"
			none(c, s)
		}
		next := brk{at: -1}
		for _, b := range breaks {
			if b.at > pos {
				next = b
				break
			}
		}
		wantOK, want, natural := false, "", false
		switch {
		case next.at < 0:
		case next.at <= bound:
			wantOK, want, natural = true, string(text[pos:next.at]), true
		case pos < bound:
			wantOK, want = true, string(text[pos:bound])
		}
		c.eval(1)
		if ok != wantOK || t != want {
			c.fail("bounded", "text %+q by %s, breakers %s, natural segments %s, calls%s: want %v %+q", string(text), deliveryNames[d.kind], sp, showSegs(nat), clip(log), wantOK, want)
		}
		p0, p1 := s.Penalties()
		if natural && next.at < bound && (p0 != next.p0 || p1 != next.p1) {
			c.fail("penalties", "text %+q by %s, breakers %s, calls%s: penalties (%d,%d), want (%d,%d)", string(text), deliveryNames[d.kind], sp, clip(log), p0, p1, next.p0, next.p1)
		}
		err := s.Err()
		switch {
		case ok && err != nil:
			c.fail("error", "text %+q, breakers %s, calls%s: Err() is %v", string(text), sp, clip(log), err)
		case !ok && pos < len(text) && err != segment.ErrBoundReached:
			c.fail("error", "text %+q, breakers %s, calls%s: Err() is %v with text remaining", string(text), sp, clip(log), err)
		case !ok && pos >= len(text) && err != nil && !(bounded && err == segment.ErrBoundReached):
			c.fail("error", "text %+q, breakers %s, calls%s: Err() is %v at the end of the text", string(text), sp, clip(log), err)
		}
		if natural {
			c.probe(0)
			pos = next.at
		} else if wantOK {
			c.fault(fBoundHit)
			c.probe(1)
			if len(string(text[:bound])) != bound {
				c.probe(3)
			}
			pos = bound
		} else if pos < len(text) {
			c.probe(2)
		} else if c.G.OneIn(3) {
			break
		}
	}
	c.sayf("text %+q by %s, breakers %s, calls%s", string(text), deliveryNames[d.kind], sp, clip(log))
	c.out(log)
}

// --- P05 ---------------------------------------------------------------------

func p05Check(c *Ctx, sp *segSpec, text []rune) {
	want := sp.model(text)
	got := undisturbedDelivered(c, sp, text)
	if !sameSegs(got.segs, want) {
		c.fail("breaks", "text %+q, breakers %s by %s: segments %s, want %s", string(text), sp, got.how, showSegs(got.segs), showSegs(want))
	}
	if got.counted {
		for i := range want {
			if got.segs[i].reads != want[i].reads {
				c.fail("lookahead", "text %+q, breakers %s: segment %d delivered after reading %d runes, want %d", string(text), sp, i, got.segs[i].reads, want[i].reads)
			}
		}
	}
	n := 0
	for _, x := range want {
		if x.p0 == 0 && sp.zero[0] || x.p1 == 0 && sp.zero[1] {
			c.probe(0)
		}
		if x.p0 == 0 || x.p0 >= 10000 {
			c.probe(1)
		}
		n += utf8.RuneCountInString(x.text)
	}
	if n < len(text) {
		c.probe(3)
	}
	for _, sc := range sp.scripts {
		if sc != nil {
			for i, p := range sc.pen {
				if len(p) > 1 {
					c.probe(2)
				}
				if sc.lam[i] > 0 {
					c.probe(4)
				}
			}
		}
	}
	c.eval(1)
	c.out(showSegs(got.segs))
	c.sayf("text %+q, breakers %s by %s: %s", string(text), sp, got.how, showSegs(got.segs))
}

type delivered struct {
	segs    []seg
	how     string
	counted bool
}

func undisturbedDelivered(c *Ctx, sp *segSpec, text []rune) delivered {
	d := genDelivery(c, len(string(text)), len(text), true)
	if d.kind == dRunes {
		return delivered{undisturbed(c, sp, text), "counted runes", true}
	}
	s := sp.newSegmenter()
	initWith(c, s, &d, string(text))
	segs := drain(c, s, len(text)+1)
	if s.Err() != nil {
		c.fail("error", "Err() is %v", s.Err())
	}
	return delivered{segs, deliveryNames[d.kind], false}
}

func p05Scripted(c *Ctx) {
	setup()
	text := genText(c.G, 24)
	sp := &segSpec{}
	n := many(c, 1+c.G.Intn(3), 10)
	complete := !c.G.OneIn(3)
	for i := 0; i < n; i++ {
		b := bScripted
		var sc *script
		if i > 0 && c.G.OneIn(4) {
			b = c.G.Intn(3)
		} else {
			sc = genScript(c.G, len(text), complete && i == 0)
			if c.G.OneIn(4) {
				b = []int{bValue, bLoose, bEach}[c.G.Intn(3)]
				c.probe(5)
			}
		}
		sp.breakers = append(sp.breakers, b)
		sp.weights = append(sp.weights, 1)
		sp.scripts = append(sp.scripts, sc)
	}
	sp.zero = [2]bool{c.G.OneIn(3), c.G.OneIn(3)}
	p05Check(c, sp, text)
}

func p05Library(c *Ctx) {
	setup()
	text := genText(c.G, 40)
	sp := genSpec(c.G, len(text), false, true)
	sp.zero = [2]bool{c.G.OneIn(4), c.G.OneIn(4)}
	p05Check(c, sp, text)
}

func p05Default(c *Ctx) {
	text := genText(c.G, 60)
	sp := &segSpec{}
	if c.G.OneIn(2) {
		sp.breakers, sp.weights, sp.scripts = []int{bSimple}, []int{1}, []*script{nil}
		if got, want := sp.model(text), modelDefault(text); !sameSegs(got, want) {
			c.fail("default", "text %+q: simple breaker decides %s, want %s", string(text), showSegs(got), showSegs(want))
		}
	}
	p05Check(c, sp, text)
}

func quote(r []rune) string { return strings.ReplaceAll(quoteASCII(string(r)), " ", "␣") }

var _ = simrt.Point
