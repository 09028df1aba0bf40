//go:build go1.21

package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifsim/simrt"
)

func init() {
	register(&property{id: "P06", variants: []variant{
		{"histories", 10, p06Histories, false},
		{"words and graphemes at once", 4, p06Both, false},
		{"concurrent", 5, p06Concurrent, false},
	}, rule: "A run draws 1–6 texts for one segmenter (word or grapheme breaker, or both), some abandoned, cut by read faults or delivered in chunks, possibly with other segmenters in other goroutines; every completed text must be cut exactly where an independent implementation of the UAX#29 rules cuts it.",
		real: segReal, stubs: append([]string{"UAX#29 rules and classes of 46 characters (oracle, written from the annex)"}, segStubs...), assume: segAssume,
		probes: []string{"text after an abandoned text", "text after a read fault", "text longer than 20 runes", "several goroutines", "regional indicators", "emoji ZWJ sequence", "Hebrew and quotes", "hundreds of abandoned segmenters"}})
	register(&property{id: "P07", variants: []variant{
		{"independent segmenters", 10, p07Jobs, true},
		{"shared grapheme string", 3, p07Shared, true},
	}, rule: "A run draws 2–5 goroutines with 1–4 jobs each (segmenting with any breakers and delivery, abandoning texts, failing readers, bounds, grapheme strings, widths); every observation must be the one of the same job run alone, and the race detector must stay silent (every second worker runs a -race build).",
		real: append([]string{"uax11 width", "grapheme strings"}, segReal...), stubs: segStubs, assume: segAssume,
		probes: []string{"three or more goroutines", "text abandoned", "read error", "bounded calls", "grapheme string", "client breakers"}})
	register(&property{id: "P08", variants: []variant{
		{"cold start", 10, p08Cold, true},
		{"repeated setup", 3, p08Again, true},
	}, rule: "A run starts with all package-level state as in a new process and draws 2–5 goroutines whose first uses of the library (Setup functions, constructors, grapheme strings, widths, bidi resolution) race; results must be those of an initialized process, classes those of UAX#29, and the race detector must stay silent.",
		real: append([]string{"bidi resolver", "uax11 width", "grapheme strings", "class table setup"}, segReal...), stubs: segStubs, assume: segAssume,
		probes: []string{"word breaker without setup", "grapheme string without setup", "bidi as first use", "three or more goroutines", "setup during setup"}})
}

// --- P06 ---------------------------------------------------------------------

type hist struct {
	text    []rune
	d       delivery
	fails   bool
	take    int  // segments to take; -1: all
	bounded bool // get the segments with bounded calls, which are not checked
}

func genHist(c *Ctx, last bool) hist {
	h := hist{text: genText(c.G, 40), take: -1}
	h.d = genDelivery(c, len(string(h.text)), len(h.text), true)
	if h.d.kind == dPipe {
		h.d.kind = dBufio
	}
	if last {
		return h
	}
	if c.F.OneIn(4) && h.d.kind != dSlice {
		h.d.kind = []int{dBufio, dRunes}[c.F.Intn(2)]
		n := len(string(h.text))
		if h.d.kind == dRunes {
			n = len(h.text)
		}
		at := c.F.Intn(n + 1)
		if h.d.kind == dBufio { // not within a character
			for t := string(h.text); at < n && !utf8.RuneStart(t[at]); {
				at++
			}
		}
		h.d.fail = genFailure(c, at, true)
		h.fails = true
	} else if c.F.OneIn(3) {
		h.take = c.F.Intn(4)
		h.bounded = c.F.OneIn(3)
	}
	return h
}

// run feeds the text to a segmenter; ok if it has been segmented completely.
func (h *hist) run(c *Ctx, s *segment.Segmenter, segs *[]seg) (ok bool) {
	initWith(c, s, &h.d, string(h.text))
	p := attempt(func() {
		for i := 0; h.take < 0 || i < h.take; i++ {
			if h.bounded {
				if !s.BoundedNext(3 * (i + 1)) {
					return
				}
				continue
			}
			if !s.Next() {
				ok = h.take < 0 && !h.fails
				return
			}
			*segs = append(*segs, view(c, s))
			if len(*segs) > len(h.text)+1 {
				c.fail("endless", "segmenter does not stop")
			}
		}
	})
	if h.take >= 0 {
		c.fault(fAbandon)
	}
	return ok && p == nil
}

func joinSegs(s []seg) string { return strings.Join(segTexts(s), "|") }

func p06Probes(c *Ctx, text []rune) {
	if len(text) > 20 {
		c.probe(2)
	}
	ri, he, em := 0, 0, 0
	for i, r := range text {
		switch cl := classOf(r); {
		case cl.word == "Regional_Indicator":
			ri++
		case cl.word == "Hebrew_Letter" && i+1 < len(text) && (text[i+1] == '"' || text[i+1] == '\''):
			he++
		case cl.ep && i > 0 && text[i-1] == 0x200d:
			em++
		}
	}
	if ri > 2 {
		c.probe(4)
	}
	if em > 0 {
		c.probe(5)
	}
	if he > 0 {
		c.probe(6)
	}
}

// histories are run through one segmenter with a single breaker.
type p06Thread struct {
	word   bool
	weight int
	hs     []hist
	got    [][]seg
	done   []bool
}

func genP06Thread(c *Ctx, n int) *p06Thread {
	t := &p06Thread{word: c.G.OneIn(2), weight: 1}
	if c.G.OneIn(3) {
		t.weight = []int{2, 3, 10, 100}[c.G.Intn(4)]
	}
	for i := 0; i < n; i++ {
		t.hs = append(t.hs, genHist(c, i == n-1))
	}
	t.got = make([][]seg, n)
	t.done = make([]bool, n)
	return t
}

func (t *p06Thread) run(c *Ctx) {
	var s *segment.Segmenter
	if t.word {
		s = segment.NewSegmenter(uax29.NewWordBreaker(t.weight))
	} else {
		s = segment.NewSegmenter(grapheme.NewBreaker(t.weight))
	}
	for i := range t.hs {
		t.done[i] = t.hs[i].run(c, s, &t.got[i])
	}
}

func (t *p06Thread) check(c *Ctx, name string) {
	for i := range t.hs {
		h := &t.hs[i]
		if i > 0 && t.hs[i-1].take >= 0 {
			c.probe(0)
		}
		if i > 0 && t.hs[i-1].fails {
			c.probe(1)
		}
		p06Probes(c, h.text)
		want, kind := refGraphemes(h.text), "graphemes"
		if t.word {
			want, kind = refWords(h.text), "words"
		}
		got := joinSegs(t.got[i])
		c.out(got)
		c.sayf("%s%s of %+q: %d segments, complete %v; ", name, kind, string(h.text), len(t.got[i]), t.done[i])
		if !t.done[i] {
			// what has been delivered must be right, too
			if n := len(t.got[i]); n > len(want) {
				want = append(want, "?")
			} else {
				want = want[:n]
			}
		}
		for k, x := range t.got[i] { // breaks after newlines are mandatory
			if (k+1 < len(t.got[i]) || t.done[i]) && endsLine(x.text) && x.p0 > -5000 {
				c.fail("mandatory", "%stext %d, %s of %+q by %s: the break after %+q has penalty %d", name, i, kind, string(h.text), deliveryNames[h.d.kind], x.text, x.p0)
			}
		}
		c.eval(1)
		if w := strings.Join(want, "|"); got != w {
			c.fail("uax29", "%stext %d, %s of %+q by %s: %+q, want %+q", name, i, kind, string(h.text), deliveryNames[h.d.kind], got, w)
		}
	}
}

// endsLine is true after CR, LF, and other newline characters (WB3a, GB4).
func endsLine(s string) bool {
	r, _ := utf8.DecodeLastRuneInString(s)
	w := classOf(r).word
	return w == "CR" || w == "LF" || w == "Newline"
}

func p06Histories(c *Ctx) {
	setup()
	t := genP06Thread(c, many(c, 1+c.G.Intn(6), 60))
	if c.G.OneIn(40) { // segmenters without an end leave their recognizers behind
		c.fault(fAbandon)
		c.probe(7)
		abandon(string(genText(c.G, 6)), 50+c.G.Intn(500), c.G.OneIn(2))
	}
	t.run(c)
	t.check(c, "")
}

func p06Concurrent(c *Ctx) {
	setup()
	n, more := crowd(c, 2+c.G.Intn(3), 3)
	var ts []*p06Thread
	for i := 0; i < n; i++ {
		ts = append(ts, genP06Thread(c, 1+c.G.Intn(more)))
	}
	c.probe(3)
	var gs []*simrt.G
	for _, t := range ts {
		t := t
		gs = append(gs, simrt.Spawn("segmenter", func() { t.run(c) }))
	}
	simrt.Join(gs...)
	for i, t := range ts {
		t.check(c, fmt.Sprintf("goroutine %d: ", i))
	}
}

// p06Both: one breaker is primary, the other one secondary; penalties tell them apart.
func p06Both(c *Ctx) {
	setup()
	wordFirst := c.G.OneIn(2)
	var s *segment.Segmenter
	if wordFirst {
		s = segment.NewSegmenter(uax29.NewWordBreaker(1), grapheme.NewBreaker(1))
	} else {
		s = segment.NewSegmenter(grapheme.NewBreaker(1), uax29.NewWordBreaker(1))
	}
	n := 1 + c.G.Intn(4)
	for i := 0; i < n; i++ {
		h := genHist(c, i == n-1)
		var segs []seg
		if i > 0 {
			c.fault(fReinit)
		}
		if !h.run(c, s, &segs) {
			continue
		}
		p06Probes(c, h.text)
		// words may cut inside of graphemes and vice versa; collect the pieces of each
		var first, second []string
		a, b := "", ""
		for k, x := range segs {
			a, b = a+x.text, b+x.text
			end := k == len(segs)-1
			if x.p0 != 0 && x.p0 < 10000 || end {
				first, a = append(first, a), ""
			}
			if x.p1 != 0 && x.p1 < 10000 || end {
				second, b = append(second, b), ""
			}
		}
		w, g := strings.Join(first, "|"), strings.Join(second, "|")
		if !wordFirst {
			w, g = g, w
		}
		ww, wg := strings.Join(refWords(h.text), "|"), strings.Join(refGraphemes(h.text), "|")
		c.eval(1)
		c.out(w + g)
		c.sayf("%+q: words %+q, graphemes %+q; ", string(h.text), w, g)
		if w != ww || g != wg {
			c.fail("uax29", "text %d, %+q by %s, word breaker first: %v: words %+q, want %+q; graphemes %+q, want %+q",
				i, string(h.text), deliveryNames[h.d.kind], wordFirst, w, ww, g, wg)
		}
	}
}

// --- P07 ---------------------------------------------------------------------

// job is a piece of work of one goroutine, completely determined beforehand.
type job struct {
	kind  int
	spec  *segSpec
	hs    []phase
	bytes []byte
	ctx   int
	count int
	words string // result of word breaking
}

const (
	jSegment = iota
	jString
	jWidth
	jWordCold  // word breaker, no setup
	jSetupWord // setup function, then classes
	jSetupGraph
	jSetupEmoji
	jBidi
	jWidthCold // width of bytes, without grapheme strings
	jAbandon   // many segmenters given up in the middle of their texts
)

var jobNames = []string{"segmenter", "grapheme string", "width", "word breaker", "SetupUAX29Classes", "SetupGraphemeClasses", "SetupEmojisClasses", "bidi", "width of bytes", "abandoned segmenters"}

func genJob(c *Ctx, kinds ...int) *job {
	j := &job{kind: kinds[c.G.Intn(len(kinds))]}
	switch j.kind {
	case jSegment:
		j.spec = genSpec(c.G, 20, true, true)
		n := 1 + c.G.Intn(3)
		for i := 0; i < n; i++ {
			j.hs = append(j.hs, genPhase(c, false))
		}
		if strings.Contains(j.spec.String(), "scripted") {
			c.probe(5)
		}
	case jWordCold:
		j.spec = &segSpec{breakers: []int{bWord}, weights: []int{1}, scripts: []*script{nil}}
		ph := genPhase(c, false)
		ph.ops, ph.finish, ph.d = nil, true, delivery{kind: dStrings}
		j.hs = []phase{ph}
	case jString, jWidth, jWidthCold:
		j.bytes = []byte(string(genText(c.G, 20)))
		if c.F.OneIn(3) {
			j.bytes = corrupt(c, j.bytes)
		}
		j.ctx = c.G.Intn(3)
		if j.kind == jString {
			c.probe(4)
		}
	case jBidi:
		j.bytes = []byte(bidiText(c.G, 16))
	case jAbandon:
		j.bytes = []byte(string(genText(c.G, 6)))
		j.count = 1 + c.G.Intn(20)
		if c.G.OneIn(10) {
			j.count += 400
		}
	}
	return j
}

// run performs a job and returns a protocol of everything observed. (No fmt: it uses a
// sync.Pool, which would order accesses of different goroutines by chance, hiding races.)
func (j *job) run(c *Ctx) string {
	var b strings.Builder
	var words []string
	switch j.kind {
	case jSegment, jWordCold:
		s := j.spec.newSegmenter()
		for i := range j.hs {
			ph := &j.hs[i]
			d := ph.d
			if d.fail != nil {
				f := *d.fail
				d.fail = &f
				c.probe(2)
			}
			initWith(c, s, &d, string(ph.text))
			b.WriteString("\n" + quoteASCII(string(ph.text)) + " by " + deliveryNames[d.kind] + ":")
			for k := 0; ; k++ {
				op := segOp{bound: -1}
				if k < len(ph.ops) {
					op = ph.ops[k]
				} else if !ph.finish || k > len(ph.text)+10 {
					c.fault(fAbandon)
					c.probe(1)
					break
				}
				o := observe(c, s, op)
				if op.bound >= 0 {
					c.probe(3)
				}
				b.WriteString(" " + strconv.FormatBool(o.ok) + " " + quoteASCII(o.text) + "(" + itoa(o.p0) + "," + itoa(o.p1) + ")")
				if j.kind == jWordCold && o.ok {
					words = append(words, o.text)
				}
				if o.err != nil {
					b.WriteString(" " + o.err.Error())
				}
				if o.panicked || !o.ok && op.bound < 0 {
					break
				}
			}
		}
		if j.kind == jWordCold {
			j.words = strings.Join(words, "|")
		}
	case jString:
		s := grapheme.StringFromBytes(j.bytes)
		b.WriteString(quoteASCII(string(j.bytes)) + ": " + readString(s))
	case jWidth:
		s := grapheme.StringFromBytes(j.bytes)
		ctx := []*uax11.Context{nil, uax11.LatinContext, uax11.EastAsianContext}[j.ctx]
		b.WriteString(quoteASCII(string(j.bytes)) + ": width " + itoa(uax11.StringWidth(s, ctx)) + " in context " + itoa(j.ctx))
	case jWidthCold:
		ctx := []*uax11.Context{nil, uax11.LatinContext, uax11.EastAsianContext}[j.ctx]
		b.WriteString("widths of the bytes " + quoteASCII(string(j.bytes)) + " in context " + itoa(j.ctx) + ":")
		for k := 0; k <= len(j.bytes); k++ {
			b.WriteString(" " + itoa(uax11.Width(j.bytes[k:], ctx)))
		}
	case jSetupWord:
		uax29.SetupUAX29Classes()
		for _, x := range allRunes {
			b.WriteString(" " + uax29.ClassForRune(x.r).String())
		}
	case jSetupGraph:
		grapheme.SetupGraphemeClasses()
		for _, x := range allRunes {
			b.WriteString(" " + grapheme.ClassForRune(x.r).String())
		}
	case jSetupEmoji:
		emoji.SetupEmojisClasses()
		for _, x := range allRunes {
			b.WriteString(" " + emoji.EmojisClassForRune(x.r).String())
		}
	case jAbandon:
		c.fault(fAbandon)
		b.WriteString(abandon(string(j.bytes), j.count, len(j.bytes)%2 == 0))
	case jBidi:
		rl := bidi.ResolveParagraph(strings.NewReader(string(j.bytes)), nil, bidi.TestMode(true))
		b.WriteString(quoteASCII(string(j.bytes)) + ":")
		for i := 0; i <= len(j.bytes); i++ {
			b.WriteString(itoa(int(rl.DirectionAt(uint64(i)))))
		}
	}
	return b.String()
}

func readString(s grapheme.String) string {
	var b strings.Builder
	n := s.Len()
	b.WriteString(itoa(n) + " graphemes of " + quoteASCII(s.String()) + ":")
	for i := 0; i < n; i++ {
		b.WriteString(" " + quoteASCII(s.Nth(i)))
	}
	return b.String()
}

// abandon starts segmenting a text again and again, with new segmenters which are given up
// at once.
func abandon(text string, n int, words bool) string {
	first := ""
	for i := 0; i < n; i++ {
		var s *segment.Segmenter
		if words {
			s = segment.NewSegmenter(uax29.NewWordBreaker(1))
		} else {
			s = segment.NewSegmenter(grapheme.NewBreaker(1))
		}
		s.Init(strings.NewReader(text))
		ok := s.Next()
		if x := strconv.FormatBool(ok) + " " + quoteASCII(s.Text()); i == 0 {
			first = x
		} else if x != first {
			return first + ", the " + itoa(i) + "th time " + x
		}
	}
	return quoteASCII(text) + ", first segment, " + itoa(n) + " times: " + first
}

// oracle checks results which are known independently.
func (j *job) oracle(c *Ctx, res string) {
	switch j.kind {
	case jWordCold:
		if want := strings.Join(refWords(j.hs[0].text), "|"); j.words != want {
			c.fail("uax29", "words of %+q are %+q, want %+q", string(j.hs[0].text), j.words, want)
		}
	case jSetupWord:
		for i, x := range strings.Fields(res) {
			w := allRunes[i].word
			if strings.TrimSuffix(x, "Class") != w && w != "Other" {
				c.fail("classes", "after SetupUAX29Classes(), class of %U is %s, want %s", allRunes[i].r, x, w)
			}
		}
	case jSetupGraph:
		for i, x := range strings.Fields(res) {
			w := allRunes[i].graph
			if strings.TrimSuffix(x, "Class") != w {
				c.fail("classes", "after SetupGraphemeClasses(), class of %U is %s, want %s", allRunes[i].r, x, w)
			}
		}
	case jString:
		want, ok := legalGraphemes(j.bytes)
		if !ok {
			return
		}
		w := fmt.Sprintf("%d graphemes of %+q:", len(want), j.bytes)
		for _, g := range want {
			w += fmt.Sprintf(" %+q", g)
		}
		if w = fmt.Sprintf("%+q: %s", j.bytes, w); w != res {
			c.fail("graphemes", "grapheme string of %s, want %s", res, w)
		}
	}
}

// legalText is the legal text from the first legal character up to the next illegal byte.
func legalText(b []byte) string {
	start := 0
	for start < len(b) {
		r, n := utf8.DecodeRune(b[start:])
		if r != utf8.RuneError || n > 1 {
			break
		}
		start++
	}
	end := start
	for end < len(b) {
		r, n := utf8.DecodeRune(b[end:])
		if r == utf8.RuneError && n <= 1 {
			break
		}
		end += n
	}
	return string(b[start:end])
}

// legalGraphemes: graphemes of the legal text; false if they are not known.
func legalGraphemes(b []byte) ([]string, bool) {
	rs := []rune(legalText(b))
	return refGraphemes(rs), familiar(rs)
}

// many is occasionally up to max.
func many(c *Ctx, n, max int) int {
	if c.G.OneIn(60) {
		return n + c.G.Intn(max)
	}
	return n
}

// crowd occasionally makes many goroutines of few, each with one job only.
func crowd(c *Ctx, n, jobs int) (int, int) {
	if c.G.OneIn(40) {
		return 10 + c.G.Intn(40), 1
	}
	return n, jobs
}

type thread struct {
	jobs []*job
	res  []string
}

func genThreads(c *Ctx, max, maxJobs int, kinds ...int) []*thread {
	n, maxJobs := crowd(c, 2+c.G.Intn(max-1), maxJobs)
	var ts []*thread
	for i := 0; i < n; i++ {
		t := &thread{}
		for k := 1 + c.G.Intn(maxJobs); k > 0; k-- {
			t.jobs = append(t.jobs, genJob(c, kinds...))
		}
		t.res = make([]string, len(t.jobs))
		ts = append(ts, t)
	}
	return ts
}

func runThreads(c *Ctx, ts []*thread) {
	var gs []*simrt.G
	for _, t := range ts {
		t := t
		gs = append(gs, simrt.Spawn("client", func() {
			for i, j := range t.jobs {
				t.res[i] = j.run(c)
			}
		}))
	}
	simrt.Join(gs...)
}

// alone compares all results to those of the same jobs, run one after the other.
func alone(c *Ctx, ts []*thread, what string) {
	simrt.Cooperative(true)
	for i, t := range ts {
		for k, j := range t.jobs {
			j.oracle(c, t.res[k])
			c.out(t.res[k])
			want := j.run(c)
			c.eval(1)
			if want != t.res[k] {
				c.fail("interference", "goroutine %d, job %d (%s): %s: %s, alone: %s", i, k, jobNames[j.kind], what, t.res[k], want)
			}
			c.sayf("[%d: %s %s] ", i, jobNames[j.kind], clip(t.res[k]))
		}
	}
	simrt.Cooperative(false)
}

func p07Jobs(c *Ctx) {
	setup()
	ts := genThreads(c, 4, 3, jSegment, jSegment, jSegment, jString, jWidth, jWordCold, jAbandon)
	if len(ts) > 2 {
		c.probe(0)
	}
	runThreads(c, ts)
	alone(c, ts, "concurrently")
}

func p07Shared(c *Ctx) {
	setup()
	b := []byte(string(genText(c.G, 30)))
	if c.G.OneIn(4) {
		b = []byte(string(repeat(genRunes(c.G, 5), 250)))
	}
	if c.F.OneIn(4) {
		b = corrupt(c, b)
	}
	s := grapheme.StringFromBytes(b)
	n, _ := crowd(c, 2+c.G.Intn(4), 1)
	if n > 2 {
		c.probe(0)
	}
	c.probe(4)
	res := make([]string, n)
	wid := make([]int, n)
	var gs []*simrt.G
	for i := 0; i < n; i++ {
		i := i
		gs = append(gs, simrt.Spawn("reader", func() {
			wid[i] = uax11.StringWidth(s, uax11.LatinContext)
			res[i] = readString(s)
		}))
	}
	simrt.Join(gs...)
	want, ok := legalGraphemes(b)
	w := fmt.Sprintf("%d graphemes of %+q:", len(want), b)
	for _, g := range want {
		w += fmt.Sprintf(" %+q", g)
	}
	c.sayf("%d readers of %+q", n, clip(string(b)))
	for i := range res {
		c.eval(1)
		c.out(res[i])
		if !ok {
			w = res[0]
		}
		if res[i] != w || wid[i] != wid[0] {
			c.fail("shared", "reader %d of a shared grapheme string: %s, width %d; want %s, width %d", i, res[i], wid[i], w, wid[0])
		}
	}
}

// --- P08 ---------------------------------------------------------------------

func p08Cold(c *Ctx) {
	c.fault(fColdStart)
	ts := genThreads(c, 5, 2, jString, jWordCold, jSetupWord, jSetupGraph, jSetupEmoji, jBidi, jWidth, jWidthCold)
	if len(ts) > 2 {
		c.probe(3)
	}
	setups := 0
	for _, t := range ts {
		switch t.jobs[0].kind {
		case jWordCold:
			c.probe(0)
		case jString:
			c.probe(1)
		case jBidi:
			c.probe(2)
		case jSetupWord, jSetupGraph, jSetupEmoji:
			setups++
		}
	}
	if setups > 1 {
		c.probe(4)
	}
	runThreads(c, ts)
	setup()
	alone(c, ts, "in a cold process")
	after(c)
}

// after checks the tables when everything has been set up.
func after(c *Ctx) {
	for _, k := range []int{jSetupWord, jSetupGraph, jSetupEmoji} {
		j := &job{kind: k}
		j.oracle(c, j.run(c))
	}
	for _, x := range allRunes {
		if e := emoji.EmojisClassForRune(x.r); x.ep && int(e) < 0 {
			c.fail("classes", "%U is an emoji, class is %v", x.r, e)
		}
	}
	for _, x := range emojiClasses {
		if e := emoji.EmojisClassForRune(x.r); e != x.class {
			c.fail("classes", "emoji class of %U is %d, should be %d", x.r, int(e), int(x.class))
		}
	}
}

// emojiClasses has some code points and the first of the emoji classes they belong to.
var emojiClasses = []struct {
	r     rune
	class emoji.EmojisClass
}{
	{'a', -1}, {' ', -1}, {0x4e16, -1}, {0x10ffff, -1}, {'#', emoji.EmojiClass}, {'7', emoji.EmojiClass},
	{0xa9, emoji.EmojiClass}, {0x263a, emoji.EmojiClass}, {0x1f1e9, emoji.EmojiClass}, {0x1f3fb, emoji.EmojiClass},
	{0x1f600, emoji.EmojiClass}, {0x200d, emoji.Emoji_ComponentClass}, {0xfe0f, emoji.Emoji_ComponentClass},
	{0x20e3, emoji.Emoji_ComponentClass}, {0xe0041, emoji.Emoji_ComponentClass},
	{0x2605, emoji.Extended_PictographicClass}, {0x1f0ff, emoji.Extended_PictographicClass},
}

// p08Again: everything has been set up; clients work while others call Setup again.
func p08Again(c *Ctx) {
	setup()
	c.fault(fResetup)
	ts := genThreads(c, 4, 3, jSegment, jString, jWordCold, jBidi, jSetupWord, jSetupGraph, jSetupEmoji)
	runThreads(c, ts)
	alone(c, ts, "with repeated setup")
	after(c)
}
