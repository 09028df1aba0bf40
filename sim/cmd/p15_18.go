//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"io"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/verifsim/simrt"
	"golang.org/x/text/language"
	"golang.org/x/text/width"
)

func init() {
	register(&property{id: "P15", maxSteps: 400000000, variants: []variant{
		{"damaged strings", 10, p15Short, true},
		{"mid-size strings", 3, p15Mid, false},
		{"sizes around representation limits", 2, p15Borders, false},
	}, rule: "A run draws a text, damages it (flipped bits, lost, duplicated, illegal bytes, truncation), makes a grapheme string from bytes or a Go string, overwrites the bytes, and reads it in a drawn order from one to three goroutines; content and graphemes must be those of the reference.",
		real: []string{"grapheme strings", "grapheme breaker and segmenter", "recognizer pool"}, stubs: []string{"scheduler", "UAX#29 reference (oracle)"},
		assume: []string{"the reference segmentation has been written from UAX#29"},
		probes: []string{"illegal prefix", "illegal byte after legal text", "no legal character", "empty", "U+FFFD in the text", "mid-size", "at a limit", "concurrent readers"}})
	register(&property{id: "P16", maxSteps: 400000000, variants: []variant{
		{"one goroutine", 200, p16Alone, false},
		{"several goroutines", 200, p16Concurrent, true},
		{"long strings", 1, p16Long, false},
	}, rule: "A run draws 1-4 goroutines measuring drawn, partly damaged strings in predefined (shared), absent or own contexts, or contexts made from a drawn (also missing or nonsensical) environment; some runs measure a string of up to 65534 bytes; widths must add up, be in range, follow the kind of context, and equal those measured alone.",
		real: []string{"uax11", "grapheme strings", "emoji classes"}, stubs: []string{"scheduler"},
		assume: []string{"golang.org/x/text/width gives East Asian width properties"},
		probes: []string{"shared context", "own context", "no context", "damaged", "empty", "wide context by locale", "grapheme of several characters", "context from the environment", "wider than 65535"}})
	register(&property{id: "P17", variants: []variant{
		{"scripted subscribers", 10, p17Scripted, true},
		{"pooled recognizers", 6, p17Pooled, true},
		{"subscriber queue", 3, p17Queue, true},
	}, rule: "A run draws 1-3 goroutines, each with a publisher of its own and a history of subscriptions and events; subscribers are scripted (match lengths, penalties, when they are done) or pooled recognizers with drawn state functions; or clients operate the queue of subscribers themselves. Every event, result and end of a subscription is compared with a reference publisher.",
		real: []string{"rune publisher", "subscriber queue", "Recognizer and its pool"}, stubs: []string{"scheduler", "scripted subscribers", "reference publisher (oracle)"},
		probes: []string{"several done at once", "all done at once", "subscription while others are active", "event without subscribers", "concurrent publishers", "more than 8 active", "hundreds of recognizers in use"}})
	register(&property{id: "P18", variants: []variant{
		{"deliveries", 5, p18Deliveries, false},
		{"read failures", 10, p18Failures, false},
		{"several files at once", 6, p18Concurrent, true},
		{"damaged files", 5, p18Damaged, false},
	}, rule: "A run draws one to three data files, each parsed in a goroutine of its own (items, ranges, comments, blank lines, CR, LF and CRLF, some undecodable code points), a chunking with delays, and possibly a read failure after k bytes; reported items must be those of all complete lines, in order, and the error must be reported.",
		real: []string{"ucdparse scanner and line buffer", "bufio.Scanner"}, stubs: []string{"reader of the file", "scheduler"},
		probes: []string{"failure within a line", "failure at a line border", "failure before the first line", "CR line ends", "undecodable code point", "no line end at end of file", "reader would recover", "several files", "large file", "damaged data line", "damaged line is undecodable"}})
}

// --- P15 ---------------------------------------------------------------------

func p15Short(c *Ctx) {
	setup()
	b := []byte(string(genText(c.G, 30)))
	if c.G.OneIn(8) {
		b = append(b, []byte("\ufffdx")...)
	}
	if c.F.OneIn(2) {
		b = corrupt(c, b)
	}
	p15Check(c, b)
}

func p15Mid(c *Ctx) {
	setup()
	b := []byte(string(repeat(genRunes(c.G, 1+c.G.Intn(12)), 120+c.G.Intn(600))))
	if c.G.OneIn(16) { // nothing legal
		b = bytes.Repeat([]byte{0xc3, 0x80, 0xff}[c.G.Intn(3):][:1], 200+c.G.Intn(200))
	}
	if c.F.OneIn(2) {
		b = corrupt(c, b)
	}
	p15Check(c, b)
}

// p15Borders: sizes where the width of break positions changes.
func p15Borders(c *Ctx) {
	setup()
	n := []int{254, 255, 256, 257, 253}[c.G.Intn(5)]
	if c.G.OneIn(40) {
		n = []int{32766, 32768, 65534, 65533}[c.G.Intn(4)]
	}
	pat := string(genRunes(c.G, 1+c.G.Intn(6)))
	if n > 1000 {
		pat += "a" // the segmenter needs quadratic time for very long graphemes
	}
	b := []byte(strings.Repeat(pat, n/len(pat)))
	for k := 0; len(b) < n; k++ {
		b = append(b, 'a')
	}
	c.probe(6)
	if c.F.OneIn(4) { // keep the size
		i := c.F.Intn(len(b))
		b[i] ^= 1 << uint(c.F.Intn(8))
		c.fault(fBitFlip)
	}
	p15Check(c, b)
}

// firstLegal finds the first legal character of a text and what is before it.
func firstLegal(text string) (int, string) {
	for i := range text {
		for k := 1; k <= utf8.UTFMax && i+k <= len(text); k++ {
			if utf8.ValidString(text[i : i+k]) {
				return i, text[:i]
			}
		}
	}
	return -1, text
}

func p15Check(c *Ctx, b []byte) {
	text := string(b)
	p15Probes(c, text)
	var s grapheme.String
	how := "string"
	if c.G.OneIn(2) {
		s = grapheme.StringFromString(text)
	} else {
		how = "bytes"
		s = grapheme.StringFromBytes(b)
		for i := range b { // the string has to have its own copy
			b[i] = 'Z'
		}
	}
	want, known := legalGraphemes([]byte(text))
	if !known {
		want = libGraphemes(c, legalText([]byte(text)))
	}
	if at, off := uax.PositionOfFirstLegalRune(text); true {
		start, prefix := firstLegal(text)
		c.eval(1)
		if at != start || string(off) != prefix {
			c.fail("first", "%s: first legal character at %d after %s, should be at %d after %s", quoteASCII(clip(text)), at, quoteASCII(clip(string(off))), start, quoteASCII(clip(prefix)))
		}
		for i := range off { // belongs to the client
			off[i] = 'Z'
		}
	}
	n := 1
	if c.G.OneIn(4) && len(text) < 300 {
		n, _ = crowd(c, 2+c.G.Intn(2), 1)
		c.probe(7)
	}
	bad := make([]string, n)
	offs := make([]int, n)
	for i := range offs {
		offs[i] = c.G.Intn(len(want) + 1)
	}
	read := func(i int) {
		if got := s.String(); got != text {
			bad[i] = "String() is " + quoteASCII(got)
			return
		}
		if l := s.Len(); l != len(want) {
			bad[i] = "Len() is " + itoa(l) + ", should be " + itoa(len(want))
			return
		}
		for _, k := range []int{-1, len(want), len(want) + 1 + offs[i]} {
			if k == 0 {
				continue
			}
			if g := ""; !panics(func() { g = s.Nth(k) }) {
				bad[i] = "grapheme " + itoa(k) + " is " + quoteASCII(g) + " of " + itoa(len(want)) + ", should panic"
				return
			}
		}
		for k := range want {
			j := (k + offs[i]) % len(want)
			if g := s.Nth(j); g != want[j] {
				bad[i] = "grapheme " + itoa(j) + " is " + quoteASCII(g) + ", should be " + quoteASCII(want[j])
				return
			}
		}
	}
	if n == 1 {
		read(0)
	} else {
		var gs []*simrt.G
		for i := 0; i < n; i++ {
			i := i
			gs = append(gs, simrt.Spawn("reader", func() { read(i) }))
		}
		simrt.Join(gs...)
	}
	c.sayf("%d readers of %s, %d graphemes", n, quoteASCII(clip(text)), len(want))
	for i := range bad {
		c.eval(1)
		c.out(itoa(len(want)))
		if bad[i] != "" {
			c.fail("content", "grapheme string from %s %s, %d bytes, reader %d: %s", how, quoteASCII(clip(text)), len(text), i, bad[i])
		}
	}
}

func p15Probes(c *Ctx, text string) {
	legal := legalText([]byte(text))
	at := strings.Index(text, legal)
	switch {
	case text == "":
		c.probe(3)
	case legal == "":
		c.probe(2)
	case at > 0:
		c.probe(0)
	}
	if legal != "" && at+len(legal) < len(text) {
		c.probe(1)
	}
	if strings.Contains(legal, "\ufffd") {
		c.probe(4)
	}
	if len(text) >= 255 {
		c.probe(5)
	}
}

// libGraphemes segments legal text of characters unknown to the oracle by the library.
func libGraphemes(c *Ctx, text string) []string {
	s := segment.NewSegmenter(grapheme.NewBreaker(1))
	s.Init(strings.NewReader(text))
	return segTexts(drain(c, s, len(text)+2))
}

// --- P16 ---------------------------------------------------------------------

var wideLocales = []string{"zh", "zh-TW", "ja", "ko", "th", "my", "km", "vi", "mn", "mn-MN", "ja-JP", "ko-KR", "th-TH", "vi-VN", "my-MM", "km-KH", "yue", "zh-Hans-SG", "lo", "ii", "bn", "zh-Hant-HK"}
var narrowLocales = []string{"en", "en-US", "de", "fr-CA", "ru", "he", "ar", "", "el", "pl-PL", "uk", "es-419", "sv-SE", "hy", "tr", "en-JP"}

// wideScripts are the East and South East Asian scripts known to package uax11.
var wideScripts = strings.Fields("Hant Hans Hani Hanb Bopo Hang Hira Kana Lana Kitl Kits Nkdb Nkgb Plrd " +
	"Batk Beng Bugi Mymr Cham Java Khmr Laoo Lisu Mtei Thai Yiii Bali Khar Rjng Roro Tglg Wole Buhd Tagb")

// measure is a measurement of a string in a context.
type measure struct {
	b      []byte
	kind   int // 0 none, 1 Latin, 2 East Asian, 3 locale, 4 forced, 5 script, 6 environment
	env    *environ
	loc    string
	wide   bool
	script int
	res    string
	bad    string
	own    *uax11.Context
	prev   *measure // shares the context of this one
}

// environ is the locale of the process.
type environ struct {
	all, lang string
	wide      bool
}

var wideEnv = []string{"ja_JP.UTF-8", "zh_TW.Big5", "zh_CN", "ko_KR.eucKR", "th_TH.TIS-620", "vi_VN", "my_MM", "ja", "zh_", "mn_MN.UTF-8", "km_KH", "lo_LA.UTF-8", "bn_BD", "zh_HK", "zh_SG.UTF-8"}
var narrowEnv = []string{"C", "POSIX", "C.UTF-8", "en_US.UTF-8", "de_DE@euro", "ru_RU.KOI8-R", "\xff\xfe", "..", "_", "_JP", "123", "en_JP", "xx_YY", "%s", "-", "a_b_c.d.e"}

func genEnviron(c *Ctx) *environ {
	e := &environ{}
	draw := func() (string, bool) {
		switch c.F.Intn(3) {
		case 0:
			c.fault(fNoLocale)
			return "", false
		case 1:
			return wideEnv[c.G.Intn(len(wideEnv))], true
		}
		k := c.G.Intn(len(narrowEnv))
		if k > 5 {
			c.fault(fBadLocale)
		}
		return narrowEnv[k], false
	}
	e.all, e.wide = draw()
	var w bool
	e.lang, w = draw()
	if e.all == "" {
		e.wide = w
	}
	return e
}

// set puts the environment variables.
func (e *environ) set() {
	for _, v := range [][2]string{{"LC_ALL", e.all}, {"LANG", e.lang}} {
		if v[1] == "" {
			os.Unsetenv(v[0])
		} else {
			os.Setenv(v[0], v[1])
		}
	}
}

func genMeasure(c *Ctx, own []*measure, env *environ) *measure {
	m := &measure{b: []byte(string(genText(c.G, 12)))}
	if c.G.OneIn(4) {
		ws := []rune("\uff21\uff71\u03b1\u00e9\u3042\ua000\u20a9\U00020000\u2460")
		for i := 1 + c.G.Intn(4); i > 0; i-- {
			m.b = append(m.b, string(ws[c.G.Intn(len(ws))])...)
		}
	}
	if c.F.OneIn(3) {
		m.b = corrupt(c, m.b)
		c.probe(3)
	}
	if len(m.b) == 0 {
		c.probe(4)
	}
	if len(own) > 0 && c.G.OneIn(2) { // use the context of an earlier measurement again
		o := own[c.G.Intn(len(own))]
		m.kind, m.loc, m.wide, m.own, m.env, m.prev = o.kind, o.loc, o.wide, o.own, o.env, o
		return m
	}
	m.kind = c.G.Intn(7)
	m.wide = m.kind == 2 || m.kind == 4
	switch m.kind {
	case 0:
		c.probe(2)
	case 1, 2:
		c.probe(0)
	case 3:
		c.probe(1)
		if c.G.OneIn(2) {
			m.wide = true
			m.loc = wideLocales[c.G.Intn(len(wideLocales))]
			c.probe(5)
		} else {
			m.loc = narrowLocales[c.G.Intn(len(narrowLocales))]
		}
	case 5:
		m.wide = c.G.OneIn(2)
		m.script = c.G.Intn(len(wideScripts))
	case 6: // the context is made by run
		m.env = env
		if env == nil {
			m.env = genEnviron(c)
		}
		m.wide = m.env.wide
		c.probe(7)
		return m
	}
	m.own = m.context()
	return m
}

// context makes the context of a measurement.
func (m *measure) context() *uax11.Context {
	switch m.kind {
	case 1:
		return uax11.LatinContext
	case 2:
		return uax11.EastAsianContext
	case 3:
		return &uax11.Context{Locale: m.loc}
	case 4:
		return &uax11.Context{ForceEastAsian: true}
	case 5:
		s := "Latn"
		if m.wide {
			s = wideScripts[m.script]
		} else if m.script%2 == 1 {
			s = []string{"Cyrl", "Grek", "Arab", "Hebr", "Deva", "Armn"}[m.script/2%6]
		}
		return &uax11.Context{Script: language.MustParseScript(s), Locale: "en"}
	case 6:
		return uax11.ContextFromEnvironment()
	}
	return nil
}

func (m *measure) String() string {
	s := []string{"no context", "Latin context", "East Asian context", "context for locale " + m.loc, "forced East Asian context", "context for a script", "context for the environment"}[m.kind]
	if m.env != nil {
		s += " LC_ALL=" + quoteASCII(m.env.all) + " LANG=" + quoteASCII(m.env.lang)
	}
	if len(m.b) > 1000 {
		return quoteASCII(string(m.b[:100])) + "... (" + itoa(len(m.b)) + " bytes) in " + s
	}
	return quoteASCII(string(m.b)) + " in " + s
}

// run measures, without fmt.
func (m *measure) run(alone bool) {
	if m.prev != nil {
		m.own = m.prev.own
	} else if m.kind == 6 {
		if alone {
			m.env.set()
		}
		m.own = m.context()
	}
	m.res, m.bad = m.take(m.own)
}

func (m *measure) take(ctx *uax11.Context) (res, bad string) {
	s := grapheme.StringFromBytes(m.b)
	w := uax11.StringWidth(s, ctx)
	var all strings.Builder
	all.WriteString(itoa(w) + ":")
	sum := 0
	for i := 0; i < s.Len(); i++ {
		g := s.Nth(i)
		x := uax11.Width([]byte(g), ctx)
		if x != 1 && x != 2 {
			bad = "width of " + quoteASCII(g) + " is " + itoa(x)
		}
		if y := m.expect(g); bad == "" && y != 0 && x != y {
			bad = "width of " + quoteASCII(g) + " is " + itoa(x) + ", should be " + itoa(y)
		}
		sum += x
		all.WriteString(" " + itoa(x))
	}
	res = all.String()
	if bad == "" && sum != w {
		bad = "width is " + itoa(w) + ", those of graphemes add up to " + itoa(sum)
	}
	if x := uax11.Width(m.b, ctx); bad == "" && !startsLegally(m.b) && x != 0 {
		bad = "width of bytes starting illegally is " + itoa(x)
	}
	if x := uax11.Width(nil, ctx); bad == "" && x != 0 {
		bad = "width of nothing is " + itoa(x)
	}
	return
}

func startsLegally(b []byte) bool {
	return len(b) > 0 && strings.HasPrefix(string(b), legalText(b)) && legalText(b) != ""
}

// expect is the width of a grapheme as far as it follows from East Asian width and context;
// 0 if it is not known (emojis have their own classes, which comprise digits).
func (m *measure) expect(g string) int {
	r := []rune(g)[0]
	k, known := classTable[r]
	if r < 0x80 && !(r >= 'a' && r <= 'z') {
		return 0
	}
	if known && k.ep {
		return 2
	}
	if !known && !strings.ContainsRune("\uff21\uff71\u03b1\u00e9\u3042\ua000\U00020000", r) || k.graph == "ZWJ" || k.graph == "Regional_Indicator" || r == 0x20e3 || r == 0xfe0f || r >= 0x1f3fb && r <= 0x1f3ff || r >= 0xe0020 && r <= 0xe007f {
		return 0
	}
	switch width.LookupRune(r).Kind() {
	case width.EastAsianWide, width.EastAsianFullwidth:
		return 2
	case width.EastAsianNarrow, width.EastAsianHalfwidth:
		return 1
	}
	if m.wide {
		return 2
	}
	return 1
}

func p16Alone(c *Ctx) { p16Check(c, 1) }

func p16Concurrent(c *Ctx) { p16Check(c, 2+c.G.Intn(3)) }

// p16Long: strings of many graphemes, which may be wide in spite of being short.
func p16Long(c *Ctx) {
	setup()
	m := genMeasure(c, nil, nil)
	n := 1000 + c.G.Intn(64535)
	pat := string(genRunes(c.G, 1+c.G.Intn(3))) + "a" // the segmenter needs quadratic time for very long graphemes
	if c.G.OneIn(2) {
		pat = []string{"1", "12#", "*", "9a*"}[c.G.Intn(4)]
	}
	m.b = []byte(strings.Repeat(pat, n/len(pat)))
	m.run(true)
	c.eval(1)
	w, _, _ := strings.Cut(m.res, ":")
	c.out(m.res)
	c.sayf("[%v: %s] ", m, w)
	if len(w) > 5 || len(w) == 5 && w > "65535" {
		c.probe(8)
	}
	if m.bad != "" {
		c.fail("width", "%v: %s", m, m.bad)
	}
	if want, _ := m.take(m.context()); want != m.res {
		c.fail("context", "%v: total width is %s, or widths of graphemes differ in a new context", m, w)
	}
}

func p16Check(c *Ctx, n int) {
	setup()
	ms := make([][]*measure, n)
	var env *environ // if alone, the environment may change during the run
	if n > 1 {
		env = genEnviron(c)
		env.set()
	}
	for i := range ms {
		for k := 1 + c.G.Intn(4); k > 0; k-- {
			ms[i] = append(ms[i], genMeasure(c, ms[i], env))
		}
	}
	if n == 1 {
		for _, m := range ms[0] {
			m.run(true)
		}
	} else {
		var gs []*simrt.G
		for i := range ms {
			i := i
			gs = append(gs, simrt.Spawn("client", func() {
				for _, m := range ms[i] {
					m.run(false)
				}
			}))
		}
		simrt.Join(gs...)
	}
	for i := range ms {
		for _, m := range ms[i] {
			c.eval(1)
			c.out(m.res)
			c.sayf("[%d: %v: %s] ", i, m, m.res)
			if m.bad != "" {
				c.fail("width", "goroutine %d, %v: %s", i, m, m.bad)
			}
			if m.env != nil {
				m.env.set()
			}
			if want, _ := m.take(m.context()); want != m.res {
				c.fail("context", "goroutine %d, %v: widths are %s, in a new context %s", i, m, m.res, want)
			}
		}
	}
}

// --- P17 ---------------------------------------------------------------------

// subscriber follows a script and takes notes.
type subscriber struct {
	id     int
	life   int // number of events until done
	match  []int
	pens   [][]int
	events []rune
	left   int // number of calls of Unsubscribed
	leftAt int // events of the publisher when it was called
	pub    *pubRun
}

func (s *subscriber) RuneEvent(r rune, class int) []int {
	s.events = append(s.events, r)
	if class != int(r)+7 {
		s.pub.bad("subscriber " + itoa(s.id) + " got class " + itoa(class) + " for " + itoa(int(r)))
	}
	k := len(s.events) - 1
	if k < len(s.pens) {
		return s.pens[k]
	}
	return nil
}

func (s *subscriber) MatchLength() int {
	if k := len(s.events) - 1; k >= 0 && k < len(s.match) {
		return s.match[k]
	}
	return 0
}

func (s *subscriber) Done() bool { return len(s.events) >= s.life }

func (s *subscriber) Unsubscribed() {
	s.left++
	s.leftAt = s.pub.n
}

// pubRun is a history of a publisher.
type pubRun struct {
	groups [][]*subscriber // subscriptions before event i
	n      int
	errs   []string
	prot   string
}

func (p *pubRun) bad(s string) { p.errs = append(p.errs, s) }

func genPubRun(c *Ctx) *pubRun {
	p := &pubRun{}
	n := 1 + size(c.G, 20)
	maxPens := c.G.Intn(5)
	if c.G.OneIn(100) {
		maxPens = 3000
	}
	id := 0
	for i := 0; i < n; i++ {
		var g []*subscriber
		for k := many(c, pick(c.G, 3, 3, 2, 1, 1), 100); k > 0; k-- {
			s := &subscriber{id: id, life: 1 + c.G.Intn(1+c.G.Intn(8)), pub: p}
			id++
			for e := 0; e < s.life; e++ {
				s.match = append(s.match, c.G.Intn(6))
				var pens []int
				if c.G.OneIn(2) || e == s.life-1 {
					for q := c.G.Intn(maxPens + 1); q > 0; q-- {
						pens = append(pens, []int{-100, 0, 1, 7, 1000, -3}[c.G.Intn(6)])
					}
				}
				s.pens = append(s.pens, pens)
			}
			g = append(g, s)
		}
		p.groups = append(p.groups, g)
	}
	return p
}

func p17Scripted(c *Ctx) {
	setup()
	n := 1
	if c.G.OneIn(3) {
		n, _ = crowd(c, 2+c.G.Intn(2), 1)
		c.probe(4)
	}
	ps := make([]*pubRun, n)
	for i := range ps {
		ps[i] = genPubRun(c)
		p17Probes(c, ps[i])
	}
	runAll(n, func(i int) { ps[i].run() })
	for i, p := range ps {
		c.eval(p.n)
		c.out(p.prot)
		c.sayf("[%d:%s] ", i, p.prot)
		if len(p.errs) > 0 {
			c.fail("publisher", "publisher %d,%s: %s", i, p.prot, p.errs[0])
		}
	}
}

func runAll(n int, f func(i int)) {
	if n == 1 {
		f(0)
		return
	}
	var gs []*simrt.G
	for i := 0; i < n; i++ {
		i := i
		gs = append(gs, simrt.Spawn("client", func() { f(i) }))
	}
	simrt.Join(gs...)
}

func p17Probes(c *Ctx, p *pubRun) {
	active := 0
	ends := map[int]int{}
	for i, g := range p.groups {
		if active > 0 && len(g) > 0 {
			c.probe(2)
		}
		active += len(g)
		for _, s := range g {
			ends[i+s.life-1]++
		}
		if active == 0 {
			c.probe(3)
		}
		if active > 8 {
			c.probe(5)
		}
		if e := ends[i]; e > 1 {
			c.probe(0)
			c.fault(fUnsubscribeMany)
			if e == active {
				c.probe(1)
			}
		}
		active -= ends[i]
	}
}

// run plays the history and compares with what a publisher has to do.
func (p *pubRun) run() {
	var pub uax.RunePublisher = uax.NewRunePublisher()
	var active []*subscriber
	start := map[*subscriber]int{}
	for i, g := range p.groups {
		for _, s := range g {
			if pub = pub.SubscribeMe(s); pub == nil {
				p.bad("SubscribeMe returns nil")
				return
			}
			active = append(active, s)
			start[s] = i
			p.prot += " +" + itoa(s.id)
		}
		p.n = i + 1
		r := rune(100 + i)
		longest, pens := pub.PublishRuneEvent(r, int(r)+7)
		p.prot += " event " + itoa(i)
		var want []int
		wantLongest := 0
		var next []*subscriber
		for _, s := range active {
			k := i - start[s]
			if len(s.events) != k+1 || s.events[k] != r {
				p.bad("after event " + itoa(i) + ", subscriber " + itoa(s.id) + " has got " + itoa(len(s.events)) + " events, should have " + itoa(k+1))
				return
			}
			for j, x := range s.pens[k] {
				if j < len(want) {
					want[j] += x
				} else {
					want = append(want, x)
				}
			}
			if k+1 < s.life {
				wantLongest = maxInt(wantLongest, s.match[k])
				next = append(next, s)
				if s.left != 0 {
					p.bad("subscriber " + itoa(s.id) + " unsubscribed before being done")
				}
			} else {
				p.prot += " -" + itoa(s.id)
				if s.left != 1 || s.leftAt != p.n {
					p.bad("after event " + itoa(i) + " subscriber " + itoa(s.id) + " is done, number of calls to Unsubscribed is " + itoa(s.left))
				}
			}
		}
		if longest != wantLongest {
			p.bad("event " + itoa(i) + ": longest match is " + itoa(longest) + ", should be " + itoa(wantLongest))
		}
		if !equalInts(pens, want) {
			p.bad("event " + itoa(i) + ": penalties are " + ints(pens) + ", should be " + ints(want))
		}
		active = next
		if len(p.errs) > 0 {
			return
		}
	}
	for _, g := range p.groups {
		for _, s := range g {
			if n := minInt(s.life, p.n-start[s]); len(s.events) != n || s.left > 1 {
				p.bad("subscriber " + itoa(s.id) + " has got " + itoa(len(s.events)) + " events, should have " + itoa(n))
			}
		}
	}
}

func ints(v []int) string {
	s := "["
	for i, x := range v {
		if i > 0 {
			s += " "
		}
		if i > 20 {
			s += "… (" + itoa(len(v)) + ")"
			break
		}
		s += itoa(x)
	}
	return s + "]"
}

// recScript is what a pooled recognizer has to do.
type recScript struct {
	id     int
	steps  int // accepts or aborts after that many runes
	accept bool
	bare   bool // accepts by itself, without DoAccept and penalties
	spare  bool // a recognizer is taken and given back unfinished before
	own    bool // does not come from the pool
	class  int
	pens   []int
}

// recRun is a history of pooled recognizers.
type recRun struct {
	groups [][]*recScript
	errs   []string
	prot   string
}

func (p *recRun) bad(s string) { p.errs = append(p.errs, s) }

func p17Pooled(c *Ctx) {
	setup()
	n, _ := crowd(c, 1+c.G.Intn(3), 1)
	if n > 1 {
		c.probe(4)
	}
	ps := make([]*recRun, n)
	for i := range ps {
		p := &recRun{}
		for k := 2 + size(c.G, 16); k > 0; k-- {
			var g []*recScript
			for q := pick(c.G, 3, 3, 2, 1); q > 0; q-- {
				s := &recScript{id: 1000*(i+1) + 10*len(p.groups) + q, steps: 1 + c.G.Intn(4), accept: c.G.OneIn(2)}
				for j := c.G.Intn(4); j > 0; j-- {
					s.pens = append(s.pens, c.G.Intn(100)-50)
				}
				s.class = s.id
				if c.G.OneIn(4) {
					s.class = []int{0, 0, -1, -s.id, 1}[c.G.Intn(5)]
				}
				s.bare = c.G.OneIn(5)
				s.spare = c.G.OneIn(5)
				s.own = c.G.OneIn(6)
				g = append(g, s)
			}
			p.groups = append(p.groups, g)
		}
		ps[i] = p
	}
	var hoard []*uax.Recognizer // in use all the time
	if c.G.OneIn(30) {
		c.probe(6)
		for k := 50 + c.G.Intn(2000); k > 0; k-- {
			rec := uax.NewPooledRecognizer(-k, nil)
			if rec == nil || rec.MatchLen != 0 || rec.UserData != nil || rec.Expect != -k {
				c.fail("recognizer", "recognizer %d is not blank or in use already", len(hoard))
			}
			rec.UserData, rec.MatchLen = c, k
			hoard = append(hoard, rec)
		}
	}
	runAll(n, func(i int) { ps[i].run() })
	for i, rec := range hoard {
		if rec.UserData != c || rec.Expect != -rec.MatchLen {
			c.fail("recognizer", "recognizer %d of %d, in use, has been handed out again", i, len(hoard))
		}
	}
	for i, p := range ps {
		c.eval(len(p.groups))
		c.out(p.prot)
		c.sayf("[%d:%s] ", i, p.prot)
		if len(p.errs) > 0 {
			c.fail("recognizer", "publisher %d,%s: %s", i, p.prot, p.errs[0])
		}
	}
}

// run plays a history with pooled recognizers. Each one is marked with its script, so that
// being handed out twice is noticed.
func (p *recRun) run() {
	pub := uax.NewRunePublisher()
	type act struct {
		s *recScript
		k int
	}
	var active []*act
	for i, g := range p.groups {
		for _, s := range g {
			s, first := s, i
			a := &act{s: s}
			var step uax.NfaStateFn
			step = func(rec *uax.Recognizer, r rune, class int) uax.NfaStateFn {
				a.k++
				if rec.UserData != s || rec.Expect != s.class {
					p.bad("recognizer " + itoa(s.id) + " is used by somebody else")
					return nil
				}
				if r != rune(100+first+a.k-1) || class != int(r)+7 {
					p.bad("recognizer " + itoa(s.id) + " missed an event")
				}
				if a.k < s.steps {
					rec.MatchLen++
					return step
				}
				if s.accept && s.bare {
					rec.MatchLen++
					return nil
				}
				if s.accept {
					return uax.DoAccept(rec, s.pens...)
				}
				return uax.DoAbort(rec)
			}
			if s.spare { // another client changes its mind
				x := uax.NewPooledRecognizer(s.id+5, step)
				if x.MatchLen != 0 || x.UserData != nil || x.Done() || x.Expect != s.id+5 {
					p.bad("new recognizer " + itoa(s.id+5) + " is not blank")
				}
				x.MatchLen, x.UserData = 3, a
				x.Unsubscribed()
				p.prot += " ±" + itoa(s.id+5)
			}
			var rec *uax.Recognizer
			if s.own {
				rec = uax.NewRecognizer(s.class, step)
				p.prot += " own"
			} else {
				rec = uax.NewPooledRecognizer(s.class, step)
			}
			if rec.MatchLen != 0 || rec.UserData != nil || rec.Done() || rec.Expect != s.class {
				p.bad("new recognizer " + itoa(s.id) + " is not blank")
			}
			rec.UserData = s
			pub.SubscribeMe(rec)
			active = append(active, a)
			p.prot += " +" + itoa(s.id)
		}
		r := rune(100 + i)
		longest, pens := pub.PublishRuneEvent(r, int(r)+7)
		p.prot += " event " + itoa(i)
		wantLongest := 0
		var want []int
		var next []*act
		for _, a := range active {
			if a.k < a.s.steps {
				wantLongest = maxInt(wantLongest, a.k)
				next = append(next, a)
				continue
			}
			p.prot += " -" + itoa(a.s.id)
			if !a.s.accept || a.s.bare {
				continue
			}
			for j, x := range a.s.pens {
				if j < len(want) {
					want[j] += x
				} else {
					want = append(want, x)
				}
			}
		}
		if longest != wantLongest {
			p.bad("event " + itoa(i) + ": longest match is " + itoa(longest) + ", should be " + itoa(wantLongest))
		}
		if !equalInts(pens, want) {
			p.bad("event " + itoa(i) + ": penalties are " + ints(pens) + ", should be " + ints(want))
		}
		if len(next) != pub.Len() {
			p.bad("event " + itoa(i) + ": " + itoa(pub.Len()) + " recognizers are subscribed, should be " + itoa(len(next)))
		}
		active = next
		if len(p.errs) > 0 {
			return
		}
	}
}

// --- P18 ---------------------------------------------------------------------

// item is a line of a data file.
type item struct {
	text string // without line end
	end  string
	data bool // is a legal data item
	bad  bool // has an undecodable code point
	repr string
}

func (it *item) complete(from, k int) bool { return from+len(it.text)+len(it.end) <= k }

func genItem(c *Ctx) item {
	var it item
	switch pick(c.G, 6, 4, 1, 1, 1, 1) {
	case 0, 1:
		it.data = true
		a := rune(c.G.Intn(0x300))
		if c.G.OneIn(3) {
			a = rune(c.G.Intn(0x110000))
		}
		b := a
		it.text = hex(a)
		if c.G.OneIn(2) {
			b = a + rune(c.G.Intn(40))
			if c.G.OneIn(8) { // any order, any number
				b = rune(c.G.Intn(0x110000))
				if c.G.OneIn(2) {
					b = rune(0x7fffffff - c.G.Intn(2)<<c.G.Intn(30))
				}
			}
			it.text += ".." + hex(b)
			it.repr = ".." + hex(b)
		}
		if c.G.OneIn(6) {
			it.text = strings.ToLower(it.text)
		}
		it.repr = hex(a) + it.repr
		for n := c.G.Intn(14); n > 0 && c.G.OneIn(2); n-- {
			it.text += " "
		}
		n := many(c, 1+c.G.Intn(3), 40)
		if c.G.OneIn(12) { // nothing but the code points
			n = 0
			it.repr += "|"
		}
		for i := 0; i < n; i++ {
			f := []string{"CM", "Extend", "ALetter", "x y", "0041 0042", "\u00e9", "AB..", "", "\ufffd", "\u05d0\u4e00"}[c.G.Intn(10)]
			it.text += ";" + []string{"", " "}[c.G.Intn(2)] + f
			it.repr += "|" + f
		}
		if c.G.OneIn(2) {
			cm := []string{"Cc  [18] <control-000E>..<control-001F>", "x", "So (#) hash; more", "\u2026", "# twice", "#", "\ufffd", ";"}[c.G.Intn(8)]
			it.text += []string{" # ", "#", "    #"}[c.G.Intn(3)] + cm
			it.repr += "#" + cm
		}
	case 2:
		it.text = []string{"# comment", "  # 0041;x", "#", "# @missing: 0000..10FFFF; XX"}[c.G.Intn(4)]
	case 3:
		it.text = []string{"", " ", "\t  "}[c.G.Intn(3)]
	case 4:
		it.text = []string{"123456789ABC ; Bad # code point", "80000000;Bad", "0041..80000000;Bad", "FFFFFFFF..0041;Bad"}[c.G.Intn(4)]
		it.bad = true
	case 5:
		it.text = "0041..FFFFFFFFFF;Bad"
		it.bad = true
	}
	return it
}

func hex(r rune) string {
	const d = "0123456789ABCDEF"
	s := ""
	for i := 0; i < 4 || r > 0; i++ {
		s = string(d[r&15]) + s
		r >>= 4
	}
	return s
}

func genFile(c *Ctx) ([]item, string) {
	n := size(c.G, 14)
	style := c.G.Intn(4)
	var its []item
	var b strings.Builder
	if c.G.OneIn(100) { // more than a buffer can hold
		c.probe(8)
		end := []string{"\r", "\n", "\r\n"}[pick(c.G, 3, 1, 1)]
		for i := 60 + c.G.Intn(30); i > 0; i-- {
			it := item{text: "# " + strings.Repeat("comment ", 100+c.G.Intn(50)), end: end}
			its = append(its, it)
			b.WriteString(it.text + it.end)
		}
		if c.G.OneIn(15) { // very many lines
			for i := 65500 + c.G.Intn(50); i > 0; i-- {
				its = append(its, item{end: end})
				b.WriteString(end)
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		it := genItem(c)
		it.end = []string{"\n", "\r\n", "\r", ""}[style%4]
		if style == 3 {
			it.end = []string{"\n", "\r\n", "\r"}[c.G.Intn(3)]
		}
		if it.end == "\r" {
			c.probe(3)
		}
		if i == n-1 && c.G.OneIn(3) {
			it.end = ""
			c.probe(5)
		}
		if it.bad {
			c.probe(4)
		}
		its = append(its, it)
		b.WriteString(it.text + it.end)
	}
	return its, b.String()
}

func p18Deliveries(c *Ctx) {
	p := genParsing(c, false)
	p.parse(c)
	p.check(c)
}

func p18Failures(c *Ctx) {
	if c.F.OneIn(50) { // no reader at all
		c.eval(1)
		if err := ucdparse.Parse(nil, func(*ucdparse.Token) { c.fail("items", "item reported without input") }); err == nil {
			c.fail("error", "no error reported without input")
		}
	}
	p := genParsing(c, true)
	p.parse(c)
	p.check(c)
}

func p18Concurrent(c *Ctx) {
	n, _ := crowd(c, 2+c.G.Intn(2), 1)
	ps := make([]*parsing, n)
	for i := range ps {
		ps[i] = genParsing(c, c.F.OneIn(3))
	}
	c.probe(7)
	runAll(len(ps), func(i int) { ps[i].parse(c) })
	for _, p := range ps {
		p.check(c)
	}
}

// p18Damaged: what is reported for a line does not depend on the lines around it, nor on the
// delivery. Every line is parsed by itself (after a line which keeps it from being the first).
func p18Damaged(c *Ctx) {
	_, text := genFile(c)
	if len(text) > 4000 {
		text = text[len(text)-500:]
	}
	data := corrupt(c, []byte(text))
	r := &byteReader{c: c, data: data, steps: genSteps(c, len(data))}
	got, err := parseAll(r, 0)
	c.eval(1)
	var want []string
	wantErr := false
	for l, n := 0, 1; l < len(data); n++ {
		e := l
		for e < len(data) && data[e] != '\n' && data[e] != '\r' {
			e++
		}
		doc := string(data[l:e]) + "\n"
		first := len(want) == 0 // is it the first line which is no comment?
		if !first {
			doc = "0000;x\n" + doc
		}
		x, xerr := parseAll(strings.NewReader(doc), n)
		if !first {
			x = x[1:]
		}
		if len(x) > 0 {
			c.probe(9)
		}
		if xerr != nil {
			wantErr = true
			c.probe(10)
		}
		want = append(want, x...)
		if e+1 < len(data) && data[e] == '\r' && data[e+1] == '\n' {
			e++
		}
		l = e + 1
	}
	c.sayf("%s: %d items, error %v", quoteASCII(clip(string(data))), len(got), err)
	c.out(itoa(len(got)))
	where := "damaged file " + quoteASCII(string(data))
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			c.fail("items", "%s: item %d is %s, but %s if lines are parsed one by one", where, i, quoteASCII(g), quoteASCII(w))
		}
	}
	if wantErr != (err != nil) {
		c.fail("error", "%s: error is %v, single lines are reported as erroneous: %v", where, err, wantErr)
	}
}

// parseAll collects the items. If line > 0, items after the first line get this line number.
func parseAll(r io.Reader, line int) (items []string, err error) {
	err = ucdparse.Parse(r, func(t *ucdparse.Token) {
		if s := t.TokenType.String(); t.Error == nil && s != "singleDataItem" && s != "rangeDataItem" {
			return
		}
		u := *t
		if line > 0 {
			u.LineNo = line
		}
		x := tokenRepr(&u)
		if t.Error != nil {
			x = itoa(u.LineNo) + ":undecodable"
		}
		items = append(items, x)
	})
	return items, err
}

// parsing of a data file.
type parsing struct {
	its  []item
	text string
	f    *failure
	r    *byteReader
	got  []string // results
	kept []*ucdparse.Token
	bad  int
	err  error
}

func genParsing(c *Ctx, fails bool) *parsing {
	p := &parsing{}
	p.its, p.text = genFile(c)
	if fails {
		p.f = genFailure(c, c.F.Intn(len(p.text)+1), false)
		if c.F.OneIn(8) {
			p.f.silent, p.f.recover = true, false
		}
		if p.f.recover {
			c.probe(6)
		}
	}
	p.r = &byteReader{c: c, data: []byte(p.text), steps: genSteps(c, len(p.text)), fail: p.f}
	return p
}

// parse runs the parser, without fmt.
func (p *parsing) parse(c *Ctx) {
	p.err = ucdparse.Parse(p.r, func(t *ucdparse.Token) {
		if t.Error != nil {
			p.bad++
		}
		if s := t.TokenType.String(); t.Error == nil && (s == "singleDataItem" || s == "rangeDataItem") {
			p.got = append(p.got, tokenRepr(t))
			p.kept = append(p.kept, t)
		}
	})
}

func tokenRepr(t *ucdparse.Token) string {
	a, b := t.Range()
	x := itoa(t.LineNo) + ":" + hex(a) + ".." + hex(b)
	if t.TokenType.String() == "singleDataItem" {
		x = itoa(t.LineNo) + ":" + hex(a)
		if a != b {
			x += "??" + hex(b)
		}
	}
	for i := range t.Fields {
		x += "|" + strings.TrimSpace(t.Field(i+1))
	}
	for i := 1; i < 4; i++ { // fields there are not
		x += t.Field(len(t.Fields) + i)
	}
	if t.Comment != "" {
		x += "#" + t.Comment
	}
	return x
}

// lineAt is the number of the line which starts at byte pos.
func lineAt(text string, pos int) int {
	n := 1
	for i := 0; i < pos; i++ {
		if text[i] == '\n' || text[i] == '\r' && !(i+1 < len(text) && text[i+1] == '\n') {
			n++
		}
	}
	return n
}

func (p *parsing) check(c *Ctx) {
	its, text, f, got, bad, err := p.its, p.text, p.f, p.got, p.bad, p.err
	c.eval(1)
	c.sayf("%s: %d items, error %v", quoteASCII(clip(text)), len(got), err)
	c.out(itoa(len(got)))
	k := len(text)
	if f.active() {
		k = f.at
	}
	where := "file " + quoteASCII(text)
	if len(text) > 4000 {
		where = "file of " + itoa(len(text)) + " bytes ending in " + quoteASCII(text[len(text)-300:])
	}
	if f.active() {
		where += " failing after " + itoa(k) + " bytes"
	}
	var want []string
	pos, wantBad := 0, 0
	partial := false
	for i := range its {
		it := &its[i]
		if !it.complete(pos, k) || it.end == "" && f.active() {
			partial = pos < k
			break
		}
		if it.data {
			want = append(want, itoa(lineAt(text, pos))+":"+it.repr)
		}
		pos += len(it.text) + len(it.end)
		if it.bad {
			wantBad++
		}
	}
	if f.active() {
		switch {
		case k == 0:
			c.probe(2)
		case partial:
			c.probe(0)
		default:
			c.probe(1)
		}
	}
	n := len(want)
	if len(got) < n || len(got) > n && !(partial && len(got) == n+1) {
		c.fail("items", "%s: %d items reported, want %d: %s", where, len(got), n, quoteASCII(strings.Join(got, " / ")))
	}
	for i := range want {
		if got[i] != want[i] {
			c.fail("items", "%s: item %d is %s, want %s", where, i, quoteASCII(got[i]), quoteASCII(want[i]))
		}
	}
	for i, t := range p.kept { // tokens belong to the client
		if x := tokenRepr(t); x != got[i] {
			c.fail("items", "%s: item %d was %s, but is %s at the end", where, i, quoteASCII(got[i]), quoteASCII(x))
		}
	}
	if bad < wantBad || bad > wantBad && !(partial && bad == wantBad+1) {
		c.fail("items", "%s: %d lines reported as undecodable, want %d", where, bad, wantBad)
	}
	switch {
	case f.active() && f.silent:
		if !errors.Is(err, io.ErrNoProgress) {
			c.fail("error", "%s: error is %v, want %v", where, err, io.ErrNoProgress)
		}
	case f.active():
		if !errors.Is(err, f.err) {
			c.fail("error", "%s: error is %v, want %v", where, err, f.err)
		}
	case wantBad > 0:
		if err == nil {
			c.fail("error", "%s: no error reported for undecodable code point", where)
		}
	case err != nil:
		c.fail("error", "%s: error is %v", where, err)
	}
}
