//go:build go1.21

package main

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verifsim/simrt"
	xbidi "golang.org/x/text/unicode/bidi"
)

func init() {
	register(&property{id: "P09", variants: []variant{
		{"chunks and schedules", 1000, p09Schedules, true},
		{"brackets and isolates", 500, p09Brackets, true},
		{"large paragraphs", 10, p09Large, false},
	}, rule: "A run draws a paragraph (letters, digits, weak and neutral characters, brackets, balanced and unbalanced isolates, illegal bytes), options, out-of-line markup, a chunking with delays and stalls, and a schedule of the scanner and the parser; everything visible of the result must be the same as in one piece under a cooperative schedule, and no goroutine may be left.",
		real: bidiReal, stubs: bidiStubs, assume: bidiAssume,
		probes: []string{"empty paragraph", "unmatched PDI", "unclosed isolate", "bracket pair", "nested isolates", "out-of-line markup", "separator within the text", "illegal bytes"}})
	register(&property{id: "P10", variants: []variant{
		{"read failure", 1000, p10Failure, false},
		{"all cuts of a paragraph", 200, p10Cuts, false},
		{"large paragraphs", 10, p10Large, false},
	}, rule: "A run draws a paragraph and fails reading it after k bytes (read errors of several kinds, with or without data, readers without progress); the result must equal the one of the first k bytes, and no goroutine may be left.",
		real: bidiReal, stubs: bidiStubs, assume: bidiAssume,
		probes: []string{"nothing read", "cut within an isolate", "cut within a character", "reader would recover", "failure after the last byte"}})
	register(&property{id: "P11", variants: []variant{
		{"accounting", 1000, p11Accounting, false},
		{"accounting with markup", 300, p11Markup, false},
		{"corrupt bytes", 300, p11Corrupt, false},
		{"large paragraphs", 10, p11Large, false},
	}, rule: "A run draws a paragraph of any kind, options, markup, delivery and schedule; segments of all runs must partition the byte positions, lengths must add up, strong letters must have their own direction, DirectionAt must agree with the runs.",
		real: bidiReal, stubs: bidiStubs, assume: bidiAssume,
		probes: []string{"illegal bytes", "separator cuts the paragraph", "separator ignored", "several runs", "nested isolates", "out-of-line markup", "empty paragraph"}})
	register(&property{id: "P12", variants: []variant{
		{"independent paragraphs", 10, p12Concurrent, true},
	}, rule: "A run draws 2–5 goroutines resolving 1–3 paragraphs each, some with stalled or failing readers; each result must be the one of the same paragraph resolved alone.",
		real: bidiReal, stubs: bidiStubs, assume: bidiAssume,
		probes: []string{"three or more goroutines", "failing reader", "brackets"}})
	register(&property{id: "P13", variants: []variant{
		{"markup against inline isolates", 1000, p13Markup, false},
		{"large paragraphs", 10, p13Large, false},
	}, rule: "A run draws a text, well-formed isolates at drawn places and a schedule, and resolves it with out-of-line markup and with inline LRI, RLI, PDI; directions and visual order of the text must agree, and markup must have been queried for every position in order.",
		real: bidiReal, stubs: append([]string{"markup function"}, bidiStubs...), assume: bidiAssume,
		probes: []string{"markup at the first position", "markup at the end", "PDI and initiator at one position", "nested isolates", "from right to left"}})
	register(&property{id: "P14", variants: []variant{
		{"lines", 1000, p14Lines, false},
		{"large paragraphs", 10, p14Large, false},
	}, rule: "A run draws a paragraph and a sequence of split positions, with or without shifting, also within characters and nested isolates; every part must cover exactly its positions, with the directions they had before.",
		real: bidiReal, stubs: bidiStubs, assume: bidiAssume,
		probes: []string{"split within an isolate", "split at a border", "three or more lines", "shifted", "from right to left", "part split again"}})
}

// oneSchedule says that scenario goroutines resolve p.
func paraProbes(c *Ctx, p *para) {
	depth, pdi, nested := 0, false, false
	for _, r := range string(p.text) {
		switch {
		case r >= 0x2066 && r <= 0x2068 || p.test && (r == '<' || r == '>'):
			depth++
			nested = nested || depth > 1
		case r == 0x2069 || p.test && r == '=':
			if depth == 0 {
				pdi = true
			} else {
				depth--
			}
		}
	}
	if len(p.text) == 0 {
		c.probe(0)
	}
	if pdi {
		c.probe(1)
	}
	if depth > 0 {
		c.probe(2)
	}
	if o := strings.IndexAny(string(p.text), "([{"); o >= 0 && strings.IndexAny(string(p.text[o:]), ")]}") > 0 {
		c.probe(3)
	}
	if nested {
		c.probe(4)
	}
	if p.marks != nil {
		c.probe(5)
	}
	if p.paraLen() < len(p.text) {
		c.probe(6)
	}
	if !utf8.Valid(p.text) {
		c.probe(7)
	}
}

// --- P09 ---------------------------------------------------------------------

func p09Schedules(c *Ctx) {
	p := genPara(c, 40, true)
	if c.F.OneIn(6) {
		p.corrupt(c)
	}
	if c.G.OneIn(5) {
		genMarks(c, p)
	}
	p09Check(c, p)
}

// p09Large: paragraphs larger than 64 KB.
func p09Large(c *Ctx) {
	p := genPara(c, 12, true)
	p.grow(c)
	p09Check(c, p)
}

func p09Brackets(c *Ctx) {
	p := &para{test: true, rtl: c.G.OneIn(4)}
	n := size(c.G, 30)
	const chars = "aA(([])) <>==b1"
	for i := 0; i < n; i++ {
		p.text = append(p.text, chars[c.G.Intn(len(chars))])
	}
	p09Check(c, p)
}

func p09Check(c *Ctx, p *para) {
	p.steps = genSteps(c, len(p.text))
	paraProbes(c, p)
	curTracer.begin()
	rl := p.resolve(c)
	curTracer.end()
	got := signature(rl, len(p.text))
	want := signature(p.plain(), len(p.text))
	if curTracer.late != "" {
		c.fail("late", "%v in %d pieces: the %s of the client is used after ResolveParagraph has returned", p, len(p.steps), curTracer.late)
	}
	c.eval(1)
	c.out(got)
	c.sayf("%v in %d pieces: %s", p, len(p.steps), got)
	if got != want {
		c.fail("schedule", "paragraph %v resolves to %s, undisturbed to %s", p, got, want)
	}
}

// --- P10 ---------------------------------------------------------------------

func p10Failure(c *Ctx) {
	p := genPara(c, 30, true)
	if c.G.OneIn(6) {
		genMarks(c, p)
	}
	p10Check(c, p, c.F.Intn(len(p.text)+1))
}

func p10Large(c *Ctx) {
	p := genPara(c, 12, true)
	p.grow(c)
	k := c.F.Intn(len(p.text) + 1)
	if c.F.OneIn(3) {
		k = maxInt(0, len(p.text)-c.F.Intn(20))
	}
	p10Check(c, p, k)
}

func p10Cuts(c *Ctx) {
	p := genPara(c, 12, true)
	for k := 0; k <= len(p.text); k++ {
		p10Check(c, p, k)
	}
}

func p10Check(c *Ctx, q *para, k int) {
	p := *q
	p.steps = genSteps(c, len(p.text))
	if c.F.OneIn(4) { // short input
		c.fault(fTruncate)
		p.text = p.text[:k]
	} else {
		p.fail = genFailure(c, k, false)
		if c.F.OneIn(6) {
			p.fail.silent = true
			p.fail.recover = false
		}
		if p.fail.recover {
			c.probe(3)
		}
	}
	switch {
	case k == 0:
		c.probe(0)
	case k == len(q.text):
		c.probe(4)
	case !utf8.RuneStart(q.text[k]):
		c.probe(2)
		c.fault(fCutInRune)
	}
	if nestingAt(q, k) > 0 {
		c.probe(1)
		c.fault(fCutInIsolate)
	}
	got := signature(p.resolve(c), len(q.text))
	prefix := *q
	prefix.text = q.text[:k]
	want := signature(prefix.plain(), len(q.text))
	c.eval(1)
	c.out(got)
	c.sayf("%v, cut at %d: %s; ", q, k, got)
	if got != want {
		c.fail("prefix", "paragraph %v failing after %d bytes resolves to %s, these bytes alone to %s", q, k, got, want)
	}
}

// --- P11 ---------------------------------------------------------------------

func p11Accounting(c *Ctx) {
	p := genPara(c, 60, true)
	p11Check(c, p)
}

func p11Markup(c *Ctx) {
	p := genPara(c, 30, true)
	genMarks(c, p)
	p11Check(c, p)
}

func p11Large(c *Ctx) {
	p := genPara(c, 16, true)
	if c.G.OneIn(3) {
		genMarks(c, p)
	}
	p.grow(c)
	p11Check(c, p)
}

func p11Corrupt(c *Ctx) {
	p := genPara(c, 40, true)
	p.corrupt(c)
	p11Check(c, p)
}

// corrupt damages some bytes of the text.
func (p *para) corrupt(c *Ctx) { p.text = corrupt(c, p.text) }

func p11Check(c *Ctx, p *para) {
	p.steps = genSteps(c, len(p.text))
	n := p.paraLen()
	rl := p.resolve(c)
	runs := readOrdering(rl.Reorder())
	desc := runsString(runs)
	c.eval(1)
	c.out(desc)
	c.sayf("%v: %s", p, desc)
	dirs, bad := layout(runs, 0, n)
	if bad != "" {
		c.fail("partition", "paragraph %v, runs %s: %s", p, desc, bad)
	}
	for i := 0; i < n; {
		r, k := utf8.DecodeRune(p.text[i:n])
		if d, strong := strongDir(r, k, p.test); strong && dirs[i] != d {
			c.fail("strong", "paragraph %v, runs %s: %U at %d has the wrong direction", p, desc, r, i)
		}
		for j := 1; j < k; j++ {
			if dirs[i+j] != dirs[i] {
				c.fail("strong", "paragraph %v, runs %s: %U at %d is torn", p, desc, r, i)
			}
		}
		i += k
	}
	for i := range dirs {
		if d := rl.DirectionAt(uint64(i)); d != dirs[i] {
			c.fail("directionat", "paragraph %v, runs %s: DirectionAt(%d) is %s", p, desc, i, dirName(d))
		}
	}
	paraProbes11(c, p, n, len(runs))
}

func paraProbes11(c *Ctx, p *para, n, runs int) {
	if !utf8.Valid(p.text) {
		c.probe(0)
	}
	if n < len(p.text) {
		c.probe(1)
	}
	if p.ignore {
		c.probe(2)
	}
	if runs > 1 {
		c.probe(3)
	}
	for i, nesting := 0, p.nestings(); i < len(nesting); i++ {
		if nesting[i] > 1 {
			c.probe(4)
			break
		}
	}
	if p.marks != nil {
		c.probe(5)
	}
	if n == 0 {
		c.probe(6)
	}
}

// strongDir tells the direction of strong letters.
func strongDir(r rune, n int, test bool) (bidi.Direction, bool) {
	if r == utf8.RuneError && n <= 1 {
		return 0, false
	}
	if test && unicode.IsUpper(r) {
		return bidi.RightToLeft, true
	}
	pr, _ := xbidi.LookupRune(r)
	switch pr.Class() {
	case xbidi.L:
		return bidi.LeftToRight, unicode.IsLetter(r)
	case xbidi.R, xbidi.AL:
		return bidi.RightToLeft, unicode.IsLetter(r)
	}
	return 0, false
}

// --- P12 ---------------------------------------------------------------------

func p12Concurrent(c *Ctx) {
	n, more := crowd(c, 2+c.G.Intn(4), 3)
	if n > 2 {
		c.probe(0)
	}
	ps := make([][]*para, n)
	res := make([][]string, n)
	for i := range ps {
		for k := 1 + c.G.Intn(more); k > 0; k-- {
			p := genPara(c, 20, true)
			if c.G.OneIn(6) {
				genMarks(c, p)
			}
			p.steps = genSteps(c, len(p.text))
			if c.F.OneIn(4) {
				p.fail = genFailure(c, c.F.Intn(len(p.text)+1), false)
				c.probe(1)
			}
			if strings.ContainsAny(string(p.text), "()[]{}") {
				c.probe(2)
			}
			ps[i] = append(ps[i], p)
		}
		res[i] = make([]string, len(ps[i]))
	}
	var gs []*simrt.G
	for i := range ps {
		i := i
		gs = append(gs, simrt.Spawn("client", func() {
			for k, p := range ps[i] {
				res[i][k] = signature(p.resolve(c), len(p.text))
			}
		}))
	}
	simrt.Join(gs...)
	for i := range ps {
		for k, p := range ps[i] {
			q := *p
			if p.fail.active() {
				q.text = p.text[:p.fail.at]
			}
			want := signature(q.plain(), len(p.text))
			c.eval(1)
			c.out(res[i][k])
			c.sayf("[%d: %v %s] ", i, p, res[i][k])
			if res[i][k] != want {
				c.fail("interference", "goroutine %d, paragraph %v resolves to %s, alone to %s", i, p, res[i][k], want)
			}
		}
	}
}

// --- P13 ---------------------------------------------------------------------

func p13Markup(c *Ctx) { p13Run(c, false) }
func p13Large(c *Ctx)  { p13Run(c, true) }

func p13Run(c *Ctx, large bool) {
	cl := []string{lettersL, lettersR, neutral, digitsEN, lettersAL, digitsAN, weak, marksNSM, wideChars, brackets, boundary, unusual, isolates, legacy}
	alph := bidiAlphabet(c.G, cl...)
	n, few := size(c.G, 16), 3
	if !large && c.G.OneIn(64) { // deep nesting
		n, few = 40+c.G.Intn(60), 40
	}
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, alph[c.G.Intn(len(alph))])
	}
	if few == 3 && c.G.OneIn(3) {
		rs = phrases(c.G, 14)
		n = len(rs)
	}
	big, reps := -1, 1 // the character which is repeated in large texts
	if large && n > 0 {
		if big = c.G.Intn(n); !repeatable(rs[big], false) {
			rs[big] = 'a'
		}
		reps = 66000 / utf8.RuneLen(rs[big])
	}
	p := &para{rtl: c.G.OneIn(3), marks: []mark{}}
	in := &para{rtl: p.rtl}
	var all []rune
	// well-formed isolates, at most one initiator and one PDI at a position
	depth, max, pos := 0, 0, 0
	var at []int // position of each byte of the inline text, -1 for controls
	add := func(s string, p int) {
		for k := 0; k < len(s); k++ {
			if p < 0 {
				at = append(at, -1)
			} else {
				at = append(at, p+k)
			}
		}
		in.text = append(in.text, s...)
	}
	// where isolates are to be closed
	for i := 0; i <= n; i++ {
		code := 0
		if depth > 0 && (c.G.OneIn(few) || i == n) {
			code |= bidi.MarkupPDI
			depth--
			add("\u2069", -1)
		}
		left := n - i // positions for closing
		if depth < left && !(few == 3 && !c.G.OneIn(3)) {
			if c.G.OneIn(2) {
				code |= bidi.MarkupLRI
				add("\u2066", -1)
			} else {
				code |= bidi.MarkupRLI
				add("\u2067", -1)
			}
			depth++
			max = maxInt(max, depth)
		}
		// every open isolate needs a position of its own for closing
		if code == 0 && depth > 0 && depth >= left {
			code = bidi.MarkupPDI
			depth--
			add("\u2069", -1)
		}
		if code != 0 {
			p.marks = append(p.marks, mark{pos, code})
			if i == 0 {
				c.probe(0)
			}
			if i == n {
				c.probe(1)
			}
			if code != bidi.MarkupPDI && code&bidi.MarkupPDI != 0 {
				c.probe(2)
			}
		}
		if i < n {
			s := string(rs[i])
			for k := 0; k < reps; k++ {
				add(s, pos)
				p.text = append(p.text, s...)
				all = append(all, rs[i])
				pos += len(s)
				if i != big {
					break
				}
			}
		}
	}
	if depth > 0 {
		simrt.FailNow("harness", "unbalanced markup %v", p)
	}
	if max > 1 {
		c.probe(3)
	}
	if p.rtl {
		c.probe(4)
	}
	p.steps, in.steps = genSteps(c, len(p.text)), genSteps(c, len(in.text))
	p13Check(c, p, in, all, at)
}

func p13Check(c *Ctx, p, in *para, rs []rune, at []int) {
	n := len(rs)
	var asked []uint64
	fn := p.markup()
	reader := &byteReader{c: c, data: p.text, steps: p.steps}
	rl := bidi.ResolveParagraph(reader, func(pos uint64) int {
		asked = append(asked, pos)
		return fn(pos)
	}, p.opts()...)
	il := in.resolve(c)

	// queries: in increasing order, each rune boundary at least once
	ok := sort.SliceIsSorted(asked, func(i, j int) bool { return asked[i] < asked[j] })
	need, k := 0, 0
	for i := 0; i <= n && ok; i++ {
		for k < len(asked) && asked[k] < uint64(need) {
			k++
		}
		if k == len(asked) || asked[k] != uint64(need) {
			ok = false
		}
		if i < n {
			need += utf8.RuneLen(rs[i])
		}
	}
	if !ok {
		c.fail("queries", "text %v: markup has been queried at %v", p, asked)
	}
	pr, ir := readOrdering(rl.Reorder()), readOrdering(il.Reorder())
	pd, bad := layout(pr, 0, len(p.text))
	id, bad2 := layout(ir, 0, len(in.text))
	if bad+bad2 != "" {
		c.fail("partition", "text %v: %s%s", p, bad, bad2)
	}
	c.eval(1)
	c.out(runsString(pr))
	c.sayf("%v: %s, inline %s", p, runsString(pr), runsString(ir))
	for i, d := range id {
		if at[i] >= 0 && pd[at[i]] != d {
			c.fail("markup", "text %v resolves to %s, with inline isolates to %s: direction of position %d differs", p, runsString(pr), runsString(ir), at[i])
		}
	}
	// runs: those of the inline text without the controls; runs of the same direction which
	// have become neighbours are merged, with their text in the direction of the run
	var want []obsRun
	for _, r := range ir {
		x := obsRun{dir: r.dir}
		for _, g := range r.segs {
			for k := g.l; k < g.r; k++ {
				if at[k] >= 0 {
					x.add(uint64(at[k]))
				}
			}
		}
		if x.length == 0 {
			continue
		}
		if m := len(want) - 1; m >= 0 && want[m].dir == x.dir {
			first, next := want[m], x
			if x.dir != p.base() {
				first, next = x, want[m]
			}
			for _, g := range next.segs {
				for k := g.l; k < g.r; k++ {
					first.add(k)
				}
			}
			want[m] = first
			continue
		}
		want = append(want, x)
	}
	if w := runsString(want); w != runsString(pr) {
		c.fail("markup", "text %v resolves to %s, want the runs of inline isolates %s", p, runsString(pr), w)
	}
	var iv []int
	for _, x := range visualOrder(il.Reorder(), p.base()) {
		if at[x] >= 0 {
			iv = append(iv, at[x])
		}
	}
	if pv := visualOrder(rl.Reorder(), p.base()); !equalInts(pv, iv) {
		c.fail("markup", "text %v: visual order is %v, with inline isolates %v", p, pv, iv)
	}
}

// add appends a position to a run.
func (r *obsRun) add(k uint64) {
	r.length++
	if n := len(r.segs) - 1; n >= 0 && r.segs[n].r == k {
		r.segs[n].r++
		return
	}
	r.segs = append(r.segs, segment1{r.dir, k, k + 1})
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// --- P14 ---------------------------------------------------------------------

// line is a part of split levels.
type line struct {
	rl       *bidi.ResolvedLevels
	from, to int // positions of the paragraph
	off      int // what has been subtracted from positions
}

func p14Lines(c *Ctx) {
	p := genPara(c, 30, true)
	if c.G.OneIn(5) {
		genMarks(c, p)
	}
	p14Check(c, p)
}

func p14Large(c *Ctx) {
	p := genPara(c, 12, true)
	p.grow(c)
	p14Check(c, p)
}

func p14Check(c *Ctx, p *para) {
	if p.rtl {
		c.probe(4)
	}
	p.steps = genSteps(c, len(p.text))
	n := p.paraLen()
	want, bad := layout(readOrdering(p.plain().Reorder()), 0, n)
	if bad != "" {
		c.fail("partition", "paragraph %v: %s", p, bad)
	}
	lines := []line{{p.resolve(c), 0, n, 0}}
	hist := ""
	splits := many(c, 1+c.G.Intn(4), 50)
	for k := splits; k > 0; k-- {
		i := len(lines) - 1 // usually lines are cut off at the front
		if c.G.OneIn(3) {
			i = c.G.Intn(len(lines))
			if i < len(lines)-1 {
				c.probe(5)
			}
		}
		l := lines[i]
		at := l.from + c.G.Intn(l.to-l.from+1)
		if splits > 8 && !c.G.OneIn(16) { // short lines
			at = l.from + c.G.Intn(minInt(3, l.to-l.from)+1)
		}
		shift := c.G.OneIn(2)
		hist += " line " + itoa(i) + " at " + itoa(at)
		if shift {
			hist += " with shift"
			c.probe(3)
		}
		if at == l.from || at == l.to {
			c.probe(1)
		}
		if nestingAt(p, at) > 0 {
			c.probe(0)
		}
		a, b := l.rl.Split(uint64(at-l.off), shift)
		la, lb := line{a, l.from, at, l.off}, line{b, at, l.to, l.off}
		if shift {
			lb.off = at
		}
		lines = append(lines[:i:i], append([]line{la, lb}, lines[i+1:]...)...)
	}
	if len(lines) > 2 {
		c.probe(2)
	}
	c.sayf("%v split:%s", p, hist)
	for i, l := range lines {
		for k := l.from; k < l.to; k++ {
			if d := l.rl.DirectionAt(uint64(k - l.off)); d != want[k] {
				c.fail("split", "paragraph %v, split:%s; line %d: DirectionAt(%d) is %s", p, hist, i, k-l.off, dirName(d))
			}
		}
		runs := readOrdering(l.rl.Reorder())
		dirs, bad := layout(runs, l.from-l.off, l.to-l.off)
		c.eval(1)
		c.out(runsString(runs))
		if bad != "" {
			c.fail("split", "paragraph %v, split:%s; line %d (%d-%d, shifted by %d) is %s: %s", p, hist, i, l.from, l.to, l.off, runsString(runs), bad)
		}
		for k, d := range dirs {
			if d != want[l.from+k] {
				c.fail("split", "paragraph %v, split:%s; line %d (%d-%d, shifted by %d) is %s: position %d has changed its direction", p, hist, i, l.from, l.to, l.off, runsString(runs), l.from+k)
			}
		}
	}
}
