//go:build go1.21

package main

import (
	"strings"

	"github.com/npillmayer/uax/bidi"
)

func init() {
	register(&property{id: "P19", variants: []variant{
		{"text", 1000, p19Text, false},
		{"text with isolates", 600, p19Isolates, false},
		{"lines", 400, p19Lines, false},
		{"text with brackets", 1000, p19Brackets, false},
		{"large paragraphs", 10, p19Large, false},
	}, rule: "A run draws a paragraph (letters, European and Arabic digits, separators, terminators, brackets, non-spacing marks, boundary neutrals, neutrals), a direction, possibly closed isolates (LRI, RLI, FSI) or split positions, a delivery and a schedule; directions and the visual order of paragraph or lines must be the ones of UAX#9 as computed by an independent reference.",
		real: bidiReal, stubs: append([]string{"UAX#9 levels and reordering (oracle, written from the annex)"}, bidiStubs...), assume: bidiAssume,
		probes: []string{"from right to left", "numbers", "Arabic letters", "isolate", "nested isolates", "non-spacing mark", "separators or terminators", "several lines", "brackets", "deeply nested brackets", "boundary neutrals", "isolates within brackets", "deeply nested isolates"}})
}

func genSimple(c *Ctx, max int) *para {
	p := &para{rtl: c.G.OneIn(3)}
	alph := bidiAlphabet(c.G, lettersL, lettersR, neutral, digitsEN, lettersAL, digitsAN, weak, marksNSM, boundary, unusual)
	if c.G.OneIn(8) {
		p.ignore = true
		alph = append(alph, []rune(separator)...)
	}
	if c.G.OneIn(6) {
		p.noise = c.G.Intn(8)
	}
	if c.G.OneIn(12) {
		p.test = true
		alph = append(alph, []rune("AABZ")...)
	}
	if c.G.OneIn(40) {
		max *= 16
	}
	if !p.test {
		alph = kindred(c.G, alph)
	}
	n := size(c.G, max)
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, alph[c.G.Intn(len(alph))])
	}
	if c.G.OneIn(4) && !p.test {
		rs = phrases(c.G, minInt(max, 24))
	}
	p.text = []byte(string(rs))
	return p
}

// isolate puts properly closed isolates around parts of the text.
func isolate(c *Ctx, p *para) {
	rs := []rune(string(p.text))
	var out []rune
	depth, max := 0, 8
	if c.G.OneIn(24) { // deeply nested, yet below the depth limit of UAX#9
		max = 61
		c.probe(12)
		for depth < 30+c.G.Intn(30) {
			out = append(out, rune(0x2066+c.G.Intn(3)))
			depth++
		}
	}
	for i := 0; i <= len(rs); i++ {
		for depth > 0 && c.G.OneIn(3) {
			out = append(out, 0x2069)
			depth--
		}
		if depth == 0 && c.G.OneIn(12) {
			out = append(out, 0x2069) // without a matching initiator
		}
		for c.G.OneIn(4) && depth < max {
			out = append(out, rune(0x2066+c.G.Intn(3)))
			depth++
			c.probe(3)
			if depth > 1 {
				c.probe(4)
			}
		}
		if i < len(rs) {
			out = append(out, rs[i])
		}
	}
	for ; depth > 0; depth-- {
		out = append(out, 0x2069)
	}
	p.text = []byte(string(out))
}

// p19Large: paragraphs larger than 64 KB.
func p19Large(c *Ctx) {
	p := genBrackets(c)
	if c.G.OneIn(2) {
		isolate(c, p)
	}
	p.grow(c)
	p19Check(c, p, true)
}

func p19Text(c *Ctx) { p19Check(c, genSimple(c, 24), true) }

// p19Brackets: rule N0.
func p19Brackets(c *Ctx) {
	if c.G.OneIn(3) {
		p19Check(c, genNested(c), true)
		return
	}
	p := genBrackets(c)
	if c.G.OneIn(3) {
		isolate(c, p)
	}
	p19Check(c, p, true)
}

// genNested has bracket pairs within isolates within bracket pairs …, of few characters.
func genNested(c *Ctx) *para {
	p := &para{rtl: c.G.OneIn(2)}
	all := []rune(bidiAlphabetString)
	var alph []rune
	for i := 2 + c.G.Intn(3); i > 0; i-- {
		alph = append(alph, all[c.G.Intn(len(all))])
	}
	pairs := []string{"()", "[]", "\u2329\u3009"}[:1+c.G.Intn(3)]
	budget := 4 + c.G.Intn(20)
	var rs []rune
	var gen func(depth int)
	gen = func(depth int) {
		for budget > 0 && (depth == 0 || !c.G.OneIn(4)) {
			budget--
			switch k := pick(c.G, 6, 3, 3, 1); {
			case k == 1 && depth < 8:
				b := []rune(pairs[c.G.Intn(len(pairs))])
				rs = append(rs, b[0])
				gen(depth + 1)
				rs = append(rs, b[1])
				c.probe(8)
			case k == 2 && depth < 8:
				rs = append(rs, rune(0x2066+c.G.Intn(3)))
				gen(depth + 1)
				rs = append(rs, 0x2069)
				c.probe(3)
				if depth > 0 {
					c.probe(11)
				}
			case k == 3:
				b := []rune(pairs[c.G.Intn(len(pairs))])
				rs = append(rs, b[c.G.Intn(2)])
			default:
				rs = append(rs, alph[c.G.Intn(len(alph))])
			}
		}
	}
	gen(0)
	p.text = []byte(string(rs))
	return p
}

// strong characters twice, as they are what matters
const bidiAlphabetString = "ab\u05d0\u05d1aA\u05d0\u0627\u0628 -12\u0661\u0662,+%\u0300"

func genBrackets(c *Ctx) *para {
	p := &para{rtl: c.G.OneIn(3)}
	alph := bidiAlphabet(c.G, lettersL, lettersR, neutral, digitsEN, lettersAL, digitsAN, weak, marksNSM, boundary, unusual)
	alph = kindred(c.G, alph)
	br := bidiAlphabet(c.G, "()", "[]", "{}", "\u2329\u3009\u3008\u232a", "\u27e8\u27e9\u0f3a\u0f3b")
	if c.G.OneIn(4) { // any two pairs
		br = nil
		for i := 1 + c.G.Intn(2); i >= 0; i-- {
			k := 2 * c.G.Intn(len(bracketPairs)/2)
			br = append(br, bracketPairs[k:k+2]...)
		}
	}
	n := size(c.G, 16)
	var rs []rune
	if c.G.OneIn(16) { // close to the maximum depth of bracket pairs
		for i := 58 + c.G.Intn(8); i > 0; i-- {
			rs = append(rs, '(')
		}
		br = append(br, []rune("()))))")...)
		c.probe(9)
	}
	for i := 0; i < n; i++ {
		if c.G.OneIn(3) {
			rs = append(rs, br[c.G.Intn(len(br))])
			c.probe(8)
		} else {
			rs = append(rs, alph[c.G.Intn(len(alph))])
		}
	}
	p.text = []byte(string(rs))
	return p
}

func p19Isolates(c *Ctx) {
	p := genSimple(c, 16)
	isolate(c, p)
	p19Check(c, p, true)
}

// p19Lines breaks a paragraph into lines; rule L2 works line by line.
func p19Lines(c *Ctx) {
	p := genSimple(c, 24)
	if c.G.OneIn(3) {
		p = genBrackets(c)
	}
	if c.G.OneIn(3) {
		isolate(c, p)
	}
	p.steps = genSteps(c, len(p.text))
	rest := p.resolve(c)
	lv := p.byteLevels()
	p19Probes(c, p, lv)
	from, base, hist := 0, 0, ""
	for k := 1 + c.G.Intn(4); k >= 0; k-- {
		to := len(lv)
		l := rest
		shift := c.G.OneIn(2)
		off := base
		if k > 0 {
			to = from + c.G.Intn(len(lv)-from+1)
			l, rest = rest.Split(uint64(to-base), shift)
			if shift {
				base = to
			}
			hist += " " + itoa(to)
			c.probe(7)
		}
		var got []int
		for _, x := range visualOrder(l.Reorder(), p.base()) {
			got = append(got, x+off)
		}
		want := p.visual(lv[from:to], from)
		c.eval(1)
		if got, want = p.visible(got), p.visible(want); !equalInts(got, want) {
			c.fail("uax9", "paragraph %v split at%s: visual order of the line from %d to %d is %v, should be %v", p, hist, from, to, got, want)
		}
		c.out(itoa(len(got)))
		from = to
	}
	c.sayf("%v split at%s", p, hist)
}

// visual is the expected order of a line, seen from the start of the line in reading direction.
func (p *para) visual(lv []int, off int) []int {
	want := refVisual(lv)
	for i := range want {
		want[i] += off
	}
	if p.rtl {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	return want
}

func p19Probes(c *Ctx, p *para, lv []int) {
	if p.rtl {
		c.probe(0)
	}
	for i, cl := range []string{digitsEN + digitsAN, lettersAL, "", "", marksNSM, weak, "", "", "", boundary} {
		if cl != "" && strings.ContainsAny(string(p.text), cl) {
			c.probe(i + 1)
		}
	}
}

func isControl(r rune) bool { return r >= 0x2066 && r <= 0x2069 }

// isBN is true for boundary neutrals. Their place does not matter, as they are invisible.
func isBN(r rune) bool { return strings.ContainsRune(boundary, r) }

// visible drops boundary neutrals from a list of byte positions.
func (p *para) visible(pos []int) []int {
	bn := map[int]bool{}
	for i, r := range string(p.text) {
		for k := 0; k < len(string(r)) && (isBN(r) || isControl(r)); k++ {
			bn[i+k] = true
		}
	}
	if len(bn) == 0 {
		return pos
	}
	var v []int
	for _, x := range pos {
		if !bn[x] {
			v = append(v, x)
		}
	}
	return v
}

// byteLevels are the levels of each byte.
func (p *para) byteLevels() []int {
	base := 0
	if p.rtl {
		base = 1
	}
	var rs []rune
	for _, r := range string(p.text) { // X9: boundary neutrals are removed
		if !isBN(r) {
			rs = append(rs, r)
		}
	}
	lv := refLevels(rs, p.test, base)
	var b []int
	last, i := base, 0
	for _, r := range string(p.text) {
		if !isBN(r) {
			last = lv[i]
			i++
		}
		for k := 0; k < len(string(r)); k++ {
			b = append(b, last)
		}
	}
	return b
}

func p19Check(c *Ctx, p *para, order bool) {
	p.steps = genSteps(c, len(p.text))
	rl := p.resolve(c)
	runs := readOrdering(rl.Reorder())
	desc := runsString(runs)
	c.eval(1)
	c.out(desc)
	dirs, bad := layout(runs, 0, len(p.text))
	if bad != "" {
		c.fail("partition", "paragraph %v, runs %s: %s", p, desc, bad)
	}
	c.sayf("%v: %s", p, desc)
	lv := p.byteLevels()
	p19Probes(c, p, lv)
	for i, r := range string(p.text) {
		if isControl(r) || isBN(r) {
			continue
		}
		want := bidi.LeftToRight
		if lv[i]&1 == 1 {
			want = bidi.RightToLeft
		}
		if dirs[i] != want {
			c.fail("uax9", "paragraph %v, runs %s: %U at %d should have direction %s, levels are %v", p, desc, r, i, dirName(want), lv)
		}
	}
	if order {
		got, want := visualOrder(rl.Reorder(), p.base()), p.visual(lv, 0)
		if got, want = p.visible(got), p.visible(want); !equalInts(got, want) {
			c.fail("uax9", "paragraph %v, runs %s: visual order is %v, should be %v", p, desc, got, want)
		}
	}
}
