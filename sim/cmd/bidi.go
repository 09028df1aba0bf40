//go:build go1.21

package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verifsim/simrt"
	xbidi "golang.org/x/text/unicode/bidi"
)

// --- paragraphs --------------------------------------------------------------

// mark is out-of-line markup at a text position.
type mark struct{ pos, code int }

// para is a paragraph together with everything which determines its resolution.
type para struct {
	text   []byte
	rtl    bool
	test   bool
	ignore bool // paragraph separators
	noise  int  // options overridden by later ones (bits)
	marks  []mark
	steps  []step
	fail   *failure
}

func (p *para) opts() []bidi.Option {
	dir, other := bidi.LeftToRight, bidi.RightToLeft
	if p.rtl {
		dir, other = other, dir
	}
	var first, o []bidi.Option
	if p.noise&1 != 0 {
		first = append(first, bidi.DefaultDirection(other))
	}
	if p.rtl || p.noise&1 != 0 {
		o = append(o, bidi.DefaultDirection(dir))
	}
	if p.noise&2 != 0 {
		first = append(first, bidi.TestMode(!p.test))
	}
	if p.test || p.noise&2 != 0 {
		o = append(o, bidi.TestMode(p.test))
	}
	if p.noise&4 != 0 {
		first = append(first, bidi.IgnoreParagraphSeparators(!p.ignore))
	}
	if p.ignore || p.noise&4 != 0 {
		o = append(o, bidi.IgnoreParagraphSeparators(p.ignore))
	}
	return append(first, o...)
}

func (p *para) markup() bidi.OutOfLineBidiMarkup {
	if p.marks == nil {
		return nil
	}
	marks := p.marks
	return func(pos uint64) int {
		curTracer.touch("markup")
		for _, m := range marks {
			if uint64(m.pos) == pos {
				return m.code
			}
		}
		return 0
	}
}

func (p *para) String() string {
	s := quoteText(p.text)
	if p.test {
		s += " in test mode"
	}
	if p.rtl {
		s += " from right to left"
	}
	if p.ignore {
		s += " ignoring separators"
	}
	if p.noise != 0 {
		s += " with options overriding others (" + itoa(p.noise) + ")"
	}
	for _, m := range p.marks {
		s += " " + markName(m.code) + "@" + itoa(m.pos)
	}
	return s
}

func markName(code int) string {
	s := ""
	if code&bidi.MarkupPDI != 0 {
		s = "PDI"
	}
	switch code &^ bidi.MarkupPDI {
	case bidi.MarkupLRI:
		s += "LRI"
	case bidi.MarkupRLI:
		s += "RLI"
	}
	return s
}

// resolve resolves the paragraph through its faulty reader.
func (p *para) resolve(c *Ctx) *bidi.ResolvedLevels {
	var f *failure
	if p.fail != nil {
		x := *p.fail
		f = &x
	}
	return bidi.ResolveParagraph(&byteReader{c: c, data: p.text, steps: p.steps, fail: f}, p.markup(), p.opts()...)
}

// plain resolves the paragraph in one piece, without faults, under a cooperative schedule.
func (p *para) plain() *bidi.ResolvedLevels {
	simrt.Cooperative(true)
	q := *p
	q.noise = 0
	rl := bidi.ResolveParagraph(strings.NewReader(string(p.text)), p.markup(), q.opts()...)
	simrt.Cooperative(false)
	return rl
}

// Alphabets of characters, in the order of increasing trouble.
const (
	lettersL  = "abcxyz"
	lettersR  = "\u05d0\u05d1\u05ea"
	lettersAL = "\u0627\u0628\u0645"
	digitsEN  = "0129"
	digitsAN  = "\u0660\u0669"
	weak      = "+-$%#.,:/"
	neutral   = " \t!*&\u2026"
	marksNSM  = "\u0301\u05b0"
	brackets  = "()[]{}\u2329\u232a\u3008\u3009"
	boundary  = "\u200c\u00ad\u200d"                                                             // invisible (class BN)
	unusual   = "\u200e\u200f\u061c\U00010840\U0001d7ce\U00010e60\u00b2\u06f1\u00a0\u202f\u3000" // directional marks, digits and letters from elsewhere
	isolates  = "\u2066\u2067\u2069\u2069\u2068"
	legacy    = "\u200e\u200f\u202a\u202b\u202c\u202d\u00ad\u200d"
	separator = "\n\r\u2029\u0085\x1c"
	wideChars = "\U00010840\U0001d7ce\U0001f600\u4e00\ufffd"
)

func runesOf(s ...string) []rune { return []rune(strings.Join(s, "")) }

// bidiAlphabet draws an alphabet; few characters make for more interesting texts.
func bidiAlphabet(s *simrt.Stream, classes ...string) []rune {
	all := runesOf(classes...)
	if s.OneIn(3) {
		return all
	}
	n := 2 + s.Intn(5)
	var a []rune
	for i := 0; i < n; i++ {
		cl := []rune(classes[s.Intn(len(classes))])
		a = append(a, cl[s.Intn(len(cl))])
	}
	return a
}

// kin are the characters of the usual bidi classes, brackets excepted.
var kin map[xbidi.Class][]rune

func kinOf(r rune) []rune {
	if kin == nil {
		kin = map[xbidi.Class][]rune{}
		for r := rune(1); r <= unicode.MaxRune; r++ {
			if pr, _ := xbidi.LookupRune(r); utf8.ValidRune(r) && r != utf8.RuneError && !pr.IsBracket() {
				switch cl := pr.Class(); cl {
				case xbidi.L, xbidi.R, xbidi.AL, xbidi.EN, xbidi.ES, xbidi.ET, xbidi.AN, xbidi.CS, xbidi.NSM, xbidi.WS, xbidi.S, xbidi.ON:
					kin[cl] = append(kin[cl], r)
				}
			}
		}
	}
	if pr, _ := xbidi.LookupRune(r); !pr.IsBracket() {
		return kin[pr.Class()]
	}
	return nil
}

// kindred replaces, sometimes, characters of an alphabet by others of the same class.
func kindred(s *simrt.Stream, alph []rune) []rune {
	if !s.OneIn(3) {
		return alph
	}
	a := append([]rune{}, alph...)
	for i, r := range a {
		if k := kinOf(r); s.OneIn(2) && k != nil {
			a[i] = k[s.Intn(len(k))]
		}
	}
	return a
}

// bidiPhrases are characters which rules of UAX#9 apply to.
var bidiPhrases = []string{"(\u05d0)", "(a)", "(\u05d0", "\u05d0)", "a(", ")a", "((", "))", "[", "]", "(1)", "1+1", "1,1", "1,", "%1", "1%", "$", "+",
	"\u06271", "\u06271,1", "\u0627$1", "\u06271-1", "\u0627", "\u0661,\u0661", "\u0661+1", "\u0661", "a1", "\u05d01", "a,1", "\u05d0$1", "\u0301", "1\u0301,1", ")\u0301", " ", "a", "\u05d0", "1", "\u00ad", "1\u00ad,\u00ad1"}

// phrases draws a text made of few phrases.
func phrases(s *simrt.Stream, max int) (rs []rune) {
	var ph []string
	for i := 2 + s.Intn(4); i > 0; i-- {
		ph = append(ph, bidiPhrases[s.Intn(len(bidiPhrases))])
	}
	for n := size(s, max); len(rs) < n; {
		rs = append(rs, []rune(ph[s.Intn(len(ph))])...)
	}
	return rs
}

const testAlphabet = "aAb B1()[].,=<>"

// genPara draws a paragraph of any kind.
func genPara(c *Ctx, max int, separators bool) *para {
	p := &para{}
	var alph []rune
	if c.G.OneIn(3) {
		p.test = true
		alph = bidiAlphabet(c.G, testAlphabet, "aA", "()[]", "=<>", " .,1")
	} else {
		cl := []string{lettersL, lettersR, neutral, isolates, digitsEN, brackets, lettersAL, digitsAN, weak, marksNSM, legacy, wideChars}
		if separators && c.G.OneIn(6) {
			cl = append(cl, separator)
		}
		alph = kindred(c.G, bidiAlphabet(c.G, cl...))
	}
	n := size(c.G, max)
	if c.G.OneIn(12) {
		n = 1 // lengths 0 and 1 are special
	}
	var rs []rune
	for len(rs) < n {
		r := alph[c.G.Intn(len(alph))]
		k := 1
		if c.G.OneIn(6) {
			k = 1 + c.G.Intn(4)
		}
		for ; k > 0 && len(rs) < n; k-- {
			rs = append(rs, r)
		}
	}
	if c.G.OneIn(6) && !p.test {
		rs = phrases(c.G, max)
	}
	if max >= 16 && c.G.OneIn(200) { // deeply nested isolates, closed or not
		rs = deeply(c, rs, p.test, max >= 30)
	}
	p.text = []byte(string(rs))
	p.rtl = c.G.OneIn(3)
	p.ignore = separators && c.G.OneIn(4)
	if c.G.OneIn(6) {
		p.noise = c.G.Intn(8)
	}
	return p
}

// deeply puts many isolate initiators before a text and PDIs between its characters.
func deeply(c *Ctx, rs []rune, test, large bool) []rune {
	var out []rune
	n := 10 + c.G.Intn(15)
	if large && c.G.OneIn(4) { // deeper than the limit of UAX#9
		n = 126 + c.G.Intn(8)
	}
	for i := 0; i < n; i++ {
		if k := c.G.Intn(3); test {
			out = append(out, rune("<>>"[k]))
		} else {
			out = append(out, rune(0x2066+k))
		}
	}
	pdi := '\u2069'
	if test {
		pdi = '='
	}
	for k := n/2 + c.G.Intn(n); k > 0 || len(rs) > 0; k-- {
		if len(rs) > 0 && (k <= 0 || c.G.OneIn(n/(len(rs)+1)+1)) {
			out, rs = append(out, rs[0]), rs[1:]
		}
		if k > 0 {
			out = append(out, pdi)
		}
	}
	return out
}

// grow repeats some characters until the paragraph has more than 64 KB.
func (p *para) grow(c *Ctx) {
	for k := 1 + c.G.Intn(3); k > 0; k-- {
		p.growOnce(c, (66000+c.G.Intn(4000))/k)
	}
}

func (p *para) growOnce(c *Ctx, more int) {
	var at []int // candidates: many brackets, separators or isolates would be too slow
	for i, r := range string(p.text) {
		if repeatable(r, p.test) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		p.text = append(p.text, 'a')
		at = append(at, len(p.text)-1)
	}
	i := at[c.G.Intn(len(at))]
	_, k := utf8.DecodeRune(p.text[i:])
	ch := string(p.text[i : i+k])
	text := append([]byte{}, p.text[:i]...)
	text = append(text, strings.Repeat(ch, more/k)...)
	p.text = append(text, p.text[i:]...)
	for j := range p.marks {
		if p.marks[j].pos > i {
			p.marks[j].pos += more / k * k
		}
	}
}

func repeatable(r rune, test bool) bool {
	if r == utf8.RuneError || isSeparator(r) || test && strings.ContainsRune("<>=", r) {
		return false
	}
	pr, _ := xbidi.LookupRune(r)
	switch pr.Class() {
	case xbidi.L, xbidi.R, xbidi.AL, xbidi.EN, xbidi.AN, xbidi.NSM, xbidi.WS, xbidi.ON:
		return !pr.IsBracket()
	}
	return false
}

// genMarks draws arbitrary markup, balanced or not.
func genMarks(c *Ctx, p *para) {
	p.marks = []mark{}
	for i := 0; i <= len(p.text); i++ {
		if i < len(p.text) && !utf8.RuneStart(p.text[i]) {
			continue
		}
		if c.G.OneIn(3) {
			p.marks = append(p.marks, mark{i, []int{bidi.MarkupLRI, bidi.MarkupRLI, bidi.MarkupPDI, bidi.MarkupPDILRI, bidi.MarkupPDIRLI}[c.G.Intn(5)]})
		}
	}
}

// --- observing ---------------------------------------------------------------

type segment1 struct {
	dir  bidi.Direction
	l, r uint64
}

type obsRun struct {
	dir    bidi.Direction
	length int64
	segs   []segment1
	bad    string // what is wrong with the iterators
}

func readRun(r *bidi.Run) obsRun {
	o := obsRun{dir: r.Dir, length: r.Length}
	for it := r.SegmentIterator(false); it.Next(); {
		d, a, b := it.Segment()
		o.segs = append(o.segs, segment1{d, a, b})
	}
	it, n := r.SegmentIterator(true), len(o.segs)
	for k := n - 1; o.bad == "" && k >= 0; k-- {
		if it.EOF() {
			o.bad = "iterator at its end before the last segment"
		} else if !it.Next() {
			o.bad = "reverse iterator misses segments"
		} else if d, a, b := it.Segment(); (segment1{d, a, b}) != o.segs[k] {
			o.bad = "reverse iterator differs from reversed segments"
		}
	}
	switch {
	case o.bad != "":
	case !it.EOF() || it.Next():
		o.bad = "iterator not at its end after the last segment"
	case r.IsOpposite(r.Dir) || !r.IsOpposite(bidi.LeftToRight) && !r.IsOpposite(bidi.RightToLeft):
		o.bad = "direction of the run opposite to itself"
	}
	return o
}

func readOrdering(o *bidi.Ordering) []obsRun {
	var rs []obsRun
	for i := range o.Runs {
		rs = append(rs, readRun(&o.Runs[i]))
	}
	return rs
}

func dirName(d bidi.Direction) string {
	switch d {
	case bidi.LeftToRight:
		return "L"
	case bidi.RightToLeft:
		return "R"
	}
	return "?" + itoa(int(d))
}

func runsString(rs []obsRun) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(dirName(r.dir) + itoa(int(r.length)))
		for _, s := range r.segs {
			b.WriteString("[" + itoa(int(s.l)) + "-" + itoa(int(s.r)) + "]")
		}
		b.WriteString(" ")
	}
	return b.String()
}

// quoteText quotes a text, long stretches of the same character abbreviated.
func quoteText(b []byte) string {
	if len(b) < 1000 {
		return quoteASCII(string(b))
	}
	s := ""
	for i := 0; i < len(b); {
		_, n := utf8.DecodeRune(b[i:])
		j, k := i+n, 1
		for ; j+n <= len(b) && string(b[j:j+n]) == string(b[i:i+n]); j += n {
			k++
		}
		if k > 10 {
			s += quoteASCII(string(b[i:i+n])) + "*" + itoa(k) + " "
		} else {
			s += quoteASCII(string(b[i:j])) + " "
		}
		i = j
	}
	return s
}

// dirsString is a list of directions.
func dirsString(n int, at func(int) bidi.Direction) string {
	var b strings.Builder
	for i := 0; i < n; {
		d, k := at(i), 1
		for i+k < n && at(i+k) == d {
			k++
		}
		for i += k; k > 0; k-- {
			b.WriteString(dirName(d))
			if k > 20 {
				b.WriteString("*" + itoa(k))
				break
			}
		}
	}
	return b.String()
}

// signature describes resolved levels by everything a client can see, without fmt.
func signature(rl *bidi.ResolvedLevels, n int) string {
	var b strings.Builder
	b.WriteString(dirsString(n+1, func(i int) bidi.Direction { return rl.DirectionAt(uint64(i)) }))
	b.WriteString(" ")
	b.WriteString(runsString(readOrdering(rl.Reorder())))
	return b.String()
}

// layout gives the direction of each position and checks the partition of [from,to).
func layout(runs []obsRun, from, to int) ([]bidi.Direction, string) {
	dirs := make([]bidi.Direction, to)
	seen := make([]bool, to)
	for i, r := range runs {
		sum := int64(0)
		for _, s := range r.segs {
			if s.dir != r.dir {
				return nil, "segment of a direction other than the one of its run"
			}
			if s.r < s.l || s.l < uint64(from) || s.r > uint64(to) {
				return nil, "segment [" + itoa(int(s.l)) + "-" + itoa(int(s.r)) + "] out of range"
			}
			sum += int64(s.r - s.l)
			for k := s.l; k < s.r; k++ {
				if seen[k] {
					return nil, "position " + itoa(int(k)) + " occurs twice"
				}
				seen[k], dirs[k] = true, r.dir
			}
		}
		switch {
		case r.bad != "":
			return nil, r.bad
		case sum != r.length:
			return nil, "length of a run is " + itoa(int(r.length)) + ", its segments have " + itoa(int(sum))
		case sum == 0:
			return nil, "empty run"
		case r.dir != bidi.LeftToRight && r.dir != bidi.RightToLeft:
			return nil, "run without direction"
		case i > 0 && runs[i-1].dir == r.dir:
			return nil, "neighbouring runs of the same direction"
		}
	}
	for k := from; k < to; k++ {
		if !seen[k] {
			return nil, "position " + itoa(k) + " is missing"
		}
	}
	return dirs[from:], ""
}

// visualOrder is the sequence of byte positions as delivered by the runs, from left to right
// in left-to-right paragraphs, from right to left otherwise (bytes stand for characters).
func visualOrder(o *bidi.Ordering, base bidi.Direction) []int {
	var v []int
	for i := range o.Runs {
		r := &o.Runs[i]
		for it := r.SegmentIterator(r.IsOpposite(base)); it.Next(); {
			d, a, b := it.Segment()
			if d == base {
				for k := a; k < b; k++ {
					v = append(v, int(k))
				}
			} else {
				for k := int(b) - 1; k >= int(a); k-- {
					v = append(v, k)
				}
			}
		}
	}
	return v
}

func (p *para) base() bidi.Direction {
	if p.rtl {
		return bidi.RightToLeft
	}
	return bidi.LeftToRight
}

// paraLen is the number of bytes up to a paragraph separator.
func (p *para) paraLen() int {
	if p.ignore {
		return len(p.text)
	}
	for i := 0; i < len(p.text); {
		r, n := utf8.DecodeRune(p.text[i:])
		if isSeparator(r) {
			return i
		}
		i += n
	}
	return len(p.text)
}

func isSeparator(r rune) bool {
	return r == '\n' || r == '\r' || r == 0x85 || r == 0x2029 || r >= 0x1c && r <= 0x1e
}

// nestings gives the depth of nested isolates for each byte and the end of the text.
func (p *para) nestings() []int {
	ns := make([]int, len(p.text)+1)
	n := 0
	for i := 0; i < len(p.text); {
		r, k := utf8.DecodeRune(p.text[i:])
		for ; k > 0; k-- {
			ns[i] = n
			i++
		}
		switch {
		case r == 0x2066 || r == 0x2067 || p.test && (r == '<' || r == '>'):
			n++
		case n > 0 && (r == 0x2069 || p.test && r == '='):
			n--
		}
	}
	ns[len(p.text)] = n
	return ns
}

func nestingAt(p *para, at int) int { return p.nestings()[at] }

var bidiReal = []string{"bidi resolver (scanner and parser goroutines)", "bidi reordering", "bracket pairing", "rules trie", "bufio.Scanner"}
var bidiStubs = []string{"scheduler", "clock", "reader of the paragraph"}
var bidiAssume = []string{"golang.org/x/text/unicode/bidi gives the bidi classes of characters"}
