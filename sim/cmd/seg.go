//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifsim/simrt"
)

// Kinds of breakers.
const (
	bSimple = iota
	bWord
	bGrapheme
	bScripted
	bValue // scripted, but not a pointer
	bLoose
	bEach
)

var breakerNames = []string{"simple", "word", "grapheme", "scripted", "scripted value", "uncomparable", "each rune"}

// script is the behaviour of a client-written breaker, by number of the rune (the last
// one is the end of the text). Texts longer than the script go through it cyclically.
type script struct {
	lam  []int
	pen  [][]int
	eot  []int
	elam int
}

// scripted is a client-written breaker.
type scripted struct {
	sc  *script
	i   int
	eot bool
}

func (b *scripted) CodePointClassFor(r rune) int {
	if r == 0 {
		return -1
	}
	return 1
}
func (b *scripted) StartRulesFor(r rune, c int) {}
func (b *scripted) ProceedWithRune(r rune, c int) {
	if r == 0 {
		b.eot, b.i = true, 0
	} else {
		b.i++
		b.eot = false
	}
}
func (b *scripted) LongestActiveMatch() int {
	if b.eot {
		return b.sc.elam
	}
	return b.sc.lam[(b.i-1)%len(b.sc.lam)]
}
func (b *scripted) Penalties() []int {
	if b.eot {
		return b.sc.eot
	}
	return b.sc.pen[(b.i-1)%len(b.sc.pen)]
}

// Client-written breakers need not be pointers: valueBreaker is a comparable value,
// looseBreaker one which cannot be compared, and eachRune has no state at all, so that two
// of them are equal.
type valueBreaker struct{ *scripted }

type looseBreaker struct {
	*scripted
	notes []string
}

type eachRune struct{ p int }

func (b eachRune) CodePointClassFor(r rune) int  { return 1 }
func (b eachRune) StartRulesFor(r rune, c int)   {}
func (b eachRune) ProceedWithRune(r rune, c int) {}
func (b eachRune) LongestActiveMatch() int       { return 0 }
func (b eachRune) Penalties() []int              { return []int{0, b.p} }

var penaltyValues = []int{0, 0, 100, -100, 500, 9999, 10000, -10000, 20000, 1, -1, -9000, 10001}

// genScript makes a client breaker. If complete, it always breaks at the end of the text.
func genScript(s *simrt.Stream, n int, complete bool) *script {
	sc := &script{}
	n++
	for i := 0; i < n; i++ {
		l := 0
		if s.OneIn(2) {
			l = s.Intn(minInt(i+2, 6))
		}
		sc.lam = append(sc.lam, l)
		var p []int
		for k := s.Intn(4); k > 0; k-- {
			p = append(p, penaltyValues[s.Intn(len(penaltyValues))])
		}
		sc.pen = append(sc.pen, p)
	}
	sc.eot = []int{0, -25000}
	if complete {
		// the sum at the last position becomes feasible, whatever has been there before
		sc.eot[1] = -1000000
	} else {
		sc.elam = s.Intn(3)
		sc.eot = nil
		for k := s.Intn(4); k > 0; k-- {
			sc.eot = append(sc.eot, penaltyValues[s.Intn(len(penaltyValues))])
		}
	}
	return sc
}

// segSpec describes a segmenter.
type segSpec struct {
	breakers []int
	weights  []int
	scripts  []*script
	zero     [2]bool
	bufcap   int // RuneBuffer, if > 0; no buffer, if < 0
	max      int
	preset   int // runes the buffer contains
}

func (sp *segSpec) String() string {
	var b strings.Builder
	if len(sp.breakers) == 0 {
		b.WriteString("default")
	}
	for i, k := range sp.breakers {
		if i > 0 {
			b.WriteString("+")
		}
		b.WriteString(breakerNames[k])
	}
	if sp.zero != [2]bool{} {
		fmt.Fprintf(&b, " zero=%v", sp.zero)
	}
	if sp.bufcap != 0 {
		fmt.Fprintf(&b, " buffer=%d/%d", sp.bufcap, sp.max)
	}
	return b.String()
}

var breakerCombos = [][]int{
	{}, {bWord}, {bGrapheme}, {bSimple}, {bWord, bSimple}, {bGrapheme, bWord}, {bWord, bGrapheme},
	{bSimple, bWord}, {bSimple, bGrapheme}, {bGrapheme, bSimple, bWord},
}

// genSpec chooses breakers for a segmenter.
func genSpec(s *simrt.Stream, textLen int, withScript, complete bool) *segSpec {
	sp := &segSpec{}
	k := s.Intn(len(breakerCombos) + 3)
	if k < len(breakerCombos) {
		sp.breakers = breakerCombos[k]
	} else if withScript {
		n := 1 + s.Intn(3)
		if s.OneIn(20) {
			n += s.Intn(10)
		}
		for i := 0; i < n; i++ {
			b := bScripted
			if s.OneIn(4) {
				b = []int{bValue, bLoose, bEach}[s.Intn(3)]
			}
			if i > 0 && s.OneIn(2) {
				b = s.Intn(3)
			}
			sp.breakers = append(sp.breakers, b)
		}
	} else {
		sp.breakers = breakerCombos[k-len(breakerCombos)+1]
	}
	for i, b := range sp.breakers {
		w := 1
		if s.OneIn(4) {
			w = []int{2, -1, 5, 10}[s.Intn(4)]
		}
		sp.weights = append(sp.weights, w)
		var sc *script
		if b >= bScripted && b <= bLoose {
			sc = genScript(s, textLen, complete && i == 0)
			if complete {
				sc.elam = 0 // no breaker may hold on to the end of the text
			}
		}
		sp.scripts = append(sp.scripts, sc)
	}
	return sp
}

// keepWord makes the scripts those of breakers which announce what they are going to do: they
// report penalties for positions only which they had not given up, and do not take up again what
// they had given up.
func (sp *segSpec) keepWord(s *simrt.Stream, n int) {
	for i, k := range sp.breakers {
		if k == bEach {
			sp.breakers = append([]int{}, sp.breakers...)
			sp.breakers[i], sp.scripts[i] = bScripted, genScript(s, n, i == 0)
			sp.scripts[i].elam = 0
		}
		sc := sp.scripts[i]
		if sc == nil {
			continue
		}
		held := 0
		for j, l := range sc.lam {
			sc.lam[j] = minInt(l, held+1)
			if len(sc.pen[j]) > held+1 {
				sc.pen[j] = sc.pen[j][:held+1]
			}
			held = sc.lam[j]
			if j == n-1 && len(sc.eot) > maxInt(2, held+1) {
				sc.eot = sc.eot[:maxInt(2, held+1)]
			}
		}
	}
}

func (sp *segSpec) newBreakers() []uax.UnicodeBreaker {
	var bs []uax.UnicodeBreaker
	for i, k := range sp.breakers {
		switch k {
		case bSimple:
			bs = append(bs, segment.NewSimpleWordBreaker())
		case bWord:
			bs = append(bs, uax29.NewWordBreaker(sp.weights[i]))
		case bGrapheme:
			bs = append(bs, grapheme.NewBreaker(sp.weights[i]))
		case bScripted:
			bs = append(bs, &scripted{sc: sp.scripts[i]})
		case bValue:
			bs = append(bs, valueBreaker{&scripted{sc: sp.scripts[i]}})
		case bLoose:
			bs = append(bs, looseBreaker{&scripted{sc: sp.scripts[i]}, nil})
		case bEach:
			bs = append(bs, eachRune{sp.weights[i] * -50})
		}
	}
	return bs
}

func (sp *segSpec) newSegmenter() *segment.Segmenter {
	s := segment.NewSegmenter(sp.newBreakers()...)
	if sp.zero != [2]bool{} {
		s.BreakOnZero(sp.zero[0], sp.zero[1])
	}
	return s
}

// setBuffer sets the rune buffer, to be called after Init.
func (sp *segSpec) setBuffer(s *segment.Segmenter) {
	if sp.bufcap > 0 {
		s.RuneBuffer(make([]rune, minInt(sp.preset, sp.bufcap), sp.bufcap), sp.max)
	} else if sp.bufcap < 0 {
		s.RuneBuffer(nil, sp.max)
	}
}

// limit is the longest segment a stream segmenter has to accept.
func (sp *segSpec) limit() int {
	if sp.bufcap != 0 {
		return maxInt(sp.bufcap, sp.max)
	}
	return segment.MaxSegmentSize
}

// seg is a delivered segment.
type seg struct {
	text   string
	p0, p1 int
	reads  int // runes read when it was delivered, incl. the end of text
}

func segTexts(s []seg) []string {
	var t []string
	for _, x := range s {
		t = append(t, x.text)
	}
	return t
}

func showSegs(s []seg) string {
	var b strings.Builder
	for i, x := range s {
		if i > 40 {
			b.WriteString(" …")
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%+q(%d,%d)", x.text, x.p0, x.p1)
	}
	return b.String()
}

func sameSegs(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].text != b[i].text || a[i].p0 != b[i].p0 || a[i].p1 != b[i].p1 {
			return false
		}
	}
	return true
}

const maxSegs = 200000

// drain collects all remaining segments and checks that the views of each agree.
func drain(c *Ctx, s *segment.Segmenter, limit int) []seg {
	var out []seg
	for s.Next() {
		out = append(out, view(c, s))
		if len(out) > limit {
			c.fail("endless", "segmenter does not stop: more than %d segments", limit)
		}
	}
	none(c, s)
	return out
}

// none checks that there is no current segment, after Next() has returned false.
func none(c *Ctx, s *segment.Segmenter) {
	if x := view(c, s); x.text != "" {
		c.fail("views", "Next() is false, but there is a segment %+q", clip(x.text))
	}
}

// view checks and returns the current segment.
func view(c *Ctx, s *segment.Segmenter) seg {
	t := s.Text()
	if string(s.Runes()) != t || string(s.Bytes()) != t {
		c.fail("views", "Text() is %+q, Runes() is %+q, Bytes() is %+q", t, string(s.Runes()), string(s.Bytes()))
	}
	p0, p1 := s.Penalties()
	return seg{text: t, p0: p0, p1: p1}
}

// initWith starts a text by means of a delivery.
func initWith(c *Ctx, s *segment.Segmenter, d *delivery, text string) {
	if d.kind == dSlice {
		s.InitFromSlice([]rune(text))
	} else {
		s.Init(d.open(c, text))
	}
}

// model computes the segments from the definition: penalties of all breakers are summed
// up per position; a segment ends at the first feasible position no breaker holds in an
// active match. Breakers are driven directly, without a segmenter.
func (sp *segSpec) model(text []rune) []seg {
	bs := sp.newBreakers()
	if len(bs) == 0 {
		if sp.zero == [2]bool{} {
			return modelDefault(text)
		}
		bs = append(bs, segment.NewSimpleWordBreaker())
	}
	n := len(text)
	tot := make([][2]int, n+1) // by position: after rune i
	var out []seg
	start := 0
	feasible := func(p int, zero bool) bool {
		return p < uax.InfinitePenalty && (p != 0 || zero)
	}
	for i := 1; i <= n+1; i++ {
		r := rune(0)
		if i <= n {
			r = text[i-1]
		}
		l := 0
		for k, b := range bs {
			cl := b.CodePointClassFor(r)
			b.StartRulesFor(r, cl)
			b.ProceedWithRune(r, cl)
			l = maxInt(l, b.LongestActiveMatch())
			for d, p := range b.Penalties() {
				at := i - d
				if at <= start || at > n { // delivered, or the end of text itself
					continue
				}
				if k == 0 {
					tot[at][0] += p
				} else {
					tot[at][1] += p
				}
			}
		}
		for found := true; found; {
			found = false
			for j := start + 1; j <= i-l && j <= n; j++ {
				if feasible(tot[j][0], sp.zero[0]) || len(bs) > 1 && feasible(tot[j][1], sp.zero[1]) {
					out = append(out, seg{text: string(text[start:j]), p0: tot[j][0], p1: tot[j][1], reads: i})
					start = j
					found = true
					break
				}
			}
		}
	}
	return out
}

// modelDefault: maximal runs of whitespace and of other characters.
func modelDefault(text []rune) []seg {
	var out []seg
	start := 0
	for i := 1; i <= len(text); i++ {
		if i < len(text) && isSpace(text[i]) == isSpace(text[i-1]) {
			continue
		}
		p := segment.PenaltyBeforeWhitespace
		if isSpace(text[start]) {
			p = segment.PenaltyAfterWhitespace
		}
		out = append(out, seg{text: string(text[start:i]), p0: p, reads: i + 1})
		start = i
	}
	return out
}

// isSpace: White_Space characters of the alphabets used here.
func isSpace(r rune) bool {
	switch r {
	case ' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return r >= 0x2000 && r <= 0x200a
}

// attempt calls f and returns the value it panicked with, if it was the simulated one.
func attempt(f func()) (p interface{}) {
	defer func() {
		if x := recover(); x != nil {
			if x != errPanicValue {
				panic(x)
			}
			p = x
		}
	}()
	f()
	return nil
}

// panics tells if f panics, for misuse which is documented to panic.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// setup initializes all tables, as a client would.
func setup() {
	uax29.SetupUAX29Classes()
	grapheme.SetupGraphemeClasses()
}
