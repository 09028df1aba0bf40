//go:build go1.21

package main

import (
	"github.com/npillmayer/uax/verifsim/simrt"
)

// Alphabets with the classes which UAX#29 gives their characters. These tables are part
// of the oracle: they are written down here, not looked up in the library.

type clsRune struct {
	r     rune
	word  string // word break property; "EP": Extended_Pictographic only
	graph string // grapheme cluster break property
	ep    bool   // Extended_Pictographic
}

var alphabet = []clsRune{
	{'a', "ALetter", "Any", false},
	{'b', "ALetter", "Any", false},
	{' ', "WSegSpace", "Any", false},
	{'.', "MidNumLet", "Any", false},
	{'1', "Numeric", "Any", false},
	{'\n', "LF", "LF", false},
	{'\r', "CR", "CR", false},
	{0x301, "Extend", "Extend", false},
	{0x200d, "ZWJ", "ZWJ", false},
	{0x1F1E9, "Regional_Indicator", "Regional_Indicator", false},
	{0x1F1EA, "Regional_Indicator", "Regional_Indicator", false},
	{0x1F600, "Other", "Any", true},
	{0x1F3FF, "Extend", "Extend", false}, // emoji modifier
	{0x5d0, "Hebrew_Letter", "Any", false},
	{0x5d1, "Hebrew_Letter", "Any", false},
	{'"', "Double_Quote", "Any", false},
	{'\'', "Single_Quote", "Any", false},
	{',', "MidNum", "Any", false},
	{':', "MidLetter", "Any", false},
	{'_', "ExtendNumLet", "Any", false},
	{0x30a2, "Katakana", "Any", false},
	{0xad, "Format", "Control", false},
	{'!', "Other", "Any", false},
	{0x0b, "Newline", "Control", false},
	{0x3000, "WSegSpace", "Any", false},
	{0x903, "Extend", "SpacingMark", false},
	{0x1100, "ALetter", "L", false},
	{0x1160, "ALetter", "V", false},
	{0x11a8, "ALetter", "T", false},
	{0xac00, "ALetter", "LV", false},
	{0xac01, "ALetter", "LVT", false},
	{0x600, "Format", "Prepend", false},
	{0x110bd, "Format", "Prepend", false},
	{0x24c2, "ALetter", "Any", true},
	{0x231a, "Other", "Any", true},
	{0x1F476, "Other", "Any", true},
	{0x85, "Newline", "Control", false},
	{0x2028, "Newline", "Control", false},
	{0x1, "Other", "Control", false},
	{0x4e16, "Other", "Any", false},
	{0xe33, "Other", "SpacingMark", false},
	{0x663, "Numeric", "Any", false},
	{0x2764, "Other", "Any", true},
	{0x300, "Extend", "Extend", false},
	{'c', "ALetter", "Any", false},
	{'2', "Numeric", "Any", false},
}

// relatives have more characters of the same classes, from all over Unicode.
var relatives = []clsRune{
	{0x41, "ALetter", "Any", false},
	{0x7a, "ALetter", "Any", false},
	{0xe9, "ALetter", "Any", false},
	{0xaa, "ALetter", "Any", false},
	{0xff, "ALetter", "Any", false},
	{0x100, "ALetter", "Any", false},
	{0x3b1, "ALetter", "Any", false},
	{0x416, "ALetter", "Any", false},
	{0x531, "ALetter", "Any", false},
	{0x628, "ALetter", "Any", false},
	{0x905, "ALetter", "Any", false},
	{0x10d0, "ALetter", "Any", false},
	{0x16a0, "ALetter", "Any", false},
	{0x1e9e, "ALetter", "Any", false},
	{0x2c00, "ALetter", "Any", false},
	{0xa000, "ALetter", "Any", false},
	{0xff21, "ALetter", "Any", false},
	{0x10400, "ALetter", "Any", false},
	{0x1d400, "ALetter", "Any", false},
	{0x5f3, "ALetter", "Any", false},
	{0xa960, "ALetter", "L", false},
	{0x115f, "ALetter", "L", false},
	{0xd7b0, "ALetter", "V", false},
	{0x11a7, "ALetter", "V", false},
	{0xd7cb, "ALetter", "T", false},
	{0x11ff, "ALetter", "T", false},
	{0xac1c, "ALetter", "LV", false},
	{0xd788, "ALetter", "LV", false},
	{0xac1b, "ALetter", "LVT", false},
	{0xd7a3, "ALetter", "LVT", false},
	{0x1680, "WSegSpace", "Any", false},
	{0x2003, "WSegSpace", "Any", false},
	{0x200a, "WSegSpace", "Any", false},
	{0x205f, "WSegSpace", "Any", false},
	{0x2018, "MidNumLet", "Any", false},
	{0x2019, "MidNumLet", "Any", false},
	{0x2024, "MidNumLet", "Any", false},
	{0xff0e, "MidNumLet", "Any", false},
	{0x30, "Numeric", "Any", false},
	{0x39, "Numeric", "Any", false},
	{0x66b, "Numeric", "Any", false},
	{0x966, "Numeric", "Any", false},
	{0x1d7ce, "Numeric", "Any", false},
	{0x308, "Extend", "Extend", false},
	{0x483, "Extend", "Extend", false},
	{0x5b0, "Extend", "Extend", false},
	{0x94d, "Extend", "Extend", false},
	{0x9be, "Extend", "Extend", false},
	{0x200c, "Extend", "Extend", false},
	{0x20e3, "Extend", "Extend", false},
	{0xfe0f, "Extend", "Extend", false},
	{0xfe20, "Extend", "Extend", false},
	{0xff9e, "Extend", "Extend", false},
	{0x1f3fb, "Extend", "Extend", false},
	{0xe0020, "Extend", "Extend", false},
	{0xe007f, "Extend", "Extend", false},
	{0xe0100, "Extend", "Extend", false},
	{0x1f1e6, "Regional_Indicator", "Regional_Indicator", false},
	{0x1f1ff, "Regional_Indicator", "Regional_Indicator", false},
	{0x5ea, "Hebrew_Letter", "Any", false},
	{0xfb1d, "Hebrew_Letter", "Any", false},
	{0x3b, "MidNum", "Any", false},
	{0x37e, "MidNum", "Any", false},
	{0x66c, "MidNum", "Any", false},
	{0xff0c, "MidNum", "Any", false},
	{0xb7, "MidLetter", "Any", false},
	{0x387, "MidLetter", "Any", false},
	{0x2027, "MidLetter", "Any", false},
	{0xfe13, "MidLetter", "Any", false},
	{0xff1a, "MidLetter", "Any", false},
	{0x5f4, "MidLetter", "Any", false},
	{0x202f, "ExtendNumLet", "Any", false},
	{0x203f, "ExtendNumLet", "Any", false},
	{0xff3f, "ExtendNumLet", "Any", false},
	{0x3031, "Katakana", "Any", false},
	{0x30fc, "Katakana", "Any", false},
	{0xff71, "Katakana", "Any", false},
	{0x1b000, "Katakana", "Any", false},
	{0x61c, "Format", "Control", false},
	{0x200e, "Format", "Control", false},
	{0x2060, "Format", "Control", false},
	{0xfeff, "Format", "Control", false},
	{0xe0001, "Format", "Control", false},
	{0x0c, "Newline", "Control", false},
	{0x2029, "Newline", "Control", false},
	{0x93e, "Extend", "SpacingMark", false},
	{0x1d166, "Extend", "SpacingMark", false},
	{0xeb3, "Other", "SpacingMark", false},
	{0x6dd, "Format", "Prepend", false},
	{0x110cd, "Format", "Prepend", false},
	{0xd4e, "ALetter", "Prepend", false},
	{0x111c2, "ALetter", "Prepend", false},
	{0xa9, "Other", "Any", true},
	{0x203c, "Other", "Any", true},
	{0x2639, "Other", "Any", true},
	{0x1f004, "Other", "Any", true},
	{0x1f469, "Other", "Any", true},
	{0x1f9d1, "Other", "Any", true},
	{0x1f0ff, "Other", "Any", true},
	{0x1faff, "Other", "Any", true},
	{0x2122, "Other", "Any", true},
	{0x1f170, "ALetter", "Any", true},
	{0x1f18e, "Other", "Any", true},
	{0x2, "Other", "Control", false},
	{0x7f, "Other", "Control", false},
	{0x200b, "Other", "Control", false},
	{0xfff0, "Other", "Control", false},
	{0xe0080, "Other", "Control", false},
	{0x21, "Other", "Any", false},
	{0x7e, "Other", "Any", false},
	{0xa0, "Other", "Any", false},
	{0xd7, "Other", "Any", false},
	{0xe01, "Other", "Any", false},
	{0x2014, "Other", "Any", false},
	{0x3041, "Other", "Any", false},
	{0x4e00, "Other", "Any", false},
	{0x9fff, "Other", "Any", false},
	{0xe000, "Other", "Any", false},
	{0x20000, "Other", "Any", false},
	{0xf0000, "Other", "Any", false},
	{0x10ffff, "Other", "Any", false},
}

// allRunes are all characters known to the oracle.
var allRunes = append(append([]clsRune{}, alphabet...), relatives...)

// family has the characters of the alphabet's classes.
var family = func() map[clsRune][]rune {
	m := map[clsRune][]rune{}
	for _, c := range allRunes {
		k := clsRune{word: c.word, graph: c.graph, ep: c.ep}
		m[k] = append(m[k], c.r)
	}
	return m
}()

// genText makes a text of up to max runes. Biased towards few different characters.
func genText(s *simrt.Stream, max int) []rune {
	n := size(s, max)
	rs := genRunes(s, n)
	if max >= 20 && s.OneIn(25) { // a long stretch without breaks somewhere
		k := 40 + s.Intn(90)
		if s.OneIn(6) {
			k = 120 + s.Intn(210)
		}
		var run []rune
		switch mark := []rune{0x301, 0x200d, 0xad}[pick(s, 3, 1, 1)]; pick(s, 2, 1, 2, 1) {
		case 0:
			run = stretch("a", 'b', k, "")
		case 1:
			run = stretch("a", mark, k, "")
		case 2: // what follows matters for the start
			pre := []string{"a'", "a.", "1,", "1.", "\u05d0\"", "\u05d0'", "a:", "'", "_", "a\u200d"}[s.Intn(10)]
			run = stretch(pre, mark, k, []string{"a", "1", "\u05d0", " ", "_"}[s.Intn(5)])
		case 3:
			run = stretch("\u231a", mark, k, "\u200d"+[]string{"\u231a", "a"}[s.Intn(2)])
		}
		at := s.Intn(n + 1)
		rs = append(append(append([]rune{}, rs[:at]...), run...), rs[at:]...)
	}
	return rs
}

func stretch(pre string, r rune, k int, post string) []rune {
	run := []rune(pre)
	for ; k > 0; k-- {
		run = append(run, r)
	}
	return append(run, []rune(post)...)
}

func genRunes(s *simrt.Stream, n int) []rune {
	sub := alphabet
	if n > 2 && s.OneIn(2) { // few characters
		k := 1 + s.Intn(6)
		sub = make([]clsRune, k)
		for i := range sub {
			sub[i] = alphabet[s.Intn(len(alphabet))]
		}
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = sub[s.Intn(len(sub))].r
	}
	if s.OneIn(3) { // the same with other characters of the same classes
		for i, x := range r {
			c := classTable[x]
			f := family[clsRune{word: c.word, graph: c.graph, ep: c.ep}]
			if k := s.Intn(2 * len(f)); k < len(f) && k > 0 {
				r[i] = f[k]
			}
		}
	}
	return r
}

var classTable = func() map[rune]clsRune {
	m := map[rune]clsRune{}
	for _, c := range allRunes {
		m[c.r] = c
	}
	return m
}()

func classOf(r rune) clsRune {
	if c, ok := classTable[r]; ok {
		return c
	}
	return clsRune{r: r, word: "Other", graph: "Any"}
}

// familiar tells whether the classes of all characters are known to the oracle
// (corruption may produce any character).
func familiar(rs []rune) bool {
	for _, r := range rs {
		if _, ok := classTable[r]; !ok {
			return false
		}
	}
	return true
}

// refGraphemes breaks a text according to UAX#29 GB1–GB999 (incl. GB9a, GB9b; without
// GB9c, which is newer than the Unicode version of the library).
func refGraphemes(rs []rune) []string {
	cl := make([]clsRune, len(rs))
	for i, r := range rs {
		cl[i] = classOf(r)
	}
	brk := func(i int) bool {
		a, b := cl[i-1].graph, cl[i].graph
		if a == "CR" && b == "LF" {
			return false
		}
		ctl := func(x string) bool { return x == "CR" || x == "LF" || x == "Control" }
		if ctl(a) || ctl(b) {
			return true
		}
		if a == "L" && (b == "L" || b == "V" || b == "LV" || b == "LVT") {
			return false
		}
		if (a == "LV" || a == "V") && (b == "V" || b == "T") {
			return false
		}
		if (a == "LVT" || a == "T") && b == "T" {
			return false
		}
		if b == "Extend" || b == "ZWJ" || b == "SpacingMark" {
			return false
		}
		if a == "Prepend" {
			return false
		}
		if a == "ZWJ" && cl[i].ep {
			j := i - 2
			for j >= 0 && cl[j].graph == "Extend" {
				j--
			}
			if j >= 0 && cl[j].ep {
				return false
			}
		}
		if a == "Regional_Indicator" && b == a {
			n := 0
			for j := i - 1; j >= 0 && cl[j].graph == a; j-- {
				n++
			}
			if n%2 == 1 {
				return false
			}
		}
		return true
	}
	return cut(rs, brk)
}

// refWords breaks a text according to UAX#29 WB1–WB999.
func refWords(rs []rune) []string {
	cls := make([]clsRune, len(rs))
	for i, r := range rs {
		cls[i] = classOf(r)
	}
	cl := func(i int) string {
		if i < 0 || i >= len(rs) {
			return ""
		}
		return cls[i].word
	}
	ign := func(x string) bool { return x == "Extend" || x == "Format" || x == "ZWJ" }
	nl := func(x string) bool { return x == "CR" || x == "LF" || x == "Newline" }
	prev := func(i int) int {
		i--
		for i >= 0 && ign(cl(i)) {
			i--
		}
		return i
	}
	next := func(i int) int {
		i++
		for i < len(rs) && ign(cl(i)) {
			i++
		}
		return i
	}
	ah := func(x string) bool { return x == "ALetter" || x == "Hebrew_Letter" }
	mid := func(x string) bool { return x == "MidLetter" || x == "MidNumLet" || x == "Single_Quote" }
	midn := func(x string) bool { return x == "MidNum" || x == "MidNumLet" || x == "Single_Quote" }
	brk := func(i int) bool {
		a, b := cl(i-1), cl(i)
		if a == "CR" && b == "LF" {
			return false
		}
		if nl(a) || nl(b) {
			return true
		}
		if a == "ZWJ" && cls[i].ep {
			return false
		}
		if a == "WSegSpace" && b == a {
			return false
		}
		if ign(b) {
			return false
		}
		p := prev(i)
		a = cl(p)
		if p < 0 || nl(a) { // ignorable characters at the start of a line
			a = "Other"
		}
		pp := ""
		if p >= 0 {
			pp = cl(prev(p))
		}
		nn := cl(next(i))
		switch {
		case ah(a) && ah(b):
			return false
		case ah(a) && mid(b) && ah(nn):
			return false
		case ah(pp) && mid(a) && ah(b):
			return false
		case a == "Hebrew_Letter" && b == "Single_Quote":
			return false
		case a == "Hebrew_Letter" && b == "Double_Quote" && nn == a:
			return false
		case pp == "Hebrew_Letter" && a == "Double_Quote" && b == pp:
			return false
		case a == "Numeric" && b == a:
			return false
		case ah(a) && b == "Numeric":
			return false
		case a == "Numeric" && ah(b):
			return false
		case pp == "Numeric" && midn(a) && b == pp:
			return false
		case a == "Numeric" && midn(b) && nn == a:
			return false
		case a == "Katakana" && b == a:
			return false
		case (ah(a) || a == "Numeric" || a == "Katakana" || a == "ExtendNumLet") && b == "ExtendNumLet":
			return false
		case a == "ExtendNumLet" && (ah(b) || b == "Numeric" || b == "Katakana"):
			return false
		case a == "Regional_Indicator" && b == a:
			n := 0
			for j := p; j >= 0 && cl(j) == a; j = prev(j) {
				n++
			}
			return n%2 != 1
		}
		return true
	}
	return cut(rs, brk)
}

func cut(rs []rune, brk func(int) bool) []string {
	var out []string
	st := 0
	for i := 1; i < len(rs); i++ {
		if brk(i) {
			out = append(out, string(rs[st:i]))
			st = i
		}
	}
	if len(rs) > st {
		out = append(out, string(rs[st:]))
	}
	return out
}
