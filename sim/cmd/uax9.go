//go:build go1.21

package main

import (
	"sort"

	xbidi "golang.org/x/text/unicode/bidi"
)

// An independent, straightforward implementation of UAX#9 without explicit embeddings and
// overrides (oracle). Bidi classes are those of golang.org/x/text.

// bidiClass is the bidi class of a character.
func bidiClass(r rune) string {
	p, _ := xbidi.LookupRune(r)
	m := map[xbidi.Class]string{xbidi.L: "L", xbidi.R: "R", xbidi.AL: "AL", xbidi.EN: "EN", xbidi.ES: "ES", xbidi.ET: "ET", xbidi.AN: "AN", xbidi.CS: "CS", xbidi.NSM: "NSM", xbidi.BN: "BN", xbidi.WS: "WS", xbidi.S: "S", xbidi.ON: "ON", xbidi.B: "B", xbidi.LRI: "LRI", xbidi.RLI: "RLI", xbidi.FSI: "FSI", xbidi.PDI: "PDI"}
	return m[p.Class()]
}

// bracketPairs are the paired brackets of BidiBrackets.txt, each opening bracket followed by
// its closing one.
var bracketPairs = []rune("()[]{}\u0f3a\u0f3b\u0f3c\u0f3d\u169b\u169c\u2045\u2046\u207d\u207e\u208d\u208e\u2308\u2309\u230a\u230b\u2329\u232a\u2768\u2769\u276a\u276b\u276c\u276d\u276e\u276f\u2770\u2771\u2772\u2773\u2774\u2775\u27c5\u27c6\u27e6\u27e7\u27e8\u27e9\u27ea\u27eb\u27ec\u27ed\u27ee\u27ef\u2983\u2984\u2985\u2986\u2987\u2988\u2989\u298a\u298b\u298c\u298d\u2990\u298f\u298e\u2991\u2992\u2993\u2994\u2995\u2996\u2997\u2998\u29d8\u29d9\u29da\u29db\u29fc\u29fd\u2e22\u2e23\u2e24\u2e25\u2e26\u2e27\u2e28\u2e29\u3008\u3009\u300a\u300b\u300c\u300d\u300e\u300f\u3010\u3011\u3014\u3015\u3016\u3017\u3018\u3019\u301a\u301b\ufe59\ufe5a\ufe5b\ufe5c\ufe5d\ufe5e\uff08\uff09\uff3b\uff3d\uff5b\uff5d\uff5f\uff60\uff62\uff63")

// bracketPair has the closing bracket of each opening one, closingBracket the closing brackets,
// both up to canonical equivalence: U+2329/232A are equivalent to U+3008/3009.
var bracketPair, closingBracket = map[rune]rune{}, map[rune]rune{}

func init() {
	for i := 0; i < len(bracketPairs); i += 2 {
		o, cl := bracketPairs[i], bracketPairs[i+1]
		bracketPair[o], closingBracket[cl] = cl, cl
	}
	bracketPair[0x2329], closingBracket[0x232a] = 0x3009, 0x3009
}

// resolveSeq resolves an isolating run sequence.
func resolveSeq(idx []int, rs []rune, cl []string, lv []int, level int, sos, eos string) {
	n := len(idx)
	t := make([]string, n)
	orig := make([]string, n)
	for i, x := range idx {
		t[i] = cl[x]
		orig[i] = cl[x]
	}
	iso := func(s string) bool { return s == "LRI" || s == "RLI" || s == "PDI" || s == "FSI" }
	for i := range t { // W1
		if t[i] == "NSM" {
			if i == 0 {
				t[i] = sos
			} else if iso(t[i-1]) {
				t[i] = "ON"
			} else {
				t[i] = t[i-1]
			}
		}
	}
	last := sos
	for i := range t { // W2
		switch t[i] {
		case "L", "R", "AL":
			last = t[i]
		case "EN":
			if last == "AL" {
				t[i] = "AN"
			}
		}
	}
	for i := range t {
		if t[i] == "AL" {
			t[i] = "R"
		}
	}
	for i := 1; i+1 < n; i++ { // W4
		if t[i] == "ES" && t[i-1] == "EN" && t[i+1] == "EN" {
			t[i] = "EN"
		}
		if t[i] == "CS" && t[i-1] == "EN" && t[i+1] == "EN" {
			t[i] = "EN"
		}
		if t[i] == "CS" && t[i-1] == "AN" && t[i+1] == "AN" {
			t[i] = "AN"
		}
	}
	for i := 0; i < n; i++ { // W5
		if t[i] == "ET" {
			j := i
			for j < n && t[j] == "ET" {
				j++
			}
			if (i > 0 && t[i-1] == "EN") || (j < n && t[j] == "EN") {
				for k := i; k < j; k++ {
					t[k] = "EN"
				}
			}
			i = j - 1
		}
	}
	for i := range t {
		if t[i] == "ES" || t[i] == "ET" || t[i] == "CS" {
			t[i] = "ON"
		}
	}
	last = sos
	for i := range t { // W7
		switch t[i] {
		case "L", "R":
			last = t[i]
		case "EN":
			if last == "L" {
				t[i] = "L"
			}
		}
	}
	e := "L"
	if level%2 == 1 {
		e = "R"
	}
	// N0
	type bp struct{ o, c int }
	var stack []struct {
		c rune
		i int
	}
	var bps []bp
	for i := range t {
		if t[i] != "ON" {
			continue
		}
		r := rs[idx[i]]
		if c, ok := bracketPair[r]; ok {
			if len(stack) == 63 {
				break
			}
			stack = append(stack, struct {
				c rune
				i int
			}{c, i})
		} else if cl, ok := closingBracket[r]; ok {
			for k := len(stack) - 1; k >= 0; k-- {
				if stack[k].c == cl {
					bps = append(bps, bp{stack[k].i, i})
					stack = stack[:k]
					break
				}
			}
		}
	}
	sort.Slice(bps, func(a, b int) bool { return bps[a].o < bps[b].o })
	strong := func(s string) string {
		switch s {
		case "L":
			return "L"
		case "R", "EN", "AN":
			return "R"
		}
		return ""
	}
	for _, b := range bps {
		fe, fo := false, false
		for k := b.o + 1; k < b.c; k++ {
			s := strong(t[k])
			if s == e {
				fe = true
			} else if s != "" {
				fo = true
			}
		}
		d := ""
		if fe {
			d = e
		} else if fo {
			ctx := sos
			for k := b.o - 1; k >= 0; k-- {
				if s := strong(t[k]); s != "" {
					ctx = s
					break
				}
			}
			if ctx != e {
				d = ctx
			} else {
				d = e
			}
		}
		if d != "" {
			t[b.o], t[b.c] = d, d
			for _, p := range []int{b.o, b.c} {
				for k := p + 1; k < n && orig[k] == "NSM"; k++ {
					t[k] = d
				}
			}
		}
	}
	ni := func(s string) bool { return s == "ON" || s == "WS" || s == "S" || s == "B" || s == "BN" || iso(s) }
	for i := 0; i < n; i++ {
		if ni(t[i]) {
			j := i
			for j < n && ni(t[j]) {
				j++
			}
			l, r := sos, eos
			if i > 0 {
				l = strong(t[i-1])
			}
			if j < n {
				r = strong(t[j])
			}
			d := e
			if l == r {
				d = l
			}
			for k := i; k < j; k++ {
				t[k] = d
			}
			i = j - 1
		}
	}
	for i, x := range idx {
		switch {
		case level%2 == 0 && t[i] == "R":
			lv[x] = level + 1
		case level%2 == 0 && (t[i] == "AN" || t[i] == "EN"):
			lv[x] = level + 2
		case level%2 == 1 && t[i] != "R":
			lv[x] = level + 1
		default:
			lv[x] = level
		}
	}
}

// firstStrong is rule X5c: what an FSI stands for, given the classes of what follows.
func firstStrong(cl []string) string {
	depth := 0
	for _, x := range cl {
		switch x {
		case "LRI", "RLI", "FSI":
			depth++
		case "PDI":
			if depth == 0 {
				return "LRI"
			}
			depth--
		case "L":
			if depth == 0 {
				return "LRI"
			}
		case "R", "AL":
			if depth == 0 {
				return "RLI"
			}
		}
	}
	return "LRI"
}

// refLevels: embedding levels of UAX#9 per character.
func refLevels(rs []rune, test bool, base int) []int {
	n := len(rs)
	cl := make([]string, n)
	for i, r := range rs {
		cl[i] = bidiClass(r)
		if test {
			if r >= 'A' && r <= 'Z' {
				cl[i] = "R"
			}
			switch r {
			case '>':
				cl[i] = "LRI"
			case '<':
				cl[i] = "RLI"
			case '=':
				cl[i] = "PDI"
			}
		}
	}
	for i := range cl {
		if cl[i] == "FSI" {
			cl[i] = firstStrong(cl[i+1:])
		}
	}
	el := make([]int, n)
	match := map[int]int{}
	lev := []int{base}
	var st []int
	for i := range rs {
		switch cl[i] {
		case "LRI", "RLI":
			el[i] = lev[len(lev)-1]
			nl := el[i] + 1
			if (cl[i] == "LRI") == (nl%2 == 1) {
				nl++
			}
			lev = append(lev, nl)
			st = append(st, i)
		case "PDI":
			if len(st) > 0 {
				match[st[len(st)-1]] = i
				st = st[:len(st)-1]
				lev = lev[:len(lev)-1]
			}
			el[i] = lev[len(lev)-1]
		default:
			el[i] = lev[len(lev)-1]
		}
	}
	lv := make([]int, n)
	// level runs
	var runs [][]int
	for i := 0; i < n; {
		j := i
		for j < n && el[j] == el[i] {
			j++
		}
		var x []int
		for k := i; k < j; k++ {
			x = append(x, k)
		}
		runs = append(runs, x)
		i = j
	}
	runAt := map[int]int{}
	for i, r := range runs {
		runAt[r[0]] = i
	}
	isMatchPDI := map[int]bool{}
	for _, p := range match {
		isMatchPDI[p] = true
	}
	for _, r := range runs {
		if cl[r[0]] == "PDI" && isMatchPDI[r[0]] {
			continue
		}
		seq := append([]int{}, r...)
		for {
			l := seq[len(seq)-1]
			if (cl[l] == "LRI" || cl[l] == "RLI") && match[l] > 0 {
				seq = append(seq, runs[runAt[match[l]]]...)
			} else {
				break
			}
		}
		level := el[seq[0]]
		d := func(a, b int) string {
			if a < b {
				a = b
			}
			if a%2 == 1 {
				return "R"
			}
			return "L"
		}
		pl := base
		if seq[0] > 0 {
			pl = el[seq[0]-1]
		}
		nl := base
		last := seq[len(seq)-1]
		if !(cl[last] == "LRI" || cl[last] == "RLI") && last+1 < n {
			nl = el[last+1]
		}
		resolveSeq(seq, rs, cl, lv, level, d(level, pl), d(level, nl))
	}
	return lv
}

// refVisual is rule L2.
func refVisual(lv []int) []int {
	n := len(lv)
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	mx := 0
	for _, l := range lv {
		if l > mx {
			mx = l
		}
	}
	for l := mx; l > 0; l-- {
		for i := 0; i < n; {
			if lv[o[i]] >= l {
				j := i
				for j < n && lv[o[j]] >= l {
					j++
				}
				for a, b := i, j-1; a < b; a, b = a+1, b-1 {
					o[a], o[b] = o[b], o[a]
				}
				i = j
			} else {
				i++
			}
		}
	}
	return o
}
