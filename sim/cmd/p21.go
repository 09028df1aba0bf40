//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/npillmayer/uax/bidi/trie"
)

func init() {
	register(&property{id: "P21", variants: []variant{
		{"frozen tries", 10, p21Frozen, true},
	}, rule: "A run draws 1-3 tries (size, number of categories, words in a drawn order, some of them entered again, often until the table is full), enters the words, looks them up while the trie grows, freezes the trie and looks up drawn words, prefixes of words and other words in 1-4 goroutines, with several iterators at a time; what is found must be what has been entered, and its positions must agree.",
		real: []string{"bidi/trie"}, stubs: []string{"scheduler", "set of words (oracle)"},
		probes: []string{"table full", "several tries", "several readers", "word entered again", "category 0", "more than 20 words", "trie looked up before it is frozen", "iterator used after its end", "smallest table for the alphabet", "long word"}})
}

// trieRun is the history of a trie.
type trieRun struct {
	size, cats int
	words      [][]byte
	looks      []int      // after how many words an iterator looks up a word
	queries    [][][]byte // per reader
	overlap    bool       // readers advance their iterators in turn
	msg        string
}

func (t *trieRun) bad(f string, args ...interface{}) {
	if t.msg == "" {
		t.msg = fmt.Sprintf(f, args...)
	}
}

func genTrieWord(c *Ctx, cats int, known [][]byte) []byte {
	if len(known) > 0 && c.G.OneIn(2) { // shares a prefix with another word
		w := known[c.G.Intn(len(known))]
		n := 1 + c.G.Intn(len(w))
		p := append([]byte{}, w[:n]...)
		for k := c.G.Intn(3); k > 0; k-- {
			p = append(p, byte(c.G.Intn(cats)))
		}
		return p
	}
	n := 1 + pick(c.G, 2, 5, 5, 2, 1)
	if c.G.OneIn(20) {
		n = 10 + size(c.G, 300)
		c.probe(9)
	}
	var p []byte
	for len(p) < n {
		p = append(p, byte(c.G.Intn(cats)))
	}
	return p
}

func genTrieRun(c *Ctx) *trieRun {
	t := &trieRun{}
	t.size = []int{103, 139, 61, 251, 199, 127}[c.G.Intn(6)]
	t.cats = 3 + c.G.Intn(min(48, (t.size-12)/2-4))
	if c.G.OneIn(3) { // any other size, also just what is needed
		t.size = 7 + c.G.Intn(249)
		most := min(50, (t.size-3)/2)
		t.cats = 2 + c.G.Intn(most-1)
		if c.G.OneIn(4) {
			t.cats = most
			c.probe(8)
		}
	}
	used := t.cats
	if c.G.OneIn(2) {
		used = min(t.cats, 2+c.G.Intn(min(8, t.cats-1))) // few different letters
	}
	n := 1 + size(c.G, 25)
	if c.G.OneIn(4) {
		n = 20 + c.G.Intn(60)
	}
	for len(t.words) < n {
		if len(t.words) > 0 && c.G.OneIn(8) {
			t.words = append(t.words, t.words[c.G.Intn(len(t.words))])
			c.probe(3)
		} else {
			t.words = append(t.words, genTrieWord(c, used, t.words))
		}
		t.looks = append(t.looks, pick(c.G, 3, 1))
	}
	if n > 20 {
		c.probe(5)
	}
	readers, _ := crowd(c, 1+pick(c.G, 3, 2, 1, 1), 1)
	if readers > 1 {
		c.probe(2)
	}
	t.overlap = c.G.OneIn(2)
	for r := 0; r < readers; r++ {
		var qs [][]byte
		for k := 1 + size(c.G, 25); k > 0; k-- {
			w := t.words[c.G.Intn(len(t.words))]
			switch c.G.Intn(5) {
			case 0, 1:
				qs = append(qs, w)
			case 2:
				qs = append(qs, w[:1+c.G.Intn(len(w))])
			case 3:
				o := append([]byte{}, w...)
				o[c.G.Intn(len(o))] = byte(c.G.Intn(t.cats))
				qs = append(qs, o)
			default:
				qs = append(qs, genTrieWord(c, t.cats, t.words))
			}
		}
		t.queries = append(t.queries, qs)
	}
	return t
}

// lookUp runs iterators for some words, step by step in turn.
func lookUp(tr *trie.TinyHashTrie, words [][]byte) [][]int {
	its := make([]*trie.Iterator, len(words))
	res := make([][]int, len(words))
	for i := range its {
		its[i] = tr.Iterator()
	}
	for k, more := 0, true; more; k++ {
		more = false
		for i, w := range words {
			if k < len(w) {
				more = true
				res[i] = append(res[i], its[i].Next(int8(w[k])))
			}
		}
	}
	return res
}

func (t *trieRun) run(c *Ctx) {
	tr, err := trie.NewTinyHashTrie(uint8(t.size), int8(t.cats))
	if err != nil {
		t.bad("NewTinyHashTrie(%d, %d): %v", t.size, t.cats, err)
		return
	}
	in := map[string]bool{}    // words and their prefixes
	maybe := map[string]bool{} // the same of words which did not fit in
	var buf []byte             // for words
	for i, w := range t.words {
		p, full := 0, interface{}(nil)
		func() {
			defer func() { full = recover() }()
			buf = append(buf[:0], w...)
			p = tr.AllocPositionForWord(buf)
		}()
		if full != nil {
			if !strings.Contains(fmt.Sprint(full), "abort find") {
				t.bad("word %v: panic: %v", w, full)
				return
			}
			for k := 1; k <= len(w); k++ {
				maybe[string(w[:k])] = true
			}
			c.fault(fTrieFull)
			c.probe(0)
		} else if p <= 0 || p >= t.size {
			t.bad("position of word %v is %d (size of trie is %d)", w, p, t.size)
			return
		} else {
			for k := 1; k <= len(w); k++ {
				in[string(w[:k])] = true
			}
		}
		if t.looks[i] == 1 && full == nil {
			c.probe(6)
			ps := lookUp(tr, [][]byte{w})[0]
			if len(w) > 1 && ps[len(w)-1] != p {
				t.bad("word %v has been given position %d, iterator gets to %v", w, p, ps)
				return
			}
		}
	}
	tr.Freeze()
	if t.msg == "" {
		runAll(len(t.queries), func(i int) { t.read(c, tr, t.queries[i], in, maybe) })
	}
	// different words have different positions, and all are still there
	at := map[int]string{}
	for _, w := range t.words {
		if !in[string(w)] {
			continue
		}
		p := tr.AllocPositionForWord(w)
		if o, ok := at[p]; p == 0 || ok && o != string(w) {
			t.bad("word %v is at position %d, as is %v", w, p, []byte(o))
		}
		at[p] = string(w)
	}
	c.eval(len(t.words))
}

func (t *trieRun) read(c *Ctx, tr *trie.TinyHashTrie, qs [][]byte, in, maybe map[string]bool) {
	step := 1
	if t.overlap {
		step = len(qs)
	}
	var buf []byte // the reader's buffer for words
	for i := 0; i < len(qs); i += step {
		res := lookUp(tr, qs[i:i+step])
		for j, w := range qs[i : i+step] {
			buf = append(buf[:0], w...)
			p := tr.AllocPositionForWord(buf)
			ended := false
			for k, q := range res[j] {
				pre := string(w[:k+1])
				if ended {
					c.probe(7)
				}
				switch {
				case q < 0 || q >= t.size:
					t.bad("prefix %v is at position %d (size of trie is %d)", w[:k+1], q, t.size)
				case q != 0 && ended:
					t.bad("iterator over %v: positions %v", w, res[j])
				case q == 0 && in[pre]:
					t.bad("%v has been entered, but prefix %v is not found", w, w[:k+1])
				case q != 0 && k > 0 && !in[pre] && !maybe[pre]:
					t.bad("prefix %v of %v is found at %d, but has not been entered", w[:k+1], w, q)
				}
				ended = ended || q == 0
			}
			if q := res[j][len(w)-1]; p != q && len(w) > 1 {
				t.bad("position of %v in a frozen trie is %d, iterator gets to %d", w, p, q)
			}
			c.eval(len(w))
		}
	}
}

func p21Frozen(c *Ctx) {
	n := 1 + pick(c.G, 4, 2, 1)
	if n > 1 {
		c.probe(1)
	}
	ts := make([]*trieRun, n)
	for i := range ts {
		ts[i] = genTrieRun(c)
		for _, w := range ts[i].words {
			for _, x := range w {
				if x == 0 {
					c.probe(4)
				}
			}
		}
		c.sayf("[trie of %d for %d categories: %v; %d readers] ", ts[i].size, ts[i].cats, ts[i].words, len(ts[i].queries))
	}
	runAll(n, func(i int) { ts[i].run(c) })
	for i, t := range ts {
		c.out(t.msg)
		if t.msg != "" {
			c.fail("trie", "trie %d (size %d, %d categories), words %v, queries %v: %s", i, t.size, t.cats, t.words, t.queries, t.msg)
		}
	}
}
