//go:build go1.21

package main

import (
	"strings"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verifsim/simrt"
)

func init() {
	register(&property{id: "P20", variants: []variant{
		{"shared by goroutines", 10, p20Shared, true},
		{"asked repeatedly", 5, p20Repeated, false},
	}, rule: "A run draws a paragraph, resolves it once, and draws 2-4 goroutines (or one) each asking a drawn sequence of questions (DirectionAt, Reorder with iteration in both directions, Split with and without shift, questions to the parts); each answer must be the one freshly resolved levels give to this question alone.",
		real: bidiReal, stubs: bidiStubs, assume: bidiAssume,
		probes: []string{"split", "split with shift", "question to a part", "iteration in both directions", "three or more goroutines", "nested isolates", "other paragraphs resolved in between"}})
}

// question is something to be asked of resolved levels.
type question struct {
	kind int
	at   int
	sub  *question
}

func genQuestion(c *Ctx, n, depth int, text bool) *question {
	q := &question{kind: c.G.Intn(5), at: c.G.Intn(n + 1)}
	if text && c.G.OneIn(8) {
		q.kind = 6
		return q
	}
	if depth == 0 && c.G.OneIn(5) {
		q.kind = 5
		return q
	}
	if q.kind >= 3 && n > 0 && depth < 2 && c.G.OneIn(2) {
		c.probe(2)
		q.sub = genQuestion(c, n, depth+1, text)
	}
	switch q.kind {
	case 2:
		c.probe(3)
	case 3:
		c.probe(0)
	case 4:
		c.probe(1)
	}
	return q
}

func (q *question) String() string {
	s := []string{"directions", "order", "segments", "split", "split and shift", "segments of the common ordering", "text form"}[q.kind]
	if q.kind == 3 || q.kind == 4 {
		s += " at " + itoa(q.at)
	}
	if q.sub != nil {
		s += ", then " + q.sub.String()
	}
	return s
}

// ask puts the question, without fmt.
func (q *question) ask(rl *bidi.ResolvedLevels, shared *bidi.Ordering, n int) string {
	var b strings.Builder
	switch q.kind {
	case 0:
		for i := 0; i <= n; i++ {
			b.WriteString(dirName(rl.DirectionAt(uint64(i))))
		}
	case 1:
		b.WriteString(runsString(readOrdering(rl.Reorder())))
	case 2, 5:
		o := shared
		if q.kind == 2 {
			o = rl.Reorder()
		}
		for i := range o.Runs {
			for _, rev := range []bool{true, false, true} {
				for it := o.Runs[i].SegmentIterator(rev); it.Next(); {
					d, l, r := it.Segment()
					b.WriteString(dirName(d) + itoa(int(l)) + "-" + itoa(int(r)) + " ")
				}
				b.WriteString("/ ")
			}
		}
		b.WriteString(runsString(readOrdering(o)))
	case 3, 4:
		x, y := rl.Split(uint64(q.at), q.kind == 4)
		b.WriteString(signature(x, n) + "| " + signature(y, n))
		if q.sub != nil {
			b.WriteString("| " + q.sub.ask(y, nil, n) + "| " + q.sub.ask(x, nil, n))
		}
	case 6: // uses fmt, therefore not in concurrent questions
		b.WriteString(rl.String())
		for _, r := range rl.Reorder().Runs {
			b.WriteString(r.String())
		}
	}
	return b.String()
}

func p20Shared(c *Ctx) {
	n, more := crowd(c, 2+c.G.Intn(3), 4)
	if n > 2 {
		c.probe(4)
	}
	p20Check(c, n, more)
}

func p20Repeated(c *Ctx) { p20Check(c, 1, 4) }

func p20Check(c *Ctx, n, more int) {
	p := genPara(c, 24, true)
	if c.G.OneIn(5) {
		genMarks(c, p)
	}
	p.steps = genSteps(c, len(p.text))
	for i := range p.text {
		if nestingAt(p, i) > 1 {
			c.probe(5)
			break
		}
	}
	m := len(p.text)
	qs := make([][]*question, n)
	res := make([][]string, n)
	for i := range qs {
		for k := many(c, 1+c.G.Intn(more), 60/n); k > 0; k-- {
			qs[i] = append(qs[i], genQuestion(c, m, 0, n == 1))
		}
		res[i] = make([]string, len(qs[i]))
	}
	rl := p.resolve(c)
	common := false // is there a question to an ordering common to all the goroutines?
	for i := range qs {
		for _, q := range qs[i] {
			common = common || q.kind == 5
		}
	}
	var shared *bidi.Ordering
	if common && c.G.OneIn(2) {
		shared = p.plain().Reorder()
	} else if common {
		shared = rl.Reorder()
	}
	// other paragraphs are resolved in between, which must not matter
	var others []*para
	for k := c.G.Intn(3); k > 0; k-- {
		c.probe(6)
		others = append(others, genPara(c, 24, true))
	}
	between := func() {
		for _, o := range others {
			o.resolve(c)
		}
	}
	if n == 1 {
		for k, q := range qs[0] {
			between()
			res[0][k] = q.ask(rl, shared, m)
		}
	} else {
		var gs []*simrt.G
		for i := range qs {
			i := i
			gs = append(gs, simrt.Spawn("client", func() {
				for k, q := range qs[i] {
					if k == i%2 {
						between()
					}
					res[i][k] = q.ask(rl, shared, m)
				}
			}))
		}
		simrt.Join(gs...)
	}
	c.sayf("%v", p)
	for i := range qs {
		for k, q := range qs[i] {
			fresh := p.plain()
			want := q.ask(fresh, fresh.Reorder(), m)
			c.eval(1)
			c.out(res[i][k])
			c.sayf(" [%d: %v]", i, q)
			if res[i][k] != want {
				c.fail("answer", "paragraph %v, goroutine %d, question %d (%v): answer is %s, should be %s", p, i, k, q, res[i][k], want)
			}
		}
	}
}
