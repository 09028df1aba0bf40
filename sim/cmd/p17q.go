//go:build go1.21

package main

import (
	"fmt"

	"github.com/npillmayer/uax"
)

// member is a subscriber whose end is decided by the client.
type member struct {
	id     int
	done   bool
	in     bool // is in the queue
	events int
	left   int
}

func (m *member) RuneEvent(rune, int) []int { m.events++; return nil }
func (m *member) MatchLength() int          { return m.id % 5 }
func (m *member) Done() bool                { return m.done }
func (m *member) Unsubscribed()             { m.left++ }

// queueRun is a history of the operations of a subscriber queue.
type queueRun struct {
	ops  []int
	flag []bool
	log  string
	msg  string
}

func (q *queueRun) bad(f string, args ...interface{}) {
	if q.msg == "" {
		q.msg = fmt.Sprintf(f, args...)
	}
}

// p17Queue: clients operate the queue of subscribers themselves.
func p17Queue(c *Ctx) {
	n := 1 + pick(c.G, 4, 1, 1)
	if n > 1 {
		c.probe(4)
	}
	qs := make([]*queueRun, n)
	for i := range qs {
		qs[i] = &queueRun{}
		for k := 1 + size(c.G, 40); k > 0; k-- {
			qs[i].ops = append(qs[i].ops, pick(c.G, 6, 2, 2, 3, 2, 1))
			qs[i].flag = append(qs[i].flag, c.G.OneIn(3))
		}
	}
	runAll(n, func(i int) { qs[i].run() })
	for i, q := range qs {
		c.eval(len(q.ops))
		c.out(q.log)
		c.sayf("[queue %d:%s] ", i, q.log)
		if q.msg != "" {
			c.fail("queue", "queue %d,%s: %s", i, q.log, q.msg)
		}
	}
}

func yes(b bool, s, t string) string {
	if b {
		return s
	}
	return t
}

func (q *queueRun) run() {
	pub := uax.NewRunePublisher()
	var all []*member
	size, done := 0, 0
	left := func(s uax.RuneSubscriber, what string) {
		m, ok := s.(*member)
		if !ok || m == nil || !m.in {
			q.bad("%s returns a subscriber which is not in the queue", what)
			return
		}
		m.in = false
		size--
		if m.done {
			done--
		}
	}
	for k, op := range q.ops {
		if q.msg != "" {
			return
		}
		switch op {
		case 0: // new subscriber
			m := &member{id: len(all), done: q.flag[k], in: true}
			all = append(all, m)
			q.log += " Push(" + itoa(m.id) + yes(m.done, " done)", ")")
			pub.Push(m)
			size++
			if m.done {
				done++
			}
		case 1:
			q.log += " PopDone"
			s := pub.PopDone()
			if (s == nil) != (done == 0) {
				q.bad("PopDone returns %v for %d done ones of %d", s, done, size)
			} else if s != nil {
				if !s.Done() {
					q.bad("PopDone returns one which is not done")
				}
				left(s, "PopDone")
			}
		case 2:
			q.log += " Pop"
			s := pub.Pop()
			if (s == nil) != (size == 0) {
				q.bad("Pop returns %v, size is %d", s, size)
			} else if s != nil {
				if !s.Done() && done > 0 {
					q.bad("Pop returns one which is not done, but %d are", done)
				}
				left(s, "Pop")
			}
		case 3: // the top one changes its mind
			m, ok := pub.Top().(*member)
			if !ok {
				continue
			}
			m.done = !m.done
			q.log += " top(" + itoa(m.id) + yes(m.done, " done)", " not done)")
			if m.done {
				done++
			} else {
				done--
			}
			pub.Fix(pub.Len() - 1)
		case 4: // nothing has changed
			q.log += " Fix"
			for i := pub.Len(); i >= 0; i-- {
				pub.Fix(i)
			}
		case 5: // an event, after all done ones have been removed
			q.log += " event"
			for s := pub.PopDone(); s != nil; s = pub.PopDone() {
				left(s, "PopDone")
			}
			before := make([]int, len(all))
			long := 0
			for i, m := range all {
				before[i] = m.events
				if m.in && m.MatchLength() > long {
					long = m.MatchLength()
				}
			}
			l, pen := pub.PublishRuneEvent('x', 1)
			if l != long || len(pen) > 0 {
				q.bad("event returns %d, %v; want %d and no penalties", l, pen, long)
			}
			for i, m := range all {
				if d := m.events - before[i]; d > 1 || (d == 1) != m.in {
					q.bad("subscriber %d gets %d events, is in the queue: %v", m.id, d, m.in)
				}
			}
		}
		if pub.Len() != size {
			q.bad("Len is %d, want %d", pub.Len(), size)
		}
		top, _ := pub.Top().(*member)
		if size == 0 {
			if pub.Top() != nil {
				q.bad("Top of an empty queue is %v", pub.Top())
			}
		} else if top == nil || !top.in || top.done != (done > 0) {
			q.bad("Top is %+v, %d are done of %d", top, done, size)
		}
	}
	for _, m := range all {
		if m.left > 0 {
			q.bad("subscriber %d is unsubscribed by an event, but was not done", m.id)
		}
	}
	for i := size; i > 0 && q.msg == ""; i-- {
		if s := pub.Pop(); s == nil {
			q.bad("%d subscribers lost", i)
		} else {
			left(s, "Pop")
		}
	}
	if pub.Len() != 0 || pub.Pop() != nil || pub.Top() != nil {
		q.bad("queue is not empty at the end")
	}
}
