//go:build go1.21

package main

import (
	"fmt"

	"github.com/npillmayer/uax/verifsim/simrt"
)

// Kinds of faults. Each is counted when it fires, not when it is configured.
const (
	fShortRead = iota
	fZeroRead
	fDelay
	fStall
	fReadErr
	fReadErrWithData
	fErrAtEOFKind // io.ErrUnexpectedEOF, wrapped io.EOF and the like
	fNoProgress
	fTransient // reader recovers after a failure
	fTruncate
	fPanicReader
	fIllegalByte
	fBitFlip
	fByteLoss
	fByteDup
	fAbandon
	fReinit
	fTooLong
	fBoundHit
	fBoundDecrease
	fNotInitialized
	fColdStart
	fResetup
	fCutInRune
	fCutInIsolate
	fUnsubscribeMany
	fCorruptLine
	fNoLocale
	fBadLocale
	fTempErr
	fTrieFull
	fTracing
	fIllegalRune
	nFaults
)

var faultNames = [nFaults]string{
	"short read", "read of zero bytes", "delayed read", "stalled reader", "read error",
	"read error together with data", "io.ErrUnexpectedEOF or wrapped io.EOF", "reader without progress",
	"reader recovers after error", "input truncated", "reader panics", "illegal UTF-8 byte",
	"flipped bit", "lost bytes", "duplicated bytes", "text abandoned", "re-initialization in mid-text",
	"segment over buffer limit", "bound reached", "bound decreased", "use before initialization",
	"cold start", "repeated setup", "cut within a character", "cut within an isolate",
	"several subscribers done at once", "truncated line", "no locale in the environment", "nonsense in the environment",
	"read error of a special kind (temporary, timeout, interrupted)", "table is full", "tracing of all details",
	"illegal rune",
}

// Probes flag conditions which have been reached.
const nProbes = 48

// Ctx is what a scenario is given for one simulated run.
type Ctx struct {
	G, F   *simrt.Stream // workload, faults
	sched  *simrt.Stream
	faults [nFaults]int64
	probes [nProbes]int64
	evals  int64
	digest uint64
	sample string
	want   bool // a sample is wanted
	seed   uint64
	race   bool
}

// fault counts a fault which has fired.
//
//go:norace
func (c *Ctx) fault(k int) { c.faults[k]++ }

//go:norace
func (c *Ctx) probe(k int) { c.probes[k]++ }

// eval counts evaluations of the oracle.
//
//go:norace
func (c *Ctx) eval(n int) { c.evals += int64(n) }

// out mixes an observed outcome into the digest of the run.
func (c *Ctx) out(s string) {
	h := c.digest
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.digest = simrt.Mix(h + 1)
}

func (c *Ctx) fail(class, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 { // large texts
		msg = msg[:4000] + " ...... " + msg[len(msg)-1000:]
	}
	simrt.FailNow(class, "%s", msg)
}

func (c *Ctx) note(format string, args ...interface{}) {
	if simrt.Tracing() {
		simrt.Note(fmt.Sprintf(format, args...))
	}
}

// sayf sets the sample text of this run, if one is wanted.
func (c *Ctx) sayf(format string, args ...interface{}) {
	if c.want && len(c.sample) < 600 {
		c.sample += fmt.Sprintf(format, args...)
	}
}

// pick draws an index according to weights; index 0 should be the simplest.
func pick(s *simrt.Stream, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	k := s.Intn(sum)
	for i, w := range weights {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// size draws a length with mostly small values.
func size(s *simrt.Stream, max int) int {
	switch pick(s, 5, 4, 2) {
	case 0:
		return s.Intn(minInt(max, 6) + 1)
	case 1:
		return s.Intn(minInt(max, 16) + 1)
	}
	return s.Intn(max + 1)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// variant is a family of runs of a property.
type variant struct {
	name   string
	weight int
	run    func(*Ctx)
	raceOK bool // worthwhile under the race detector
}

// property is a property of the system together with its scenarios.
type property struct {
	id       string
	variants []variant
	maxSteps int64
	rule     string
	real     []string
	stubs    []string
	assume   []string
	probes   []string
	known    []known
}

// known is a concrete input for a known finding.
type known struct {
	id  string
	run func(*Ctx) // fails if the finding is still there
}

var registry = map[string]*property{}

func register(p *property) { registry[p.id] = p }

func (p *property) hasRace() bool {
	for _, v := range p.variants {
		if v.raceOK {
			return true
		}
	}
	return false
}

// pickVariant chooses the variant of run idx.
func (p *property) pickVariant(seed uint64, race bool) *variant {
	sum := 0
	for _, v := range p.variants {
		if !race || v.raceOK {
			sum += v.weight
		}
	}
	k := int(simrt.Mix(seed^0x5eed) % uint64(sum))
	for i := range p.variants {
		v := &p.variants[i]
		if race && !v.raceOK {
			continue
		}
		if k < v.weight {
			return v
		}
		k -= v.weight
	}
	return &p.variants[0]
}

func (p *property) variant(name string) *variant {
	for i := range p.variants {
		if p.variants[i].name == name {
			return &p.variants[i]
		}
	}
	return nil
}
