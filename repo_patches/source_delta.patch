From 63bfed8a4ff98dc0f8741f9611130adced3bfc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 01/53] =?UTF-8?q?fix:=20bidi=20rules=20N1-3=E2=80=A6N1-10?=
 =?UTF-8?q?=20and=20W7=20must=20neither=20drop=20nor=20duplicate=20scraps?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

N1-3/N1-4 dropped the interval of the number, N1-5/N1-8 discarded the result
of collapse, and the mid-swap rules and W7 returned the complete rest of the
stack as the right hand side for a shorter left hand side, duplicating the
lookahead (and sometimes never terminating).
---
 bidi/actions.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..192060c 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, true // step over EN
 		},
 	}, lhs
 }
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2] // AN remains unchanged
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2] // EN remains unchanged
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -322,7 +320,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From de9195f02de8f12a41e89f344cce4eedb2c020b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 02/53] fix: bidi appendRuns dropped the first run of an
 isolate if it extends the previous run

---
 bidi/reordering.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..8431cb5 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -400,9 +400,9 @@ func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
 	if len(childRuns) == 0 {
 		return last, runs
 	}
-	if childRuns[0].Dir == last.Dir {
-		//last.Length = childRuns[0].Length
+	if last.Length > 0 && childRuns[0].Dir == last.Dir {
 		last.concat(childRuns[0])
+		runs[len(runs)-1] = last
 		runs = append(runs, childRuns[1:]...)
 	} else {
 		runs = append(runs, childRuns...)
-- 
2.43.0


From ba629de9e77f06174eb5518d685db8d27f247b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 03/53] fix: bidi parser ignored lookahead already read when
 entering an isolating run at end of input

---
 bidi/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..22c232d 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -172,8 +172,8 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 func (p *parser) pass1(startIRS int) bool {
 	p.sp = startIRS              // start at beginning of isolating run sequence
 	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
-		return false // no input to read
+	if _, ok := p.read(3); !ok && len(p.stack) <= startIRS { // initially load 3 scraps
+		return false // no input to read and no LA left from an outer run
 	}
 	var rule, shortrule *bidiRule
 	walk := false // if true, accept walking over 1 scrap
-- 
2.43.0


From e99b86a9eb0cd0e64c9e866ff18a17ca67e0c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/53] fix: bidi: an unmatched PDI must not terminate the
 paragraph

The parser stopped at an unmatched PDI: the rest of the paragraph was cut off
and the scanner goroutine blocked on its pipe forever.
---
 bidi/resolver.go | 6 ++++++
 bidi/scanner.go  | 8 +++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 22c232d..f8d7555 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -196,6 +196,12 @@ func (p *parser) pass1(startIRS int) bool {
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
 				if p.stack[p.sp].bidiclz == bidi.PDI {
+					if len(p.spIRS) == 1 { // PDI without a matching isolate initiator ⇒ neutral
+						p.stack[p.sp].bidiclz = cNI
+						p.sp = max(startIRS, p.sp-1) // may be adjacent to another NI
+						walk = false
+						continue
+					}
 					p.sp++ // walk over PDI
 					pdi = true
 					break
diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..af7587d 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -327,16 +327,14 @@ func isisolate(s scrap) bool {
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) <= 1 { // outermost level is never popped
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
 		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		if len(sc.IRSStack) > 0 {
-			tos := sc.IRSStack[len(sc.IRSStack)-1]
-			sc.bd16 = sc.IRS[tos]
-		}
+		tos := sc.IRSStack[len(sc.IRSStack)-1]
+		sc.bd16 = sc.IRS[tos]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
-- 
2.43.0


From b66200c3c30629eea9a9c85b72624f270a5ef378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 05/53] fix: bidi: bracket pair lookup must not depend on how
 far the scanner has run ahead

findBD16ForPos never considered the last isolating run known to the scanner
goroutine, thus results were dependent on the schedule. Scanner and parser
accessed the handlers' map and list without synchronization (data race, and
'concurrent map read and map write'), and an isolate at position 0 (out-of-line
markup) replaced the handler of the paragraph.
---
 bidi/scanner.go | 54 +++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index af7587d..cb92ce9 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 
@@ -25,15 +26,16 @@ import (
 // bidiScanner will read runs of text as a unit, as long as all runes therein have the
 // same Bidi class.
 type bidiScanner struct {
-	mode          uint8                           // scanner modes, set by scanner options
-	runeScanner   *bufio.Scanner                  // we're using an embedded rune reader
-	bd16          *bracketPairHandler             // support type for handling bracket pairings
-	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
-	lastMarkupPos int64                           // last position of out-of-line markup
-	lastMarkup    int                             // last / remaining markup
-	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
-	ctxstack      []dirContext                    // context stack for IRSs
+	mode          uint8                 // scanner modes, set by scanner options
+	runeScanner   *bufio.Scanner        // we're using an embedded rune reader
+	bd16          *bracketPairHandler   // support type for handling bracket pairings
+	markup        OutOfLineBidiMarkup   // markup for isolating run sequence delimiting
+	lastMarkupPos int64                 // last position of out-of-line markup
+	lastMarkup    int                   // last / remaining markup
+	IRS           *bracketPairHandler   // list of isolating run sequences' pair handlers, outermost first
+	IRSStack      []*bracketPairHandler // handlers of the currently open IRSs
+	mx            sync.Mutex            // guards list of IRS handlers, as parser will access it, too
+	ctxstack      []dirContext          // context stack for IRSs
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -49,10 +51,9 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.bd16 = makeBracketPairHandler(0, nil)
-	sc.IRS = make(map[charpos]*bracketPairHandler)
-	sc.IRS[0] = sc.bd16
-	sc.IRSStack = make([]charpos, 0, 16)
-	sc.IRSStack = append(sc.IRSStack, 0)
+	sc.IRS = sc.bd16
+	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	for _, opt := range opts {
 		if opt != nil {
 			opt(sc)
@@ -325,6 +326,8 @@ func isisolate(s scrap) bool {
 }
 
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
 		if len(sc.IRSStack) <= 1 { // outermost level is never popped
@@ -333,33 +336,33 @@ func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 		}
 		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		tos := sc.IRSStack[len(sc.IRSStack)-1]
-		sc.bd16 = sc.IRS[tos]
+		sc.bd16 = sc.IRSStack[len(sc.IRSStack)-1]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
 	tracer().Debugf("bidi scanner handleIsolatingRunSwitch(%v | %v)", s, s.context)
 	// establish new BD16 handler
-	irs := sc.IRS[0]
+	irs := sc.IRS
 	for irs.next != nil { // find most rightward isolating run sequence
 		irs = irs.next
 	}
 	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
-	irs := sc.IRS[0]
-	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
+	bd16 := sc.IRS
+	// find most rightward isolating run sequence; the scanner may already have run
+	// ahead of pos or may not, the result must not depend on it
+	for irs := sc.IRS; irs != nil; irs = irs.next {
 		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
+			if irs.lastpos == 0 || irs.lastpos > pos {
 				bd16 = irs
 			}
 		}
-		irs = irs.next
 	}
 	if bd16 == nil {
 		panic(fmt.Sprintf("bidi scanner: could not find IRS for position %d", pos))
@@ -482,12 +485,11 @@ func DefaultDirection(dir Direction) Option {
 // represented with the symbols '>', '<', and '=', respectively.” Thus it is
 // possible to replay the examples of section 3.4 of UAX#9:
 //
-//     <car MEANS CAR.=
+//	<car MEANS CAR.=
 //
 // or
 //
-//     DID YOU SAY ’>he said “<car MEANS CAR=”=‘?
-//
+//	DID YOU SAY ’>he said “<car MEANS CAR=”=‘?
 func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionTesting) && b ||
-- 
2.43.0


From 8d985d05a9e3fb2c29226f18b74e728bb0bc3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 06/53] fix: bidi: a non-spacing mark at the start of a
 paragraph was taken for end of input

---
 bidi/scanner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index cb92ce9..6bf5ddb 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -246,6 +246,8 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 			return bidi.R
 		case bidi.PDI:
 			return cNI
+		case cNULL: // start of paragraph: NSM takes the type of sos
+			return current.e()
 		}
 		return currclz
 	case bidi.EN: // rule W2
-- 
2.43.0


From dc85c30763bd563fc81e81b5a5792b94ff3015f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 07/53] fix: bidi scanner never queried out-of-line markup for
 text position 0

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 6bf5ddb..ea2ddb7 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -50,6 +50,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1 // there may be markup at position 0
 	sc.bd16 = makeBracketPairHandler(0, nil)
 	sc.IRS = sc.bd16
 	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
-- 
2.43.0


From b1f75c08b305dd585e94eac9918e43f1b7db8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 08/53] fix: segmenter: Next() before Init() must return false
 with ErrNotInitialized instead of panicking

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..475eda0 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -352,6 +352,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From 5233ff55df2083e1148959a8a52da3cc0252207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 09/53] fix: segmenter: errors of a previous input or a
 previous bound must not stick

---
 segment/segment.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 475eda0..835e993 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -157,6 +157,7 @@ func (s *Segmenter) init() {
 		s.pos = 0
 	}
 	s.positionOfBreakOpportunity = -1
+	s.err = nil
 }
 
 // Buffer sets the initial buffer to use when scanning and the maximum size of
@@ -300,9 +301,10 @@ func (s *Segmenter) BoundedNext(bound int) bool {
 	return s.next(bound - 1) // semantics in `next` is including, API is excluding bound
 }
 
-// setErr() records the first error encountered.
+// setErr() records the first error encountered. Having reached a bound is not final:
+// it may be followed by others.
 func (s *Segmenter) setErr(err error) {
-	if s.err == nil || s.err == io.EOF {
+	if s.err == nil || s.err == io.EOF || s.err == ErrBoundReached {
 		s.err = err
 	}
 }
@@ -356,6 +358,9 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	if s.err == ErrBoundReached { // bound of a previous call is not relevant for this one
+		s.err = nil
+	}
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
-- 
2.43.0


From 20c28d0b28b10e79062eedfb7c09f3389e49a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 10/53] fix: segmenter: re-initializing in the middle of a text
 must not leak breaker state into the next text

---
 segment/segment.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 835e993..9d6e97e 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -88,6 +88,7 @@ type Segmenter struct {
 	positionOfBreakOpportunity int                  // bookkeeping for matching
 	atEOF                      bool                 // at end of input buffer
 	inUse                      bool                 // Next() has been called; buffer is in use.
+	midText                    bool                 // breakers have not yet seen the end of the current text
 	err                        error                // collects the first error occured
 }
 
@@ -145,6 +146,14 @@ func (s *Segmenter) InitFromSlice(buf []rune) {
 }
 
 func (s *Segmenter) init() {
+	if s.midText { // current text is abandoned: let breakers drop all active matches
+		for _, breaker := range s.breakers {
+			cpClass := breaker.CodePointClassFor(eotAtom.r)
+			breaker.StartRulesFor(eotAtom.r, cpClass)
+			breaker.ProceedWithRune(eotAtom.r, cpClass)
+		}
+		s.midText = false
+	}
 	if s.deque == nil {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
@@ -459,6 +468,7 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 			// aggregates at the atoms in the Q.
 			qlen = s.deque.Len()
 			s.longestActiveMatch = 0
+			s.midText = !s.atEOF
 			r := s.deque.LastRune()
 			for _, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(r)
-- 
2.43.0


From dcf69430e5ac062ba6c3de7a926cf87d3948ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 11/53] fix: segmenter: BoundedNext must neither lose text
 after a bound nor mix bytes with runes nor deliver the EOF sentinel

---
 segment/segment.go | 55 +++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 9d6e97e..468f286 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -370,21 +370,32 @@ func (s *Segmenter) next(bound int) bool {
 	if s.err == ErrBoundReached { // bound of a previous call is not relevant for this one
 		s.err = nil
 	}
+	if s.Err() != nil { // segmenting has already been stopped by an error
+		s.runesBuf = s.runesBuf.SetMark()
+		return false
+	}
+	start := s.pos - s.deque.Len() // text position of the front of the Q
+	if start > bound {
+		tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+		s.setErr(ErrBoundReached)
+		s.runesBuf = s.runesBuf.SetMark()
+		return false
+	}
+	// There may be break opportunities between the previous break and the start of the
+	// current longest match. These depend on the bound, thus re-calculate for every call.
+	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
+		bound-start)
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
 			s.setErr(err)
-			s.runesBuf = s.runesBuf.Reset(nil)
-			return false
-		}
-		if s.pos-s.deque.Len() > bound {
-			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+			s.runesBuf = s.runesBuf.SetMark()
 			return false
 		}
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
-		s.runesBuf = s.runesBuf.Reset(nil)
+		s.runesBuf = s.runesBuf.SetMark()
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
@@ -400,7 +411,8 @@ func (s *Segmenter) next(bound int) bool {
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
+// s.pos counts the runes (including the artificial EOF atom) which have been appended
+// to the Q. Bounds, matches and the Q itself are all measured in runes.
 //
 // readRune _must_ grow the Q or return an error or EOF.
 //
@@ -408,15 +420,16 @@ func (s *Segmenter) readRune() error {
 	if s.atEOF {
 		return io.EOF
 	}
-	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
+	r, _, err := s.reader.ReadRune()
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
 		s.deque.PushBack(r, 0, 0)
+		s.pos++
 		return nil
 	}
 	if err == io.EOF {
 		s.deque.PushBack(eotAtom.r, eotAtom.penalty0, eotAtom.penalty1)
+		s.pos++
 		s.atEOF = true
 		err = nil
 	} else { // error case, err is non-nil
@@ -439,7 +452,7 @@ func (s *Segmenter) readRune() error {
 func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 	// if Q consists just of 0 rune (EOT), do nothing and return false
 	//tracer().Debugf("segmenter: read enough input, EOF=%v, |Q|=%d", s.atEOF, s.deque.Len())
-	for s.positionOfBreakOpportunity < 0 {
+	for s.positionOfBreakOpportunity < 0 && !s.atEOF {
 		if s.pos-s.longestActiveMatch > bound {
 			tracer().Infof("segmenter: bound reached")
 			return ErrBoundReached
@@ -485,13 +498,8 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
 		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
+			bound-(s.pos-qlen))
 		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
 		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
 		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
@@ -517,6 +525,9 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 //
 // Returns the Q-position to break or -1.
 func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
+	if s.atEOF { // the artificial EOF atom is not part of the text
+		to = min(to, s.deque.Len()-1)
+	}
 	if to-1 < 0 || boundDist < 0 {
 		return -1
 	}
@@ -589,9 +600,6 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // Things get more complicated by having a possible `bound` position, after
 // which no runes are allowed to be cut off.
 //
-// After the cut-off getFrontSegments recursivley searches for another break
-// opportunity which may have been marked by breakers with acceptable penalties.
-//
 func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
@@ -617,14 +625,7 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
-	// There may be further break opportunities between this break and the start of the
-	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
-	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
+	s.positionOfBreakOpportunity = -1
 	//s.printQ()
 	return seglen, isCutOff
 }
-- 
2.43.0


From 38d86587f5ec5c553e5e9982e6a27c2a18c93ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 12/53] fix: segmenter: segments longer than 4096 runes were
 silently truncated; honour MaxSegmentSize and report ErrTooLong

---
 segment/segment.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 468f286..2547e55 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -165,6 +165,9 @@ func (s *Segmenter) init() {
 		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 		s.pos = 0
 	}
+	if s.runesBuf.maxSegLen == 0 {
+		s.runesBuf.maxSegLen = s.maxSegmentLen
+	}
 	s.positionOfBreakOpportunity = -1
 	s.err = nil
 }
@@ -201,9 +204,11 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 	if s.inUse {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
-	if len(buf) > 0 {
-		s.runesBuf.output = buf
-		s.runesBuf.maxSegLen = max
+	if cap(buf) > 0 {
+		s.runesBuf.output = buf[:0]
+		if s.runesBuf.maxSegLen = max; cap(buf) > max {
+			s.runesBuf.maxSegLen = cap(buf)
+		}
 	}
 }
 
@@ -398,8 +403,11 @@ func (s *Segmenter) next(bound int) bool {
 		s.runesBuf = s.runesBuf.SetMark()
 		return false
 	}
-	//l, _ := s.getFrontSegment(bound)
-	s.getFrontSegment(bound)
+	if err := s.getFrontSegment(bound); err != nil {
+		s.setErr(err)
+		s.runesBuf = s.runesBuf.SetMark()
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -600,34 +608,34 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // Things get more complicated by having a possible `bound` position, after
 // which no runes are allowed to be cut off.
 //
-func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
-	seglen := 0
+// An error is returned if the segment does not fit into the buffer.
+//
+func (s *Segmenter) getFrontSegment(bound int) (err error) {
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 	s.runesBuf = s.runesBuf.SetMark()
 	l := min(s.deque.Len()-1, s.positionOfBreakOpportunity)
 	if l < 0 {
 		panic("l < 0")
-		//return 0, true
 	}
-	var isCutOff bool
 	start := s.pos - s.deque.Len()
 	if start+l >= bound { // front segment would extend bound
 		tracer().Debugf("segmenter: bound reached")
-		isCutOff = true // we truncate l to Q-start---->|bound
+		// we truncate l to Q-start---->|bound
 		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
-			return 0, true
+			return nil
 		}
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
-		seglen += written
+		if _, werr := (&s.runesBuf).WriteRune(r); werr != nil {
+			err = werr
+		}
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
 	s.positionOfBreakOpportunity = -1
 	//s.printQ()
-	return seglen, isCutOff
+	return err
 }
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From 273a9617b631766de80e9180d45aa514ca0f1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 13/53] fix: grapheme: GB9b must suppress the break after a
 Prepend, not after its successor

---
 grapheme/grapheme.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..bf20586 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,17 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9b_Cont
+}
+
+// Prepend x, except before control characters and at the end of text
+func rule_GB9b_Cont(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := GraphemeClass(cpClass)
+	if c == CRClass || c == LFClass || c == ControlClass || c == eot {
+		return uax.DoAbort(rec)
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 7c3a31b96153dafadf11aa37fd34ca4d00132d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 14/53] fix: uax29: WB7b/c penalties were misplaced if
 ignorable characters follow the double quote

---
 uax29/uax29.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..254fd80 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From 8469ea8179966283fdd8f37fccc7fda2e0f4e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 15/53] fix: uax29: WB3c must hold for pictographic characters
 which are of word class ALetter, too

---
 uax29/uax29.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 254fd80..ab5ff50 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -262,7 +262,8 @@ func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func rule_Pictography(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX29Class(cpClass)
-	if c == emojiPictographic {
+	// some pictographic characters are of another word class, too
+	if c == emojiPictographic || unicode.Is(emoji.Extended_Pictographic, r) {
 		//tracer().Debugf("ACCEPT of Rule for Emoji")
 		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak)
 	}
-- 
2.43.0


From d58b03e8278d9444ee406011c15de9820b37a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 16/53] fix: uax29: unsynchronized read of class tables in
 NewWordBreaker

---
 uax29/uax29.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index ab5ff50..ff4877d 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -135,9 +135,6 @@ func NewWordBreaker(weight int) *WordBreaker {
 		KatakanaClass:           {rule_WB13, rule_WB13a},
 		Regional_IndicatorClass: {rule_WB15},
 	}
-	if rangeFromUAX29Class == nil {
-		tracer().Infof("UAX#29 classes not yet initialized -> initializing")
-	}
 	SetupUAX29Classes()
 	return gb
 }
-- 
2.43.0


From d9cd31507ac6b3491725ff1daa6b3d14e86850fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 17/53] fix: PositionOfFirstLegalRune looped forever on a
 leading continuation byte and never skipped illegal prefixes

---
 uax.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/uax.go b/uax.go
index f7656cd..6458190 100644
--- a/uax.go
+++ b/uax.go
@@ -7,13 +7,11 @@ import "unicode/utf8"
 func PositionOfFirstLegalRune(s string) (int, []byte) {
 	i, l, start := 0, len(s), -1
 	for i < l {
-		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
-				start = i
-			}
+		if r, sz := utf8.DecodeRuneInString(s[i:]); r != utf8.RuneError || sz > 1 {
+			start = i
 			break
 		}
+		i++
 	}
 	//CT().Debugf("start index = %d", start)
 	return start, []byte(s[:i])
-- 
2.43.0


From ddcbf2be33d794fc04d310596ee3c0cebc1f7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 18/53] fix: grapheme strings must neither panic on
 empty/illegal input, nor misplace graphemes after an illegal prefix, nor stop
 at U+FFFD

---
 grapheme/string.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..f7af881 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,13 +75,12 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, br := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint8, 1, len(s)/4+1)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint8(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -124,13 +123,12 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, br := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint16, 1, len(s)/4)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint16(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -166,14 +164,16 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
+// prepareBreaking returns a segmenter for the legal part of s, together with its start position.
+func prepareBreaking(s string) (*segment.Segmenter, int) {
 	breaker := makeGraphemeBreaker()
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
 		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		return nil, 0
 	}
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, start
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +190,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // illegal byte or end of input
 		err = io.EOF
 		return
 	}
-- 
2.43.0


From 9eb79e47aeeae70a2c92f131df95a7761b003fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 19/53] fix: bidi scanner: an illegal input byte must count as
 one byte of text, not three

---
 bidi/scanner.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ea2ddb7..1009f1b 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -28,6 +28,7 @@ import (
 type bidiScanner struct {
 	mode          uint8                 // scanner modes, set by scanner options
 	runeScanner   *bufio.Scanner        // we're using an embedded rune reader
+	runeLen       int                   // number of input bytes of the most recent rune
 	bd16          *bracketPairHandler   // support type for handling bracket pairings
 	markup        OutOfLineBidiMarkup   // markup for isolating run sequence delimiting
 	lastMarkupPos int64                 // last position of out-of-line markup
@@ -47,7 +48,7 @@ type bidiScanner struct {
 func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bidiScanner {
 	sc := &bidiScanner{}
 	sc.runeScanner = bufio.NewScanner(input)
-	sc.runeScanner.Split(bufio.ScanRunes)
+	sc.runeScanner.Split(sc.splitRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.lastMarkupPos = -1 // there may be markup at position 0
@@ -63,6 +64,15 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	return sc
 }
 
+// splitRunes is a split function like bufio.ScanRunes. It remembers the number of input
+// bytes for a rune, which for illegal input differs from the byte length of the
+// replacement character.
+func (sc *bidiScanner) splitRunes(data []byte, atEOF bool) (int, []byte, error) {
+	advance, token, err := bufio.ScanRunes(data, atEOF)
+	sc.runeLen = advance
+	return advance, token, err
+}
+
 func markupToBidi(m int) bidi.Class {
 	switch m {
 	case MarkupLRI, MarkupPDILRI:
@@ -120,7 +130,7 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 		}
 	}
 	tracer().Debugf("bidi scanner rune %#U (%s)", r, classString(bidiclz))
-	return r, length, bidiclz, true
+	return r, sc.runeLen, bidiclz, true
 }
 
 // makeScrap wraps the input rune into a scrap.
-- 
2.43.0


From 9935f46821f3d686cb6b6bcb7179fca5ac98b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 20/53] fix: ucdparse: a read error must be returned by Parse
 instead of causing a panic or an endless loop

---
 internal/ucdparse/linebuf.go | 2 ++
 internal/ucdparse/scan.go    | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index d4dc643..cbb0725 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -117,6 +117,8 @@ func (buf *lineBuffer) AdvanceLine() error {
 		//fmt.Printf("===> reading line #%d\n", buf.CurrentLine)
 		if !buf.Input.Scan() { // could not read a new line: either I/O-error or EOF
 			if err := buf.Input.Err(); err != nil {
+				buf.isEof = 2 // there is nothing more to read
+				buf.Line = strings.NewReader("")
 				return fmt.Errorf("I/O error (%w) while reading input", err)
 			}
 			//fmt.Println("===> EOF !")
diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 7a616ab..6e9b642 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -50,6 +50,9 @@ func Parse(r io.Reader, f func(token *Token)) error {
 	for sc.Next() {
 		f(sc.Token)
 	}
+	if err := sc.Buf.Input.Err(); err != nil {
+		return fmt.Errorf("I/O error (%w) while reading input", err)
+	}
 	return sc.LastError
 }
 
-- 
2.43.0


From e19912bcb7639a30d19b51e0d7260672c7506b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 21/53] fix: bidi: resolving an empty paragraph leaked the
 scanner goroutine

---
 bidi/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 1009f1b..c02193d 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -165,8 +165,10 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			if isisolate(current) { // if last character is PDI
 				sc.handleIsolatingRunSwitch(current)
 			}
-			sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
-			sc.stop(pipe)          // then send quit signal to parser
+			if current.bidiclz != cNULL { // no scrap if the paragraph is empty
+				sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
+			}
+			sc.stop(pipe) // then send quit signal to parser
 			break
 		}
 
-- 
2.43.0


From d3fe379a1bf491d29c3371aee82270ad7751b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 22/53] fix: bidi: splitting resolved levels duplicated or lost
 nested isolates, ignored them in shifting, forgot the embedding direction and
 panicked on empty levels

---
 bidi/reordering.go | 86 +++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 8431cb5..cb8e34e 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -52,77 +52,71 @@ func (rl *ResolvedLevels) String() string {
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
 	prefix, suffix := split(rl.scraps, charpos(at))
 	if shift0 {
-		//suffix = shiftzero(suffix, charpos(at))
-		shiftzero(&suffix, charpos(at))
+		suffix = shiftzero(suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{scraps: prefix, embedding: rl.embedding},
+		&ResolvedLevels{scraps: suffix, embedding: rl.embedding}
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 	// resulting level runs end up unbalanced, i.e. the nested IRS are
 	// split, too. In fact, we need to introduce a LRI/RLI at the beginning of
-	// the right rest and can spare PDIs in left parts.
+	// the right rest and a PDI at the end of nested left parts.
 	tracer().Debugf("split @%d, irs = %v", at, scraps)
-	if !irsContains(scraps, at) {
+	if len(scraps) == 0 || scraps[len(scraps)-1].r <= at {
 		return scraps, []scrap{}
+	} else if at < scraps[0].l {
+		return []scrap{}, scraps
 	}
 	for i, s := range scraps {
 		if !s.contains(at) {
 			continue
 		}
-		var restch [][]scrap
-		if len(s.children) > 0 { // TODO omit this
-			tracer().Debugf("split in %v with |ch|=%d", s, len(s.children))
-			for j, ch := range s.children {
-				if irsContains(ch, at) {
-					prefix, suffix := split(ch, at)
-					restch = [][]scrap{suffix}
-					if j < len(s.children)-1 {
-						restch = append(restch, s.children[j+1:]...)
-					}
-					s.children = s.children[:j]
-					s.children = append(s.children, prefix)
-					break
-				}
+		rest := scrap{l: at, r: s.r, bidiclz: s.bidiclz, context: s.context}
+		children := s.children
+		s.r, s.children = at, nil
+		for _, ch := range children { // distribute nested IRS to the left and right part
+			if len(ch) == 0 || ch[len(ch)-1].r <= at {
+				s.appendChild(ch)
+			} else if ch[0].l >= at {
+				rest.appendChild(ch)
+			} else {
+				left, right := split(ch, at)
+				left = append(left, scrap{l: at, r: at, bidiclz: bidi.PDI})
+				s.appendChild(left)
+				rest.appendChild(right)
 			}
 		}
-		// children are split at this point
-		// restch is set to right part of children split
-		rest := scrap{r: s.r, bidiclz: s.bidiclz}
-		s.r, rest.l = at, at
-		rest.children = restch
-		rseg := make([]scrap, len(scraps)-i+1)
-		if isisolate(scraps[0]) {
-			rseg[0] = scraps[0] // copy IRS start
-			copy(rseg[1:], scraps[i:])
-			scraps[i], rseg[1] = s, rest
-		} else {
-			copy(rseg, scraps[i:])
-			rseg = rseg[:len(rseg)-1]
-			scraps[i], rseg[0] = s, rest
+		// prefix and suffix do not share scraps with the input
+		prefix := make([]scrap, 0, i+2)
+		prefix = append(append(prefix, scraps[:i]...), s)
+		suffix := make([]scrap, 0, len(scraps)-i+1)
+		if isisolate(scraps[0]) { // the right part re-starts the IRS, without any text
+			suffix = append(suffix, scrap{l: at, r: at, bidiclz: scraps[0].bidiclz, context: scraps[0].context})
 		}
-		prefix := scraps[:i+1]
+		suffix = append(append(suffix, rest), scraps[i+1:]...)
 		tracer().Debugf("prefix=%v", prefix)
-		tracer().Debugf("suffix=%v", rseg)
-		return scraps[:i+1], rseg
+		tracer().Debugf("suffix=%v", suffix)
+		return prefix, suffix
 	}
 	panic("split iterated over all scraps, did not find cut line")
 }
 
-func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
-}
-
-func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
-	for i, s := range *scraps {
+// shiftzero returns a copy of scraps, including nested IRS, with all positions lowered by offset.
+func shiftzero(scraps []scrap, offset charpos) []scrap {
+	shifted := make([]scrap, len(scraps))
+	for i, s := range scraps {
+		children := s.children
 		s.l = validcharpos(s.l, offset)
 		s.r = validcharpos(s.r, offset)
-		(*scraps)[i] = s
-		//T().Errorf("scrap = %v", s)
+		s.children = nil
+		for _, ch := range children {
+			s.appendChild(shiftzero(ch, offset))
+		}
+		shifted[i] = s
 	}
-	//T().Errorf("shifted = %v", scraps)
-	//return scraps
+	return shifted
 }
 
 // The Reordering Phase of the UAX#9 algorithm is basically building a tree
-- 
2.43.0


From f7e0fdef98045a450cc0923fac0b8d800dbdf044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 23/53] fix: bidi: Reorder and SegmentIterator must not change
 the levels or the run they are called for

---
 bidi/reordering.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index cb8e34e..f09020f 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -437,12 +437,27 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	scraps := copyScraps(rl.scraps) // reorder is destructive, levels may be used again
+	rscr := reorder(scraps, 0, len(scraps), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
 }
 
+// copyScraps makes a deep copy of scraps, including nested IRS.
+func copyScraps(scraps []scrap) []scrap {
+	c := make([]scrap, len(scraps))
+	for i, s := range scraps {
+		children := s.children
+		s.children = nil
+		for _, ch := range children {
+			s.appendChild(copyScraps(ch))
+		}
+		c[i] = s
+	}
+	return c
+}
+
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
 	for _, s := range rl.scraps {
@@ -496,6 +511,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = append([]scrap{}, r.scraps...) // do not change the run
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From 329d9f52f329e76adee82273896356335c4ad932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 24/53] fix: bidi: DirectionAt ignored nested isolates and the
 embedding direction

---
 bidi/reordering.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f09020f..5a8d572 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -460,14 +460,30 @@ func copyScraps(scraps []scrap) []scrap {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	for _, s := range rl.scraps {
-		if uint64(s.l) <= pos && pos < uint64(s.r) {
-			return directionFromBidiClass(s, LeftToRight)
-		}
+	if dir, ok := directionAt(rl.scraps, pos, rl.embedding); ok {
+		return dir
 	}
 	return LeftToRight
 }
 
+func directionAt(scraps []scrap, pos uint64, embedding Direction) (Direction, bool) {
+	if len(scraps) > 0 && isisolate(scraps[0]) {
+		embedding = directionFromBidiClass(scraps[0], embedding)
+	}
+	for _, s := range scraps {
+		if pos < uint64(s.l) || uint64(s.r) <= pos {
+			continue
+		}
+		for _, ch := range s.children { // position may be within a nested IRS
+			if dir, ok := directionAt(ch, pos, embedding); ok {
+				return dir, true
+			}
+		}
+		return directionFromBidiClass(s, embedding), true
+	}
+	return embedding, false
+}
+
 // SegmentIterator iterates over the text segments contained in a run.
 // Runs are the product of a re-ordering of text, which may lead to segments of text
 // to be shuffled around. A segment starts and ends at text positions of the unshuffled
-- 
2.43.0


From 90f86889f09da4c8ee98c09bae78a6c3c5f6263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 25/53] fix: bidi: rules N1-5, N1-6, N1-8 and N1-9 were never
 applied, as their position in the trie changed after it had been recorded

---
 bidi/resolver.go | 59 ++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index f8d7555..0a1e88d 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -500,6 +500,7 @@ var prepareTrieOnce sync.Once    // all parsers will share a single rules dictio
 
 func prepareRulesTrie() *trie.TinyHashTrie {
 	prepareTrieOnce.Do(func() {
+		rulesForLHS := make(map[string]*bidiRule)
 		trie, err := trie.NewTinyHashTrie(dictsize, int8(cMAX))
 		if err != nil {
 			tracer().Errorf(err.Error())
@@ -511,54 +512,59 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 		var lhs []byte
 		// --- allocate all the rules ---
 		r, lhs = ruleW4_1()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW4_2()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW4_3()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW5_1()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW5_2()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW6_1()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW6_2()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW6_3()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW6x()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW7()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		// r, lhs = ruleN1_0()
 		// allocRule(trie, r, lhs)
 		r, lhs = ruleN1_1()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_2()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_3()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_4()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_5()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_6()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_7()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_8()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_9()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN1_10()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleN2()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleL()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleR()
-		allocRule(trie, r, lhs)
+		allocRule(trie, r, lhs, rulesForLHS)
 		// ------------------------------
+		// allocating a word may move previous words to other positions, therefore
+		// positions are not known until all words have been allocated
+		for lhs, r := range rulesForLHS {
+			rules[trie.AllocPositionForWord([]byte(lhs))] = r
+		}
 		trie.Freeze()
 		tracer().SetTraceLevel(tracelevel)
 		tracer().Debugf("--- freeze trie -------------")
@@ -568,11 +574,10 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 	return rulesTrie
 }
 
-func allocRule(trie *trie.TinyHashTrie, rule *bidiRule, lhs []byte) {
+func allocRule(trie *trie.TinyHashTrie, rule *bidiRule, lhs []byte, rulesForLHS map[string]*bidiRule) {
 	tracer().Debugf("storing rule %s for LHS=%v", rule.name, lhs)
-	pointer := trie.AllocPositionForWord(lhs)
-	//T().Debugf("  -> %d", pointer)
-	rules[pointer] = rule
+	trie.AllocPositionForWord(lhs)
+	rulesForLHS[string(lhs)] = rule
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 8448b49899cf93ffe3cc3a57ce5ec9f4cbdf239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 26/53] fix: bidi: the start of a right-to-left paragraph
 counted as strong type L for European numbers

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index c02193d..cdfdfb8 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -232,6 +232,7 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 	if sc.hasMode(optionOuterR2L) {
 		tracer().Infof("resolving paragraph with R2L embedding context")
 		current.context.SetEmbedding(bidi.RightToLeft)
+		current.context.strong = bidi.R // sos
 		if setIRS {
 			current.bidiclz = bidi.RLI
 		}
-- 
2.43.0


From c20c49017155893654d92f04f91235255530cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 27/53] fix: bidi: a separator or terminator following a
 neutral was not united with it

---
 bidi/actions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 192060c..bcfaba0 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -106,17 +106,17 @@ func ruleW5_2() (*bidiRule, []byte) {
 
 func ruleW6_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ET)
-	return makeSquashRule("W6-1", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-1", lhs, cNI, -1), lhs
 }
 
 func ruleW6_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ES)
-	return makeSquashRule("W6-2", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-2", lhs, cNI, -1), lhs
 }
 
 func ruleW6_3() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.CS)
-	return makeSquashRule("W6-3", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-3", lhs, cNI, -1), lhs
 }
 
 func ruleW6x() (*bidiRule, []byte) {
-- 
2.43.0


From 1dac46d5d0bdb11bb2a16d2d09be538a4ff0eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 28/53] fix: bidi: rule W2 was not applied to numbers directly
 after an Arabic letter, but to numbers after a later strong type

---
 bidi/scanner.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index cdfdfb8..21725c1 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -158,7 +158,8 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	lastAL := int64(-1) // position of last AL character-run in input
+	afterAL := false                // is the most recent strong type of the current IRS an AL?
+	outerAL := make([]bool, 0, 16) // the same for enclosing IRSs
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
 		if !ok {                                         // if EOF, drain lookahead and quit
@@ -180,8 +181,21 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
-		isAL := bidiclz == bidi.AL                     // AL will be changed by rule W3
-		bidiclz = applyRulesW1to3(r, bidiclz, current) // UAX#9 W1–3 handled by scanner
+		switch bidiclz { // remember AL for rule W2, it will be changed by rule W3
+		case bidi.AL:
+			afterAL = true
+		case bidi.L, bidi.R:
+			afterAL = false
+		case bidi.LRI, bidi.RLI, bidi.FSI:
+			outerAL = append(outerAL, afterAL)
+			afterAL = false
+		case bidi.PDI:
+			if len(outerAL) > 0 {
+				afterAL = outerAL[len(outerAL)-1]
+				outerAL = outerAL[:len(outerAL)-1]
+			}
+		}
+		bidiclz = applyRulesW1to3(r, bidiclz, current, afterAL) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
@@ -201,11 +215,8 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				current.context = sc.ctxstack[len(sc.ctxstack)-1]
 				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
 			}
-			lookahead = inheritStrongTypes(lookahead, current, lastAL)
+			lookahead = inheritStrongTypes(lookahead, current)
 			current = sc.prepareRuleBD16(r, lookahead)
-			if isAL {
-				lastAL = int64(current.l)
-			}
 		} else { // otherwise the current scrap grows
 			current = collapse(current, lookahead, current.bidiclz) // meld LA with current
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
@@ -247,9 +258,10 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 }
 
 // applyRulesW1to3 returns the Bidi_Class for a rune. It will apply certain UAX#9
-// rules immediately to relief the parser.
+// rules immediately to relief the parser. afterAL is true if the most recent strong
+// type before r has been an AL.
 //
-func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
+func applyRulesW1to3(r rune, clz bidi.Class, current scrap, afterAL bool) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
@@ -265,8 +277,7 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 		}
 		return currclz
 	case bidi.EN: // rule W2
-		if current.context.IsAL() {
-			tracer().Errorf("========= context: %v", current.context)
+		if afterAL {
 			return bidi.AN
 		}
 	case bidi.AL: // rule W3
@@ -301,9 +312,7 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 	return s
 }
 
-// lastAL is the position of the last AL character that has occured (before
-// UAX#9 rule W3 changed it)
-func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
+func inheritStrongTypes(dest, src scrap) scrap {
 	tracer().Debugf("bidi scanner: inherit %s => %s     %v", src, dest, src.context)
 	dest.context = src.context
 	switch dest.bidiclz {
@@ -313,9 +322,6 @@ func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
 		dest.context.embeddingDir = bidi.R
 		//panic("R2")
 	default:
-		if lastAL >= 0 {
-			dest.context.SetStrongType(bidi.AL, charpos(lastAL))
-		}
 		switch src.bidiclz {
 		case bidi.L, bidi.LRI:
 			dest.context.SetStrongType(bidi.L, src.l)
-- 
2.43.0


From e3edb9e20f3456acd4cf32eced236ff9e2aadaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 29/53] fix: bidi: rule W4 treated a sequence of separators
 between numbers like a single separator

---
 bidi/scanner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 21725c1..5666384 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -201,7 +201,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) || isseparator(current) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -347,6 +347,12 @@ func isisolate(s scrap) bool {
 	return false
 }
 
+// isseparator is true for European and common separators. These are never melded, as rule W4
+// is about single separators.
+func isseparator(s scrap) bool {
+	return s.bidiclz == bidi.ES || s.bidiclz == bidi.CS
+}
+
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	sc.mx.Lock()
 	defer sc.mx.Unlock()
-- 
2.43.0


From 2d616cdafdae199a7e82064c768d6f8c504badc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 30/53] fix: bidi: a separator after a terminator was taken for
 a part of the number

---
 bidi/actions.go  | 28 ++++++++++++++++++++++++++++
 bidi/resolver.go |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/bidi/actions.go b/bidi/actions.go
index bcfaba0..5d7dc42 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -98,6 +98,34 @@ func ruleW5_2() (*bidiRule, []byte) {
 	return makeSquashRule("W5-2", lhs, bidi.EN, -2), lhs
 }
 
+// Separators following a terminator are not next to a number for rule W4, even if rule W5
+// is going to change the terminator (they are changed by rule W6):
+// EN ET CS → EN EN ON
+
+func ruleW5_3() (*bidiRule, []byte) {
+	lhs := makeLHS(bidi.EN, bidi.ET, bidi.CS)
+	return makeW5separatorRule("W5-3", lhs), lhs
+}
+
+func ruleW5_4() (*bidiRule, []byte) {
+	lhs := makeLHS(bidi.EN, bidi.ET, bidi.ES)
+	return makeW5separatorRule("W5-4", lhs), lhs
+}
+
+func makeW5separatorRule(name string, lhs []byte) *bidiRule {
+	return &bidiRule{
+		name:   name,
+		lhsLen: len(lhs),
+		pass:   1,
+		action: func(match []scrap) ([]scrap, int, bool) {
+			match[0] = collapse(match[0], match[1], bidi.EN)
+			match[1] = match[2]
+			match[1].bidiclz = cNI
+			return match[:2], 0, false
+		},
+	}
+}
+
 // W6. Otherwise, separators and terminators change to Other Neutral.
 // AN ET    → AN ON
 // L  ES EN → L  ON EN
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 0a1e88d..66ca1a5 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -521,6 +521,10 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW5_2()
 		allocRule(trie, r, lhs, rulesForLHS)
+		r, lhs = ruleW5_3()
+		allocRule(trie, r, lhs, rulesForLHS)
+		r, lhs = ruleW5_4()
+		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW6_1()
 		allocRule(trie, r, lhs, rulesForLHS)
 		r, lhs = ruleW6_2()
-- 
2.43.0


From 41e52fbc29daef28a90526dbe85c4fd2cee328b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 31/53] fix: bidi: adjacent European and Arabic numbers swapped
 places within right-to-left text

---
 bidi/reordering.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 5a8d572..0366fca 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -231,11 +231,11 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 			if level(s, embedded) == 0 {
 				state = 0
 				tracer().Debugf("reverse(%d, %d)", startRunR, pos)
-				reverse(scraps, startRunR, pos)
+				reverseRun(scraps, startRunR, pos, embedded)
 				startRunR = 0
 			} else if pos == j {
 				tracer().Debugf("EOF reverse(%d, %d)", startRunR, pos+1)
-				reverse(scraps, startRunR, pos+1)
+				reverseRun(scraps, startRunR, pos+1, embedded)
 			}
 		}
 		if pos == j || s.bidiclz == cNULL {
@@ -256,6 +256,21 @@ func level(s scrap, embedded Direction) int {
 	return 0
 }
 
+// reverseRun reverses the ordering of the run [i,j). In left-to-right embeddings numbers
+// have a higher level than the Rs around them, thus sequences of numbers keep their order.
+func reverseRun(scraps []scrap, i, j int, embedded Direction) {
+	if embedded == LeftToRight {
+		start := i
+		for k := i; k <= j; k++ {
+			if k == j || level(scraps[k], embedded) < 2 {
+				reverse(scraps, start, k)
+				start = k + 1
+			}
+		}
+	}
+	reverse(scraps, i, j)
+}
+
 // reverse ordering of [i,j)
 func reverse(scraps []scrap, i, j int) []scrap {
 	if i > j {
-- 
2.43.0


From a165d3e90c9f9e5afe1ca7db0c3f777b89473fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 32/53] fix: bidi: a neutral isolate took direction
 left-to-right instead of the embedding direction

---
 bidi/resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 66ca1a5..625f66d 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -337,6 +337,8 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 			r:        p.stack[startIRS+runlen-1].r,
 			children: [][]scrap{copyStackSegm(p.stack, startIRS, runlen)},
 		}
+		outer := p.stack[p.spIRS[len(p.spIRS)-2]] // the IRS is a neutral within the outer IRS
+		ni.context.embeddingDir = outer.e()
 		tracer().Debugf("bidi parser created NI-child %v", ni.children[0])
 		result = []scrap{ni}
 	} else {
-- 
2.43.0


From a77f4a95b12cf154a1febdb85692c17e98f61378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 33/53] fix: bidi: an isolate was not united with a preceding
 neutral

---
 bidi/resolver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 625f66d..90d1429 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -251,8 +251,7 @@ func (p *parser) applySubIRS(startIRS int) int {
 	// received a cNI with IRS as single child
 	p.sp = startSubIRS // jump back to start of “IRS match”
 	p.reduce(runlen, rhs, startIRS)
-	//return p.sp + 1 // walk over cNI just produced
-	return p.sp
+	return max(startIRS, p.sp-1) // cNI just produced may be adjacent to another NI
 }
 
 // pass 2 operates on the scraps laying on the stack, starting at the
-- 
2.43.0


From ca31b8eede016e4c26dc2d4e46880dd2aef2fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 34/53] fix: bidi: the context of the outer sequence got lost
 if an isolate directly follows another one

---
 bidi/scanner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 5666384..9e9e1c0 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -209,12 +209,13 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.post(current, pipe) // put current on channel
 			}
 			// proceed ahead, making lookahead the current scrap
-			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
-			} else if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
+			if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
 				current.context = sc.ctxstack[len(sc.ctxstack)-1]
 				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
 			}
+			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
+				sc.ctxstack = append(sc.ctxstack, current.context)
+			}
 			lookahead = inheritStrongTypes(lookahead, current)
 			current = sc.prepareRuleBD16(r, lookahead)
 		} else { // otherwise the current scrap grows
-- 
2.43.0


From 300aa4bae9e1d0ffbb3bb4bad0fb7644471f7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 35/53] fix: bidi: the strong type in front of an isolate was
 forgotten after it

---
 bidi/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 9e9e1c0..67fd3e7 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -214,7 +214,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
 			}
 			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
+				sc.ctxstack = append(sc.ctxstack, inheritStrongTypes(scrap{}, current).context)
 			}
 			lookahead = inheritStrongTypes(lookahead, current)
 			current = sc.prepareRuleBD16(r, lookahead)
-- 
2.43.0


From fd45cd6f6a46308f0b30056b7f6469849933c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 36/53] fix: uax11: Width must not panic if emoji classes have
 not been set up before

---
 uax11/width.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..7e92acf 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -65,6 +65,7 @@ func StringWidth(s grapheme.String, context *Context) int {
 
 // width of a single grapheme in context
 func graphemeWidth(grphm []byte, context *Context) int {
+	emoji.SetupEmojisClasses()
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
 	if emoji.EmojisClassForRune(r) >= 0 {
-- 
2.43.0


From f125c0ed325c1f0c398988961d30f99130058c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 37/53] fix: a pooled recognizer must not carry user data of
 its previous client

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..f61cce5 100644
--- a/automata.go
+++ b/automata.go
@@ -109,6 +109,7 @@ func (rec *Recognizer) releaseIntoPool() {
 	rec.penalties = nil
 	rec.Expect = 0
 	rec.MatchLen = 0
+	rec.UserData = nil
 	rec.nextStep = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
 }
-- 
2.43.0


From 5cb281b33089ec7e26e8672e0e277121f3f34904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 38/53] fix: ucdparse: a comment containing # was cut off

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 6e9b642..133c233 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -189,7 +189,7 @@ func isHexDigit(r rune) bool {
 func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 	rest := sc.Buf.ReadLineRemainder()
 	fmt.Printf("remainder = %q\n", rest)
-	a := strings.Split(rest, "#")
+	a := strings.SplitN(rest, "#", 2)
 	if len(a) > 1 {
 		token.Comment = strings.TrimSpace(a[1])
 		fmt.Printf("@ comment = %q\n", token.Comment)
-- 
2.43.0


From 60f85b222e32c9225b699ea4d5cbb12f21d3f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 39/53] fix: ucdparse: parsing several files concurrently raced
 for the line patterns

---
 internal/ucdparse/linebuf.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index cbb0725..78be81f 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -137,17 +137,13 @@ func (buf *lineBuffer) AdvanceLine() error {
 	return buf.AdvanceCursor()
 }
 
-var blankPattern *regexp.Regexp
-var commentPattern *regexp.Regexp
+var blankPattern = regexp.MustCompile(`^\s*$`)
+var commentPattern = regexp.MustCompile(`^\s*#`)
 
 // IsIgnoredLine is a predicate for the current line of input. From the spec:
 // Blank lines are lines that are empty or consist only of white space characters (spaces or tabs).
 // Comments are lines that have # as the first non-white-space character on the line.
 func (buf *lineBuffer) IsIgnoredLine() bool {
-	if blankPattern == nil {
-		blankPattern = regexp.MustCompile(`^\s*$`)
-		commentPattern = regexp.MustCompile(`^\s*#`)
-	}
 	if blankPattern.MatchString(buf.Text) || commentPattern.MatchString(buf.Text) {
 		return true
 	}
-- 
2.43.0


From f6eaf69e8b12a1be55a2bb1eab17c05310526d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 40/53] fix: segment: breakers were compared to find the
 primary one, which panics for uncomparable types

---
 segment/segment.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 2547e55..d42da0f 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -491,14 +491,14 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 			s.longestActiveMatch = 0
 			s.midText = !s.atEOF
 			r := s.deque.LastRune()
-			for _, breaker := range s.breakers {
+			for i, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(r)
 				breaker.StartRulesFor(r, cpClass)
 				breaker.ProceedWithRune(r, cpClass)
 				if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {
 					s.longestActiveMatch = lam
 				}
-				s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())
+				s.insertPenalties(s.inxForBreaker(i), breaker.Penalties())
 			}
 			//s.printQ()
 			//tracer().Debugf("-- all breakers done --")
@@ -563,10 +563,10 @@ func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
 	return breakopp
 }
 
-// find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
-// 1 otherwise.
-func (s *Segmenter) inxForBreaker(b uax.UnicodeBreaker) int {
-	if b == s.breakers[0] {
+// find out if the i-th UnicodeBreaker is the primary breaker. If yes, return index 0,
+// 1 otherwise. (Breakers need not be comparable.)
+func (s *Segmenter) inxForBreaker(i int) int {
+	if i == 0 {
 		return 0
 	}
 	return 1
-- 
2.43.0


From 1017be9620a64d8e0b108e3f0f31c7ccdcb0a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 41/53] fix: bidi: bracket pairs were resolved with types of a
 half-resolved sequence, unmatched brackets stayed brackets (N0)

---
 bidi/resolver.go | 164 ++++++++++++++++++++++++++---------------------
 1 file changed, 92 insertions(+), 72 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 90d1429..06c8cb4 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -266,16 +266,11 @@ func (p *parser) applySubIRS(startIRS int) int {
 // there should be only a single scrap on the stack with bidi class L.
 //
 func (p *parser) pass2(startIRS int) {
+	p.performRuleN0(startIRS)
 	p.sp = startIRS
 	for !p.passed(bidi.PDI) && p.sp < len(p.stack) {
 		e := min(len(p.stack), p.sp+3)
 		tracer().Debugf("trying to match %v at %d", p.stack[p.sp:e], p.sp)
-		//if p.stack[p.sp].bidiclz == cBRACKC {
-		if isbracket(p.stack[p.sp]) {
-			jmp := p.performRuleN0()
-			p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
-			continue
-		}
 		rule, shortrule := p.matchRulesLHS(p.stack[p.sp:len(p.stack)], 2)
 		if rule == nil || rule.pass < 2 {
 			if shortrule == nil || shortrule.pass < 2 {
@@ -411,84 +406,109 @@ func (p *parser) matchRulesLHS(scraps []scrap, minlen int) (*bidiRule, *bidiRule
 //     order of the text positions of the opening paired brackets using the logic
 //     given below. Within this scope, bidirectional types EN and AN are treated as R.
 //
-func (p *parser) performRuleN0() (jmp int) {
-	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
-	jmp = 1 // default is to walk over the bracket
-	if p.stack[p.sp].bidiclz == cBRACKO {
-		// Identify the bracket pairs in the current isolating run sequence according to BD16.
-		openBr := p.stack[p.sp]
-		closeBr, found := p.findCorrespondingBracket(openBr)
-		if !found {
-			tracer().Debugf("Did not find closing bracket for %s", openBr)
-			closeBr.bidiclz = cNI
-			return
-		}
-		tracer().Debugf("closing bracket for %s is %s", openBr, closeBr)
-		tracer().Debugf("closing bracket has context=%v", closeBr.context)
-		tracer().Debugf("closing bracket has match pos=%d", closeBr.context.matchPos)
-		// a. Inspect the bidirectional types of the characters enclosed within the
-		//    bracket pair.
-		if closeBr.HasEmbeddingMatchAfter(openBr) {
-			// b. If any strong type (either L or R) matching the embedding direction
-			//    is found, set the type for both brackets in the pair to match the
-			//    embedding direction.
-			openBr.bidiclz = openBr.context.embeddingDir
-			jmp = -2
-		} else if closeBr.HasOppositeAfter(openBr) {
-			// c. Otherwise, if there is a strong type it must be opposite the embedding
-			//    direction. Therefore, test for an established context with a preceding
-			//    strong type by checking backwards before the opening paired bracket
-			//    until the first strong type (L, R, or sos) is found.
-			if openBr.StrongContext() == openBr.o() {
-				// c.1. If the preceding strong type is also opposite the embedding
-				//      direction, context is established, so set the type for both
-				//      brackets in the pair to that direction.
-				openBr.bidiclz = opposite(openBr.context.embeddingDir)
+// All the brackets of an isolating run sequence have to be resolved before any of the
+// other rules of pass 2 is applied, as these depend on the resulting types. Nested
+// isolating run sequences are already reduced to neutrals.
+//
+func (p *parser) performRuleN0(startIRS int) {
+	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) to %s", p.stack[startIRS:])
+	end := startIRS + 1
+	for end < len(p.stack) && p.stack[end].bidiclz != bidi.PDI {
+		end++
+	}
+	for i := startIRS + 1; i < end; i++ {
+		switch p.stack[i].bidiclz {
+		case cBRACKO:
+			// Identify the bracket pairs in the current isolating run sequence according to BD16.
+			if closing := p.findClosingBracket(i, end); closing > 0 {
+				clz := p.bracketPairClass(startIRS, i, closing)
+				p.stack[i].bidiclz, p.stack[closing].bidiclz = clz, clz
 			} else {
-				// c.2. Otherwise set the type for both brackets in the pair to the
-				//      embedding direction.
-				openBr.bidiclz = openBr.context.embeddingDir
+				tracer().Debugf("Did not find closing bracket for %s", p.stack[i])
+				p.stack[i].bidiclz = cNI
 			}
-			jmp = -2
-		} else {
-			tracer().Debugf("no strong types found within bracket pair")
-			// d. Otherwise, there are no strong types within the bracket pair.
-			//    Therefore, do not set the type for that bracket pair.
-			openBr.bidiclz = cNI
-			jmp = -1
+		case cBRACKC: // not part of a bracket pair
+			p.stack[i].bidiclz = cNI
 		}
-		p.changeBracketBidiClass(openBr)
-		p.stack[p.sp] = openBr
-	} else {
-		closeBr := p.stack[p.sp]
-		if openBr, found := p.findCorrespondingBracket(closeBr); found {
-			closeBr.bidiclz = openBr.bidiclz
+	}
+	// brackets which are still neutral have to be united with adjacent neutrals
+	last := startIRS
+	for i := startIRS + 1; i < end; i++ {
+		if p.stack[i].bidiclz == cNI && p.stack[last].bidiclz == cNI {
+			p.stack[last] = collapse(p.stack[last], p.stack[i], cNI)
 		} else {
-			closeBr.bidiclz = cNI
-		}
-		p.stack[p.sp] = closeBr
-		if closeBr.bidiclz != cNI {
-			jmp = -2
+			last++
+			p.stack[last] = p.stack[i]
 		}
 	}
-	return
+	p.stack = append(p.stack[:last+1], p.stack[end:]...)
 }
 
-func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	pair, found := bd16.FindBracketPairing(s)
-	if found {
-		if s.bidiclz == cBRACKO {
-			return pair.closing, true
+// bracketPairClass finds the type for both brackets of a pair, located at opening and
+// closing of the stack.
+func (p *parser) bracketPairClass(startIRS, opening, closing int) bidi.Class {
+	e := p.stack[opening].e()
+	// a. Inspect the bidirectional types of the characters enclosed within the
+	//    bracket pair.
+	foundOpposite := false
+	for _, s := range p.stack[opening+1 : closing] {
+		switch strongClass(s) {
+		case e:
+			// b. If any strong type (either L or R) matching the embedding direction
+			//    is found, set the type for both brackets in the pair to match the
+			//    embedding direction.
+			return e
+		case opposite(e):
+			foundOpposite = true
+		}
+	}
+	if !foundOpposite {
+		// d. Otherwise, there are no strong types within the bracket pair.
+		//    Therefore, do not set the type for that bracket pair.
+		return cNI
+	}
+	// c. Otherwise, if there is a strong type it must be opposite the embedding
+	//    direction. Therefore, test for an established context with a preceding
+	//    strong type by checking backwards before the opening paired bracket
+	//    until the first strong type (L, R, or sos) is found.
+	for i := opening - 1; i > startIRS; i-- {
+		if clz := strongClass(p.stack[i]); clz != cNI {
+			// c.1. If the preceding strong type is also opposite the embedding
+			//      direction, context is established, so set the type for both
+			//      brackets in the pair to that direction.
+			// c.2. Otherwise set the type for both brackets in the pair to the
+			//      embedding direction.
+			return clz
 		}
-		return pair.opening, true
 	}
-	return s, false
+	return e // sos is the embedding direction
 }
 
-func (p *parser) changeBracketBidiClass(s scrap) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	bd16.changeOpeningBracketClass(s)
+// strongClass returns the type of a scrap for rule N0, where numbers are treated as R.
+func strongClass(s scrap) bidi.Class {
+	switch s.bidiclz {
+	case bidi.L:
+		return bidi.L
+	case bidi.R, bidi.EN, bidi.AN:
+		return bidi.R
+	}
+	return cNI
+}
+
+// findClosingBracket returns the stack position of the closing bracket for an opening
+// bracket at position i, or 0.
+func (p *parser) findClosingBracket(i int, end int) int {
+	bd16 := p.sc.findBD16ForPos(p.stack[i].l)
+	pair, found := bd16.FindBracketPairing(p.stack[i])
+	if !found {
+		return 0
+	}
+	for k := i + 1; k < end; k++ {
+		if p.stack[k].bidiclz == cBRACKC && p.stack[k].l == pair.closing.l {
+			return k
+		}
+	}
+	return 0
 }
 
 // --- Rules trie ------------------------------------------------------------
-- 
2.43.0


From 7bfa679ca87e1e85e503d5eb3dd5ef0cbac892d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 42/53] fix: bidi: non-spacing marks after a bracket did not
 share its type (N0)

---
 bidi/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 67fd3e7..ea02263 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -195,13 +195,15 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				outerAL = outerAL[:len(outerAL)-1]
 			}
 		}
+		isNSM := bidiclz == bidi.NSM
 		bidiclz = applyRulesW1to3(r, bidiclz, current, afterAL) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
-		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) || isseparator(current) {
+		// the current scrap is finished if the lookahead cannot extend it; non-spacing marks
+		// following a bracket will share its type (rule N0)
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || (isbracket(current) && !isNSM) || isisolate(current) || isseparator(current) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
-- 
2.43.0


From 7c567f2bc09cb1ac8d227ddf910bd1af43c3eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 43/53] fix: bidi: bracket pairs were still looked for after
 the stack of BD16 had overflown

---
 bidi/brackets.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..eab1fe0 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -66,6 +66,7 @@ func isbracket(s scrap) bool {
 // We use a special class to handle discovery of bracket pairs.
 type bracketPairHandler struct {
 	stack    bracketStack        // stack to trace bracket nesting
+	overflow bool                // has there been no room in the stack?
 	pairings pairingsList        // result list of matching bracket pairings
 	mx       sync.Mutex          // guards pairings, as parser will access them, too
 	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
@@ -106,12 +107,21 @@ func (pr pairing) String() string {
 
 // pushOpening pushes an opening bracket and its position onto the stack.
 func (bph *bracketPairHandler) pushOpening(r rune, s scrap) bool {
+	if len(bph.stack) >= BD16MaxNesting {
+		bph.overflow = true // stop processing BD16 for the remainder of the sequence
+	}
+	if bph.overflow {
+		return false
+	}
 	var ok bool
 	ok, bph.stack = bph.stack.push(r, s)
 	return ok
 }
 
 func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpos) {
+	if bph.overflow {
+		return
+	}
 	var b brktpos
 	if found, b, bph.stack = bph.stack.popWith(r, s.l); !found {
 		return
-- 
2.43.0


From 3ac2a0f02333346eb60779196b6896182a5b8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 44/53] fix: bidi: canonically equivalent brackets did not form
 a pair (BD16)

---
 bidi/brackets.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index eab1fe0..9d8b875 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -170,7 +170,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	}
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
-		if bs[i].pair.c == b {
+		if canonicalBracket(bs[i].pair.c) == canonicalBracket(b) {
 			open := bs[i] //.pos
 			bs = bs[:i]
 			return true, open, bs
@@ -180,6 +180,15 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	return false, brktpos{}, bs
 }
 
+// canonicalBracket maps U+232A to its canonical equivalent U+3009. There are no other
+// closing brackets with a canonical equivalent.
+func canonicalBracket(r rune) rune {
+	if r == 0x232a {
+		return 0x3009
+	}
+	return r
+}
+
 //func (bph *bracketPairHandler) FindBracketPairing(s scrap, open bool) (pairing, bool) {
 func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	bph.mx.Lock()
-- 
2.43.0


From 618112be62e875cc02e8703a4ce66978a241c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 45/53] fix: bidi: boundary neutrals interrupted the sequences
 around them (X9)

---
 bidi/scanner.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ea02263..d141ff3 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -195,7 +195,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				outerAL = outerAL[:len(outerAL)-1]
 			}
 		}
-		isNSM := bidiclz == bidi.NSM
+		isNSM, isBN := bidiclz == bidi.NSM, bidiclz == bidi.BN
 		bidiclz = applyRulesW1to3(r, bidiclz, current, afterAL) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
@@ -203,7 +203,8 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 
 		// the current scrap is finished if the lookahead cannot extend it; non-spacing marks
 		// following a bracket will share its type (rule N0)
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || (isbracket(current) && !isNSM) || isisolate(current) || isseparator(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || (isbracket(current) && !isNSM && !isBN) ||
+			isisolate(current) || (isseparator(current) && !isBN) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -267,7 +268,7 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 func applyRulesW1to3(r rune, clz bidi.Class, current scrap, afterAL bool) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
-	case bidi.NSM: // rule W1, handle accents
+	case bidi.NSM, bidi.BN: // rule W1, handle accents; BNs are attached to the preceding character
 		switch currclz {
 		case bidi.LRI:
 			return bidi.L
@@ -275,7 +276,7 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap, afterAL bool) bidi.C
 			return bidi.R
 		case bidi.PDI:
 			return cNI
-		case cNULL: // start of paragraph: NSM takes the type of sos
+		case cNULL: // start of paragraph: NSM or BN takes the type of sos
 			return current.e()
 		}
 		return currclz
-- 
2.43.0


From 41f8cd114fcfe7399e7e57313725f83d8b81f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 46/53] fix: bidi: nested isolates were not reversed together
 with the text around them (L2)

---
 bidi/reordering.go | 67 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 0366fca..700b664 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -298,6 +298,11 @@ func reverseWithoutIsolates(scraps []scrap, i, j int) []scrap {
 		j--
 	}
 	tracer().Debugf("reverse w/ isolates %d…%d : %v", i, j, scraps)
+	for _, s := range scraps {
+		for _, ch := range s.children { // nested IRSs are part of what is reversed
+			reverseWithoutIsolates(ch, 0, len(ch))
+		}
+	}
 	return reverse(scraps, i, j)
 }
 
@@ -321,6 +326,13 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 }
 
 func flatten(scraps []scrap, embedding Direction) []Run {
+	return flattenIRS(scraps, embedding, embedding)
+}
+
+// flattenIRS flattens an isolating run sequence within a paragraph of direction base. Scraps
+// have been reordered, i.e. they are ordered as they will be encountered when moving through
+// the line in direction base.
+func flattenIRS(scraps []scrap, embedding, base Direction) []Run {
 	tracer().Debugf("will flatten( %v ), emb=%v", scraps, embedding)
 	var runs []Run
 	var last Run
@@ -330,33 +342,54 @@ func flatten(scraps []scrap, embedding Direction) []Run {
 	for _, s := range scraps {
 		tracer().Debugf("s=%v, |ch|=%d, last=%v", s, len(s.children), last)
 		if len(s.children) == 0 {
-			last, runs = extendRuns(s, last, runs, embedding)
+			last, runs = extendRuns(s, last, runs, embedding, base)
 			tracer().Debugf("runs = %v", runs)
 			continue
 		}
-		var cut scrap
+		// cut s into the parts in front of the children and a rest
+		var cuts []scrap
+		var children [][]scrap
+		dir, rest := directionFromBidiClass(s, embedding), s
 		for _, ch := range s.children {
 			if len(ch) == 0 {
 				continue
 			}
-			tracer().Debugf("scrap has child = %v ------------------", ch)
-			cut, s = cutScrapAt(s, ch)
-			last, runs = extendRuns(cut, last, runs, embedding)
-			//chrun := flatten(ch, embedding) // TODO embedding -> last.Dir ?
-			chruns := flatten(ch, last.Dir) // TODO embedding -> last.Dir ?
-			tracer().Debugf("flattened child = %v", chruns)
-			tracer().Debugf("----------------------------------------------------------------")
-			last, runs = appendRuns(chruns, last, runs)
-			tracer().Debugf("runs+child=%v, last=%v", runs, last)
+			var cut scrap
+			cut, rest = cutScrapAt(rest, ch)
+			cuts, children = append(cuts, cut), append(children, ch)
+		}
+		cuts = append(cuts, rest)
+		for i := range cuts {
+			if dir == base {
+				last, runs = extendRuns(cuts[i], last, runs, embedding, base)
+				if i < len(children) {
+					last, runs = appendRuns(flattenIRS(children[i], dir, base), last, runs, base)
+				}
+			} else { // the last part comes first
+				k := len(cuts) - 1 - i
+				if k < len(children) {
+					last, runs = appendRuns(flattenIRS(children[k], dir, base), last, runs, base)
+				}
+				last, runs = extendRuns(cuts[k], last, runs, embedding, base)
+			}
 		}
 		tracer().Debugf("after children: s=%v, runs=%v", s, runs)
-		last, runs = extendRuns(s, last, runs, embedding)
-		tracer().Debugf("runs = %v", runs)
 	}
 	return runs
 }
 
-func extendRuns(s scrap, last Run, runs []Run, embedding Direction) (Run, []Run) {
+// join concatenates two runs of the same direction which follow one another in a line.
+// Runs hold their scraps in the direction of the run.
+func join(last, next Run, base Direction) Run {
+	if last.Dir != base {
+		next.concat(last)
+		return next
+	}
+	last.concat(next)
+	return last
+}
+
+func extendRuns(s scrap, last Run, runs []Run, embedding, base Direction) (Run, []Run) {
 	tracer().Debugf("extendRuns(%v), last=%v, runs=%v", s, last, runs)
 	if s.len() == 0 { // important. must correlate to semantics of runappend()
 		return last, runs
@@ -371,7 +404,7 @@ func extendRuns(s scrap, last Run, runs []Run, embedding Direction) (Run, []Run)
 		runs = runappend(runs, last)
 	} else if last.Dir == dir { // just extend last with s
 		//last.R = uint64(s.r)
-		last.concat(run(s, embedding))
+		last = join(last, run(s, embedding), base)
 		tracer().Debugf("extending %v with %v", runs, last)
 		runs[len(runs)-1] = last
 	} else { // have to switch directions
@@ -405,12 +438,12 @@ func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
 	return cut, rest
 }
 
-func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
+func appendRuns(childRuns []Run, last Run, runs []Run, base Direction) (Run, []Run) {
 	if len(childRuns) == 0 {
 		return last, runs
 	}
 	if last.Length > 0 && childRuns[0].Dir == last.Dir {
-		last.concat(childRuns[0])
+		last = join(last, childRuns[0], base)
 		runs[len(runs)-1] = last
 		runs = append(runs, childRuns[1:]...)
 	} else {
-- 
2.43.0


From 6148c77d619a37d4d38669e95fad00f33f31c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 47/53] fix: bidi: Reorder panicked for first strong isolates
 (FSI)

---
 bidi/scanner.go | 83 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 13 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index d141ff3..9e0621d 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -37,6 +37,15 @@ type bidiScanner struct {
 	IRSStack      []*bracketPairHandler // handlers of the currently open IRSs
 	mx            sync.Mutex            // guards list of IRS handlers, as parser will access it, too
 	ctxstack      []dirContext          // context stack for IRSs
+	readAhead     []inputRune           // runes already read, but not yet scanned
+}
+
+// inputRune is a rune together with its byte length and bidi class. ok is false for EOF.
+type inputRune struct {
+	r       rune
+	length  int
+	bidiclz bidi.Class
+	ok      bool
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -89,25 +98,73 @@ func markupToBidi(m int) bidi.Class {
 // Returns the rune, its byte length, bidi class and a flag indicating
 // a valid input (false for EOF).
 func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
+	var next inputRune
+	if len(sc.readAhead) > 0 {
+		next, sc.readAhead = sc.readAhead[0], sc.readAhead[1:]
+	} else {
+		next = sc.readRune(pos)
+	}
+	if next.ok && next.bidiclz == bidi.FSI {
+		next.bidiclz = sc.resolveFSI(pos + charpos(next.length))
+	}
+	return next.r, next.length, next.bidiclz, next.ok
+}
+
+// resolveFSI decides wether an FSI will be treated as an LRI or as an RLI (UAX#9 rule X5c),
+// which depends on the first strong character up to the matching PDI, not considering
+// nested isolates. pos is the position after the FSI.
+func (sc *bidiScanner) resolveFSI(pos charpos) bidi.Class {
+	nesting := 0
+	for i := 0; ; i++ {
+		if i == len(sc.readAhead) {
+			sc.readAhead = append(sc.readAhead, sc.readRune(pos))
+		}
+		next := sc.readAhead[i]
+		if !next.ok {
+			return bidi.LRI
+		}
+		pos += charpos(next.length)
+		switch next.bidiclz {
+		case bidi.LRI, bidi.RLI, bidi.FSI:
+			nesting++
+		case bidi.PDI:
+			if nesting == 0 {
+				return bidi.LRI
+			}
+			nesting--
+		case bidi.L:
+			if nesting == 0 {
+				return bidi.LRI
+			}
+		case bidi.R, bidi.AL:
+			if nesting == 0 {
+				return bidi.RLI
+			}
+		}
+	}
+}
+
+// readRune reads a rune from the input reader or from out-of-line markup.
+func (sc *bidiScanner) readRune(pos charpos) inputRune {
 	if sc.markup != nil && sc.lastMarkup > 0 { // we have a left-over markup to handle
 		sc.lastMarkupPos = int64(pos)
 		last := sc.lastMarkup
 		sc.lastMarkup = 0
-		return 0, 0, markupToBidi(last), true
+		return inputRune{bidiclz: markupToBidi(last), ok: true}
 	} else if sc.markup != nil && sc.lastMarkupPos < int64(pos) {
 		tracer().Debugf("bidi scanner: checking for markup at position %d", pos)
 		if d := sc.markup(uint64(pos)); int(d) > 0 {
 			sc.lastMarkupPos = int64(pos)
 			if d&MarkupPDI > 0 { // always handle PDI first
 				sc.lastMarkup = d - MarkupPDI // put other markup half on shelf, if any
-				return 0, 0, bidi.PDI, true
+				return inputRune{bidiclz: bidi.PDI, ok: true}
 			}
 			sc.lastMarkup = 0
-			return 0, 0, markupToBidi(d), true
+			return inputRune{bidiclz: markupToBidi(d), ok: true}
 		}
 	}
 	if ok := sc.runeScanner.Scan(); !ok {
-		return 0, 0, cNULL, false
+		return inputRune{bidiclz: cNULL}
 	}
 	b := sc.runeScanner.Bytes()
 	r, length := utf8.DecodeRune(b)
@@ -118,7 +175,7 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 	bidiclz := props.Class()
 	if bidiclz == bidi.B { // paragraph separator read
 		if !sc.hasMode(optionIgnoreParSep) {
-			return 0, 0, cNULL, false // treat is as EOF
+			return inputRune{bidiclz: cNULL} // treat is as EOF
 		}
 		bidiclz = bidi.WS // convert it to whitespace
 	}
@@ -130,7 +187,14 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 		}
 	}
 	tracer().Debugf("bidi scanner rune %#U (%s)", r, classString(bidiclz))
-	return r, sc.runeLen, bidiclz, true
+	if sc.hasMode(optionTesting) {
+		if unicode.IsUpper(r) {
+			bidiclz = bidi.R // during testing, UPPERCASE is R2L
+		} else { // check for isolating run sequence delimiters
+			bidiclz = setTestingIRSDelimiter(r, bidiclz)
+		}
+	}
+	return inputRune{r: r, length: sc.runeLen, bidiclz: bidiclz, ok: true}
 }
 
 // makeScrap wraps the input rune into a scrap.
@@ -174,13 +238,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		}
 
 		// a rune has successfully been read ⇒ make it the new lookahead
-		if sc.hasMode(optionTesting) {
-			if unicode.IsUpper(r) {
-				bidiclz = bidi.R // during testing, UPPERCASE is R2L
-			} else { // check for isolating run sequence delimiters
-				bidiclz = setTestingIRSDelimiter(r, bidiclz)
-			}
-		}
 		switch bidiclz { // remember AL for rule W2, it will be changed by rule W3
 		case bidi.AL:
 			afterAL = true
-- 
2.43.0


From 071ca68380a7f9ca5bf04cde9898f1a6b44454e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 48/53] fix: bidi: options could not be switched off again by a
 later option

---
 bidi/scanner.go | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 9e0621d..30b8262 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -548,23 +548,13 @@ const (
 // currently do not intend to support legacy formatting types,
 // thus setting this option will have no effect.
 func RecognizeLegacy(b bool) Option {
-	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionRecognizeLegacy) && b ||
-			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
-		}
-	}
+	return setMode(optionRecognizeLegacy, b)
 }
 
 // DefaultDirection sets outer embedding level for a paragraph
 // (LeftToRight is the normal default).
 func DefaultDirection(dir Direction) Option {
-	if dir == RightToLeft {
-		return func(sc *bidiScanner) {
-			sc.mode |= optionOuterR2L
-		}
-	}
-	return nil
+	return setMode(optionOuterR2L, dir == RightToLeft)
 }
 
 // TestMode will set up the scanner to recognize UPPERCASE letters as having R2L class.
@@ -580,12 +570,7 @@ func DefaultDirection(dir Direction) Option {
 //
 //	DID YOU SAY ’>he said “<car MEANS CAR=”=‘?
 func TestMode(b bool) Option {
-	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionTesting) && b ||
-			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
-		}
-	}
+	return setMode(optionTesting, b)
 }
 
 // IgnoreParagraphSeparators determines wether paragraph separators (i.e., newlines
@@ -594,10 +579,16 @@ func TestMode(b bool) Option {
 // interpreting any paragraph separator as `end of input`. In this case the
 // paragraph separator is cut off of the input.
 func IgnoreParagraphSeparators(b bool) Option {
+	return setMode(optionIgnoreParSep, b)
+}
+
+// setMode returns an option for switching mode m on or off.
+func setMode(m uint8, on bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionIgnoreParSep) && b ||
-			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
+		if on {
+			sc.mode |= m
+		} else {
+			sc.mode &^= m
 		}
 	}
 }
-- 
2.43.0


From 5ab48b91bc2456ea9ba065fdb9c02dfb4120d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 49/53] fix: ucdparse: documents with CR line breaks only were
 limited to the size of a buffer

---
 internal/ucdparse/linebuf.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index 78be81f..53516b7 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -2,6 +2,7 @@ package ucdparse
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -34,20 +35,19 @@ func newLineBuffer(inputDoc io.Reader) *lineBuffer {
 	// CR LF, CR, or LF where CR and LF are the ASCII carriage return and line feed characters.
 	// A single document may employ any or all of these ways of splitting lines.
 	split := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		advance, token, err = bufio.ScanLines(data, atEOF)
-		for i, ch := range data {
-			if ch == '\r' {
-				if i < len(data)-1 && i < len(token) {
-					if data[i+1] != '\n' {
-						advance = i + 1
-						token = data[:i]
-						err = nil
-						return
-					}
-				}
+		i := bytes.IndexAny(data, "\r\n")
+		if i < 0 {
+			return bufio.ScanLines(data, atEOF)
+		}
+		advance = i + 1
+		if data[i] == '\r' {
+			if i == len(data)-1 && !atEOF { // there may be a LF to come
+				return 0, nil, nil
+			} else if i < len(data)-1 && data[i+1] == '\n' {
+				advance++
 			}
 		}
-		return
+		return advance, data[:i], nil
 	}
 	input.Split(split)
 	buf := &lineBuffer{Input: input}
-- 
2.43.0


From f8b5a2edc45222822d6e06e506876a974bb3d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 50/53] fix: the bidi scanner does not use the tracer any more
 once the parser is done

The scanner goroutine traced its end after the parser had got its quit signal, i.e.
possibly after ResolveParagraph had returned. Clients which re-configured tracing at
that time were blocked forever now and then (TestSimple does so).
---
 bidi/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 30b8262..6b052cc 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -233,7 +233,8 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			if current.bidiclz != cNULL { // no scrap if the paragraph is empty
 				sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
 			}
-			sc.stop(pipe) // then send quit signal to parser
+			tracer().Infof("stopping bidi scanner") // do not trace any more after the parser is done
+			sc.stop(pipe)                           // then send quit signal to parser
 			break
 		}
 
@@ -283,7 +284,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
 		}
 	}
-	tracer().Infof("stopped bidi scanner")
 }
 
 func (sc *bidiScanner) post(s scrap, pipe chan<- scrap) {
-- 
2.43.0


From effcc062031bbc6c93a7c601531da7f5cc8f1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:40 +0000
Subject: [PATCH 51/53] fix: ucdparse: the last digit of a code point at the
 end of a line was cut off

---
 internal/ucdparse/linebuf.go | 9 +++++++++
 internal/ucdparse/scan.go    | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index 53516b7..75e4c50 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -62,6 +62,15 @@ func (buf *lineBuffer) IsEof() bool {
 	return buf.isEof >= 2 || buf.Line.Size() == 0
 }
 
+// lookaheadPos is the byte position of the lookahead within the current line. ByteCursor is behind the
+// lookahead, except at the end of the line.
+func (buf *lineBuffer) lookaheadPos() int64 {
+	if buf.Lookahead == eolMarker {
+		return buf.ByteCursor
+	}
+	return buf.ByteCursor - 1
+}
+
 // AdvanceCursor moves the rune cursor within the current line one character forward.
 // If the cursor is already at the end of the line, `eolMarker` is returned. No moving to
 // the next line is performed.
diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 133c233..107956b 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -133,7 +133,7 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 		sc.Buf.match(singleRune(la))
 		la = sc.Buf.Lookahead
 	}
-	pos := sc.Buf.ByteCursor - 1
+	pos := sc.Buf.lookaheadPos()
 	if pos > marker {
 		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
 		hex := sc.Buf.Text[marker:pos]
@@ -159,12 +159,12 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 		token.TokenType = singleDataItem
 		return token, sc.ScanItemBody
 	}
-	marker = sc.Buf.ByteCursor - 1
+	marker = sc.Buf.lookaheadPos()
 	for isHexDigit(la) {
 		sc.Buf.match(singleRune(la))
 		la = sc.Buf.Lookahead
 	}
-	pos = sc.Buf.ByteCursor - 1
+	pos = sc.Buf.lookaheadPos()
 	if pos > marker {
 		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
 		hex := sc.Buf.Text[marker:pos]
-- 
2.43.0


From 6b4f634404c5a56e2a7eae9211ab7297f6bca418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 52/53] fix: ucdparse: leading empty fields were dropped,
 moving the following ones

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 107956b..6101825 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -195,7 +195,7 @@ func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 		fmt.Printf("@ comment = %q\n", token.Comment)
 	}
 	a[0] = strings.TrimSpace(a[0])
-	a[0] = strings.TrimLeft(a[0], ";")
+	a[0] = strings.TrimPrefix(a[0], ";")
 	token.Fields = strings.Split(a[0], ";")
 	return token, nil
 }
-- 
2.43.0


From 3f68abdc54f74aa826d151808619f2934e059fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 53/53] fix: segment: RuneBuffer ignored the maximum size if
 called without a buffer

---
 segment/segment.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index d42da0f..5ca0a3f 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -204,11 +204,12 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 	if s.inUse {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
-	if cap(buf) > 0 {
+	if cap(buf) > max {
+		max = cap(buf)
+	}
+	if max > 0 {
 		s.runesBuf.output = buf[:0]
-		if s.runesBuf.maxSegLen = max; cap(buf) > max {
-			s.runesBuf.maxSegLen = cap(buf)
-		}
+		s.runesBuf.maxSegLen = max
 	}
 }
 
@@ -758,7 +759,7 @@ func (rw runewrite) Reset(backingBuf []rune) runewrite {
 	}
 	if backingBuf == nil {
 		rw.isBacked = false
-		if rw.output == nil {
+		if rw.output == nil && rw.maxSegLen == 0 { // without a limit set by the client
 			rw.output = make([]rune, 0, startBufSize)
 		}
 		rw.backing = nil
-- 
2.43.0

