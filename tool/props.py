import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
SEG='segment/segment.go'; DQ='segment/deque.go'
p('P01','Segmenting a stream loses, duplicates and invents no text',
 "Whatever breakers a segmenter is given (default, word, grapheme, client-written, several at once), whatever the text and however the source delivers it (a rune slice, a byte stream cut into chunks anywhere and delayed arbitrarily, illegal bytes included), concatenating the segments of all Next() calls until false yields exactly the text read, every segment is non-empty, Text/Runes/Bytes agree for each and are empty once Next() has returned false, and Err() is nil at the end. The segmentation is the same for every way of delivering the same text. Reading from a stream, a segment longer than the segmenter's buffer limit ends segmenting with ErrTooLong; it is never shortened silently.",
 ['inputs','schedules','configurations'],
 "all texts, breaker combinations and buffer limits × all chunkings, delays and producer/consumer interleavings of the source",
 "Tests feed a dozen short strings from strings.Reader in one piece; long segments, queue growth, combinations of breakers and chunked sources are never run.",
 [SEG,DQ,'segment/simplewordbreak.go'],
 [('rune queue and its growth',DQ),('cutting off the front segment','segment/segment.go getFrontSegment'),('output buffer and its limit','segment/segment.go runewrite'),('artificial end-of-text atom','segment/segment.go readRune')],
 ['Segmenter.Next','Segmenter.Text/Runes/Bytes','Segmenter.Err'],
 [('queue of atoms','runes read but not yet delivered, with accumulated penalties','segment/segment.go Segmenter.deque')])
p('P02','A failing source: everything settled before the failure, then the error',
 "If the source returns an error other than io.EOF after k runes, the segmenter delivers exactly the leading segments it would have delivered from the undisturbed text without having to read beyond rune k, never other text, then Next() returns false and Err() is that very error, now and for every further call of Next(). A source which ends (io.EOF) is not an error. Calling Next() before any Init fails with ErrNotInitialized and does not panic.",
 ['fault_sequences','inputs','schedules'],
 "all texts × every read position at which the source may fail × all breakers × all delivery schedules",
 "No test has a reader which fails.",
 [SEG],
 [('read error handling','segment/segment.go readRune/readEnoughInputAndFindBreak'),('first error wins and sticks','segment/segment.go setErr/Err')],
 ['Segmenter.Next','Segmenter.Err','Segmenter.Text'])
p('P03','A re-initialized segmenter behaves like a new one',
 "After Init or InitFromSlice, a segmenter delivers the same segments, penalties and errors as a newly created segmenter with new breakers of the same kind would for the same input, whatever happened to it before: text segmented completely or abandoned anywhere, bounded calls, read errors, over-long segments, a source that panicked, or input of the other kind (stream or rune slice). Init(nil) and InitFromSlice(nil) stand for empty text; setting the buffer in the middle of a text panics without any other effect.",
 ['histories','crash_points','fault_sequences'],
 "all histories of Init/InitFromSlice/Next/BoundedNext, abandoned at every point or hit by a read fault, followed by any new input",
 "Tests re-initialize only after complete texts, if at all.",
 [SEG,DQ,'uax29/uax29.go','grapheme/grapheme.go','automata.go'],
 [('re-initialization','segment/segment.go init'),('breakers drop active matches at end of text','uax29/uax29.go, grapheme/grapheme.go'),('recycled recognizers','automata.go releaseIntoPool')],
 ['Segmenter.Init','Segmenter.InitFromSlice','Segmenter.Next','Segmenter.Penalties','Segmenter.Err'],
 [('breaker state','active recognizers, previous class, counters which outlive a text','uax29/uax29.go WordBreaker, grapheme/grapheme.go Breaker')])
p('P04','Bounded segmenting neither loses text nor runs past its bound',
 "In any sequence of Next() and BoundedNext(b) calls with any bounds, BoundedNext(b) delivers the next segment if it ends at rune position b of the text or before, otherwise the rest of text before b if there is any, otherwise returns false, with Err() being ErrBoundReached while text remains. It never delivers text at or behind position b (counted in runes since Init), later calls with larger bounds or Next() go on exactly where delivery stopped, and breaks not forced by a bound are those of unbounded segmenting.",
 ['histories','inputs','schedules'],
 "all texts × all interleavings of Next and BoundedNext with arbitrary (also decreasing) bounds × breakers × slice or chunked stream sources",
 "The two tests for BoundedNext use one text and fixed bounds.",
 [SEG],
 [('bounded search for breaks','segment/segment.go next/findBreakOpportunity/readEnoughInputAndFindBreak'),('cutting at the bound','segment/segment.go getFrontSegment')],
 ['Segmenter.BoundedNext','Segmenter.Next','Segmenter.Err'])
p('P05','Segment boundaries and penalties are exactly what the breakers decided',
 "A segmenter ends a segment exactly at those positions where the penalties its breakers reported so far add up to a feasible break (below InfinitePenalty and, unless BreakOnZero is set for that breaker group, not zero) for the primary breaker or for the sum of the secondary breakers, and at no position a breaker still holds in an active match. Penalties() reports these two sums for the delivered segment. With no breaker given, segments are the maximal runs of whitespace and of non-whitespace.",
 ['inputs','schedules','configurations'],
 "all behaviours of client breakers (match lengths, penalties reported late for earlier positions) × number of breakers × BreakOnZero settings × texts and delivery schedules",
 "Tests use the shipped breakers on sample texts; late penalties, several secondary breakers and BreakOnZero combinations are not covered.",
 [SEG,DQ,'segment/simplewordbreak.go','uax.go'],
 [('penalty bookkeeping','segment/segment.go insertPenalties/inxForBreaker'),('feasibility','segment/segment.go isPossibleBreak/findBreakOpportunity'),('active match protection','segment/segment.go longestActiveMatch'),('default breaker','segment/simplewordbreak.go')],
 ['Segmenter.Next','Segmenter.Penalties','Segmenter.BreakOnZero'])
p('P06','Word and grapheme breaks follow UAX#29 in every stream and history',
 "For every text (without U+0000) the word breaker breaks exactly where UAX#29 rules WB1 to WB999 break, and the grapheme breaker exactly where rules GB1 to GB999 break; a break after a newline character has the penalty of a mandatory break (WB3a, GB4), not that of an optional one. This holds for each text of a sequence of texts run through the same segmenter, after abandoned texts and read faults, and while other segmenters run concurrently.",
 ['inputs','histories','schedules'],
 "all texts over all UAX#29 character classes × histories of the segmenter × schedules of concurrently running segmenters",
 "The UCD test files have about 2,000 short samples, each run on its own in one goroutine; their samples rarely combine more than two rules.",
 ['uax29/uax29.go','grapheme/grapheme.go','automata.go','prioq.go','emoji/emoji.go'],
 [('rule automata WBx','uax29/uax29.go'),('rule automata GBx','grapheme/grapheme.go'),('rule publisher','automata.go PublishRuneEvent, prioq.go'),('recognizer pool','automata.go NewPooledRecognizer')],
 ['Segmenter.Next over uax29.NewWordBreaker / grapheme.NewBreaker'])
p('P07','Segmenters used in different goroutines do not affect each other',
 "Any number of goroutines, each with segmenters, breakers and grapheme strings of its own, get the same segments, penalties and errors as if each ran alone, under every interleaving, without data race, deadlock or panic, also while some of them abandon texts or suffer read faults. A grapheme string may be read by several goroutines at once.",
 ['schedules','inputs','fault_sequences'],
 "all interleavings of several goroutines segmenting different texts with different breakers, with faults in some of them",
 "All tests run one segmenter at a time, none with the race detector.",
 ['automata.go','prioq.go',SEG,'uax29/uax29.go','grapheme/grapheme.go','grapheme/string.go'],
 [('global pool of recognizers, handed out and returned exactly once','automata.go globalRecognizerPool'),('clearing of recycled recognizers','automata.go releaseIntoPool'),('read-only class tables','uax29/uax29classes.go, grapheme/graphemeclasses.go')],
 ['results of every goroutine','race detector','scheduler (deadlock, panic)'],
 [('globalRecognizerPool','process-wide free list shared by all breakers','automata.go')])
p('P08','Concurrent first use initializes the shared tables safely',
 "If the very first uses of the library in a process (the Setup functions, constructors of word and grapheme breakers, grapheme strings, display widths, bidi resolution) happen concurrently in any combination and interleaving, every one of them behaves exactly as in a completely initialized process. There is no data race, deadlock, panic, or class lookup on partly filled tables, and setting up again at any time changes nothing.",
 ['schedules','histories'],
 "all interleavings of first uses by several goroutines",
 "Tests set up once, at package start, sequentially.",
 ['uax29/uax29.go','grapheme/grapheme.go','emoji/emoji.go','bidi/resolver.go','grapheme/string.go'],
 [('once-only setup','uax29/uax29.go SetupUAX29Classes, grapheme/grapheme.go SetupGraphemeClasses, emoji/emoji.go SetupEmojisClasses'),('rules trie prepared once','bidi/resolver.go prepareRulesTrie')],
 ['ClassForRune','NewWordBreaker','NewBreaker','StringFromString','ResolveParagraph','race detector'],
 [('class range tables','filled by setup, read by every breaker','uax29/uax29classes.go, grapheme/graphemeclasses.go, emoji/emojiclasses.go')])
p('P09','Bidi resolution does not depend on scheduling or chunking',
 "ResolveParagraph returns the same resolved levels for a paragraph and the options in effect (an option overrides the same option given before) however the reader cuts it into chunks or delays it and however its scanner and parser are interleaved, brackets and isolates included. It always terminates, without data race or panic, and leaves no goroutine behind; once it has returned, neither reader, markup nor tracer of the client are used any more.",
 ['schedules','inputs','configurations'],
 "all interleavings of the scanning and the resolving goroutine × reader chunkings and delays × paragraphs × options",
 "Tests run each paragraph once, under the one schedule the Go runtime happens to choose.",
 ['bidi/resolver.go','bidi/scanner.go','bidi/brackets.go'],
 [('scanner runs ahead of the parser','bidi/resolver.go ResolveLevels, bidi/scanner.go Scan'),('locks on bracket and isolate lists','bidi/scanner.go mx, bidi/brackets.go mx')],
 ['ResolvedLevels.String','ResolvedLevels.DirectionAt','scheduler (deadlock, leaked goroutines)','race detector'],
 [('bracket pairings','written by the scanner, read and updated by the parser','bidi/brackets.go')])
p('P10','A bidi paragraph cut short by a read failure is resolved as far as read',
 "If reading a paragraph fails or ends after k bytes, at any k, even within a character or an isolate, ResolveParagraph still returns, leaves no goroutine behind, and its result equals the result for a paragraph consisting of exactly these k bytes.",
 ['fault_sequences','schedules','inputs'],
 "all paragraphs × every cut position × kinds of read failure × chunkings and schedules",
 "No test has a failing or truncated reader.",
 ['bidi/scanner.go','bidi/resolver.go'],
 [('end-of-input handling','bidi/scanner.go nextRune/Scan'),('premature end of isolates','bidi/resolver.go parseIRS/applySubIRS')],
 ['ResolvedLevels.String','scheduler (deadlock, leaked goroutines)'])
p('P11','Bidi reordering accounts for every byte of the paragraph exactly once',
 "The runs of the Ordering computed for a paragraph, iterated segment by segment, cover every byte position of the input exactly once: no position is missing, repeated or out of range, each run's Length is the sum of its segments, no run is empty, and neighbouring runs differ in direction. Every strong letter lies in a run of its own direction. DirectionAt reports for every position the direction of the run it lies in. An iterator delivers the segments of a run in either order and tells (EOF) exactly when it has delivered the last one. This holds for any text, any option, with or without out-of-line markup, under every schedule.",
 ['inputs','schedules','configurations'],
 "all paragraphs (letters, digits, punctuation, brackets, nested and unbalanced isolates of all kinds, illegal bytes) × options × schedules",
 "Tests compare the output of about 20 paragraphs by eye-made strings, most of them a few characters long.",
 ['bidi/resolver.go','bidi/actions.go','bidi/reordering.go','bidi/scrap.go','bidi/scanner.go'],
 [('rewriting of scraps by the rules','bidi/actions.go'),('stack reduction','bidi/resolver.go reduce'),('reordering and flattening','bidi/reordering.go reorder/flatten/appendRuns')],
 ['ResolvedLevels.Reorder','Run.SegmentIterator','Run.Length','Run.Dir'])
p('P12','Concurrent bidi resolutions do not affect each other',
 "Any number of goroutines resolving paragraphs at the same time each get exactly the result they would get alone, under every interleaving, without data race or deadlock, while some of the readers stall or fail.",
 ['schedules','inputs','fault_sequences'],
 "all interleavings of several concurrent resolutions (each with two goroutines) with stalls and faults in some",
 "Tests resolve one paragraph at a time.",
 ['bidi/resolver.go','bidi/scanner.go','bidi/brackets.go','bidi/bracketpairs.go','bidi/uaxrules.go','bidi/trie/trie.go'],
 [('shared read-only rules trie','bidi/resolver.go prepareRulesTrie, bidi/trie'),('shared bracket tables','bidi/bracketpairs.go')],
 ['ResolvedLevels.String of every goroutine','race detector','scheduler'])
p('P13','Out-of-line bidi markup equals the same isolates written inline',
 "For any text, delimiting ranges by an out-of-line markup function resolves to the same directions and the same visual order of the text's characters as LRI, RLI and PDI characters inserted at the same places, under every schedule. The markup function is asked about text positions in increasing order and about each one at least once, the first included.",
 ['inputs','schedules','configurations'],
 "all texts (with brackets and inline isolates, too) × all well-formed placements of isolates × schedules",
 "One test uses markup, with one placement.",
 ['bidi/scanner.go','bidi/resolver.go'],
 [('markup events in the scanner','bidi/scanner.go'),('isolating runs','bidi/resolver.go parseIRS')],
 ['ResolvedLevels.Reorder','OutOfLineBidiMarkup calls'])
p('P14','Line-splitting bidi levels partitions the paragraph',
 "Splitting resolved levels at position p yields a first part covering exactly the positions before p and a second part covering exactly those from p on, with each position keeping its direction; with shift the second part starts at 0. Any sequence of splits, each part then reordered, accounts for every byte of the paragraph exactly once.",
 ['histories','inputs','schedules'],
 "all paragraphs × all sequences of split positions, with and without shift, followed by reordering of the lines",
 "Tests split two paragraphs at one position each.",
 ['bidi/reordering.go'],
 [('recursive split','bidi/reordering.go split/shiftzero')],
 ['ResolvedLevels.Split','ResolvedLevels.Reorder','ResolvedLevels.DirectionAt'])
p('P15','Grapheme strings survive corrupted bytes and keep their content',
 "For any bytes below the size limit, also with bytes corrupted or cut off at any place, creating a grapheme string does not panic and String() returns the bytes unchanged. Its graphemes, in order, are exactly the UAX#29 grapheme clusters of the legal text which begins at the first legal character and ends before the next illegal byte; Len() is their number, and it is 0 if there is no legal character. For any bytes, the position of the first legal character and the bytes before it are found. A string made from bytes keeps a copy of its own, and any number of goroutines may read it at once. An index out of range panics.",
 ['inputs','fault_sequences','schedules'],
 "all byte strings, corrupted by bit flips, truncation, lost and duplicated bytes, of short and mid size representation × concurrent readers",
 "Tests create strings from a few legal literals.",
 ['grapheme/string.go','automata.go','grapheme/grapheme.go'],
 [('finding the legal part','grapheme/string.go prepareBreaking'),('break tables of 8 and 16 bits','grapheme/string.go makeShortString/makeMidString')],
 ['StringFromString','StringFromBytes','String.Len/Nth/String'])
p('P16','Display width is additive, bounded and unaffected by sharing contexts',
 "For any bytes, also corrupted ones, and any context, StringWidth of a grapheme string is the sum of Width of its graphemes, each of which is 1 or 2; Width of empty bytes or of bytes starting illegally is 0. Wide (W, F) and emoji characters (property Emoji, which comprises ASCII digits) are 2 wide in every context, narrow (Na, H) ones 1, all others 2 in East Asian contexts (by flag, script or locale) and 1 else. A context made from the environment is that of the locale the environment names at that moment, a western one if there is none or nonsense. Results are the same for every goroutine and interleaving when several goroutines measure at once, each with a context of its own or all with a predefined context.",
 ['inputs','schedules','fault_sequences','configurations'],
 "all byte strings and contexts × interleavings of concurrent measurements",
 "Tests measure a few strings one after the other.",
 ['uax11/width.go','grapheme/string.go','emoji/emoji.go'],
 [('context resolution','uax11/width.go evaluateContext/findResolver'),('grapheme width','uax11/width.go graphemeWidth')],
 ['uax11.Width','uax11.StringWidth'],
 [('Context.resolve','cached resolver inside the client\'s context','uax11/width.go')])
p('P17','The rune publisher serves every active subscriber exactly once per event',
 "In any history of subscriptions and events, each event reaches every subscriber which is subscribed and not yet done exactly once. A subscriber which is done receives Unsubscribed exactly once, right after that event, and nothing more; the result of publishing is the longest match length of the subscribers still active and the position-wise sum of all penalties reported for this event. A client operating the subscriber queue itself finds a done subscriber on top whenever there is one, and gets back each subscriber pushed exactly once. A recognizer from the pool belongs to one client at a time and starts out blank, whatever previous clients in any goroutine did with it.",
 ['histories','schedules'],
 "all histories of subscribe/publish with subscribers finishing at any event, on several publishers used concurrently",
 "One test runs a fixed sequence of pushes and pops.",
 ['automata.go','prioq.go'],
 [('publishing','automata.go PublishRuneEvent'),('gap queue of subscribers','prioq.go'),('recognizer life cycle','automata.go Recognizer')],
 ['RunePublisher.PublishRuneEvent','RuneSubscriber calls'],
 [('subscriber queue','active subscribers below the gap, done ones above','prioq.go')])
p('P18','Parsing a Unicode data file reports every item before a read failure, then fails',
 "Parsing a Unicode character database file calls back once for every complete data line, in order, with its code point range, fields, comment and line number, however long the file is, whichever line breaks (CR, LF, CR LF) it uses, and however the reader chunks or delays it. If the reader fails at any byte, every line completely read before is still reported and Parse returns an error wrapping the read error; it never hangs, panics, or reports success. A line whose code points cannot be decoded is reported with an error, makes Parse return an error at the end, and affects no other line; what is reported for a line of a damaged file depends on this line only. Reported items belong to the client and do not change later. All this holds when several files are parsed by different goroutines at once, too.",
 ['fault_sequences','inputs','schedules'],
 "all data files × every failure position × chunkings",
 "The only test parses one constant string.",
 ['internal/ucdparse/scan.go','internal/ucdparse/linebuf.go','internal/ucdparse/ucdparse.go'],
 [('line buffer','internal/ucdparse/linebuf.go'),('item scanner','internal/ucdparse/scan.go')],
 ['ucdparse.Parse callbacks and result'])
p('P19','Bidi text gets the directions and the visual order of UAX#9',
 "For paragraphs of letters (L, R, AL), European and Arabic digits, number separators and terminators, brackets, non-spacing marks, boundary neutrals, whitespace and other neutral characters, in either paragraph direction, with properly closed LRI, RLI or FSI … PDI isolates around any part (nested, up to 61 deep) and with unmatched PDIs, each character other than isolate controls and boundary neutrals is given the direction UAX#9 gives it: bracket pairs are found and resolved by BD16 and N0 (up to 63 open ones, with canonical equivalents), an FSI is what the first strong character within it makes it. The runs, and after splitting the runs of every line, are delivered in the visual order of UAX#9 (rule L2; from left to right, or from right to left in right-to-left paragraphs). This holds for every schedule and chunking.",
 ['inputs','schedules','histories'],
 "all such paragraphs × both directions × line breaks × schedules and chunkings",
 "Tests have about 20 sample paragraphs, most of them a few characters long, none with reference results from the annex.",
 ['bidi/resolver.go','bidi/actions.go','bidi/uaxrules.go','bidi/reordering.go','bidi/scanner.go'],
 [('rules W1-W7, N1, N2','bidi/scanner.go, bidi/actions.go, bidi/uaxrules.go'),('rule application order','bidi/resolver.go pass1/pass2'),('reordering','bidi/reordering.go')],
 ['ResolvedLevels.Reorder','Run.SegmentIterator','ResolvedLevels.Split'])
p('P20','Resolved bidi levels may be asked again and by several goroutines',
 "Resolved levels are immutable: whatever sequence of Reorder, SegmentIterator (in either direction), DirectionAt and Split a client applies to them and to their parts, and however many goroutines do so at once (also iterating one common Ordering), each answer is the one freshly resolved levels of the same paragraph give, without data race or panic.",
 ['histories','schedules','inputs'],
 "all paragraphs × all sequences of questions × interleavings of goroutines asking",
 "Tests reorder or split each result once.",
 ['bidi/reordering.go','bidi/scrap.go'],
 [('reordering in place','bidi/reordering.go reorder/reverse'),('segments of a run','bidi/reordering.go SegmentIterator'),('split','bidi/reordering.go split')],
 ['ResolvedLevels.Reorder/Split/DirectionAt','Run.SegmentIterator','race detector'])
p('P21','A frozen trie finds exactly what was entered',
 "A trie (hash trie of bidi/trie, the dictionary of bidi rules) of any size which is larger than twice its alphabet, frozen after any sequence of entries, finds every word entered and every prefix of it at a position of its own, always the same one, and nothing else; whatever order the words were entered in, however many collisions and moves of families that took, and however often words are entered again. A trie that runs full fails with its table-full panic and in no other way. Frozen tries and several iterators on them serve any number of goroutines at once, without data race.",
 ['histories','inputs','schedules','fault_sequences'],
 "all sizes × alphabets × histories of entries × readers",
 "Tests enter a handful of words.",
 ['bidi/trie/hashtrie.go'],
 [('insertion and moving families','bidi/trie/hashtrie.go'),('freezing','bidi/trie/hashtrie.go Freeze'),('iteration','bidi/trie/hashtrie.go Iterator.Next')],
 ['TinyHashTrie.AllocPositionForWord','TinyHashTrie.Freeze','TinyHashTrie.Iterator'])
p('N01','Line breaking conforms to UAX#14',
 "Line break opportunities are those of UAX#14 for every text.",
 ['inputs'],"all texts","The package does not compile at the pinned commit, so none of its tests run.",
 ['uax14/uax14.go','uax14/rules.go'],[('line breaking rules','uax14/rules.go')],['uax14.NewLineWrap'])
p('N02','Bidi resolution conforms to UAX#9 for all texts',
 "Resolved levels and visual order equal those of UAX#9 for every text, including unclosed isolates, explicit embeddings and all weak types.",
 ['inputs'],"all texts","Tests sample a few paragraphs.",
 ['bidi/doc.go','bidi/resolver.go'],[('documented variant of UAX#9','bidi/doc.go, bidi/resolver.go parseIRS')],['ResolveParagraph'])
p('N03','East Asian widths of single characters follow UAX#11',
 "The width of every code point in a given context is the one the East Asian Width property gives it.",
 ['inputs'],"all code points × contexts","Tests sample some characters.",
 ['uax11/width.go'],[('width lookup','uax11/width.go graphemeWidth')],['uax11.Width'])
p('N04','Generated class tables equal the Unicode character database',
 "Every code point has the UAX#29, grapheme, emoji and shaping class which the Unicode character database of the stated version gives it.",
 ['inputs'],"all code points","Tests look up single code points.",
 ['uax29/uax29classes.go','grapheme/graphemeclasses.go','emoji/emojiclasses.go','shaping/arabictables.go'],[('generated tables','uax29/uax29classes.go')],['ClassForRune'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
