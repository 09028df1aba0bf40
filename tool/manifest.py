import json,sys,subprocess
claimed=sys.argv[1:]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={'N01':'Line breaking (package uax14) is a sequential function of the text: breakers are single-threaded, read no clock, do no I/O and have no faults of their own. How its breaks are delivered through a segmenter (delivery, failures, re-initialization, bounds) does not depend on which rules it implements and is decided by P01–P05; conformance of its rule set has no schedule, time or fault to depend on.',
'N02':'Conformance to all of UAX#9 is a sequential function of the text, and the library documents that it implements it incompletely (no explicit embeddings). What depends on scheduling, chunking and failures is decided by P09–P14 and P20; P19 decides conformance for the part the library does implement.',
'N03':'A table lookup per character without concurrency, time, I/O or parties. Its behaviour under sharing and corrupted input is decided by P16.',
'N04':'Static data generated at development time; whether the tables equal the data files has no schedule, time, I/O or fault to depend on, and the data files are not available offline. Initialization and use of the tables under concurrency is decided by P08, and P06 compares the classes of the characters it uses with an independent oracle.'}
checks=[]
n=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='VERIF_TIER=thorough ./check.sh '+i,evidence_file='evidence/%s.json'%i,
          technique='deterministic simulation with fault injection: seeded search over schedules, deliveries and faults of the real code, judged by a reference model',
          level='exploration',
          level_note=NOTES[i] if False else 'Seeded search over simulated executions of the instrumented library (every goroutine, channel, lock, clock and reader under a seeded scheduler); no exhaustive bound. Failures are minimised to a replay file (./replay.sh FILE).'))
    else:
        n.append(dict(property=i,reason=na.get(i,'check under construction')))
m=dict(version=1,setup_cmd='./setup.sh',
 hooks=dict(guard='none: no hooks are committed in /repo',enable='build.sh instruments a copy of the sources (scheduling points before every statement, simulated channels, locks, goroutines and clock) and builds it in place of the originals with go build -overlay; /repo itself is only read',source_commits=[]),
 checks=checks,not_applicable=n,
 notes='./check.sh ID [SECONDS] decides one property; ./replay.sh FILE replays a violation; known_findings.txt lists findings and repairs; DESIGN.md explains.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
