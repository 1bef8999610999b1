#!/usr/bin/env python3
"""DESIGN.md from design.in, properties.jsonl, bounds.py, spec.py and seeded/*/meta.json (+ seeded/results.json)"""
import json, os, spec, bounds
D = {
'C01': 'Oracle: a reference list of messages. Every push/pop/count through either handle must agree with it, the popped byte at a symbolic position must be the pushed one.',
'C02': 'Oracle: the bounds of the shared memory object the model created with the size the code asked for, and of the buffers; every access of the queue code is checked against them with 32-bit geometry as solver variables.',
'C03': 'Oracle: arithmetic of the property (count < capacity and bytes fit) against push and space check; after emptying, a full-size message, the full count or any size.',
'C04': 'The deadline handed to the timed wait is compared with clock + timeout for all clocks (wall-clock start symbolic); result and elapsed virtual time of whole waits.',
'C05': 'The model watches every use of a queue: only by the thread that took its lock last; the lock semaphore must never exceed one; foreign holders compare the queue content before and after; at the end all locks are one and calls work.',
'C06': 'After the schedule chosen by the solver all threads are idle: every queue must be empty and every delivered call executed / answered, without further messages.',
'C07': 'Every completion is counted (promise, callback, return of syncCall) and must be exactly one, with result or failure as the situation demands; the process may not terminate.',
'C08': 'A raw peer (harness code speaking the wire format through its own encoder) answers in an order chosen by the solver with symbolic values; each call must get exactly the value of the response with its id.',
'C09': 'Symbolic arguments are recorded in the callee and compared with what was passed; the result is compared with what was returned; errors are compared with the cause.',
'C10': 'Raw messages with symbolic bytes are put into the call queue of a running instance; then a valid call must be executed once and answered; nothing else may have been executed unless an independent decoder in the harness accepts the message.',
'C11': 'As C10 for the response queue of a caller with an outstanding call; an independent decoder says whether a message is an answer to it.',
'C12': 'decode(encode(v)) == v with v symbolic, also compared with an independent encoder for the size class; encoding twice gives the same bytes.',
'C13': 'For every received object (symbolic) and target type the result is compared with a table written from the statement: value representable or refusal, destination and exceptions.',
'C14': 'Arbitrary bytes are decoded (whole and split); accesses are checked by the engine, and the resulting object is walked: every part must lie in the input or the zone.',
'C15': 'Handle, mapping, semaphore and name counts of the model after every operation with failing system calls chosen by the solver.',
'C16': 'A reference state machine (stopped / running under a name) against init, uninit, isInit and calls; all counts of the model return to zero; heap blocks are counted; virtual time of shutdown is bounded.',
'C17': 'The first instance is killed by the model at an operation chosen by the solver; then restart, fresh locks, empty queues, calls from old and new peers.',
'C18': 'Ids seen by the caller and on the wire are compared pairwise with symbolic function names; the random source is symbolic for the random part.',
'C19': 'Reference of set/cancel flags; waits must return true exactly if they were set in time, false not before the timeout.',
'C20': 'Texts of chosen lengths with symbolic bytes are compared character by character with what was inserted.',
'C21': 'The harness fills, drains or locks the target queue at chosen moments of virtual time and compares completion time and error with the timeout (symbolic).',
'C22': 'Reference map from names to functions; functions carry a tag and check that their captured memory is alive while they run.',
'C23': 'A creator and an opener with independent symbolic geometries; accesses are checked against the real shared memory; messages queued before must come out unchanged.',
'C24': 'Model counts and names before and after; the harness knows whether the target runs.',
'C25': 'Every operation is called in a catch-all that fails the check; terminate and uncaught exceptions in threads are errors of the engine.',
'C26': 'Every instance counts its executions per function and answers with its own tag; after each call exactly the named one may have counted, and result or failure must fit.',
'C28': 'Each thread checks the result of its own operation; afterwards the outstanding call, the registry and further calls. Data races and deadlocks are errors of the engine.',
'C29': 'Reference state of the source before the move; everything observable is compared on the destination, calls in flight must complete once with their value, and the model counts and the heap return to their start.',
'C27': 'The counters of the model and of the heap after every round; a counter that rises in two equal rounds after the warm-up is growth. The events themselves are checked for their result.'}
props = [json.loads(l) for l in open('properties.jsonl')]; t = ''
for p in props:
    i = p['id']; P = spec.PROPS[i]; src = sorted(set(c['src'] for c in P['cases']))
    t += '### %s %s\n\n%s\n\n* harness: %s (cases %s)\n* bounds: %s\n* outside: %s\n* why tests cannot: %s\n\n' % (i, p['title'], D[i], ', '.join('`harness/%s`' % s for s in src), ', '.join(c['name'] for c in P['cases']) if len(P['cases']) < 16 else '%d cases' % len(P['cases']), P['bounds'], P['outside'], p['why_tests_cant'])
s = ''; R = json.load(open('seeded/results.json')) if os.path.exists('seeded/results.json') else {}
for d in sorted(os.listdir('seeded')):
    f = 'seeded/%s/meta.json' % d
    if os.path.exists(f):
        m = json.load(open(f)); s += '| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), R.get(d, 'not run'))
s = ('Written from the statements alone, each confirmed in a scratch copy (builds, passes the tests, its demonstration fails with it and passes without).\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n' + s) if s else 'See seeded/.\n'
open('DESIGN.md', 'w').write(open('design.in').read().replace('%NPROPS%', str(len(props))).replace('%TABLE%', t.rstrip()).replace('%SEEDS%', s.rstrip()))
