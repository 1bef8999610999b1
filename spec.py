DEFS = ['-DVEIGAR_DISPATCHER_THREAD_NUMBER=1', '-DVEIGAR_SEND_CALL_THREAD_NUMBER=1', '-DVEIGAR_SEND_RESPONSE_THREAD_NUMBER=1']
LOG = '_ZN6veigar3logEPKcz'
STUBS = [LOG]
ASSUMPTIONS = []
NA = {}
def case(name, src, n=0, params=None, thorough=None, **k):
    p = {'case': n}; p.update(params or {}); d = {'name': name, 'src': src, 'params': p, 'thorough': thorough or {}}; d.update(k); return d
PROPS = {
'C01': {'cases': [
  case('seq', 'mq.cpp', 0, {'max': 3, 'ops': 4}, {'ops': 5}), case('seq-any-capacity', 'mq.cpp', 0, {'max': 0, 'ops': 3}, {'ops': 4})]},
'C02': {'cases': [
  case('geometry', 'mq.cpp', 1, samples=0), case('invalid', 'mq.cpp', 2)]},
'C04': {'cases': [case('sem-deadline', 'sync.cpp', 0, {'which': 0}), case('lock-deadline', 'sync.cpp', 0, {'which': 1}), case('read-deadline', 'sync.cpp', 0, {'which': 2}), case('arrival', 'sync.cpp', 1), case('plain', 'sync.cpp', 2), case('handles', 'sync.cpp', 3)]},
'C19': {'cases': [case('deadline', 'sync.cpp', 10), case('state', 'sync.cpp', 11), case('wake', 'sync.cpp', 12), case('pattern', 'sync.cpp', 13)]},
}
PROPS['C09'] = {'cases': [case('sig%d' % i, 'fidelity.cpp', i) for i in range(14)] + [case('two%d' % i, 'fidelity.cpp', i, {'two': 1}) for i in (0, 3, 9, 12)] + [case('errors', 'fidelity.cpp', 20), case('keeps', 'fidelity.cpp', 21, reach=['done'])]}
def w(name, how, k=1, n=0, th=None, **kw):
    p = {'how': how, 'k': k}; only = kw.pop('thorough_only', False); p.update(kw); d = case(name, 'wire.cpp', n, p, th, samples=4)
    if only: d['thorough_only'] = True
    return d
PROPS['C10'] = {'cases': [w('bytes', 0, 2, th={'k': 3}), w('replace1', 1), w('replace2', 1, 2, thorough_only=True), w('cut', 2, prior=1), w('tail', 3, 1, th={'k': 2}), w('insert', 4), w('erase', 5), w('elements', 7, 2, th={'k': 3}), w('elements-only', 7, header=0), w('elements-noarg', 7, 2, args=0), w('elements-noarg-only', 7, header=0, args=0), w('replace-noarg', 1, args=0)] + [w('biglen%d' % i, 6, kind=i, th={'dense': 1}) for i in range(5)]}
PROPS['C10']['cases'] += [case('composite', 'wire.cpp', 3, reach=['refused', 'still a call', 'next ok'], samples=4)]
PROPS['C11'] = {'cases': [w('bytes', 0, 2, 1, th={'k': 3}), w('replace1', 1, 1, 1), w('replace2', 1, 2, 1, thorough_only=True), w('cut', 2, 1, 1), w('tail', 3, 1, 1, th={'k': 2}), *[w('biglen%d' % i, 6, 1, 1, kind=i, th={'dense': 1}) for i in range(5)], w('elements', 7, 1, 1), w('answer-elements', 7, 1, 1, real=1, th={'k': 2}), w('answer-elements-cb', 7, 1, 1, real=1, cb=1), w('answer-elements-only', 7, 1, 1, real=1, header=0), w('answer-replace', 1, 1, 1, real=1), w('answer-cut', 2, 1, 1, real=1), w('answer-tail', 3, 1, 1, real=1), w('answer-replace-cb', 1, 1, 1, real=1, cb=1), w('bytes-cb', 0, 1, 1, cb=1)]}
PROPS['C03'] = {'cases': [case('room-back', 'mq.cpp', 3, {'max': 3, 'ops': 3}, {'ops': 4}, samples=0, reach=['full size', 'full count', 'fits', 'never fits']), case('room-back2', 'mq.cpp', 3, {'max': 2, 'ops': 4}, {'ops': 5}, samples=0), case('seq', 'mq.cpp', 0, {'max': 3, 'ops': 3}, {'ops': 4}), case('long', 'mq.cpp', 4, {'steps': 5}, {'steps': 6}, samples=0)]}
D2 = ['-DVEIGAR_DISPATCHER_THREAD_NUMBER=2', '-DVEIGAR_SEND_CALL_THREAD_NUMBER=2', '-DVEIGAR_SEND_RESPONSE_THREAD_NUMBER=2']
TS = DEFS + ['TSAN']; TS2 = D2 + ['TSAN']
PROPS['C08'] = {'cases': [case('order', 'match.cpp', 0, {'n': 3, 'k': 3}, {'k': 4}, reach=['answered', 'done']), case('order-cb', 'match.cpp', 0, {'n': 2, 'k': 3, 'cbmask': 3}, {'k': 4}, reach=['answered']), case('released', 'match.cpp', 0, {'n': 2, 'k': 2, 'cbmask': 0, 'release': 1}, {'k': 3}, reach=['done']), case('instant', 'match.cpp', 1, {'preempt': 2, 'mask': 71}, {'preempt': 3}, reach=['done']), case('instant2', 'match.cpp', 1, {'preempt': 2, 'mask': 65}, {'preempt': 3}, defs=D2, reach=['done']), case('crowd', 'match.cpp', 2, {'preempt': 2, 'mask': 65}, {'preempt': 3}, reach=['done']), case('crowd2', 'match.cpp', 2, {'preempt': 1, 'mode': 1}, {'preempt': 2}, defs=D2, reach=['done'])]}
PROPS['C07'] = {'cases': [case('causes', 'complete.cpp', 0, reach=['ok', 'failed', 'error', 'done'])]
 + [case('shutdown-' + nm, 'complete.cpp', 1, {'preempt': 2, 'n': 1, 'kinds': k, 'mask': 3, 'whens': 5}, {'preempt': 2, 'whens': 9, 'mask': 71}, reach=['answered', 'failed', 'done']) for nm, k in (('promise', 0), ('callback', 1), ('sync', 2))]
 + [case('shutdown-two', 'complete.cpp', 1, {'preempt': 1, 'kinds': 3}, {'preempt': 2}, reach=['answered', 'failed', 'done']), case('shutdown-two-sync', 'complete.cpp', 1, {'preempt': 1, 'kinds': 5}, {'preempt': 2}, reach=['answered', 'failed', 'done']), case('shutdown-silent', 'complete.cpp', 1, {'preempt': 1, 'kinds': 3, 'answer': 0}, {'preempt': 2}, reach=['failed', 'done']), case('shutdown-full', 'complete.cpp', 1, {'preempt': 1, 'kinds': 3, 'answer': 0, 'cap': 1}, {'preempt': 2}, reach=['failed', 'done']), case('shutdown2', 'complete.cpp', 1, {'preempt': 1, 'kinds': 3}, {'preempt': 2}, defs=D2, reach=['answered', 'failed', 'done']), case('reentrant', 'complete.cpp', 2, {'preempt': 1}, {'preempt': 2}), case('duplicates', 'complete.cpp', 3, {'preempt': 1, 'k': 3}, {'preempt': 2, 'k': 4}, reach=['done']), case('duplicates2', 'complete.cpp', 3, {'preempt': 1, 'k': 3}, {'preempt': 2}, defs=D2, reach=['done'])]}
PROPS['C05'] = {'cases': [case('holders', 'traffic.cpp', 0, {'preempt': 1}, {'preempt': 2}, reach=['done']), case('holders-two', 'traffic.cpp', 0, {'preempt': 0, 'two': 1, 'n': 3}, {'preempt': 1}, reach=['done']), case('holders2', 'traffic.cpp', 0, {'preempt': 0}, {'preempt': 1}, defs=D2, reach=['done']), case('errors', 'traffic.cpp', 1, {'n': 2}, {'n': 3}, reach=['done']), case('errors-preempt', 'traffic.cpp', 1, {'n': 1, 'preempt': 1}, {'preempt': 2}, reach=['done']), case('memory', 'traffic.cpp', 6, reach=['failed', 'done']), case('memory-resp', 'traffic.cpp', 6, {'resp': 1}, reach=['failed', 'done']), case('contended', 'traffic.cpp', 2, {'preempt': 2}, {'preempt': 3}, reach=['done']), case('contended2', 'traffic.cpp', 2, {'preempt': 1, 'cap': 2}, {'preempt': 2}, defs=D2, reach=['done']), case('full-locked', 'traffic.cpp', 7, {'preempt': 1}, {'preempt': 2}, reach=['delivered', 'given up', 'done']), case('full-locked-resp', 'traffic.cpp', 7, {'preempt': 1, 'resp': 1}, {'preempt': 2}, reach=['delivered', 'done'])]}
PROPS['C06'] = {'cases': [case('calls', 'traffic.cpp', 3, {'preempt': 1}, {'preempt': 2}, reach=['done']), case('calls2', 'traffic.cpp', 3, {'preempt': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('responses', 'traffic.cpp', 3, {'preempt': 1, 'resp': 1}, {'preempt': 2}, reach=['done']), case('responses2', 'traffic.cpp', 3, {'preempt': 1, 'resp': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('stalls', 'traffic.cpp', 3, {'preempt': 2, 'stall': 1, 'hold': 0, 'k': 3}, {'preempt': 3}, reach=['done']), case('path', 'traffic.cpp', 4, {'preempt': 2, 'stall': 0, 'mask': 1}, {'preempt': 2, 'mask': 3}, reach=['done']), case('path-stall', 'traffic.cpp', 4, {'preempt': 2, 'stall': 1, 'mask': 1}, {'preempt': 3}, reach=['done']), case('path-gap', 'traffic.cpp', 4, {'preempt': 1, 'stall': 1, 'mask': 67, 'gap': 20}, {'preempt': 2}, reach=['done']), case('path-two', 'traffic.cpp', 4, {'preempt': 2, 'stall': 0, 'mask': 2}, {'preempt': 2, 'mask': 67}, reach=['done']), case('sizes', 'traffic.cpp', 5, reach=['done']), case('memory', 'traffic.cpp', 6, reach=['failed', 'done']), case('memory-resp', 'traffic.cpp', 6, {'resp': 1}, reach=['failed', 'done'])]}
PROPS['C12'] = {'cases': [case('rt%d' % i, 'codec.cpp', i, reach=['done'], samples=3) for i in list(range(17)) + [20, 21, 22, 23, 24] + list(range(30, 73))]}
PROPS['C13'] = {'cases': [case('to%d' % i, 'codec.cpp', 100 + i, reach=['done'], samples=3) for i in range(43)] + [case('nested%d' % i, 'codec.cpp', 200 + i, reach=['done'], samples=3) for i in range(12)] + [case('outer%d' % i, 'codec.cpp', 220 + i, reach=['done'], samples=3) for i in range(12)] + [case('value%d' % i, 'codec.cpp', 240 + i, reach=['done'], samples=3) for i in range(14)] + [case('variant', 'codec.cpp', 303, reach=['done'], samples=3)] + [case('time', 'codec.cpp', 300, reach=['done'], samples=3)]}
PROPS['C14'] = {'cases': [case('bytes%d' % i, 'codec.cpp', 1000, {'n': i}, samples=3) for i in (0, 1, 2)] + [case('bytes3-%d' % r, 'codec.cpp', 1000, {'n': 3, 'route': r}, samples=3) for r in range(6)] + [case('bytes4', 'codec.cpp', 1000, {'n': 4}, thorough_only=True)] + [case('len32-%d' % i, 'codec.cpp', 1001, {'n': 2, 'kind': i}, {'n': 3, 'dense': 1}, samples=3) for i in range(5)] + [case('len16', 'codec.cpp', 1002, {'n': 2}, {'n': 3}, samples=3), case('nested', 'codec.cpp', 1003, {'n': 2}, {'n': 3}, samples=3), case('deep', 'codec.cpp', 1004, {'n': 1}, samples=3), case('deep-map', 'codec.cpp', 1004, {'n': 1, 'map': 1}, samples=3), case('fixed', 'codec.cpp', 1005, {'n': 1}, {'n': 2}, samples=3), case('bytes2-chunk', 'codec.cpp', 1000, {'n': 2, 'route': 5, 'chunk': 32}, samples=3), case('limits', 'codec.cpp', 302, reach=['object', 'refused', 'done'], samples=3), case('stream', 'codec.cpp', 301, {'n': 2}, {'n': 3}, reach=['object', 'malformed', 'done'], samples=3), case('stream-grow', 'codec.cpp', 301, {'n': 2, 'buffer': 1}, reach=['object', 'done'], samples=3)]}
PROPS['C15'] = {'cases': [case('shm', 'acquire.cpp', 0, {'ops': 4}, {'ops': 5, 'faults': 2}, reach=['created', 'create failed', 'opened', 'open failed', 'closed', 'done']), case('queue', 'acquire.cpp', 1, {'ops': 4}, {'ops': 5, 'faults': 2}, reach=['created', 'create failed', 'opened', 'open failed', 'closed', 'done']), case('shm3', 'acquire.cpp', 0, {'ops': 4, 'handles': 3, 'faults': 0}, {'ops': 5}, reach=['done']), case('rollback', 'acquire.cpp', 2, reach=['failed', 'twice', 'done']), case('partial', 'acquire.cpp', 3, reach=['done'])]}
PROPS['C24'] = {'cases': [case('probe', 'acquire.cpp', 3, reach=['done']), case('come-and-go', 'absent.cpp', 0, {'k': 5}, {'k': 7}, reach=['reached', 'absent', 'done']), case('leftovers', 'absent.cpp', 1, reach=['reached', 'absent', 'done']), case('starting', 'absent.cpp', 2, {'preempt': 2}, {'preempt': 3}, reach=['completed', 'done']), case('stopping', 'absent.cpp', 2, {'preempt': 1, 'stop': 1}, {'preempt': 2}, reach=['completed', 'done'])]}
PROPS['C16'] = {'cases': [case('history', 'lifecycle.cpp', 0, {'k': 4}, {'k': 5}, reach=['started', 'stopped', 'done']), case('history-faults', 'lifecycle.cpp', 0, {'k': 2, 'faults': 1}, {'k': 3, 'faults': 2}, reach=['failed', 'done']), case('failing-start', 'lifecycle.cpp', 1, {'faults': 2}, {'faults': 3}, reach=['failed', 'done']), case('failing-start2', 'lifecycle.cpp', 1, {'faults': 1}, {'faults': 2}, defs=D2, reach=['failed', 'done'])]
 + [case('traffic-%s%d' % (n, w), 'lifecycle.cpp', 2, {'kind': k, 'who': w, 'preempt': 1}, {'preempt': 2}, reach=['done']) for n, k in (('promise', 0), ('callback', 1), ('slow', 2), ('both', 3)) for w in (0, 1)]
 + [case('traffic2-both', 'lifecycle.cpp', 2, {'kind': 3, 'preempt': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('blocked', 'lifecycle.cpp', 3, {'preempt': 0}, {'preempt': 1}, reach=['done']), case('blocked2', 'lifecycle.cpp', 3, {'preempt': 0}, {'preempt': 1}, defs=D2, reach=['done'])]}
def cr(name, th=None, reach=(), **kw): return case(name, 'crash.cpp', 0, kw, th, reach=list(reach) + ['done'])
T17 = {'preempt': 2}
PROPS['C17'] = {'cases': [cr('start', T17, early=1, n=1, preempt=1, reach=['while starting']), cr('serve', T17, dead=1, n=2, preempt=1, reach=['in service']), cr('close', T17, close=1, dead=1, serve=5, n=1, early=1, preempt=1, reach=['while closing']), cr('caller', T17, calls=2, n=1, third=1, preempt=1, reach=['in service']), cr('close-caller', T17, calls=1, n=1, third=1, close=1, serve=1, preempt=1, reach=['while closing']), case('peer-lock', 'crash.cpp', 0, {'peerlock': 1, 'n': 1, 'calls': 1})]}
PROPS['C23'] = {'cases': [case('pairs%d' % m, 'geometry.cpp', 0, {'k': 2, 'm1': m}, {'k': 3, 'm2max': 9}, reach=['equal', 'opened', 'refused', 'done']) for m in (1, 2, 3)] + [case('pairs-full%d-%d' % (m, e), 'geometry.cpp', 0, {'k': 1, 'small': 0, 'm1': m, 'e1': e, 'consume': 0}, {'consume': 1}, reach=['equal', 'refused', 'done'], samples=0, thorough_only=m > 1) for m, e in ((1, 7), (2, 5), (3, 64))] + [case('samesize%d' % m, 'geometry.cpp', 0, {'k': 1, 'samesize': 1, 'm1': m}, {'k': 2, 'm2max': 9}, reach=['refused', 'done']) for m in (1, 2, 3)] + [case('foreign', 'geometry.cpp', 1, reach=['small', 'done']), case('instances', 'geometry.cpp', 2, {'n': 3}, {'n': 4}, reach=['answered', 'refused', 'done'])]}
PROPS['C18'] = {'cases': [case('names', 'callid.cpp', 0, {'len': 3}, {'len': 5}, reach=['done']), case('names-late', 'callid.cpp', 0, {'len': 3, 'skip': 10}, {'len': 4}, reach=['done']), case('names-later', 'callid.cpp', 0, {'len': 4, 'skip': 110}, {'len': 5, 'skip': 1001}, reach=['done'], thorough_only=True), case('far-apart', 'callid.cpp', 5, {}, {'fars': 3}, reach=['done']), case('wire', 'callid.cpp', 1, {'n': 3}, {'n': 5}, reach=['done']), case('restarts', 'callid.cpp', 2, reach=['done']), case('random', 'callid.cpp', 3, reach=['done']), case('start-random', 'callid.cpp', 6, reach=['done']), case('threads', 'callid.cpp', 4, {'preempt': 2}, {'preempt': 3}, reach=['done']), case('threads-atomic', 'callid.cpp', 4, {'preempt': 2, 'mask': 130, 'race': 1}, {'preempt': 3}, reach=['done'], defs=TS)]}
PROPS['C20'] = {'cases': [case('narrow', 'format.cpp', 0, reach=['done'], stubs=[]), case('narrow-near', 'format.cpp', 0, {'near': 12}, {'near': 2000}, reach=['done'], stubs=[]), case('wide', 'format.cpp', 1, reach=['done'], stubs=[]), case('wide-near', 'format.cpp', 1, {'near': 12}, {'near': 2000}, reach=['done'], stubs=[]), case('log', 'format.cpp', 2, reach=['done'], stubs=[]), case('errors', 'format.cpp', 3, reach=['threw', 'unknown', 'done'])]}
PROPS['C21'] = {'cases': [case('full', 'timeout.cpp', 0, {}, {'wait': 200}, reach=['timed out', 'delivered', 'done']), case('locked', 'timeout.cpp', 1, reach=['timed out', 'delivered', 'done']), case('slow', 'timeout.cpp', 2, {'preempt': 1}, {'preempt': 2, 'n': 5}, reach=['done']), case('answers', 'timeout.cpp', 3, reach=['delivered', 'given up', 'done'])]}
PROPS['C22'] = {'cases': [case('history', 'registry.cpp', 0, {'k': 3}, {'k': 4}, reach=['done']), case('distinct', 'registry.cpp', 1, {}, {'n': 4}, reach=['same', 'different', 'done']), case('kinds', 'registry.cpp', 2, reach=['done']), case('during-self', 'registry.cpp', 3, {'self': 1, 'preempt': 1}, {'preempt': 2}, reach=['done']), case('during', 'registry.cpp', 3, {'preempt': 1}, {'preempt': 2}, reach=['done']), case('during2', 'registry.cpp', 3, {'preempt': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('during2-self', 'registry.cpp', 3, {'self': 1, 'preempt': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('race', 'registry.cpp', 4, reach=['done']), case('busy', 'registry.cpp', 5, reach=['done']), case('busy2', 'registry.cpp', 5, {'two': 1}, defs=D2, reach=['done'])]}
PROPS['C09']['cases'] += [case('nested', 'registry.cpp', 6, {'preempt': 1}, {'preempt': 2}, reach=['done']), case('nested-self', 'registry.cpp', 6, {'self': 1, 'preempt': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('at-once', 'registry.cpp', 7, {'preempt': 1}, {'preempt': 2}, defs=D2, reach=['at once', 'done'])]
PROPS['C25'] = {'cases': [case('throwers', 'nothrow.cpp', 0, reach=['done']), case('odd', 'nothrow.cpp', 1, reach=['done']), case('bombs', 'nothrow.cpp', 5, reach=['done']), case('memory', 'nothrow.cpp', 2, reach=['failed', 'no failure', 'done']), case('starting', 'nothrow.cpp', 3, {'faults': 1}, {'faults': 2}, reach=['done']), case('start-memory', 'nothrow.cpp', 4, reach=['failed', 'no failure', 'done']), case('start-memory2', 'nothrow.cpp', 4, defs=D2, reach=['failed', 'no failure', 'done'])]}
PROPS['C27'] = {'cases': [case('rounds', 'steady.cpp', 0, {'warm': 4, 'more': 3, 'pair': 1}, {'more': 12}, reach=['done']), case('rounds2', 'steady.cpp', 0, {'warm': 5, 'more': 4, 'pair': 1}, {'more': 10}, defs=D2, reach=['done'])]}
PROPS['C26'] = {'cases': [case('names', 'routing.cpp', 0, {'n': 2, 'k': 1}, {'n': 3}, reach=['done']), case('odd', 'routing.cpp', 0, {'k': 0}, {'k': 1}, reach=['done']), case('sequences', 'routing.cpp', 0, {'n': 1, 'k': 2}, {'k': 3, 'froms': 1}, reach=['done']), case('crossing', 'routing.cpp', 1, {'preempt': 1}, {'preempt': 2}, reach=['done']), case('crossing-warm', 'routing.cpp', 1, {'preempt': 1, 'warm': 1}, {'preempt': 2}, defs=D2, reach=['done']), case('crossing-all', 'routing.cpp', 1, {'preempt': 1, 'all': 1}, {'preempt': 2}, reach=['done'])]}
PROPS['C29'] = {'cases': [case('moving', 'move.cpp', 0, {'preempt': 0}, {'preempt': 1}, reach=['done']), case('busy', 'move.cpp', 0, {'busy': 1, 'preempt': 1}, {'preempt': 2}, reach=['done']), case('busy2', 'move.cpp', 0, {'busy': 1, 'preempt': 0}, {'preempt': 1}, defs=D2, reach=['done'])]}
PROPS['C28'] = {'cases': [case('pairs-%d' % i, 'threads.cpp', 0, {'preempt': 1, 'from': i, 'to': i + 4}, {'preempt': 2}, reach=['done']) for i in range(0, 16, 4)]}
def ra(p, name, src, n, params=None, th=None, defs=None, **k): # data races and preemption at atomic operations
    q = {'race': 1, 'preempt': 1, 'mask': 130}; q.update(params or {}); PROPS[p]['cases'].append(case(name, src, n, q, th if th is not None else {'preempt': 2}, defs=defs or TS, **dict({'reach': ['done']}, **k)))
ra('C09', 'race-at-once', 'registry.cpp', 7, {'preempt': 0}, {'preempt': 1}, defs=TS2, reach=['at once', 'done'])
ra('C22', 'race-during', 'registry.cpp', 3)
ra('C22', 'race-during2', 'registry.cpp', 3, {'self': 1}, defs=TS2)
ra('C22', 'race-names', 'registry.cpp', 4)
ra('C16', 'race-promise', 'lifecycle.cpp', 2, {'kind': 0, 'who': 0})
ra('C16', 'race-both', 'lifecycle.cpp', 2, {'kind': 3, 'who': 0}, defs=TS2)
ra('C16', 'race-callee', 'lifecycle.cpp', 2, {'kind': 3, 'who': 1})
ra('C07', 'race-shutdown', 'complete.cpp', 1, {'n': 1, 'kinds': 1, 'whens': 3})
ra('C07', 'race-shutdown2', 'complete.cpp', 1, {'kinds': 3, 'whens': 3}, defs=TS2)
PROPS['C07']['cases'] += [case('not-running', 'complete.cpp', 5, reach=['done']), case('at-shutdown', 'complete.cpp', 4, {'preempt': 1}, {'preempt': 2}, reach=['done'])]
ra('C08', 'race-crowd', 'match.cpp', 2)
ra('C08', 'race-crowd2', 'match.cpp', 2, {'mode': 1}, defs=TS2)
ra('C08', 'race-instant', 'match.cpp', 1)
ra('C05', 'race-contended', 'traffic.cpp', 2, {'mask': 131})
ra('C05', 'race-contended2', 'traffic.cpp', 2, {'cap': 2, 'mask': 131}, defs=TS2)
ra('C06', 'race-path', 'traffic.cpp', 4, {'stall': 0, 'mask': 131})
ra('C19', 'race-wake', 'sync.cpp', 12, reach=[])
ra('C24', 'starting-atomic', 'absent.cpp', 2, {'race': 0})
ra('C26', 'race-crossing2', 'routing.cpp', 1, {}, defs=TS2)
ra('C29', 'race-moving', 'move.cpp', 0, {'busy': 1, 'preempt': 0}, {'preempt': 1})
for _i in range(0, 16, 4): ra('C28', 'race-pairs-%d' % _i, 'threads.cpp', 0, {'from': _i, 'to': _i + 4, 'preempt': 1}, {'preempt': 2}); ra('C28', 'race2-pairs-%d' % _i, 'threads.cpp', 0, {'n': 3, 'from': _i, 'to': _i + 4, 'preempt': 0}, {'n': 2, 'preempt': 1}, defs=TS2)
import bounds as _b
for _k in PROPS: PROPS[_k]['bounds'], PROPS[_k]['outside'] = _b.B[_k]
