#!/usr/bin/env python3
"""Decide one property of /repo: build the harnesses against the current tree, execute them symbolically with
vsym, replay what it finds on the natively compiled code, write evidence/<id>.json.
usage: check.py <property> [--tier quick|thorough] [--case NAME] [-v]"""
import sys, os, json, subprocess, hashlib, time, shutil, tempfile, re, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VS_REPO', '/repo')
sys.path.insert(0, HERE)
import spec
BUILD = os.path.join(HERE, 'build'); VSYM = os.path.join(BUILD, 'vsym'); NCPU = max(2, min(8, os.cpu_count() or 2))
COMMON = ['-std=c++17', '-DNDEBUG', '-DVEIGAR_STATIC', '-I' + REPO + '/include', '-iquote', REPO + '/src', '-iquote', REPO, '-iquote', HERE + '/models', '-w']
SYM = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_FORTIFY_SOURCE=0', '-gline-tables-only', '-c', '-emit-llvm']
NAT = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVS_NATIVE', '-DVS_ASAN', '-c']

# instrumented mode: atomic operations and memory accesses of the code under test become calls (models/env.cpp, native.cpp, engine)
TSAN = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_FORTIFY_SOURCE=0', '-gline-tables-only', '-c', '-emit-llvm', '-fsanitize=thread', '-fsanitize-ignorelist=' + HERE + '/models/ignorelist.txt', '-mllvm', '-tsan-instrument-func-entry-exit=0']
def log(*a): print(*a, flush=True)
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', **k)

def ensure_engine():
    src = [HERE + '/engine/' + f for f in ('vsym.cpp', 'expr.cpp', 'expr.h', 'race.h')]
    if os.path.exists(VSYM) and all(os.path.getmtime(VSYM) >= os.path.getmtime(s) for s in src): return
    r = sh(['bash', HERE + '/engine/build.sh', BUILD])
    if r.returncode or not os.path.exists(VSYM): log(r.stdout); sys.exit(3)

def tree_hash():
    h = hashlib.sha256()
    for top in (REPO + '/src', REPO + '/include', HERE + '/models', HERE + '/harness'):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

class Builder:
    def __init__(s, work): s.work = work; s.cache = {}; s.pool = ThreadPoolExecutor(NCPU); s.failed = None; s.lock = __import__('threading').Lock()
    def compile(s, src, kind, defs, now=False):
        if now: return s._compile(src, kind, defs)
        key = (src, kind, tuple(defs))
        with s.lock:
            if key in s.cache: return s.cache[key]
            f = s.pool.submit(s._compile, src, kind, defs); s.cache[key] = f; return f
    def _compile(s, src, kind, defs):
        name = hashlib.sha256(repr((src, kind, defs)).encode()).hexdigest()[:16]; out = os.path.join(s.work, name + ('.o' if kind in ('nat', 'natp', 'tnat') else '.bc'))
        if os.path.exists(out): return out
        tmp = out + '.tmp%d_%d' % (os.getpid(), __import__('threading').get_ident())
        if kind == 'nat': cmd = ['g++'] + COMMON + NAT + defs + [src, '-o', tmp]
        elif kind == 'natp': cmd = ['clang++'] + COMMON + ['-O1', '-g1', '-DVS_NATIVE', '-c', src, '-o', tmp]
        elif kind == 'tsym': cmd = ['clang++'] + COMMON + TSAN + defs + [src, '-o', tmp]
        elif kind == 'tnat': cmd = ['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-x', 'ir', '-c', s.compile(src, 'tsym', defs, True), '-o', tmp]   # the very code that is executed symbolically
        elif kind == 'rt': cmd = ['clang++', '-fno-builtin'] + COMMON + SYM + [src, '-o', tmp]
        else: cmd = ['clang++'] + COMMON + SYM + defs + [src, '-o', tmp]
        r = sh(cmd)
        if r.returncode: raise RuntimeError('compile failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
        os.rename(tmp, out); return out
    def srcs(s): return sorted(glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/*.cc'))
    def bitcode(s, harness, defs):
        if 'TSAN' in defs: d = [x for x in defs if x != 'TSAN']; return [s.compile(f, 'tsym', d) for f in s.srcs() + [HERE + '/harness/' + harness]] + [s.compile(HERE + '/models/env.cpp', 'rt', []), s.compile(HERE + '/models/rt_libcxx.cpp', 'rt', [])]
        fs = [s.compile(HERE + '/harness/' + harness, 'sym', defs)] + [s.compile(f, 'sym', defs) for f in s.srcs()] + [s.compile(HERE + '/models/env.cpp', 'rt', []), s.compile(HERE + '/models/rt_libcxx.cpp', 'rt', [])]
        return fs
    def native(s, harness, defs):
        if 'TSAN' in defs: d = [x for x in defs if x != 'TSAN']; return [s.compile(f, 'tnat', d) for f in s.srcs() + [HERE + '/harness/' + harness]] + [s.compile(HERE + '/models/' + f, 'natp', []) for f in ('env.cpp', 'native.cpp')]
        return [s.compile(HERE + '/harness/' + harness, 'nat', defs)] + [s.compile(f, 'nat', defs) for f in s.srcs()] + [s.compile(HERE + '/models/' + f, 'nat', []) for f in ('env.cpp', 'native.cpp')]
    def link_bc(s, harness, defs):
        fs = [f.result() for f in s.bitcode(harness, defs)]; out = os.path.join(s.work, hashlib.sha256(repr(fs).encode()).hexdigest()[:16] + '.linked.bc')
        if os.path.exists(out): return out
        r = sh(['llvm-link', '-o', out + '.tmp%d' % os.getpid()] + fs)
        if r.returncode: raise RuntimeError('llvm-link: ' + r.stdout[-3000:])
        os.rename(out + '.tmp%d' % os.getpid(), out); return out
    def link_nat(s, harness, defs):
        fs = [f.result() for f in s.native(harness, defs)]; out = os.path.join(s.work, hashlib.sha256(repr(fs).encode()).hexdigest()[:16] + '.exe')
        if os.path.exists(out): return out
        wraps = ['-Wl,--wrap=' + w for w in open(HERE + '/models/wraps.txt').read().split()]
        r = sh((['clang++'] if 'TSAN' in defs else ['g++', '-fsanitize=address']) + ['-o', out + '.tmp%d' % os.getpid()] + fs + wraps + ['-lpthread', '-lrt'])
        if r.returncode: raise RuntimeError('native link: ' + r.stdout[-3000:])
        os.rename(out + '.tmp%d' % os.getpid(), out); return out

def write_replay(path, params, inputs):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write('P %s %d\n' % (k, v))
        for i in inputs:
            i = [i[0].replace(' ', '_')] + list(i[1:])   # the reader splits at spaces
            if i[1] == 0 and isinstance(i[2], list): f.write('A %s %d %s\n' % (i[0], len(i[2]), ' '.join('%s %s' % (a, b) for a, b in i[2])))
            else: f.write('I %s %s\n' % (i[0], i[2]))

def run_native(exe, path, timeout=40):
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=1048576:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0:max_allocation_size_mb=4096')
    try: r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', env=env, timeout=timeout)
    except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
    out = r.stdout
    if r.returncode == 0: return 'ok', out
    if r.returncode == 42: return 'fail', out
    if r.returncode in (77,): return 'assume', out
    if r.returncode in (78, 79): return 'unsupported', out
    return 'crash', out

def known(prop):
    res = []
    p = HERE + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known': res.append(d)
    return res

def matches(k, e, case):
    m = k['match']
    return (('case' not in m) or re.fullmatch(m['case'], case)) and re.fullmatch(m.get('kind', '.*'), e['kind']) and re.fullmatch(m.get('id', '.*'), e['id'], re.S) and re.search(m.get('stack', ''), e['stack'])

INCONCLUSIVE = ('unmodelled',)
def main():
    args = sys.argv[1:]; prop = None; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False
    i = 0
    while i < len(args):
        if args[i] == '--tier': i += 1; tier = args[i]
        elif args[i] == '--case': i += 1; only = args[i]
        elif args[i] == '-v': verbose = True
        else: prop = args[i]
        i += 1
    if tier not in ('quick', 'thorough'): tier = 'quick'
    P = spec.PROPS[prop]; seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    ensure_engine()
    cdir = os.path.join(BUILD, 'cache'); os.makedirs(cdir, exist_ok=True); th = tree_hash(); work = os.path.join(cdir, th); os.makedirs(work, exist_ok=True); os.utime(work)
    olds = sorted((d for d in glob.glob(cdir + '/*') if d != work), key=os.path.getmtime)
    for d in olds[:-3] if not os.environ.get('VS_KEEP') else []:
        if time.time() - os.path.getmtime(d) > 3600: shutil.rmtree(d, ignore_errors=True)
    rdir = os.path.join(BUILD, 'replays', prop); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    b = Builder(work); cases = [c for c in P['cases'] if (only is None or re.search(only, c['name'])) and (tier == 'thorough' or not c.get('thorough_only'))]
    budget = P.get('time', {}).get(tier, 240 if tier == 'quick' else 1800)
    mods = {}
    for c in cases:
        d = c.get('defs', spec.DEFS); mods[(c['src'], tuple(d))] = None
    try:
        for k in list(mods): b.bitcode(k[0], list(k[1]))
        nats = {}
        for k in list(mods): b.native(k[0], list(k[1]))
        linker = ThreadPoolExecutor(4)
        bcs = {k: linker.submit(b.link_bc, k[0], list(k[1])) for k in mods}
        nats = {k: linker.submit(b.link_nat, k[0], list(k[1])) for k in mods}
        bcs = {k: f.result() for k, f in bcs.items()}
    except RuntimeError as e:
        log('ERROR', e); sys.exit(3)
    tb = time.time(); results = []
    def run(c):
        k = (c['src'], tuple(c.get('defs', spec.DEFS))); par = dict(c.get('params', {}))
        if tier == 'thorough': par.update(c.get('thorough', {}))
        name = c['name']; out = os.path.join(rdir, re.sub(r'\W', '_', name) + '.json'); left = budget - (time.time() - tb); tl = max(20, min(left, c.get('time', {}).get(tier, left)))
        cmd = [VSYM, bcs[k], '--out', out, '--time', '%d' % tl, '--repo', REPO + '/', '--solver-timeout', str(c.get('solver_timeout', 30)), '--samples', str(c.get('samples', 6)), '--seed', str(seed), '--rss', str(c.get('rss', 3500)), '--max-err', '3']
        for a, v in par.items(): cmd += ['--param', '%s=%d' % (a, v)]
        for st in c.get('stubs', spec.STUBS): cmd += ['--stub', st]
        cmd += c.get('args', [])
        if verbose: log(' '.join(cmd))
        r = sh(cmd)
        try: res = json.load(open(out))
        except Exception: res = {'status': 'crashed', 'truncated': True, 'truncReason': 'engine: ' + r.stdout[-600:], 'errors': [], 'samples': [], 'reached': [], 'functions': [], 'paths': 0}
        res['case'] = name; res['params'] = par; res['key'] = k; return res, c
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(run, sorted(cases, key=lambda c: -c.get('weight', 1))))
    try: nats = {k: f.result() for k, f in nats.items()}
    except RuntimeError as e: log('ERROR', e); sys.exit(3)
    tsym = time.time() - tb
    # ---- replay
    kn = known(prop); hit_known = set(); violations = []; unconfirmed = []; inconclusive = []; jobs = []
    def confirm(res, e, n):
        path = os.path.join(rdir, '%s_%d.replay' % (re.sub(r'\W', '_', res['case']), n)); write_replay(path, res['params'], e['inputs']); how, out = run_native(nats[res['key']], path)
        ok = how == 'crash' or how == 'timeout' or (how == 'fail' and ('VS_FAIL model:' not in out))
        return e, res, path, how, out, ok
    n = 0; groups = {}; confirmed = []
    for res, c in results:
        for e in res['errors']:
            n += 1
            if e['kind'] in INCONCLUSIVE or e['id'].startswith('model:'): inconclusive.append((res['case'], e['kind'] + ' ' + e['id'] + ' ' + e['msg'][:200])); continue
            groups.setdefault((res['case'], e['kind'], e['id']), []).append((res, e, n))
    def group(lst):  # replay until one counterexample of this kind is confirmed
        out = []
        for res, e, k in lst:
            isknown = any(matches(x, e, res['case']) for x in kn)
            if not isknown and len(confirmed) >= 4: break
            r = confirm(res, e, k); out.append(r)
            if r[5] and not isknown: confirmed.append(1); break
        return out
    with ThreadPoolExecutor(NCPU) as ex:
        fut = [ex.submit(group, g) for g in groups.values()]
        sf = []
        for res, c in results:
            for j, sm in enumerate(res['samples']): 
                def one(res=res, sm=sm, j=j):
                    path = os.path.join(rdir, 'sample_%s_%d.replay' % (re.sub(r'\W', '_', res['case']), j)); write_replay(path, res['params'], sm['inputs']); how, out = run_native(nats[res['key']], path)
                    obs = [[a, b] for a, b in re.findall(r'^OBS (\S+) (\d+)$', out, re.M)]; good = how == 'ok' and obs == [[a, str(int(v) & (2**64 - 1))] for a, v in sm['observed']]
                    if good: os.unlink(path)
                    return good, res['case'], how, obs, sm, path
                sf.append(ex.submit(one))
        conf = [x for f in fut for x in f.result()]; samp = [f.result() for f in sf]
    byid = {}
    for e, res, path, how, out, ok in conf: byid.setdefault((res['case'], e['kind'], e['id']), []).append((e, res, path, how, out, ok))
    for key, lst in byid.items():
        for e, res, path, how, out, ok in lst:
            k = next((k for k in kn if matches(k, e, res['case'])), None)
            if k: hit_known.add(k['id']); continue
            if ok: violations.append((key, e, res, path, how, out)); break
        else:
            rest = [x for x in lst if not any(matches(k, x[0], x[1]['case']) for k in kn)]
            if rest: unconfirmed.append((key, rest[0][0], rest[0][3], rest[0][4][-300:]))
    mism = [s for s in samp if not s[0]]
    # ---- report
    for k in kn:
        if k['id'] in hit_known: log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for key, e, res, path, how, out in violations:
        full = path[:-7] + '.txt'
        with open(full, 'w') as f: f.write('property %s, case %s\n%s: %s\n%s\nat %s\nstack: %s\ninputs: %s\nnative replay (%s):\n%s\nreplay file: %s\n' % (prop, res['case'], e['kind'], e['id'], e['msg'], e['loc'], e['stack'], json.dumps(e['inputs']), how, out[-4000:], path))
        log('  [%s] %s %s: %s (%s) native=%s' % (res['case'], e['kind'], e['id'], e['msg'], e['loc'], how))
        log('VIOLATION property=%s replay=%s' % (prop, full))
    want = {}
    for res, c in results:
        miss = [r for r in c.get('reach', []) if r not in res['reached']]
        if miss: log('WARNING [%s] witness not reached: %s' % (res['case'], ','.join(miss)))
        if res.get('truncated'): log('WARNING [%s] exploration incomplete: %s (%d paths)' % (res['case'], res['truncReason'], res['paths']))
    for cs, m in inconclusive: log('WARNING [%s] inconclusive: %s' % (cs, m))
    for key, e, how, out in unconfirmed: log('WARNING %s not reproduced natively (%s): %s %s' % (key, how, e['msg'], e['loc'])); 
    for s in mism: log('WARNING sample of [%s] behaves differently natively: %s %s vs %s (%s)' % (s[1], s[2], s[3][:6], s[4]['observed'][:6], s[5]))
    S = lambda f: sum(int(r.get(f, 0)) for r, c in results); fns = sorted(set(f for r, c in results for f in r['functions']))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(violations),
          'assumptions': P.get('assumptions', []) + spec.ASSUMPTIONS,
          'coverage': {'states': S('forks') + len(results), 'transitions': S('instructions'), 'traces_validated_against_impl': len(samp) - len(mism) + sum(1 for x in conf if x[5]),
            'samples': [{'case': s[1], 'inputs': s[4]['inputs'][:40], 'observed': s[4]['observed'][:20]} for s in samp if s[0]][:6] or [{'case': r['case'], 'paths': r['paths']} for r, c in results][:3],
            'paths': S('paths'), 'paths_cut_by_assumptions': S('killed'), 'assertions_evaluated': S('asserts'), 'memory_checks': S('memchecks'),
            'queries': S('queries'), 'queries_solved': S('solved'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'solver_time_s': round(sum(r.get('solverTime', 0) for r, c in results), 3), 'max_query_s': max([r.get('maxQuery', 0) for r, c in results] or [0]),
            'functions_encoded': fns, 'functions_encoded_count': len(fns), 'symbolic_wall_s': round(tsym, 2), 'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''),
            'exhaustive': not any(r.get('truncated') for r, c in results),
            'cases': [{'case': r['case'], 'params': r['params'], 'paths': r['paths'], 'truncated': r['truncReason'] if r.get('truncated') else '', 'queries': r.get('queries', 0), 'solver_s': r.get('solverTime', 0), 'wall_s': r.get('wall', 0), 'reached': r['reached'], 'instructions_covered': '%s/%s' % (r.get('repoInstrCovered'), r.get('repoInstrTotal')), 'errors': len(r['errors'])} for r, c in results],
            'known_findings_seen': sorted(hit_known), 'unconfirmed': [str(u[0]) for u in unconfirmed], 'inconclusive': [list(x) for x in inconclusive][:20], 'replay_mismatches': len(mism)}}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    tmp = HERE + '/evidence/%s.json.tmp' % prop; json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, HERE + '/evidence/%s.json' % prop)
    log('%s %s: %d cases, %d paths, %d queries (%d unsat), %d/%d samples replayed equal, %d violations, %.1fs (build %.1fs, symbolic %.1fs)' % (prop, tier, len(results), S('paths'), S('queries'), S('unsat'), len(samp) - len(mism), len(samp), len(violations), wall, tb - t0, tsym))
    sys.exit(1 if violations else 0)
main()
