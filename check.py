#!/usr/bin/env python3
"""Runner: python3 check.py <PROPERTY-ID>

For the property: rebuilds the drivers from /repo's working tree, runs them against the real code to record
histories, lets TLC decide whether every recorded history is a behaviour of the TLA+ specification, and
model-checks the specification itself.  Exit 0 / exit 1 with a VIOLATION line / any other exit = check error.
Environment: VERIF_TIER (quick|thorough), VERIF_SEED.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
HARN = os.path.join(ROOT, 'harness')
TLAJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, ROOT)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1

class CheckError(Exception): pass

def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

BASE = ['-std=c++17', '-I' + REPO + '/include', '-I' + HARN, '-mcx16', '-msse2', '-w', '-g1', '-fno-omit-frame-pointer', '-pthread']
FLAVOURS = {
    'asan':  ['-O1', '-fsanitize=address'],
    'asan0': ['-O0', '-fsanitize=address'],
    'o2':    ['-O2'],
    'o0':    ['-O0'],
    'o2ndebug': ['-O2', '-DNDEBUG'],
    # compiled with TSan call-outs, linked with our own __tsan_* runtime: every memory access is a scheduling point
    'sched': ['-O1', '-fsanitize=thread', '-DNDEBUG'],
    'scheddbg': ['-O1', '-fsanitize=thread'],
}

def build(work, name, src, flavour, extra=(), libs=(), repo_src=()):
    out = os.path.join(work, name + '.bin')
    flags = BASE + FLAVOURS[flavour] + list(extra)
    objs = []
    jobs = []
    def cc(s, fl, tag):
        o = os.path.join(work, name + '.' + tag + '.o')
        comp = 'gcc-10' if s.endswith('.c') else 'g++-10'
        f = [x for x in fl if not (comp == 'gcc-10' and x.startswith('-std='))]
        rc, so, se = sh([comp] + f + ['-c', s, '-o', o], timeout=400)
        if rc != 0: raise CheckError('compile failed: %s\n%s' % (s, se[-4000:]))
        return o
    with ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(cc, os.path.join(HARN, src), flags, 'main')]
        for i, s in enumerate(repo_src): fs.append(ex.submit(cc, os.path.join(REPO, s), flags, 'r%d' % i))
        if flavour.startswith('sched'):
            fs.append(ex.submit(cc, os.path.join(HARN, 'vpsched.cpp'), BASE + ['-O2'], 'rt'))
        objs = [f.result() for f in fs]
    link = ['g++-10', '-pthread', '-o', out] + objs
    if flavour.startswith('sched'):
        link += ['-Wl,' + ','.join('--wrap=' + s for s in ('malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'nanosleep', 'usleep', 'clock_nanosleep', 'memset', 'memcpy', 'memmove', 'malloc_usable_size', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'))]
    else:
        link += [x for x in FLAVOURS[flavour] if x.startswith('-fsanitize')]
    rc, so, se = sh(link + list(libs), timeout=200)
    if rc != 0 and 'undefined reference' in se: # code moved between the repository's source files: offer all of them
        import glob
        more = [x for x in sorted(glob.glob(os.path.join(REPO, 'bss-util', '*.c*'))) if os.path.relpath(x, REPO) not in repo_src]
        def try_cc(i):
            try: return cc(more[i], flags, 'x%d' % i)
            except CheckError: return None
        with ThreadPoolExecutor(6) as ex: extra_objs = [o for o in ex.map(try_cc, range(len(more))) if o]
        lib = os.path.join(work, name + '.a'); sh(['ar', 'crs', lib] + extra_objs, timeout=60)
        rc, so, se = sh(link + [lib] + list(libs), timeout=200)
    if rc != 0: raise CheckError('link failed: %s\n%s' % (name, se[-4000:]))
    return out

_tlc_n = [0]
_tlc_lock = threading.Lock()
def tlc(work, module, cfg, env=None, workers=4, heap='3g', timeout=800, extra=()):
    with _tlc_lock:
        _tlc_n[0] += 1
        meta = os.path.join(work, 'tlc%d' % _tlc_n[0])
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss64m', '-cp', TLAJ, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    rc, so, se = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, so, se

def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def classify(rc, out):
    """ok | reject | error"""
    if rc is None: return 'timeout'
    if rc == 0 and 'Model checking completed. No error has been found.' in out: return 'ok'
    if re.search(r'^Error: Deadlock reached\.', out, re.M) or re.search(r'^Error: Invariant \S+ is violated', out, re.M) or re.search(r'Error: Action property \S+ is violated', out): return 'reject'
    return 'error'

def last_pos(out):
    r = re.findall(r'/\\ run = (\d+)', out); l = re.findall(r'/\\ l = (\d+)', out)
    return (int(r[-1]) if r else None, int(l[-1]) if l else None)

# bounded number of JVMs at once
TLC_SLOTS = threading.Semaphore(4)

def validate(work, tag, lines, module, cfg, workers=2):
    """TLC on a list of JSON lines. Returns (verdict, run index, event index, stats, output)."""
    path = os.path.join(work, tag + '.ndjson')
    with open(path, 'w') as f: f.write('\n'.join(lines) + '\n')
    with TLC_SLOTS:
        rc, so, se = tlc(work, module, cfg, env={'TRACE': path}, workers=workers)
    v = classify(rc, so)
    run, l = last_pos(so)
    return v, run, l, stats(so), so + se

def chunked(lines, maxbytes):
    cur, n, res = [], 0, []
    for x in lines:
        if cur and n + len(x) > maxbytes: res.append(cur); cur, n = [], 0
        cur.append(x); n += len(x)
    if cur: res.append(cur)
    return res

class Result:
    def __init__(s):
        s.states = s.trans = s.traces = s.events = s.mc_states = s.mc_trans = 0
        s.samples = []; s.ops = {}; s.parts = {}; s.violation = None; s.notes = []; s.known = []

def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}

def run_part(prop, part, work, res, lock):
    name = part['name']
    t0 = time.time()
    exe = build(work, name, part['src'], part.get('flavour', 'asan'), part.get('extra', ()), part.get('libs', ()), part.get('repo_src', ()))
    tb = time.time() - t0
    shards = part.get('shards', 1)
    budget = part.get('budget', {}).get(TIER, 0)
    def one(k):
        out = os.path.join(work, '%s.%d.out' % (name, k))
        scratch = os.path.join(work, '%s.%d.dir' % (name, k)); os.makedirs(scratch, exist_ok=True)
        cmd = [exe, '--out', out, '--seed', str(SEED * 1000 + k), '--tier', TIER, '--budget', str(budget), '--part', '%d/%d' % (k, shards)] + list(part.get('args', ()))
        rc, so, se = sh(cmd, timeout=700, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        if rc is None: raise CheckError('driver %s timed out' % name)
        if rc == 3: raise CheckError('driver %s: setup problem %s' % (name, se[-500:]))
        lines = open(out, encoding='utf8', errors='replace').read().split('\n') if os.path.exists(out) else []
        lines = [x for x in lines if x]
        died = not (rc == 0 and 'VPDONE' in so)
        if died:
            good = []
            for x in lines:     # a driver that was killed by what the code under test did may leave torn lines
                try: json.loads(x); good.append(x)
                except ValueError: pass
            lines = good
            if rc != 42 or not lines or not re.search(r'"op":"(CRASH|ABORT|HANG)"', lines[-1]):
                lines.append('{"cfg":{},"ev":[{"op":"DIED","a":[],"r":[%d],"s":[]}]}' % (rc if rc is not None else -1))
        os.path.exists(out) and os.unlink(out)
        return lines, died, se
    with ThreadPoolExecutor(min(shards, 8)) as ex:
        outs = list(ex.map(one, range(shards)))
    td = time.time() - t0 - tb
    lines, seen, stderr = [], set(), ''
    for ls, died, se in outs:
        for x in ls:
            h = hashlib.blake2b(x.encode(), digest_size=12).digest()
            if h in seen: continue
            seen.add(h); lines.append(x)
        if died: stderr += se[-6000:]
    if not lines: raise CheckError('driver %s produced no traces' % name)
    ops = {}
    for x in lines:
        for o in re.findall(r'"op":"([^"]*)"', x): ops[o] = ops.get(o, 0) + 1
    spec = part['spec']; cfg = part.get('cfg', spec + '.cfg')
    chunks = chunked(lines, part.get('chunk', 6_000_000))
    # runs that end in a crash first: they are certain rejections
    def val(ix):
        return validate(work, '%s.t%d' % (name, ix), chunks[ix], spec, cfg)
    with ThreadPoolExecutor(4) as ex:
        vs = list(ex.map(val, range(len(chunks))))
    st = tr = 0
    for ix, (v, run, l, (g, d), out) in enumerate(vs):
        st += d; tr += g
        if v == 'ok': continue
        if v == 'reject' and run is not None:
            bad = chunks[ix][run - 1]
            v2, _, l2, _, out2 = validate(work, '%s.again%d' % (name, ix), [bad], spec, cfg)
            if v2 != 'reject': raise CheckError('rejection of %s not repeated\n%s' % (name, out2[-3000:]))
            with lock:
                if res.violation is None:
                    rp = os.path.join(ROOT, 'build', 'replay'); os.makedirs(rp, exist_ok=True)
                    path = os.path.join(rp, '%s-%s.json' % (prop, name))
                    obj = json.loads(bad)
                    with open(path, 'w') as f:
                        json.dump({'property': prop, 'part': name, 'spec': 'spec/%s.tla' % spec, 'seed': SEED, 'tier': TIER,
                                   'rejected_event_index': l, 'rejected_event': (obj['ev'][l - 1] if l and l <= len(obj['ev']) else None),
                                   'run': obj, 'driver_stderr': stderr, 'tlc': out[-6000:],
                                   'how': 'driver harness/%s built against /repo, seed %d; TRACE=<file with this run on one line> tlc -config spec/%s spec/%s.tla' % (part['src'], SEED, cfg, spec)}, f, indent=1)
                    res.violation = (path, '%s: event %s of run: %s' % (name, l, json.dumps(obj['ev'][l - 1])[:300] if l and l <= len(obj['ev']) else '?'))
            continue
        raise CheckError('TLC could not decide %s (%s)\n%s' % (name, v, out[-6000:]))
    with lock:
        res.states += st; res.trans += tr; res.traces += len(lines)
        for k, n in ops.items(): res.ops[name + '.' + k] = n; res.events += n
        res.parts[name] = dict(runs=len(lines), events=sum(ops.values()), tlc_states=st, build_s=round(tb, 1), drive_s=round(td, 1), total_s=round(time.time() - t0, 1), spec=spec + '.tla')
        s = lines[len(lines) // 2]
        res.samples.append({'part': name, 'run': s if len(s) < 1500 else s[:1500] + '...'})

def run_mc(m, work, res, lock):
    if TIER not in m.get('tiers', ('quick', 'thorough')): return
    with TLC_SLOTS:
        rc, so, se = tlc(work, m['module'], m['cfg'], workers=m.get('workers', 4), heap=m.get('heap', '4g'), timeout=m.get('timeout', 600), extra=m.get('tlcargs', ()))
    v = classify(rc, so)
    g, d = stats(so)
    if v != m.get('expect', 'ok'): raise CheckError('model %s/%s: %s\n%s' % (m['module'], m['cfg'], v, (so + se)[-4000:]))
    with lock:
        res.mc_states += d; res.mc_trans += g
        res.parts['model:' + m['cfg']] = dict(states=d, transitions=g)

def main():
    prop = sys.argv[1]
    from registry import PROPS
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(ROOT, 'build', 'work-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    res = Result(); lock = threading.Lock()
    only = os.environ.get('VP_PART')
    errs = []
    try:
        parts = [p for p in cfg['parts'] if (not only or p['name'] == only) and TIER in p.get('tiers', ('quick', 'thorough'))]
        mcs = [] if only else cfg.get('models', [])
        def guard(fn, *a):
            try: fn(*a)
            except CheckError as e: errs.append(str(e))
            except Exception as e:
                import traceback; errs.append(traceback.format_exc())
        with ThreadPoolExecutor(6) as ex:
            fs = [ex.submit(guard, run_part, prop, p, work, res, lock) for p in parts] + [ex.submit(guard, run_mc, m, work, res, lock) for m in mcs]
            for f in fs: f.result()
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': cfg.get('level', 'model_checking'),
          'coverage': {'states': res.states + res.mc_states, 'transitions': res.trans + res.mc_trans, 'traces_validated_against_impl': res.traces,
                       'events_checked': res.events, 'spec_model_states': res.mc_states, 'per_part': res.parts, 'events_per_operation': dict(sorted(res.ops.items())), 'samples': res.samples[:6] or ['none']},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if res.violation else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in load_known().get('known', []):
        if k['property'] == prop: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if res.violation:
        print(res.violation[1])
        print('VIOLATION property=%s replay=%s' % (prop, res.violation[0]))
        sys.exit(1)
    if errs:
        print('CHECK-ERROR\n' + '\n'.join(errs)); sys.exit(2)
    print('OK property=%s traces=%d events=%d states=%d wall=%.1fs' % (prop, res.traces, res.events, res.states + res.mc_states, time.time() - t0))
    if os.environ.get('VP_VERBOSE'): print(json.dumps(res.parts, indent=1))

if __name__ == '__main__': main()
