"""Runs, minimises, replays, and reports.

Every simulated run is executed in a forked child, so that no process-global
state leaks from one run into the next and a run is a pure function of its
case (a JSON object) and the code.  Cases are pure functions of
(VERIF_SEED, property, index).
"""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
from collections import Counter
from multiprocessing import cpu_count

import boot

RUN_WALL = 150.0          # hard guard of one run, never exit 0
QUICK_WALL = 720.0        # hard guard of a quick check, never exit 0


def seed_of(seed, prop, i):
    h = hashlib.sha256(('%s/%s/%s' % (seed, prop, i)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def execute(mod, case):
    """run one case in this process -> result dict"""
    import common
    import engine
    t0 = time.time()
    res = {'v': None, 'stats': Counter(), 'cover': [], 'key': None,
           'nontrivial': False, 'steps': 0, 'digest': None}
    sim = None
    try:
        sim = engine.Sim(lines=case.get('threads', getattr(mod, 'THREADS', False)),
                         budget=case.get('budget', 30000000))
        sim.trace = 0 if case.get('trace') else None
        with sim:
            try:
                out = mod.run(case, sim, res['stats']) or {}
                res.update({k: out[k] for k in ('nontrivial', 'key', 'digest', 'findings') if k in out})
            except common.Violation as v:
                res['v'] = {'cls': v.cls, 'msg': v.msg, 'finding': v.finding}
            except engine.SimBudget:
                res['v'] = {'cls': 'no-progress', 'finding': None,
                            'msg': 'no progress: the run exceeded %d steps of virtual time' % sim.budget}
            except BaseException as e:
                tb = e.__traceback__
                if common.in_library(tb):
                    res['v'] = {'cls': 'unexpected-' + type(e).__name__, 'finding': None,
                                'msg': 'the library raised %s where the property requires an answer: %s' % (
                                    type(e).__name__, ''.join(traceback.format_tb(tb)[-2:])[-500:] + str(e)[:200])}
                else:
                    res['harness'] = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
    except BaseException as e:
        res['harness'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if sim is not None:
        res['steps'] = sim.steps
        res['cover'] = [repr_cover(c) for c in sim.cover]
        if sim.trace is not None:
            res['trace'] = sim.trace
    res['case'] = case
    res['wall'] = time.time() - t0
    return res


def repr_cover(c):
    import engine
    return ':'.join(engine.names.get(x, str(x)) if not isinstance(x, (str, int)) else str(x) for x in c)


def forked(mod, case, wall=RUN_WALL):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            res = execute(mod, case)
            blob = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(blob)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + wall
    timeout = False
    while True:
        left = end - time.time()
        if left <= 0:
            timeout = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timeout = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    if timeout:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timeout:
        return {'harness': 'run exceeded the wall guard', 'case': case, 'v': None,
                'stats': Counter(), 'cover': [], 'steps': 0, 'nontrivial': False, 'key': None}
    if not buf:
        return {'harness': 'run died', 'case': case, 'v': None, 'stats': Counter(),
                'cover': [], 'steps': 0, 'nontrivial': False, 'key': None}
    return pickle.loads(buf)


def gen_case(mod, seed, prop, i, tier):
    s = seed_of(seed, prop, i)
    case = mod.gen(random.Random(s), tier, i)
    case['prop'] = prop
    case['seed'] = s
    case['index'] = i
    return case


def worker(mod, prop, seed, tier, wid, nw, n, wfd, extra):
    f = os.fdopen(wfd, 'wb', buffering=0)
    for i in range(wid, n, nw):
        try:
            case = gen_case(mod, seed, prop, i, tier)
            case.update(extra)
            res = forked(mod, case)
        except BaseException as e:
            res = {'harness': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
                   'v': None, 'stats': Counter(), 'cover': [], 'steps': 0,
                   'nontrivial': False, 'key': None, 'case': {'index': i}}
        blob = pickle.dumps((i, res))
        f.write(len(blob).to_bytes(4, 'big') + blob)
    os._exit(0)


def batch(mod, prop, seed, tier, n, nw=None, extra=None, wall=None, on=None):
    """run cases 0..n-1; -> results by index (stops early on a violation once
    every lower index has finished), timed_out"""
    nw = nw or max(1, min(int(os.environ.get('VERIF_WORKERS', cpu_count())), n))
    pipes, pids = {}, []
    sys.stdout.flush()
    for wid in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q in pipes:
                os.close(q)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            worker(mod, prop, seed, tier, wid, nw, n, w, extra or {})
            os._exit(0)
        os.close(w)
        pipes[r] = [wid, b'']
        pids.append(pid)
    out = {}
    bad = None
    t0 = time.time()
    timed = False
    live = dict(pipes)
    prog = {wid: wid for wid in range(nw)}   # next index of each worker
    while live:
        if wall and time.time() - t0 > wall:
            timed = True
            break
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 16)
            if not b:
                del live[r]
                continue
            st = live[r]
            st[1] += b
            while len(st[1]) >= 4:
                ln = int.from_bytes(st[1][:4], 'big')
                if len(st[1]) < 4 + ln:
                    break
                i, res = pickle.loads(st[1][4:4 + ln])
                st[1] = st[1][4 + ln:]
                out[i] = res
                prog[st[0]] = i + nw
                if on:
                    on(i, res)
                if res['v'] is not None and not res.get('known'):
                    if bad is None or i < bad:
                        bad = i
        if bad is not None and all(p > bad or p >= n for p in prog.values()):
            break
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
    for p in pids:
        os.waitpid(p, 0)
    for r in pipes:
        os.close(r)
    return out, timed


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------

def same(res, v):
    return res['v'] is not None and res['v']['cls'] == v['cls'] and \
        res['v'].get('finding') == v.get('finding')


def candidates(mod, case):
    """smaller cases, most aggressive first"""
    if hasattr(mod, 'shrink'):
        for c in mod.shrink(copy.deepcopy(case)):
            yield c
    for key in getattr(mod, 'LISTS', ('ops',)):
        xs = get(case, key)
        if not isinstance(xs, list) or not xs:
            continue
        n = len(xs)
        size = n // 2 or 1
        while size >= 1:
            for k in range(0, n, size):
                if n - len(xs[k:k + size]) < getattr(mod, 'MINLEN', {}).get(key, 0):
                    continue
                c = copy.deepcopy(case)
                put(c, key, xs[:k] + xs[k + size:])
                yield c
            if size == 1:
                break
            size //= 2
    # drop faults
    ops = get(case, 'ops')
    if isinstance(ops, list):
        for k, o in enumerate(ops):
            if isinstance(o, dict) and o.get('fault'):
                c = copy.deepcopy(case)
                c['ops'][k]['fault'] = None
                yield c
    # simpler world
    w = case.get('world')
    if w:
        for key, val in (('reg', []), ('c', 0), ('style', 0), ('h', False), ('sc', False)):
            if w.get(key):
                c = copy.deepcopy(case)
                c['world'][key] = val
                if key in ('h', 'sc'):
                    nm = 'h' if key == 'h' else 's'
                    c['world']['order'] = [x for x in w['order'] if x != nm]
                    c['world']['fixed'].pop(nm, None)
                yield c
        for key in ('wa', 'wb'):
            if w.get(key, 1) != 1:
                c = copy.deepcopy(case)
                c['world'][key] = 1.0
                yield c
        if w.get('order') and w['order'] != sorted(w['order']):
            c = copy.deepcopy(case)
            c['world']['order'] = sorted(w['order'])
            yield c


def get(c, key):
    for k in key.split('.'):
        if not isinstance(c, dict) or k not in c:
            return None
        c = c[k]
    return c


def put(c, key, v):
    ks = key.split('.')
    for k in ks[:-1]:
        c = c[k]
    c[ks[-1]] = v


def minimise(mod, res, wall=60.0):
    t0 = time.time()
    best, v = res['case'], res['v']
    tried = 0
    seen = set()
    again = True
    while again and time.time() - t0 < wall:
        again = False
        for c in candidates(mod, best):
            if time.time() - t0 > wall:
                break
            sig = json.dumps(c, sort_keys=True, default=str)
            if sig in seen:
                continue
            seen.add(sig)
            tried += 1
            r = forked(mod, c, 60)
            if same(r, v):
                best, v = r['case'], r['v']
                again = True
                break
    return best, v, tried


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------

def known():
    out = {}
    p = os.path.join(boot.VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('status') == 'known':
                    out[(d['property'], d['finding'])] = d
    return out


# --------------------------------------------------------------------------
# check
# --------------------------------------------------------------------------

def check(prop, tier, seed, n=None, quiet=False):
    mod = load(prop)
    n = n or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    t0 = time.time()
    print('%s %s seed=%s runs=%d' % (prop, tier, seed, n), flush=True)
    kn = known()
    stats, cover, keys, samples = Counter(), set(), set(), []
    steps = nontriv = 0
    harness, found = [], {}

    def on(i, r):
        f = (r['v'] or {}).get('finding')
        if f and (prop, f) in kn:
            r['known'] = True
    wall = QUICK_WALL if tier == 'quick' else None
    out, timed = batch(mod, prop, seed, tier, n, wall=wall, on=on)
    # the violation with the lowest index is the one reported
    vi = None
    for i in sorted(out):
        r = out[i]
        if r['v'] is not None and not r.get('known'):
            vi = i
            break
    done = [out[i] for i in sorted(out) if vi is None or i <= vi]
    for r in done:
        stats.update(r['stats'])
        cover.update(r['cover'])
        steps += r['steps']
        if r.get('nontrivial'):
            nontriv += 1
            keys.add(r['key'])
        if r.get('known'):
            found[r['v']['finding']] = r['v']['msg']
        for fnd, msg in (r.get('findings') or []):
            found[fnd] = msg
        if r.get('harness'):
            harness.append((r['case'].get('index'), r['harness']))
        if len(samples) < 3 and r.get('nontrivial'):
            samples.append(r['case'])
    viol = None
    if vi is not None:
        viol = out[vi]
    for fnd in list(found):
        if (prop, fnd) not in kn:
            # a finding that is not listed is a violation
            if viol is None:
                r = next(r for r in done if any(f == fnd for f, _ in (r.get('findings') or [])))
                r['v'] = {'cls': 'unlisted-finding', 'msg': found[fnd], 'finding': fnd}
                viol = r
    wall_s = time.time() - t0
    replay_path = None
    if viol is not None:
        case, v, tried = minimise(mod, viol, 45 if tier == 'quick' else 180)
        again = forked(mod, copy.deepcopy(case))
        if not same(again, {'cls': v['cls'], 'finding': v.get('finding')}):
            # the minimised case does not stand on its own: report the original
            case, v = viol['case'], viol['v']
        d = os.path.join(boot.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, '%s-seed%s-%d.json' % (prop, seed, viol['case'].get('index', 0)))
        with open(replay_path, 'w') as f:
            json.dump({'property': prop, 'violation': v, 'case': case,
                       'original_case': viol['case'], 'minimiser_runs': tried}, f, indent=1, default=str)
    faults = {k.split(':', 1)[1]: v for k, v in stats.items() if k.startswith('fault_fired:')}
    armed = {k.split(':', 1)[1]: v for k, v in stats.items() if k.startswith('fault_armed:')}
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': len(done),
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': [brief(x) for x in samples],
            'simulated_runs': len(done),
            'runs_per_hour': int(len(done) / max(wall_s, 1e-9) * 3600),
            'seeds': 'sha256(VERIF_SEED/property/index), index 0..%d' % (n - 1),
            'simulated_time_steps': steps,
            'simulated_time_unit': 'executed source lines of maxlike plus component invocations (virtual clock ticks)',
            'faults_armed': armed,
            'faults_fired': faults,
            'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault_')},
            'distinct_sites': len(cover),
            'distinct_sites_measure': mod.MEASURE if hasattr(mod, 'MEASURE') else
            'distinct (fault kind, code location) where an injected fault fired',
            'real_components': mod.REAL,
            'stub_components': mod.STUB,
        },
        'assumptions': mod.ASSUME,
        'wall_s': round(wall_s, 2),
        'violations': 0 if viol is None else 1,
    }
    d = os.path.join(boot.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for fnd, msg in sorted(found.items()):
        if (prop, fnd) in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, fnd, msg))
    print('%s: %d runs, %d distinct non-trivial, %d steps, %.1fs, faults fired %s' % (
        prop, len(done), len(keys), steps, wall_s, faults), flush=True)
    if not quiet:
        for k, cnt in sorted(stats.items()):
            if not k.startswith('fault_'):
                print('   ', k, cnt)
    if viol is not None:
        print('violation: [%s] %s' % (v['cls'], v['msg']))
        print('seed=%s index=%s; minimised with %d runs; replay with: %s/replay %s' % (
            viol['case'].get('seed'), viol['case'].get('index'), tried, boot.VERIF, replay_path))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path), flush=True)
        return 1
    if harness:
        print('HARNESS ERROR in %d runs; first (index %s):\n%s' % (len(harness), harness[0][0], harness[0][1]))
        return 2
    if timed or len(done) < n:
        print('NO ANSWER: only %d of %d runs finished within the wall guard' % (len(done), n))
        return 3
    return 0


def brief(x):
    """a case with its long lists cut"""
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [brief(v) for v in x[:24]] + (['... %d in all' % len(x)] if len(x) > 24 else [])
    return x


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    r = forked(mod, d['case'])
    if r.get('harness'):
        print(r['harness'])
        return 2
    if r['v'] is None:
        print('replay: no violation')
        return 0
    print('violation: [%s] %s' % (r['v']['cls'], r['v']['msg']))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1 if r['v']['cls'] == d['violation']['cls'] else 4
