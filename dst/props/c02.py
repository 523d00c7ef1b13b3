"""C02: a clean retry after failures behaves as if they never happened."""
import numpy as np

from common import KINDS, check, clone, do_fit, est, gen_fault, gen_fit, muted, name, obs_call, outcome_eq
from props.hist import Hist, describe, gen_addbad, gen_extend, gen_bad, gen_world

QUICK, THOROUGH = 450, 8000
RULE = ('random model and data; history alternating faulted or invalid calls with clean fits of both methods, compared step '
        'by step with two twins that never saw a failure (one warm, one cooled by an ordinary non-convergence).  '
        'Non-trivial: a clean fit was compared after at least one failure')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['one model component, constraint, regularization or likelihood forwards to the real one and can raise or return NaN',
        'sys.stdout (counts writes, can break)']
ASSUME = ['faults strike where something can fail: calls, function entry, arithmetic',
          'a fit started from the same parameters with the same data is deterministic (C09)']
LISTS = ('ops',)
MINLEN = {'ops': 1}


def gen(rng, tier, i):
    case = {'world': gen_world(rng, tier), 'kind': rng.choice(KINDS)}
    ops = []
    if rng.random() < .6:
        ops.append(gen_fit(rng, first=True))
    for _ in range(rng.randint(1, 3 if tier == 'quick' else 6)):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            x = rng.random()
            if x < .75:
                o = gen_fit(rng, first=True)
                o['fault'] = gen_fault(rng)
                if o['fault']['kind'] == 'stdout':
                    o['verbose'] = max(1, o['verbose'])
                ops.append(o)
            elif x < .9:
                ops.append(gen_bad(rng))
            elif x < .95:
                ops.append(gen_addbad(rng))
            elif x < .975:
                ops.append(gen_extend(rng, case['world'], con=not any(o['op'] == 'extend' for o in ops)))
            else:
                ops.append({'op': 'reset', 'jit': rng.randrange(1000)})
        o = gen_fit(rng, first=True)
        if ops[-1]['op'] == 'fit' and rng.random() < .6:
            o = {k: v for k, v in ops[-1].items() if k != 'fault'}
        ops.append(o)
    case['ops'] = ops
    return case


def outcome(h, e, op):
    c = h.sim._who()
    s0 = c.steps
    try:
        r = ('ret', do_fit(e, h.w, op))
    except Exception as ex:
        r = ('exc', type(ex).__name__, str(ex)[:80])
    steps = c.steps - s0
    with muted():
        p = est(e)
        se = obs_call(lambda: [np.asarray(np.ma.getdata(x), float) for x in e.std_error()])
        fm = obs_call(lambda: [np.asarray(x, float) for r_ in e.fisher_matrix() for x in r_])
    return {'r': r, 'p': p, 'se': se, 'fm': fm, 'steps': steps}


def same(a, b):
    if a['r'][0] != b['r'][0] or (a['r'][0] == 'exc' and a['r'][1] != b['r'][1]):
        return 'outcome'
    if not all(outcome_eq(x, y) for x, y in zip(a['p'], b['p'])):
        return 'params'
    for k in ('se', 'fm'):
        x, y = a[k], b[k]
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                return k
        elif a['r'][0] == 'ret' and not all(outcome_eq(u, v, 1e-6, 1e-9 + 1e-9 * float(np.nanmax(np.abs(v), initial=0)))
                                            for u, v in zip(x, y)):
            return k
    if a['steps'] > 1.5 * b['steps'] + 500:
        return 'work'
    return None


def brief(o):
    return '%s params=%s work=%d' % (o['r'], [np.round(p, 6).tolist() for p in o['p']], o['steps'])


def run(case, sim, stats):
    h = Hist(case, sim, stats)
    warm = clone(h.e, h.ctl)
    cold = clone(h.e, h.ctl)
    fails = compared = 0
    trail = []
    key = []
    for op in case['ops']:
        if op['op'] == 'reset':
            with muted():
                h.reset(op['jit'])
                keep = h.e
                for t in (warm, cold):
                    h.e = t
                    h.reset(op['jit'])
                h.e = keep
            continue
        if op['op'] == 'extend':
            h.extend(op, (warm, cold))
            trail.append(describe(op, None))
            key.append('extend')
            continue
        clean = op['op'] == 'fit' and not op.get('fault')
        if clean:
            a = outcome(h, h.e, op)
            b = outcome(h, warm, op)
            c = outcome(h, cold, op)
            db, dc = same(a, b), same(a, c)
            what = describe(op, None)
            if op['method'] == 'newton':
                dc = db if db is None else dc
                bad = db if dc is not None else None
            else:
                bad = db if (db is not None and dc is not None) else None
            compared += fails > 0
            stats['clean:' + a['r'][0]] += 1
            check(bad is None, 'retry-' + str(bad),
                  'after [%s], %s differs in %s from the run without the failures: %s; expected %s or %s',
                  '; '.join(trail), what, bad, brief(a), brief(b), brief(c))
            # follow the branch that was taken
            if db is not None:
                warm = clone(cold, h.ctl)
            elif dc is not None:
                cold = clone(warm, h.ctl)
            h.cur = op['data']
            trail.append(what)
            key.append(op['method'][0])
            continue
        res, fired = h.run(op)
        trail.append(describe(op, res))
        key.append(trail[-1].split('under')[-1] if op.get('fault') else op['op'])
        if res[0] == 'exc':
            fails += 1
            stats['failed:' + op['op']] += 1
            if op['op'] != 'addbad':
                # the plain failure: no convergence within zero steps
                with muted():
                    for m in ('newton', 'broyden'):
                        try:
                            cold.fit(tol=1e-8, max_steps=0, method=m, **h.w.data(op['data']))
                        except Exception:
                            pass
            # data in force is not compared: every compared fit passes its own
            h.cur = op['data'] if op['op'] == 'fit' else h.cur
        elif op['op'] == 'addbad':
            with muted():
                keep = h.e
                for t in (h.e, warm, cold):
                    h.e = t
                    h.reset()
                h.e = keep
        else:
            stats['survived:' + op['op']] += 1
            if not fired and op['op'] == 'fit':
                for t in (warm, cold):
                    try:
                        do_fit(t, h.w, op)
                    except Exception:
                        pass
            # a survived transient legitimately changes the path: start over
            warm = clone(h.e, h.ctl)
            cold = clone(h.e, h.ctl)
    return {'nontrivial': compared > 0, 'key': '|'.join(key)}
