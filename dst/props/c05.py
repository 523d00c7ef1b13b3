"""C05: fixed parameters never move."""
import random

import numpy as np

import engine
from common import KINDS, Fault, check, do_fit, gen_fault, gen_fit, muted
from props.hist import Hist, describe, gen_bad, gen_addbad, gen_world

QUICK, THOROUGH = 500, 16000
RULE = ('random model with random fixed masks (scalars, whole vectors, all but one, matrices) and odd fixed values; history of '
        'fits of both methods, faulted or not, invalid calls and resets, in a third of the runs with a concurrent reader. '
        'Every model evaluation and every read is compared bit for bit with the declared values.  Non-trivial: at least '
        'one fixed entry was watched during at least 5 evaluations')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['the model forwards to the real one, checks the parameters it receives, and can raise or return NaN']
ASSUME = ['reads happen at evaluations of the model and, in threaded runs, at any source line']
LISTS = ('ops', 'sched.switches')
MINLEN = {'ops': 1}
ODD = [0.1 + 0.2, 1 / 3., -0.0, 1e-17, 0.7071067811865475, -0.30000000000000004, 2 ** -40, 0.1]


def gen(rng, tier, i):
    w = gen_world(rng, tier)
    case = {'world': w}
    import world
    shapes = world.TMPL[w['tmpl']].shapes(w)
    for n, s in shapes.items():
        x = rng.random()
        cnt = int(np.prod(s))
        if x < .35:
            m = [rng.random() < .5 for _ in range(cnt)]
        elif x < .45:
            m = [True] * cnt
        elif x < .55:
            m = [True] * cnt
            m[rng.randrange(cnt)] = False
        else:
            continue
        w['fixed'][n] = np.array(m).reshape(s).tolist()
    if not any(np.any(v) for v in w['fixed'].values()):
        n = rng.choice(sorted(shapes))
        cnt = int(np.prod(shapes[n]))
        m = [False] * cnt
        m[rng.randrange(cnt)] = True
        w['fixed'][n] = np.array(m).reshape(shapes[n]).tolist()
    if all(np.all(w['fixed'].get(n, False)) for n in shapes):
        n = sorted(shapes)[0]
        del w['fixed'][n]
    case['odd'] = rng.randrange(1000) if rng.random() < .5 else None
    ops = []
    for _ in range(rng.randint(2, 5 if tier == 'quick' else 9)):
        x = rng.random()
        if x < .8 or not ops:
            o = gen_fit(rng, first=not ops)
            o['steps'] = min(o['steps'], 25)
            if rng.random() < .4:
                o['fault'] = gen_fault(rng)
                if o['fault']['kind'] == 'stdout':
                    o['verbose'] = 1
            ops.append(o)
        elif x < .9:
            ops.append(gen_bad(rng))
        elif x < .95:
            ops.append(gen_addbad(rng))
        else:
            ops.append({'op': 'reset', 'jit': rng.randrange(1000)})
    case['ops'] = ops
    if i % 3 == 0:
        case['threads'] = True
        case['ops'] = ops[:2]
        case['reads'] = rng.randint(20, 150)
        case['nap'] = rng.randrange(10 ** 6) if rng.random() < .6 else None
        case['sched'] = engine.gen_sched(rng, gaps=(5, 15, 60, 300), spans=(8000,))
    return case


def run(case, sim, stats):
    h = Hist(dict(case, kind='top'), sim, stats)
    w = h.w
    if case.get('odd') is not None:
        rs = np.random.RandomState(case['odd'])
        for k, m in enumerate(w.masks):
            v = np.array(w.start[k], float)
            if m.any():
                v[m] = v[m] * 0 + rs.choice(ODD, int(m.sum()))
                w.start[k] = v
        h.e.reset_params()
        w.add_params(h.e)
    want = [(m.copy(), np.array(s, float)[m].tobytes(), np.shape(s)) for m, s in zip(w.masks, w.start)]
    nfix = sum(int(m.sum()) for m in w.masks)
    watched = [0]
    where = ['']

    def look(vals, when):
        for n, (m, b, sh), v in zip(w.names, want, vals):
            v = np.asarray(np.ma.getdata(v), float)
            check(v.shape == sh, 'shape', '%s: %s has shape %s instead of %s', when, n, v.shape, sh)
            check(v[m].tobytes() == b, 'fixed-moved', '%s: the fixed entries of %s are %r instead of %r', when, n,
                  v[m].tolist(), np.frombuffer(b).tolist())

    def read(e, when):
        ps = e.get_params()
        check(len(ps) == len(want), 'count', '%s: %d params instead of %d', when, len(ps), len(want))
        look(ps, when)
        for n, (m, b, sh), p in zip(w.names, want, ps):
            pm = np.broadcast_to(np.ma.getmaskarray(p), sh)
            check(bool((pm == m).all()), 'mask', '%s: the mask of %s is %s instead of %s', when, n, pm.tolist(), m.tolist())

    bad = []

    def spy(kind, params):
        with muted():
            watched[0] += 1
            try:
                look(params, 'in a model evaluation (%s) during %s' % (kind, where[0]))
                if watched[0] % 7 == 0:
                    read(h.e, 'read inside a model evaluation during ' + where[0])
            except BaseException as ex:
                bad.append(ex)
                raise
    h.ctl.spy = spy

    def after(when):
        if bad:
            raise bad[0]
        with muted():
            read(h.e, when)
            if h.fits:
                try:
                    fm = h.e.fisher_matrix()
                except Exception:
                    return
                for i, m in enumerate(w.masks):
                    for j in range(len(w.masks)):
                        if not m.any():
                            continue
                        blk = np.asarray(fm[i][j])
                        check(not np.any(blk[m]), 'fisher', '%s: fisher_matrix has information about a fixed entry of %s', when, w.names[i])
                        blk = np.asarray(fm[j][i]).reshape(w.masks[j].shape + m.shape)
                        check(not np.any(blk[..., m] if m.ndim else blk), 'fisher',
                              '%s: fisher_matrix has information about a fixed entry of %s', when, w.names[i])

    def writer():
        for op in case['ops']:
            if op['op'] == 'reset':
                if case.get('threads'):
                    continue
                with muted():
                    h.reset(op['jit'])
                after('after a reset')
                continue
            if op['op'] == 'fit' and op['data'] is None and not isinstance(h.cur, int):
                op = dict(op, data=0)
            if op['op'] == 'addbad' and op['how'] == 'fault':
                op = dict(op, how='mask')
            where[0] = describe(op, None)
            res, fired = h.run(op)
            stats['%s:%s' % (op['op'], res[0])] += 1
            if res[0] == 'ret':
                h.fits += 1
            if op['op'] == 'fit':
                h.cur = op['data'] if op['data'] is not None else h.cur
            else:
                h.cur = '?'
            after('after ' + describe(op, res))

    if not case.get('threads'):
        writer()
    else:
        sched = engine.mksched(case['sched'])

        nap = random.Random(case['nap']) if case.get('nap') is not None else None

        def reader(c):
            for k in range(case['reads']):
                read(h.e, 'concurrent read %d' % k)
                if nap:
                    sim.sleep(int(10 ** nap.uniform(1, 3.5)))
                else:
                    sim.tick()
        cl = sim.run_clients([lambda c: writer(), reader], sched)
        case['sched'] = {'kind': 'replay', 'first': sched.first_idx, 'switches': sched.log}
        stats['switches'] += len(sched.log)
        for c in cl:
            if c.exc is not None:
                raise c.exc
    return {'nontrivial': nfix > 0 and watched[0] >= 5,
            'key': repr((w.spec['tmpl'], w.like, [(m.tolist()) for m in w.masks], case.get('odd'),
                         [(o['op'], o.get('method'), (o.get('fault') or {}).get('site')) for o in case['ops']]))}
