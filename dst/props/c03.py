"""C03: a successful fit is a constrained optimum, whatever came before."""
import numpy as np

from common import KINDS, check, do_fit, est, gen_fault, gen_fit, muted, name
from props.hist import Hist, describe, gen_extend, gen_bad, gen_world

QUICK, THOROUGH = 1500, 20000
RULE = ('random model (12 templates), likelihood, weights, declaration order of parameters, fixed mask, constraints and '
        'regularizations; history of 2-8 fits (both methods, cold and warm, changes of data, resets) with some failed or '
        'faulted calls between them.  Non-trivial: at least two fits succeeded and were compared with the reference')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['one model component, constraint, regularization or likelihood forwards to the real one and can raise or return NaN']
ASSUME = ['optimality is decided by an independent dense evaluation of the declared likelihood and model, differentiated by '
          'the complex-step method; second derivatives by differences of those']
LISTS = ('ops',)
MINLEN = {'ops': 1}
CONCAVE = {('add', 'Poisson'), ('add', 'Logistic'), ('cross', 'Poisson'), ('cross', 'Logistic'),
           ('grid', 'Poisson'), ('grid', 'Logistic'), ('add', 'NegativeBinomial'), ('grid', 'NegativeBinomial')}


def gen(rng, tier, i):
    case = {'world': gen_world(rng, tier), 'kind': rng.choice(KINDS)}
    ops = []
    n = rng.randint(2, 5 if tier == 'quick' else 9)
    while len(ops) < n:
        x = rng.random()
        if x < .72 or not ops:
            o = gen_fit(rng, ndata=3, first=not ops)
            if not ops:
                o['method'] = rng.choice(['newton'] * 4 + ['broyden'])
            ops.append(o)
        elif x < .86:
            o = gen_fit(rng, ndata=3, first=True)
            o['fault'] = gen_fault(rng)
            if o['fault']['kind'] == 'stdout':
                o['verbose'] = 1
            ops.append(o)
        elif x < .89:
            ops.append(gen_bad(rng))
        elif x < .92:
            m = rng.choice([None, 'newton', 'broyden', 'broyden'])
            if m:
                ops.append(gen_fit(rng, ndata=3, methods=[m], first=True))
            ops.append(gen_extend(rng, case['world'], con=not any(o['op'] == 'extend' for o in ops)))
            if m:
                ops.append(gen_fit(rng, ndata=3, methods=[m], first=True))
        elif x < .95:
            ops.append({'op': 'kick', 'seed': rng.randrange(1000), 'size': rng.choice([1e-3, .05, .2])})
        else:
            ops.append({'op': 'reset', 'jit': rng.randrange(1000)})
    if ops[-1]['op'] != 'fit' or ops[-1].get('fault'):
        ops.append(gen_fit(rng, ndata=3, first=True))
    for o in ops:
        if o['op'] == 'fit':
            o['tol'] = min(o['tol'], 1e-8)
            if o['method'] == 'broyden' and case['world']['tmpl'] in ('sig', 'tennis'):
                o['method'] = 'newton'     # flat plateaus: no guarantee by design
                o['steps'] = 40
    case['ops'] = ops
    return case


def feasible(w, p):
    c = w.constraints(p)
    return not len(c) or float(np.abs(c).max()) < 1e-9


def assert_optimum(h, op, what, stats, feas=True):
    w = h.w
    p = est(h.e)
    for x, s in zip(p, w.names):
        check(np.shape(x) == np.shape(w.shapes[s]) or np.shape(x) == tuple(w.shapes[s]), 'shape', '%s: shape of %s', what, s)
        check(bool(np.isfinite(x).all()), 'not-finite', '%s committed %s = %s', what, s, x)
    d = w.data(h.cur)
    dec, con = w.newton_decrement(p, d)
    hard = (w.spec['tmpl'], w.like) not in CONCAVE
    if op['method'] == 'newton':
        lim, clim = (1e-5 if hard else 1e-7) + 10 * op['tol'], 1e-8
    else:
        # broyden stops on the change of the objective alone
        lim, clim = .03, .1
    if not feas:
        # an infeasible guess: the line search may stop short of the surface
        lim, clim = max(lim, 1e-3), .05
    stats['compared:' + op['method']] += 1
    if dec > lim / 100:
        stats['within 1%% of the limit:%s' % op['method']] += 1
    check(dec <= lim, 'not-optimal', '%s: returned True, but a step on the constraint surface still gains %.3g (relative) '
          'of the mean penalised log-likelihood (allowed %.3g)', what, dec, lim)
    check(con <= clim, 'constraint', '%s: returned True, but the constraints are off by %.3g', what, con)


def run(case, sim, stats):
    h = Hist(case, sim, stats)
    w = h.w
    concave = (w.spec['tmpl'], w.like) in CONCAVE and w.spec['jit'] <= .2
    good = 0
    near = 'any'    # data sets whose optimum is near: 'any' (the drawn guess), an index, None
    for op in case['ops']:
        if op['op'] == 'reset':
            h.reset(op['jit'])
            near = 'any' if not w.spec.get('con') else None
            continue
        if op['op'] == 'extend':
            h.extend(op)
            w, near = h.w, None
            continue
        if op['op'] == 'kick':
            # move the guess, keeping the constraints: the user re-adds params
            p = est(h.e)
            if not all(np.isfinite(x).all() for x in p):
                continue
            rs = np.random.RandomState(op['seed'])
            start = [np.where(m, x, x + rs.uniform(-1, 1, x.shape) * op['size']) for m, x in zip(w.masks, p)]
            h.e.reset_params()
            w.add_params(h.e, start)
            near = near if not w.spec.get('con') and op['size'] < .1 else None
            continue
        if op['op'] == 'fit' and op['data'] is None and not isinstance(h.cur, int):
            op = dict(op, data=0)
        feas = feasible(w, est(h.e))
        res, fired = h.run(op)
        what = describe(op, res)
        clean = op['op'] == 'fit' and not op.get('fault')
        if res[0] == 'exc':
            stats['exc:%s:%s' % ('clean' if clean else 'faulted', type(res[1]).__name__)] += 1
            if clean:
                ex = res[1]
                check(not isinstance(ex, (TypeError, AttributeError, LookupError, NameError)) and
                      not (isinstance(ex, ValueError) and not isinstance(ex, (ArithmeticError, np.linalg.LinAlgError)) and
                           not any(x in str(ex) for x in ('infs', 'NaN', 'nan', 'finite'))),
                      'broken-call', '%s with valid arguments: %s', what, ex)
            if clean and op['method'] == 'newton' and concave and feas and \
                    (near == 'any' or near == (h.cur if op['data'] is None else op['data'])):
                check(False, 'no-success', '%s on a concave problem from a feasible guess', what)
            h.cur = '?'
            continue
        if res[1] is not True:
            continue
        if op['op'] == 'fit':
            h.cur = h.cur if op['data'] is None else op['data']
        elif op['op'] == 'badfit':
            if op['how'] in ('zeros', 'nan', 'shape', 'text', 'ragged'):
                h.cur, near = '?', None
                continue
            h.cur = op['data']
        if fired and op['fault']['kind'] == 'nan':
            near = None
            h.cur = '?'
            continue        # a transient may end the search early (C04)
        assert_optimum(h, op if op['op'] == 'fit' else dict(op, tol=1e-8), what, stats, feas)
        near = h.cur
        good += 1
    return {'nontrivial': good > 1,
            'key': repr((w.spec['tmpl'], w.like, w.spec['order'], w.spec['con'], w.spec['reg'], sorted(w.spec['fixed']),
                         [(o['op'], o.get('method'), o.get('data')) for o in case['ops']]))}
