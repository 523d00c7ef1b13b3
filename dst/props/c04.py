"""C04: a newton fit never accepts a worse or undefined point, in bounded work."""
import numpy as np

from common import Ctl, FaultRun, check, do_fit, est, gen_fault, gen_fit, muted, name, offstage, probe
from props.hist import describe, gen_world
from world import World

QUICK, THOROUGH = 1200, 20000
RULE = ('random model with easy or hard starts (far guesses, separable or extreme data, few allowed steps); 1-4 fits, with '
        'NaN transients of the model value, gradient or hessian, traps and interrupts at seeded positions.  Non-trivial: '
        'a fit accepted at least one point or a fault fired')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['the model forwards to the real one, records the points it is asked for, and can return NaN or raise']
ASSUME = ['the accepted points are those where the fit asks for derivatives, and the final parameters']
LISTS = ('ops',)
MINLEN = {'ops': 1}
KINDS = ['nan'] * 6 + ['fpe', 'alloc', 'interrupt', 'comp', 'linalg']


def gen(rng, tier, i):
    w = gen_world(rng, tier)
    x = rng.random()
    case = {'world': w}
    if x < .45 and w['tmpl'] not in ('tennis', 'mkv', 'mkm'):
        w['jit'] = rng.choice([.5, 1.0, 2.0, 4.0])
    if w['tmpl'] in ('add', 'cross', 'grid', 'bil', 'inter', 'sig') and rng.random() < .4:
        case['extreme'] = rng.choice(['zero', 'full', 'onecell', 'scale'])
    ops = []
    for _ in range(rng.randint(1, 4)):
        o = gen_fit(rng, first=True, methods=['newton'] * 7 + ['broyden'])
        o['steps'] = rng.choice([1, 2, 3, 5, 10, 20, 40])
        if rng.random() < .4:
            o['tol'] = rng.choice([.3, .1, .03, .01, 1e-3, 1e-4])
        if rng.random() < .6:
            o['fault'] = gen_fault(rng, KINDS)
            if o['fault']['kind'] == 'nan':
                o['fault']['what'] = 'nan'
        ops.append(o)
    case['ops'] = ops
    return case


class Recorder(Ctl):
    """remembers every point the model is evaluated at"""

    def __init__(self):
        Ctl.__init__(self)
        self.points = []      # (kind, flat params)

    def before(self, kind, params):
        with muted():
            x = np.concatenate([np.asarray(p).ravel() for p in params])
        self.points.append((kind, x))
        Ctl.before(self, kind, params)


def tweak(case, d):
    k = case.get('extreme')
    if not k or 'X' not in d:
        return d
    d = {n: np.array(v) for n, v in d.items()}
    X, N = d['X'], d['N']
    if k == 'zero':
        X[0] = 0
    elif k == 'full':
        X[0] = N[0]
        if 'Z' in d:
            X[0] = N[0] * 3
    elif k == 'onecell':
        X.flat[0] = N.flat[0] * 50 if (X > N).any() or 'Z' in d else N.flat[0]
    else:
        X *= 1000.
        N *= 1000.
        if 'Z' in d:
            d['Z'] *= 1000.
    return d


def run(case, sim, stats):
    w = World(case['world'])
    plain = w.data
    w.data = lambda k: tweak(case, plain(k))
    ctl = Recorder()

    def fresh(params=True):
        return w.estimator(model=probe(w.model(), ctl), params=params)
    e = fresh()
    fr = FaultRun(sim, ctl, stats)
    seen = fired_any = 0
    key = []
    for op in case['ops']:
        p0 = est(e)
        data = w.data(op['data'])
        f = op.get('fault')
        reh = None
        if f and f['pos'][0] != 'at':
            with offstage(sim):
                r = fresh(False)
                for v, m in zip(p0, w.masks):
                    r.add_param(v.copy(), m.copy() if m.any() else None)
            reh = lambda: do_fit(r, w, op)
        if f and reh:
            from common import resolve
            f['pos'] = ['at', resolve(f['pos'], fr.count(f, reh))]
        ctl.points = []
        res, fired = fr.run(lambda: do_fit(e, w, op), f)
        fired_any += fired
        what = describe(op, res)
        stats['%s:%s' % (op['method'], res[0])] += 1
        pts = ctl.points
        distinct = []
        derivs = []
        for kind, x in pts:
            b = x.tobytes()
            if not distinct or b not in distinct:
                distinct.append(b)
            if kind in ('eval', 'grad', 'hess') and (not derivs or derivs[-1].tobytes() != b):
                derivs.append(x)
        it = op['steps']
        key.append('%s%s%s' % (op['method'][0], (f or {}).get('site', (f or {}).get('kind', '')), res[0]))
        check(len(distinct) <= 12 * it + 6, 'work', '%s evaluated the model at %d points for max_steps=%d', what, len(distinct), it)
        check(len(pts) <= (12 * it + 6) * 20, 'work', '%s made %d model evaluations for max_steps=%d', what, len(pts), it)
        lim = it if op['method'] == 'newton' else it + 1
        check(len(derivs) <= lim, 'iterations', '%s: %d iterations for max_steps=%d', what, len(derivs), it)
        with np.errstate(all='ignore'):
            obj = lambda p: float(w.objective(p, data))
            f0 = obj(p0)
            if op['method'] == 'newton':
                acc = [w.split(x) for x in derivs]
                if res[0] == 'ret' and res[1]:
                    acc.append(est(e))
                elif acc == []:
                    acc = [p0]
                vals = [obj(p) for p in acc]
                seen += len(vals) > 1
                stats['accepted points'] += len(vals)
                for k in range(len(vals)):
                    prev = vals[k - 1] if k else f0
                    if not np.isfinite(prev):
                        continue
                    check(np.isfinite(vals[k]), 'undefined', '%s moved from objective %r to %r at iteration %d', what, prev, vals[k], k)
                    check(vals[k] >= prev - 1e-9 * (1 + abs(prev)), 'descent',
                          '%s moved from objective %.12g to %.12g at iteration %d', what, prev, vals[k], k)
            if res[0] == 'ret' and res[1]:
                f1 = obj(est(e))
                if op['method'] == 'newton':
                    check(np.isfinite(f1), 'undefined-result', '%s returned True with objective %r', what, f1)
    return {'nontrivial': bool(seen or fired_any), 'key': repr((w.spec['tmpl'], w.like, case.get('extreme'), w.spec['jit'], key))}
