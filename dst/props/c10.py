"""C10: root finders answer correctly or raise, always in bounded work."""
import numpy as np
from scipy.special import ndtri, pdtr
from scipy.stats import poisson
from scipy.stats import skellam as sk

import engine
import world
from common import EXC, LINALG, SEAM, Fault, check, name, resolve

QUICK, THOROUGH = 330, 16000
RULE = ('random sequences of poisson_cdf_root, skellam_cdf_root and conditional_skellam_cdf_root calls over targets, orders '
        'and tolerances, including the limits of the domain and undefined arguments; in some, an underlying evaluation '
        '(exp, factorial, normal quantile, distribution functions, linear solve) returns NaN or infinity, raises, or the '
        'interpreter fails at a seeded point.  Answers are verified against the exact distribution functions of scipy, work '
        'is bounded on the virtual clock, and clean calls repeated after the failures must be bit for bit the same.  '
        'Non-trivial: a fault fired, and an answer was verified')
REAL = ['maxlike.skellam', 'numpy', 'scipy.special.ndtri/factorial']
STUB = ['the kernels used by maxlike.skellam can be made to return NaN, infinity or to raise at a seeded call']
ASSUME = ['P(X = Y + n) of the skellam targets is at least 8%', 'undefined values are NaN, or infinities of the top level '
          'distribution functions: a finite wrong value of a kernel cannot be noticed by any caller']
LISTS = ('ops',)
MINLEN = {'ops': 1}
KER = ['ndtri', 'factorial', 'exp', 'solve', 'poisson_vector', 'poisson_cdf', 'skellam_cdf_pair', 'skellam_frame', 'norm', 'vectorize']
TOP = ('poisson_cdf', 'skellam_cdf_pair')


def gen_args(rng, tier):
    f = rng.choice(['poisson', 'poisson', 'skellam', 'cond'])
    tol = rng.choice([1e-8, 1e-8, 1e-6, 1e-4, 1e-10, 1e-3])
    t = rng.choice([rng.random(), rng.random(), rng.random(), 10 ** -rng.uniform(1, 9), 1 - 10 ** -rng.uniform(1, 9)])
    if f == 'poisson':
        n = rng.choice([0, 0, 1, 2, 3, 5, 9, 20, 40, 60, 100, 160, 175, 200, 300])
        a = [t, n, tol]
    elif f == 'skellam':
        t1 = rng.uniform(.005, .9)
        t2 = rng.uniform(.005, .915 - t1)
        if rng.random() < .15:
            t1 = 10 ** -rng.uniform(1, 6)
        if rng.random() < .15:
            t2 = 10 ** -rng.uniform(1, 6)
        a = [t1, t2, rng.choice([0, 0, 0, 0, 0, -1, 1, 2, -2, 3]), tol]
    else:
        a = [rng.choice([rng.uniform(.05, 4), rng.uniform(4, 30)]), t if .001 < t < .999 else .3, tol]
    x = rng.random()
    if x < .04:
        a[rng.randrange(2)] = 'nan'
    elif x < .07:
        a[0] = rng.choice([0., 1., -.1, 1.5])
        if f == 'cond':
            a[1] = a[0]
            a[0] = 1.3
    return {'f': f, 'a': a}


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(2, 5 if tier == 'quick' else 10)):
        o = gen_args(rng, tier)
        x = rng.random()
        if x < .35:
            o['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'fpe', 'linalg', 'recursion']),
                          'pos': rng.choice([['frac', round(rng.random(), 4)], ['late', rng.randint(0, 10)], ['early', rng.randint(1, 10)]])}
        elif x < .8:
            k = rng.choice(KER)
            o['patch'] = {'what': k, 'how': rng.choice(['nan', 'nan', 'nan', 'inf' if k in TOP else 'nan', 'raise']),
                          'pos': ['frac', round(rng.random(), 4)], 'span': rng.choice([1, 1, 2, 5, 1000]),
                          'entry': rng.choice([None, None, rng.randrange(6)]),
                          'exc': rng.choice(['LinAlgError', 'FloatingPointError', 'ValueError', 'MemoryError', 'ZeroDivisionError',
                                             'OverflowError', 'KeyboardInterrupt', 'CompError', 'StopIteration', 'IndexError'])}
        ops.append(o)
    return {'ops': ops, 'twin': rng.random() < .5}


class Patch:
    """replaces one kernel of maxlike.skellam at its k-th call"""

    def __init__(self, spec):
        self.spec, self.n, self.fired = spec, 0, 0

    def __enter__(self):
        S = world.M.skellam
        what = self.spec['what']
        self.undo = []
        if what in ('solve', 'norm', 'vectorize'):
            # through a proxy of numpy, seen by this module only
            real = S.np
            if what == 'vectorize':
                def vec(f):
                    return self.wrap(real.vectorize(f))
                prox = _Over(real, vectorize=vec)
            else:
                prox = _Over(real, linalg=_Over(real.linalg, **{what: self.wrap(getattr(real.linalg, what))}))
            S.np = prox
            self.undo.append(('np', real))
        elif hasattr(S, what):
            real = getattr(S, what)
            setattr(S, what, self.wrap(real))
            self.undo.append((what, real))
        return self

    def __exit__(self, *a):
        for k, v in self.undo:
            setattr(world.M.skellam, k, v)

    def wrap(self, real):
        def f(*a, **k):
            self.n += 1
            at = self.spec['pos']
            hit = at[0] == 'at' and at[1] <= self.n < at[1] + self.spec['span']
            if hit and self.spec['how'] == 'raise':
                self.fired += 1
                raise EXC[self.spec['exc']]('injected')
            r = real(*a, **k)
            return self.poison(r) if hit else r
        return f

    def poison(self, r):
        self.fired += 1
        x = {'nan': np.nan, 'inf': np.inf}[self.spec['how']]
        if isinstance(r, list):
            return [self.poison(y) for y in r]
        if np.ndim(r) == 0:
            return x
        r = np.array(r, dtype=float)
        e = self.spec['entry']
        if e is None or not r.size:
            r[...] = x
        else:
            r.flat[e % r.size] = x
        return r


class _Over:
    def __init__(self, base, **over):
        self.__dict__['_b'] = base
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._b, k)


def args_of(o):
    return [float('nan') if x == 'nan' else x for x in o['a']]


def call(o):
    S = world.M.skellam
    a = args_of(o)
    if o['f'] == 'poisson':
        return S.poisson_cdf_root(a[0], a[1], a[2])
    if o['f'] == 'skellam':
        return S.skellam_cdf_root(a[0], a[1], a[2], a[3])
    return S.conditional_skellam_cdf_root(a[0], a[1], a[2])


def size_of(tol, *p):
    return int(-ndtri(tol) * sum(np.sqrt(p)) + sum(p)) + 1


def tail(size, a):
    return float(poisson.sf(max(size - 1, 0) - 1, a))


def verify(o, r, when):
    """the answer r solves its equation"""
    a = args_of(o)
    what = '%s(%s)%s' % ({'poisson': 'poisson_cdf_root', 'skellam': 'skellam_cdf_root',
                          'cond': 'conditional_skellam_cdf_root'}[o['f']], ', '.join('%.12g' % x for x in a), when)
    ok = isinstance(r, (tuple, list, np.ndarray)) and len(r) == 2 if o['f'] == 'skellam' else np.ndim(r) == 0
    check(ok, 'not-a-number', '%s returned %r', what, r)
    try:
        v = [float(x) for x in (r if o['f'] == 'skellam' else [r])]
    except (TypeError, ValueError):
        check(False, 'not-a-number', '%s returned %r', what, r)
    check(np.isfinite(v).all() and min(v) > 0, 'undefined-answer', '%s returned %s', what, v)
    check(not np.isnan(a).any(), 'undefined-answer', '%s returned %s for an undefined argument', what, v)
    tol = a[-1]
    if o['f'] == 'poisson':
        check(0 < a[0] < 1, 'out-of-domain', '%s returned %s', what, v)
        e = abs(pdtr(a[1], v[0]) - a[0])
        check(e <= 1.01 * tol + 1e-10, 'wrong-answer', '%s returned %s, where the equation is off by %.3g', what, v, e)
    elif o['f'] == 'skellam':
        check(min(a[:2]) > 0 and a[0] + a[1] < 1, 'out-of-domain', '%s returned %s', what, v)
        x, y = v
        n = a[2]
        e = float(np.hypot(sk.cdf(n - 1, y, x) - a[0], sk.sf(n, y, x) - a[1]))
        s = size_of(tol, x, y)
        lim = 1.5 * tol + 3 * (tail(s, x) + tail(s, y)) + 1e-9
        check(e <= lim, 'wrong-answer', '%s returned %s, where the equations are off by %.3g (limit %.3g)', what, v, e, lim)
    else:
        check(0 < a[1] < 1, 'out-of-domain', '%s returned %s', what, v)
        b, t = a[0], a[1]
        x = v[0]
        e = abs(sk.cdf(-1, b, x) + .5 * sk.pmf(0, b, x) - t)
        lim = 1.5 * tol + 3 * (tail(size_of(tol, x), x) + tail(size_of(.5 * tol, b), b)) + 1e-9
        check(e <= lim, 'wrong-answer', '%s returned %s, where the equation is off by %.3g (limit %.3g)', what, v, e, lim)


def limit(o):
    """lines of maxlike.skellam one call may take: 50 steps with 11 evaluations,
    each of about as many lines as the series has terms, and then some"""
    terms = o['a'][1] if o['f'] == 'poisson' else 600
    return 2000 * (int(terms) + 30) if terms != 'nan' else 200000


def bounded(sim, fn, o):
    """-> ('ret', value) | ('exc', exception); in bounded virtual time"""
    s0, keep = sim.steps, sim.budget
    r0 = sim.rsteps
    steps = limit(o)
    sim.budget = max(sim.steps, sim.rsteps) + steps
    try:
        return ('ret', fn())
    except engine.SimBudget:
        sim.budget = keep
        check(False, 'unbounded', '%s%s did not end within %d steps of virtual time (fault: %s)', o['f'], o['a'], steps,
              o.get('patch') or o.get('fault'))
    except BaseException as ex:
        return ('exc', ex)
    finally:
        sim.budget = keep
        sim.last = sim.steps - s0


def key(r):
    if r[0] == 'exc':
        return ('exc', type(r[1]).__name__)
    return ('ret', np.array(r[1], dtype=float).tobytes())


def run(case, sim, stats):
    import resource
    # an answer that needs more memory than this counts as a failure
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    fired = verified = 0
    c = sim._who()
    most = 0
    first = []
    sites = []

    def clean(o, when):
        nonlocal verified, most
        r = bounded(sim, lambda: call(o), o)
        most = max(most, sim.last)
        if r[0] == 'ret':
            verify(o, r[1], when)
            verified += 1
        stats['%s:%s' % (o['f'], r[0] if r[0] == 'ret' else name(r[1]).split('(')[0])] += 1
        return r
    if case['twin']:
        for o in case['ops']:
            first.append(key(clean(o, '')))
    for o in case['ops']:
        f, p = o.get('fault'), o.get('patch')
        if f:
            lin = LINALG if f['kind'] == 'linalg' else None
            if f['pos'][0] != 'at':
                c.fault, c.seam = Fault(f['kind'], 1 << 60, MemoryError, lin), 0
                c.rehearsal = True
                bounded(sim, lambda: call(o), o)
                c.rehearsal = False
                f['pos'] = ['at', resolve(f['pos'], c.seam)]
            flt = c.fault = Fault(f['kind'], f['pos'][1], EXC[SEAM[f['kind']]], lin)
            c.seam = 0
            r = bounded(sim, lambda: call(o), o)
            c.fault = None
            stats['fault_armed:' + f['kind']] += 1
            if flt.fired:
                stats['fault_fired:' + f['kind']] += 1
                f['site'] = flt.fired
                sites.append(flt.fired)
                fired += 1
            when = ' under %s at %s' % (f['kind'], flt.fired)
        elif p:
            if p['pos'][0] != 'at':
                with Patch(p) as q:
                    c.rehearsal = True
                    bounded(sim, lambda: call(o), o)
                    c.rehearsal = False
                p['pos'] = ['at', resolve(p['pos'], q.n)]
            with Patch(p) as q:
                r = bounded(sim, lambda: call(o), o)
            k = '%s-%s' % (p['what'], p['how'])
            stats['fault_armed:' + k] += 1
            if q.fired:
                stats['fault_fired:' + k] += 1
                sim.cover.add((k, p['pos'][1]))
                sites.append(k)
                fired += 1
                if p['how'] == 'raise' and r[0] == 'exc':
                    stats['raised'] += 1
            when = ' with %s of %s at call %d' % (p['how'] if p['how'] != 'raise' else p['exc'], p['what'], p['pos'][1])
        else:
            r, when = clean(o, ''), ''
        if r[0] == 'ret' and (f or p):
            verify(o, r[1], when)
            verified += 1
            stats['answered under a fault'] += 1
    if case['twin']:
        for o, k in zip(case['ops'], first):
            r = clean(o, ' after the failures')
            check(key(r) == k, 'history-dependent', '%s%s gave %s, after the failures %s', o['f'], o['a'],
                  k if k[0] == 'exc' else np.frombuffer(k[1]), name(r[1]) if r[0] == 'exc' else r[1])
    return {'nontrivial': fired > 0 and verified > 0, 'key': repr([(o['f'], [round(x, 3) if x != 'nan' else x for x in o['a']]) for o in case['ops']] + sites)}
