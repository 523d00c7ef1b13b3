"""C13: model builders compose correctly through any history of calls and failures."""
import os

import numpy as np
from scipy.special import expit, factorial, gammaln

import engine
import world
from common import EXC, SEAM, Fault, Violation, check, name, resolve

QUICK, THOROUGH = 2600, 60000
RULE = ('random programs that build functions from leaves (X, Scalar, Vector, Constant, Exp, Log, Logistic, ArcTan, Quadratic, Poisson, '
        'LogNegativeBinomial, MarkovVector, MarkovMatrix, CollapseMatrix, Game, TieBreak, Set) with Sum.add, Product.add, composition, FuncWrap, '
        'Collapse and arithmetic, with parameters of 0 to 2 dimensions in any order, aborted and invalid builder calls and evaluations in '
        'between; call, grad, hess and eval of the new and of older functions are compared with a reference that propagates values, '
        'gradients and hessians densely.  Non-trivial: at least 4 comparisons, one of a function with two or more terms')
REAL = ['maxlike.func', 'maxlike.tensor', 'numpy', 'scipy']
STUB = []
ASSUME = ['a Sum or Product is not extended any more once it is part of a composition or of an Affine',
          'hess is asked for the lower triangle of parameter blocks only',
          'the value of a function is not constant along the axes that Collapse sums, nor along those a composition sums']
TRACE = os.environ.get('DST_TRACE')
MEASURE = 'distinct (fault kind, code location) where a fault fired'
LISTS = ('ops',)
MINLEN = {}
OPS = ['leaf'] * 4 + ['sum', 'sum', 'prod', 'prod'] + ['add'] * 14 + ['nest'] * 4 + ['affine'] * 3 + ['compose'] * 5 + ['compose2'] * 3 + [
    'wrap', 'collapse', 'collapse', 'badadd', 'badadd', 'check']
SHAPES = [(), (), (2,), (3,), (2, 3), (3, 2), (2, 2), (2, 2, 2)]


def gen(rng, tier, i):
    m = rng.randint(8, 22 if tier == 'quick' else 45)
    ops = []
    for _ in range(m):
        o = {'f': rng.choice(OPS), 'p': rng.randrange(10 ** 6)}
        if o['f'] not in ('check', 'badadd') and rng.random() < .25:
            o['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'recursion', 'fpe']), 'pos': ['frac', round(rng.random(), 4)]}
        ops.append(o)
    return {'seed2': rng.randrange(10 ** 6), 'ops': ops}


# --------------------------------------------------------------------------
# dense reference: value, gradient and hessian with respect to all parameters
# --------------------------------------------------------------------------

class Domain(Exception):
    """outside of the domain of the function"""


def inside(ok):
    if not ok:
        raise Domain


class J:
    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def const(v, P):
        v = np.asarray(v, float)
        return J(v, np.zeros(v.shape + (P,)), np.zeros(v.shape + (P, P)))

    def tr(self, fn):
        """fn permutes, sums or indexes axes of the value"""
        P = self.g.shape[-1]
        if not P:
            return J.const(fn(self.v), 0)
        g = np.stack([fn(self.g[..., k]) for k in range(P)], -1)
        h = np.stack([np.stack([fn(self.h[..., k, l]) for l in range(P)], -1) for k in range(P)], -2)
        return J(fn(self.v), g, h)

    def __getitem__(self, i):
        i = (i if isinstance(i, tuple) else (i,)) + (() if Ellipsis in (i if isinstance(i, tuple) else ()) else (Ellipsis,))
        return J(self.v[i], self.g[i + (slice(None),)], self.h[i + (slice(None),) * 2])

    def sum(self, ax):
        return J(self.v.sum(ax), self.g.sum(ax), self.h.sum(ax)) if len(ax) else self

    def lin(self, a, b=0):
        return J(a * self.v + b, a * self.g, a * self.h)

    def __add__(self, o):
        return J(self.v + o.v, self.g + o.g, self.h + o.h)

    def __mul__(self, o):
        a, b = self, o
        gg = a.g[..., :, None] * b.g[..., None, :]
        return J(a.v * b.v, a.g * b.v[..., None] + a.v[..., None] * b.g,
                 a.h * b.v[..., None, None] + a.v[..., None, None] * b.h + gg + np.swapaxes(gg, -1, -2))

    def el(self, f, d, d2):
        gg = self.g[..., :, None] * self.g[..., None, :]
        return J(f, d[..., None] * self.g, d[..., None, None] * self.h + d2[..., None, None] * gg)

    @staticmethod
    def stack(js):
        """along a new last axis of the value"""
        n = js[0].v.ndim
        return J(np.stack([j.v for j in js], n), np.stack([j.g for j in js], n), np.stack([j.h for j in js], n))

    def mag(self):
        return max(np.abs(x).max() if x.size else 0 for x in (self.v, self.g, self.h))


def place(j, nn, nd, fm, size, dm, dsize):
    """value axes (nn features, nd extra) into the spaces of a builder"""
    order = [int(k) for k in np.argsort(fm)] + [nn + int(k) for k in np.argsort(dm)]
    idx = [slice(None) if k in fm else None for k in range(size)] + [slice(None) if k in dm else None for k in range(dsize)]

    def fn(a):
        return a.transpose(order)[tuple(idx)]
    return j.tr(fn)


class Fn:
    """a library function with its reference.  sig: shapes of its parameters;
    n, d: sizes of the feature and extra axes (None while unknown); cov, acov:
    axes on which the value, and each term, is not constant"""

    def __init__(self, f, m, sig, n, d, cov=None, acov=None, terms=None, kind='leaf', nullh=False, size=1):
        self.f, self.m, self.sig, self.n, self.d = f, m, list(sig), list(n), list(d)
        k = len(self.n) + len(self.d)
        self.cov = list(cov) if cov is not None else [True] * k
        self.acov = list(acov) if acov is not None else list(self.cov)
        self.terms, self.kind, self.nullh, self.frozen, self.size = terms, kind, nullh, False, size
        self.names = ''

    @property
    def empty(self):
        return self.terms is not None and not self.terms

    def open(self):
        return self.terms is not None and not self.frozen


def params(sig, seed):
    rs = np.random.RandomState(seed)
    return [np.round(rs.uniform(-.9, .9, s), 3) for s in sig]


def jets(ps):
    P = sum(p.size for p in ps)
    out, at = [], 0
    for p in ps:
        g = np.zeros(p.shape + (P,))
        g.reshape(p.size, P)[np.arange(p.size), at + np.arange(p.size)] = 1
        out.append(J(np.array(p), g, np.zeros(p.shape + (P, P))))
        at += p.size
    return out


def model(fn, seed):
    ps = params(fn.sig, seed)
    js = jets(ps)
    r = fn.m(js)
    return ps, r


SEEDS = (11, 12)


def values(fn):
    return [model(fn, s)[1] for s in SEEDS]


def within(fn, lo, hi):
    try:
        return all((r.v > lo).all() and (r.v < hi).all() for r in values(fn))
    except Domain:
        return False


def tame(m, sig):
    """defined, and of moderate size, at the parameters used"""
    try:
        rs = [m(jets(params(sig, s))) for s in SEEDS]
    except Domain:
        return False
    return all(np.isfinite(r.v).all() and r.mag() < 1e4 for r in rs)


# --------------------------------------------------------------------------
# leaves
# --------------------------------------------------------------------------

def m_el(kind):
    def m(a):
        x = a[0].v
        if kind == 'exp':
            inside((x < 6).all())
            e = np.exp(x)
            return a[0].el(e, e, e)
        if kind == 'log':
            inside((x > .02).all())
            return a[0].el(np.log(x), 1 / x, -1 / x ** 2)
        if kind == 'logistic':
            f = expit(x)
            return a[0].el(f, f * (1 - f), f * (1 - f) * (1 - 2 * f))
        if kind == 'arctan':
            return a[0].el(np.arctan(x), 1 / (1 + x * x), -2 * x / (1 + x * x) ** 2)
        return a[0]
    return m


def m_poisson(size):
    def m(a):
        x = a[0].v
        out = []
        for k in range(size):
            c = factorial(k)
            out.append(a[0].el(x ** k / c, k * x ** max(0, k - 1) / c, k * (k - 1) * x ** max(0, k - 2) / c))
        return J.stack(out)
    return m


def m_lnb(size, r):
    def m(a):
        x = a[0].v
        inside((x > .02).all() and (x < 1e3).all())
        out = []
        for k in range(size):
            v = gammaln(r + k) - gammaln(r) - gammaln(k + 1) + k * np.log(x) + r * np.log(r) - (k + r) * np.log(r + x)
            out.append(a[0].el(v, k / x - (k + r) / (r + x), (k + r) / (r + x) ** 2 - k / x ** 2))
        return J.stack(out)
    return m


def m_markov_vector(size, steps, skew):
    def m(a):
        s1, s2 = a[0].lin(1. / steps), a[1].lin(1. / steps)
        inside((s1.v > 0).all() and (s2.v > 0).all() and (s1.v + s2.v < 1).all())
        P = s1.g.shape[-1]
        z = J.const(np.zeros(s1.v.shape), P)
        v = [z] * (2 * size - 1)
        v[size - 1] = J.const(np.ones(s1.v.shape), P)
        for _ in range(steps):
            new = list(v)
            for k, x in enumerate(v):
                # the rates at a score, and at the mirrored one for the other side
                up, down = x * s1.lin(skew[k]), x * s2.lin(skew[2 * size - 2 - k])
                hi, lo = min(k + 1, 2 * size - 2), max(k - 1, 0)
                new[k] = new[k] + (up + down).lin(-1)
                new[hi] = new[hi] + up
                new[lo] = new[lo] + down
            v = new
        return J.stack(v)
    return m


def m_markov_matrix(size, steps, skew):
    def m(a):
        s1, s2 = a[0].lin(1. / steps), a[1].lin(1. / steps)
        inside((s1.v > 0).all() and (s2.v > 0).all() and (s1.v + s2.v < 1).all())
        P = s1.g.shape[-1]
        z = J.const(np.zeros(s1.v.shape), P)
        v = {(x, y): z for x in range(size) for y in range(size)}
        v[0, 0] = J.const(np.ones(s1.v.shape), P)
        for _ in range(steps):
            new = dict(v)
            for (x, y), w in v.items():
                a_, b_ = (min(x + 1, size - 1), y), (x, min(y + 1, size - 1))
                one, two = w * s1.lin(skew[x, y]), w * s2.lin(skew[y, x])
                new[x, y] = new[x, y] + (one + two).lin(-1)
                new[a_] = new[a_] + one
                new[b_] = new[b_] + two
            v = new
        rows = [J.stack([v[x, y] for y in range(size)]) for x in range(size)]
        n = s1.v.ndim
        return J(np.stack([r.v for r in rows], n), np.stack([r.g for r in rows], n), np.stack([r.h for r in rows], n))
    return m


def m_collapse(conds):
    def m(a):
        n, k = a[0].v.shape[-2:]
        ax = (a[0].v.ndim - 2, a[0].v.ndim - 1)
        out = []
        for x, y, c, s in conds:
            w = (np.sign(x * np.arange(n)[:, None] + y * np.arange(k)[None, :] + c) == s).astype(float)
            out.append(J(a[0].v * w, a[0].g * w[..., None], a[0].h * w[..., None, None]).sum(ax))
        return J.stack(out)
    return m


DEFAULT = [(1, -1, 0, s) for s in (1, 0, -1)]


def power(x, k):
    n = np.ones_like(x.v)
    return x.el(x.v ** k if k else n, k * x.v ** max(0, k - 1) * n, k * (k - 1) * x.v ** max(0, k - 2) * n)


def m_tennis(kind):
    """probabilities of the scores of a game, tie-break or set"""
    def m(a):
        p = a[0]
        inside((p.v > .02).all() and (p.v < .98).all())
        q = p.lin(-1, 1)
        if kind == 'set':
            out = [(power(p, i) * power(q, j)).lin(c) for c, i, j in
                   ((1, 6, 0), (6, 6, 1), (21, 6, 2), (56, 6, 3), (126, 6, 4), (252, 7, 5))]
            return J.stack(out + [(power(p, 6) * power(q, 6) * a[1]).lin(504)])
        if kind == 'game':
            out = [(power(p, 4) * power(q, j)).lin(c) for j, c in enumerate((1, 4, 10))]
            c, i, j = 20, 5, 3
        else:
            out = [(power(p, 7) * power(q, j)).lin(c) for j, c in enumerate((1, 7, 28, 84, 210, 462))]
            c, i, j = 924, 8, 6
        r = (p * q).lin(-2, 1)
        r = r.el(1 / r.v, -1 / r.v ** 2, 2 / r.v ** 3)
        return J.stack(out + [(power(p, i) * power(q, j) * r).lin(c)])
    return m


SCORES = {'game': 4, 'tie': 7, 'set': 7}


def m_quad(u, s):
    def m(a):
        out = None
        for p in a:
            z = p.lin(1 / s, -u / s)
            q = (z * z).sum(tuple(range(p.v.ndim)))
            out = q if out is None else out + q
        return out
    return m


def leaf(rs, F, shapes=SHAPES):
    k = pick(rs, ['X', 'X', 'X', 'Scalar', 'Vector', 'Const', 'Const0', 'exp', 'logistic', 'arctan', 'quad'])
    sh = pick(rs, shapes)
    if k == 'X':
        return Fn(F.X(), m_el('x'), [sh], sh, [])
    if k == 'Scalar':
        return Fn(F.Scalar(), m_el('x'), [()], [], [])
    if k == 'Vector':
        v = rs.randint(-4, 5, rs.randint(2, 4)) / 2.
        return Fn(own(F.Vector, v if rs.rand() < .5 else v.tolist())(), lambda a: J(a[0].v * v, a[0].g[None] * v[:, None], a[0].h[None] * v[:, None, None]),
                  [()], v.shape, [])
    if k == 'Const':
        v = rs.randint(-4, 5, pick(rs, [s for s in SHAPES if s])) / 2.
        return Fn(own(F.Constant, v if rs.rand() < .5 else v.tolist())(), lambda a: J.const(v, a[0].g.shape[-1] if a else 0), [], v.shape, [])
    if k == 'Const0':
        c = float(rs.randint(-4, 5)) / 2
        return Fn(F.Constant(c), lambda a: J.const(c, a[0].g.shape[-1] if a else 0), [], [], [])
    if k == 'quad':
        u, s = rs.randint(-2, 3) / 2., pick(rs, [.5, 1, 2])
        return Fn(F.Quadratic(u, s), m_quad(u, s), [sh] if rs.rand() < .6 else [sh, pick(rs, shapes)], [], [])
    cls = {'exp': F.Exp, 'logistic': F.Logistic, 'arctan': F.ArcTan}[k]
    return Fn(cls(), m_el(k), [sh], sh, [])


def pick(rs, xs):
    return xs[rs.randint(len(xs))]


# --------------------------------------------------------------------------
# builder operations: -> (thunk, commit) or None.  thunk() calls the library;
# commit(result) -> new Fn or None, after success
# --------------------------------------------------------------------------

def nested(fs, pms):
    """reference of a function with several parts over one parameter list"""
    return [lambda a, f=f, pm=pm: f([a[k] for k in pm] or a) for f, pm in zip(fs, pms)]


def term_model(fm_, nn, nd, pm, fm, size, dm, dsize, w):
    def m(a):
        P = a[0].g.shape[-1] if a else 0
        j = fm_([a[k] for k in pm])
        if j.g.shape[-1] != P:  # constants
            j = J.const(j.v, P)
        return place(j, nn, nd, fm, size, dm, dsize).lin(w)
    return m


def freeze(fn):
    return fn.m if fn.terms is None else closed(fn, list(fn.terms))


def closed(fn, terms):
    kind = fn.kind

    def m(a):
        out = None
        for t in terms:
            j = t(a)
            out = j if out is None else (out + j if kind == 'sum' else out * j)
        return out
    return m


def own(f, *a):
    """f with lists and arrays that the caller goes on to use for something else"""
    def th():
        b = [list(x) if isinstance(x, list) else x.copy() if isinstance(x, np.ndarray) else x for x in a]
        b = [[list(y) if isinstance(y, list) else y for y in x] if isinstance(x, list) else x for x in b]
        r = f(*b)
        for x, y in zip(a, b):
            if isinstance(y, list):
                check(x == y, 'argument', '%s changed its argument %s to %s', f.__name__, x, y)
                for z in y:
                    if isinstance(z, list):
                        z[:] = [7] * (len(z) + 1)
                y[:] = [0] * (len(y) + 1)
            elif isinstance(y, np.ndarray):
                check(x.tobytes() == y.tobytes(), 'argument', '%s changed its argument', f.__name__)
                if y.flags.writeable:
                    y[...] = 57
                else:
                    check(False, 'argument', '%s made its argument read-only', f.__name__)
        return r
    return th


def plan(o, pool, rs, F):
    f = o['f']
    if f == 'leaf':
        st = rs.get_state()

        def th():
            rs.set_state(st)
            return leaf(rs, F)
        return th, (lambda r: r), 'a leaf'
    if f in ('sum', 'prod'):
        n = [int(x) for x in rs.choice([2, 3], rs.randint(1, 4))]
        d = [] if rs.rand() < .7 else [int(x) for x in rs.choice([2, 3], rs.randint(1, 3))]
        kind = 'sum' if f == 'sum' else 'product'

        def th():
            return (F.Sum if f == 'sum' else F.Product)(len(n), len(d))

        def commit(r):
            fn = Fn(r, None, [], n, d, [False] * (len(n) + len(d)), [True] * (len(n) + len(d)), [], kind, size=0)
            fn.m = lambda a: closed(fn, fn.terms)(a)
            return fn
        return th, commit, f
    old = [q for q in pool if not q.empty]
    if f == 'nest':
        # a new function that gets an old one, with its axes in any order
        o_ = [q for q in old if len(q.n) > 1 and q.terms is not None and q.size <= 7] or [q for q in old if q.n and q.size <= 7]
        if not o_:
            return None
        c0 = max((pick(rs, o_) for _ in range(2)), key=lambda q: len(q.n)) if rs.rand() < .6 else pick(rs, o_)
        fm0 = rs.permutation(min(3, max(len(c0.n), 1) + (rs.rand() < .2)) if len(c0.n) <= 3 else len(c0.n))[:len(c0.n)].tolist()
        dm0 = rs.permutation(len(c0.d)).tolist()
        n, d = [2] * max([len(c0.n)] + [k + 1 for k in fm0]), [0] * len(c0.d)
        for k, a in enumerate(fm0):
            n[a] = c0.n[k]
        for k, a in enumerate(dm0):
            d[a] = c0.d[k]
        kind = c0.kind if c0.kind in ('sum', 'product') and rs.rand() < .8 else pick(rs, ['sum', 'product'])
        T0 = Fn((F.Sum if kind == 'sum' else F.Product)(len(n), len(d)), None, [], n, d, [False] * (len(n) + len(d)),
                [True] * (len(n) + len(d)), [], kind, size=0)
        T0.m = lambda a: closed(T0, T0.terms)(a)
    if f in ('add', 'nest'):
        tgt = [q for q in pool if q.open()] if f == 'add' else [T0]
        if not tgt or not old:
            return None
        T = tgt[-1] if rs.rand() < .6 else pick(rs, tgt)
        cands = []
        for _ in range(6):
            c = pick(rs, old)
            if c is not T:
                cands.append(c)
        if rs.rand() < .35:
            cands.insert(0, leaf(rs, F, [s for s in SHAPES if all(x in T.n for x in s)] or [()]))
        if f == 'nest':
            cands = [c0]
        for c in cands:
            fm, dm = (fm0, dm0) if f == 'nest' else (fit(rs, c.n, T.n), fit(rs, c.d, T.d))
            if fm is not None and dm is not None and len(T.terms) < 5 and T.size + c.size <= 8:
                break
        else:
            return None
        if isinstance(c, Fn) and c.kind == 'leaf' and c not in pool:
            pass
        # all terms, or factors, along one extra axis or none
        pm, sig = [], list(T.sig)
        for s in c.sig:
            o_ = [k for k, q in enumerate(sig) if tuple(q) == tuple(s)]
            if o_ and rs.rand() < .6:
                k = pick(rs, o_)
            elif len(sig) < 4 or not o_:
                k = len(sig)
                sig.append(s)
            else:
                k = pick(rs, o_)
            pm.append(k)
        if sum(int(np.prod(s)) for s in sig) > 22 or len(sig) > 5:
            return None
        w = pick(rs, [None, None, 2, -1.5, .5]) if T.kind == 'sum' else None
        kw = {} if w is None else {'weight': w}
        apm = pm[0] if len(pm) == 1 and rs.rand() < .4 else (None if not pm and T.kind == 'sum' and rs.rand() < .3 else list(pm))
        afm = fm[0] if len(fm) == 1 and rs.rand() < .4 else (None if not fm and rs.rand() < .4 else list(fm))
        adm = dm[0] if len(dm) == 1 and rs.rand() < .4 else (None if not dm and rs.rand() < .7 else list(dm))
        if len(pm) and isinstance(apm, list) and rs.rand() < .2:
            apm = tuple(apm)

        def th():
            r = T.f.add(c.f, apm, afm, adm, **kw)
            check(r is T.f, 'chain', 'add() did not return the function')
            for l in (apm, afm, adm):  # the caller's lists are his own
                if isinstance(l, list):
                    l[:] = [0] * (len(l) + 1)
            return T

        def undo_lists():
            for l, k in ((apm, pm), (afm, fm), (adm, dm)):
                if isinstance(l, list):
                    l[:] = k
        t = term_model(freeze(c), len(c.n), len(c.d), pm, fm, len(T.n), dm, len(T.d), 1 if w is None else w)
        cov, acov = [False] * len(T.cov), [False] * len(T.cov)
        for k, a in enumerate(fm):
            cov[a], acov[a] = c.cov[k], c.acov[k]
        for k, a in enumerate(dm):
            cov[len(T.n) + a], acov[len(T.n) + a] = c.cov[len(c.n) + k], c.acov[len(c.n) + k]
        if not tame(closed(T, T.terms + [t]), sig):
            return None
        if c.terms is None and not c.sig and not c.n and not c.d and T.kind == 'product' and not c.m([]).v:
            return None      # a factor of zero: constant along all axes

        def commit(r):
            T.sig = sig
            if T.kind == 'sum':
                T.acov = [x and (y or not c.sig) for x, y in zip(T.acov, acov)]
            else:
                T.acov = [(x or (b and bool(T.terms))) and (y or a or not c.sig) if T.terms else y for x, y, a, b in
                          zip(T.acov, acov, T.cov, cov)]
            T.cov = [x or y for x, y in zip(T.cov, cov)]
            T.terms.append(t)
            T.nullh = False
            T.size += c.size
            if c.terms is None or T.kind != c.kind:
                c.frozen = True
            return T
        commit.undo = undo_lists
        return th, commit, '%s.add(%s, %s, %s, %s, %s)' % (T.kind, type(c.f).__name__, apm, afm, adm, kw)
    if not old:
        return None
    c = pick(rs, old) if rs.rand() < .5 else old[-1 - rs.randint(min(4, len(old)))]
    if f == 'affine':
        a = pick(rs, [2, -1.5, .5, 3., 1])
        b = pick(rs, [1, -.5, 2.])
        k = pick(rs, ['mul', 'rmul', 'neg', 'add', 'radd', 'sub', 'rsub', 'Affine', 'div'])
        g = c.f
        if k in ('add', 'sub', 'Affine') and c.n and not c.d and None not in c.n and all(c.cov) and rs.rand() < .5:
            # an array along the axes of the features
            b = np.round(rs.uniform(-2, 2, c.n), 2)
        th = {'mul': lambda: g * a, 'rmul': lambda: a * g, 'neg': lambda: -g, 'add': lambda: g + b, 'radd': lambda: b + g,
              'sub': lambda: g - b, 'rsub': lambda: b - g, 'div': lambda: g / a, 'Affine': lambda: F.Affine(g, a, b)}[k]
        if isinstance(b, np.ndarray):
            th = own({'add': lambda v: g + v, 'sub': lambda v: g - v, 'Affine': lambda v: F.Affine(g, a, v)}[k], b)
        p, q = {'mul': (a, 0), 'rmul': (a, 0), 'neg': (-1, 0), 'add': (1, b), 'radd': (1, b), 'sub': (1, -b), 'rsub': (-1, b), 'div': (1 / a, 0),
                'Affine': (a, b)}[k]
        m = freeze(c)

        def commit(r):
            c.frozen = True
            return Fn(r, lambda x: m(x).lin(p, q), c.sig, c.n, c.d, c.cov, c.acov, None, 'affine', size=c.size)
        return th, commit, 'affine %s' % k
    if f == 'wrap':
        size, dsize = len(c.n) + rs.randint(0, 2), len(c.d) + rs.randint(0, 2)
        if size > 3:
            return None
        fm, dm = rs.permutation(size)[:len(c.n)].tolist(), rs.permutation(dsize)[:len(c.d)].tolist()
        pm = rs.permutation(len(c.sig) + rs.randint(0, 2))[:len(c.sig)].tolist()
        n, d = [2] * size, [2] * dsize
        cov = [False] * (size + dsize)
        acov = [False] * (size + dsize)
        for k, x in enumerate(fm):
            n[x], cov[x], acov[x] = c.n[k], c.cov[k], c.acov[k]
        for k, x in enumerate(dm):
            d[x], cov[size + x], acov[size + x] = c.d[k], c.cov[len(c.n) + k], c.acov[len(c.n) + k]
        sig = [()] * (max(pm) + 1 if pm else 0)
        for k, x in enumerate(pm):
            sig[x] = c.sig[k]
        t = term_model(freeze(c), len(c.n), len(c.d), pm, fm, size, dm, dsize, 1)
        if not tame(t, sig):
            return None
        flip = None
        if type(c.f).__name__ in ('Vector', 'Constant') and fm and rs.rand() < .6:
            ax = tuple(int(x) for x in rs.permutation(fm)[:rs.randint(1, len(fm) + 1)])
            flip = ax[0] if len(ax) == 1 and rs.rand() < .5 else list(ax)
            t0 = t
            t = lambda a: t0(a).tr(lambda x: np.flip(x, ax))

        def commit(r):
            c.frozen = True
            return Fn(r, t, sig, n, d, cov, acov, None, 'wrap', size=c.size)
        # the forms of the arguments: a plain index, and no map of dims
        apm = int(pm[0]) if len(pm) == 1 and rs.rand() < .4 else list(pm)
        afm = int(fm[0]) if len(fm) == 1 and rs.rand() < .4 else list(fm)
        adm = int(dm[0]) if len(dm) == 1 and rs.rand() < .4 else list(dm)
        if list(dm) == list(range(dsize)) and rs.rand() < .4:
            adm = None
        if adm is None and not dsize and flip is None and rs.rand() < .5:
            return own(F.FuncWrap, c.f, apm, afm, size), commit, 'FuncWrap'
        return own(F.FuncWrap, c.f, apm, afm, size, adm, dsize, flip), commit, 'FuncWrap'
    if f == 'collapse':
        opts = [(True, True), (False, True), (True, False)]
        if len(c.n) > 1:
            opts += [(sorted(rs.choice(len(c.n), rs.randint(1, len(c.n)), replace=False).tolist()), bool(rs.randint(2)))]
        sv, sd = pick(rs, opts)
        N = len(c.n)
        ax = (list(range(N)) if sv is True else sv or []) + (list(range(N, N + len(c.d))) if sd else [])
        if not all(c.cov[k] for k in ax):
            return None
        m = freeze(c)
        keep = [k for k in range(N + len(c.d)) if k not in ax]

        def commit(r):
            c.frozen = True
            return Fn(r, lambda a: m(a).sum(tuple(ax)), c.sig, [c.n[k] for k in keep if k < N], [c.d[k - N] for k in keep if k >= N],
                      [c.cov[k] for k in keep], [c.acov[k] for k in keep], None, 'collapse', size=c.size)
        return own(F.Collapse, c.f, sv, sd), commit, 'Collapse(%s, %s)' % (sv, sd)
    if f == 'compose':
        return compose(rs, c, old, F)
    if f == 'compose2':
        # a built function, or a leaf of several parameters, of other functions
        G = [q for q in old if q.sig and not q.d]
        if not G:
            return None
        if c.size > 5 or not c.sig:
            return None
        gs = []
        for s in c.sig:
            o_ = [q for q in G if tuple(q.n) == tuple(s) and q is not c and all(q.cov)]
            if not o_:
                gs.append(Fn(F.X(), m_el('x'), [s], s, []))
            else:
                gs.append(pick(rs, o_))
        return composed(rs, F, c.f, freeze(c), c, gs, c.n, c.d, c.cov, c.acov)
    return None


def fit(rs, small, big):
    """a random injection of the axes of `small` into those of `big` of the same sizes"""
    free = list(range(len(big)))
    out = []
    for s in small:
        o = [k for k in free if big[k] == s]
        if not o:
            return None
        k = pick(rs, o)
        free.remove(k)
        out.append(k)
    return out


def composed(rs, F, f, fm, parent, gs, n, d, cov, acov):
    """f @ gs, all of them over one list of parameters"""
    if sum(g.size for g in gs) + (parent.size if parent else 1) > 8:
        return None
    # the g's share one signature: that of the longest, if the others are prefixes of it
    sig = max((g.sig for g in gs), key=len)
    use, ms = [], []
    for g in gs:
        if [tuple(s) for s in g.sig] == [tuple(s) for s in sig[:len(g.sig)]] and (g.sig or True):
            use.append(g.f)
            ms.append((freeze(g), list(range(len(g.sig)))))
        else:
            pm, sig2 = [], list(sig)
            for s in g.sig:
                o = [k for k, q in enumerate(sig2) if tuple(q) == tuple(s) and k not in pm]
                if o:
                    pm.append(o[0])
                else:
                    pm.append(len(sig2))
                    sig2.append(s)
            sig = sig2
            # placed over the joint list of parameters
            use.append(F.Sum(len(g.n), len(g.d)).add(g.f, pm, list(range(len(g.n))), list(range(len(g.d)))))
            ms.append((freeze(g), pm))
    # functions that see more parameters than they use go through a Sum
    for k, g in enumerate(gs):
        if use[k] is g.f and len(g.sig) < len(sig):
            use[k] = F.Sum(len(g.n), len(g.d)).add(g.f, list(range(len(g.sig))), list(range(len(g.n))), list(range(len(g.d))))
    if sum(int(np.prod(s)) for s in sig) > 22 or not sig:
        return None

    def m(a):
        P = a[0].g.shape[-1]
        js = []
        for (x, pm), g in zip(ms, gs):
            j = x([a[k] for k in pm])
            if j.g.shape[-1] != P:
                j = J.const(j.v, P)
            # along the declared sizes
            sh = tuple(g.n) + tuple(g.d)
            js.append(J(np.broadcast_to(j.v, sh) if all(g.cov) else j.v, np.broadcast_to(j.g, sh + j.g.shape[-1:]) if all(g.cov) else j.g,
                        np.broadcast_to(j.h, sh + j.h.shape[-2:]) if all(g.cov) else j.h))
        # chain rule over the inner values
        inner = fm(jets([j.v for j in js]))
        v = inner.v
        gi = np.concatenate([j.g.reshape(-1, P) for j in js])
        hi = np.concatenate([j.h.reshape(-1, P, P) for j in js])
        if inner.g.shape[-1] == 0:
            return J.const(v, P)
        g_ = inner.g @ gi
        h_ = np.einsum('...ab,ak,bl->...kl', inner.h, gi, gi) + np.tensordot(inner.g, hi, 1)
        return J(v, g_, h_)
    if not tame(m, sig):
        return None
    arg = list(use)
    single = len(arg) == 1 and rs.rand() < .7
    op = rs.rand() < .6

    def th():
        r = (f @ (arg[0] if single else arg)) if op else F.Compose(f, arg[0] if single else arg)
        if not single:
            arg.append(None)  # the caller's list is his own
        return r

    def undo():
        arg[:] = use

    def commit(r):
        for g in gs + ([parent] if parent else []):
            g.frozen = True
        return Fn(r, m, sig, n, d, cov, acov, None, 'compose', size=sum(g.size for g in gs) + (parent.size if parent else 1))
    commit.undo = undo
    return th, commit, '%s @ %s' % (type(f).__name__, [type(u).__name__ for u in use])


def compose(rs, c, old, F):
    if not c.sig:
        return None
    k = pick(rs, ['exp', 'exp', 'log', 'logistic', 'arctan', 'x', 'poisson', 'poisson', 'lnb', 'mv', 'mm', 'game', 'tie', 'set', 'collapse', 'quad'])
    full = all(c.cov)
    if len(c.d) == 2 and rs.rand() < .7:
        k = 'collapse'
    if k in ('exp', 'log', 'logistic', 'arctan', 'x'):
        if c.d and k != 'exp':
            return None
        if k == 'exp' and not within(c, -8, 4):
            return None
        if k == 'log' and not within(c, .05, 1e3):
            return None
        cls = {'exp': F.Exp, 'log': F.Log, 'logistic': F.Logistic, 'arctan': F.ArcTan, 'x': F.X}[k]
        return composed(rs, F, cls(), m_el(k), None, [c], c.n, c.d, c.cov, c.cov)
    if c.d and k != 'collapse':
        return None
    if k in ('poisson', 'lnb'):
        if not within(c, .05, 6):
            return None
        n = rs.randint(2, 4)
        r = pick(rs, [1, 2.5])
        return composed(rs, F, F.Poisson(n) if k == 'poisson' else F.LogNegativeBinomial(n, r),
                        m_poisson(n) if k == 'poisson' else m_lnb(n, r), None, [c], c.n, [n], c.cov + [True], c.cov + [True])
    if k in ('game', 'tie', 'set'):
        # with two features or more: a listed finding, see tennis()
        if not full or len(c.n) > 1 or not within(c, .02, .98):
            return None
        from maxlike.func import tennis
        gs = [c]
        if k == 'set':
            gs.append(pick(rs, [q for q in old if tuple(q.n) == tuple(c.n) and not q.d and all(q.cov) and q.sig] or [c]))
        cls = {'game': tennis.Game, 'tie': tennis.TieBreak, 'set': tennis.Set}[k]
        return composed(rs, F, cls(), m_tennis(k), None, gs, c.n, [SCORES[k]], c.cov + [True], c.cov + [True])
    if k in ('mv', 'mm'):
        if not full or not within(c, .01, 1.2):
            return None
        o = [q for q in old if tuple(q.n) == tuple(c.n) and not q.d and all(q.cov) and q.sig and within(q, .01, 1.2)]
        b = pick(rs, o) if o else c
        n = rs.randint(2, 4)
        d = [2 * n - 1] if k == 'mv' else [n, n]
        steps, skew = pick(rs, [3, 3, 2, 4]), None
        if rs.rand() < .5:
            skew = rs.uniform(.5, 1.2, d)
        cls, mod = (F.MarkovVector, m_markov_vector) if k == 'mv' else (F.MarkovMatrix, m_markov_matrix)
        f = cls(n, steps) if skew is None else own(cls, n, steps, skew)()
        return composed(rs, F, f, mod(n, steps, np.ones(d) if skew is None else skew), None, [c, b], c.n, d,
                        c.cov + [True] * len(d), c.cov + [True] * len(d))
    if k == 'collapse':
        if len(c.d) != 2 or not full:
            return None
        conds, f = DEFAULT, F.CollapseMatrix()
        if rs.rand() < .5:
            conds = [(pick(rs, [1, 1, -1, 0]), pick(rs, [-1, 1, 0]), pick(rs, [0, 0, 1, -2]), pick(rs, [-1, 0, 1])) for _ in range(rs.randint(1, 4))]
            f = own(F.CollapseMatrix, conds[0] if len(conds) == 1 and rs.rand() < .5 else [list(x) for x in conds])()
        return composed(rs, F, f, m_collapse(conds), None, [c], c.n, [len(conds)], c.cov[:-2] + [True], c.acov[:-2] + [True])
    if not full:
        return None
    u, s = rs.randint(-2, 3) / 2., pick(rs, [1., 2.])
    return composed(rs, F, F.Quadratic(u, s), m_quad(u, s), None, [c], [], [], [], [])


# --------------------------------------------------------------------------

def dense(t, sizes):
    """numbers of a result over the axes (x, y, features, extra)"""
    if not hasattr(t, 'toarray'):
        t = np.asarray(t, float)
        check(t.ndim == 0, 'type', 'a plain array as result')
        return t
    a = np.asarray(t.toarray(), float)
    if a.ndim == 0:
        return a
    sp = (t.x_dim, t.y_dim, t.n, t.dim)
    have = [len(s) for s in sizes]
    idx = []
    for k, (g, w) in enumerate(zip(sp, have)):
        check(g in (0, w), 'spaces', 'a result with the spaces %s, expected %s', sp, have)
        idx += [slice(None)] * g if g else [None] * w
    return a[tuple(idx)]


def same(got, want, what, scale):
    try:
        got = np.broadcast_to(got, want.shape)
    except ValueError:
        raise Violation('shape', '%s has the shape %s instead of %s' % (what, got.shape, want.shape))
    check((np.abs(got - want) <= 1e-7 * scale).all(), 'value', '%s is %s instead of %s', what, np.round(got, 9).tolist(), np.round(want, 9).tolist())


def full_ref(fn, seed):
    ps, r = model(fn, seed)
    P = sum(p.size for p in ps)
    sh = tuple(fn.n) + tuple(fn.d)
    v = np.broadcast_to(r.v, sh)
    g = np.broadcast_to(r.g, sh + (P,)) if ps else None
    h = np.broadcast_to(r.h, sh + (P, P)) if ps else None
    return ps, v, g, h, 1 + r.mag()


def blocks(ps):
    at = 0
    for p in ps:
        yield slice(at, at + p.size)
        at += p.size


def verify(fn, rs, what):
    """compares everything the function gives with the reference"""
    seed = SEEDS[rs.randint(len(SEEDS))]
    ps, v, g, h, scale = full_ref(fn, seed)
    N, D = tuple(fn.n), tuple(fn.d)
    arg = list(ps) if rs.rand() < .5 else tuple(ps)
    if len(ps) == 1 and rs.rand() < .3:
        arg = ps[0]
    keep = [p.copy() for p in ps]
    V = lambda t, w: same(dense(t, ((), (), N, D)), v, w + ' of ' + what, scale)
    bl = list(blocks(ps))

    def G(t, i, w):
        want = np.moveaxis(g[..., bl[i]], -1, 0).reshape(ps[i].shape + v.shape)
        same(dense(t, (ps[i].shape, (), N, D)), want, '%s by parameter %d of %s' % (w, i, what), scale)

    def H(t, i, j, w):
        want = np.moveaxis(h[..., bl[i], bl[j]], (-2, -1), (0, 1)).reshape(ps[i].shape + ps[j].shape + v.shape)
        same(dense(t, (ps[i].shape, ps[j].shape, N, D)), want, '%s by parameters %d, %d of %s' % (w, i, j, what), scale)
    V(fn.f(arg), 'the value')
    k = rs.randint(3)
    if ps:
        if k != 1:
            for i in range(len(ps)):
                G(fn.f.grad(arg, i), i, 'grad')
                for j in range(i + 1):
                    H(fn.f.hess(arg, i, j), i, j, 'hess')
        else:
            gl, hl = fn.f.grad(arg), fn.f.hess(arg)
            for w, l in (('grad', gl), ('hess', hl)):
                check(isinstance(l, (list, tuple)) and len(l) == len(ps), 'type', '%s of %s for all parameters is not one entry for each', w, what)
            for i in range(len(ps)):
                G(gl[i], i, 'grad')
                check(isinstance(hl[i], (list, tuple)), 'type', 'the hess of %s is not a matrix of blocks', what)
                for j in range(i + 1):
                    H(hl[i][j], i, j, 'hess')
        if k != 0:
            ev, eg, eh = fn.f.eval(arg)
            V(ev, 'eval')
            for i in range(len(ps)):
                G(eg[i], i, 'the gradient in eval')
                for j in range(i + 1):
                    H(eh[i][j], i, j, 'the hessian in eval')
    for p, q in zip(ps, keep):
        check((p == q).all(), 'params-changed', 'evaluating %s modified its parameters', what)


class Broken:
    """not a Func"""
    b, a = 1, 1


def badadd(rs, pool, F):
    """a builder call that fails; -> thunk or None"""
    tgt = [q for q in pool if q.open()]
    if not tgt:
        return None
    T = pick(rs, tgt)
    # a term with several parts, of which a late one cannot be mapped
    cands = [q for q in pool if q is not T and not q.empty and q.terms is not None and q.kind == T.kind and len(q.sig) > 1]
    k = rs.randint(6)
    if k < 3 and cands:
        c = pick(rs, cands)
        cut = rs.randint(len(c.sig))
        used = [0]
        if k == 0:
            return lambda: T.f.add(c.f, list(range(cut)), list(range(len(c.n)))), T
        if k == 1:
            return lambda: T.f.add(c.f, list(range(len(c.sig))), list(range(max(0, len(c.n) - 1)))), T
        return lambda: T.f.add((2 * c.f + 1) if T.kind == 'sum' else c.f, list(range(cut)), list(range(len(c.n)))), T
    if k == 3:
        return lambda: T.f.add(pick(rs, [None, 3, 'X', Broken(), np.exp]), 0, 0), T
    if k == 4:
        return lambda: T.f.add(F.X(), 1.5, 0), T
    return lambda: T.f.add(F.X(), 0, 0.5), T


def tennis(seed):
    """the scores over two features: known to come with the features transposed"""
    from maxlike.func import tennis
    rs = np.random.RandomState(seed)
    p, t = rs.uniform(.2, .8, (2, 2, 3))
    out = []
    for kind, f in (('game', tennis.Game()), ('tie', tennis.TieBreak()), ('set', tennis.Set())):
        ps = [p, t] if kind == 'set' else [p]
        got = np.asarray(f(ps).toarray())
        want = m_tennis(kind)(jets(ps)).v
        if got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12):
            continue
        check(got.shape == (3, 2, want.shape[-1]) and np.allclose(got, want.swapaxes(0, 1), rtol=1e-9, atol=1e-12),
              'value', '%s of two features is %s instead of %s', type(f).__name__, np.round(got, 9).tolist(), np.round(want, 9).tolist())
        out.append(('tennis-features-transposed', 'Game, TieBreak and Set swap the axes of an argument with two features'))
    return out[:1]


def run(case, sim, stats):
    F = world.M.func
    pool = []
    c = sim._who()
    info = {'n': 0, 'multi': 0}
    r0 = np.random.RandomState(case['seed2'])
    for _ in range(3):
        pool.append(leaf(r0, F))

    def look(fn, what):
        if fn.empty:
            return
        rs = np.random.RandomState(case['seed2'] + info['n'])
        verify(fn, rs, what)
        info['n'] += 1
        info['multi'] += fn.size > 1
        stats['compared:' + fn.kind] += 1

    def others(rs, what, k=2):
        for _ in range(k):
            look(pick(rs, pool), 'a function that existed before ' + what)
    for o in case['ops']:
        rs = np.random.RandomState(o['p'])
        if o['f'] == 'check':
            others(rs, 'a look', 3)
            continue
        if o['f'] == 'badadd':
            b = badadd(rs, pool, F)
            if b is None:
                continue
            try:
                b[0]()
            except engine.SimBudget:
                raise
            except Exception:
                stats['failed_op'] += 1
                look(b[1], 'a function after a failed add')
            else:
                # accepted: the function is not defined any more
                pool = [q for q in pool if q is not b[1]] or [leaf(rs, F)]
            continue
        pl = plan(o, pool, rs, F)
        if pl is None:
            continue
        th, commit, what = pl
        flt = o.get('fault')
        undo = getattr(commit, 'undo', None)
        if flt and o['f'] not in ('leaf', 'sum', 'prod'):
            # an add takes a handful of events: they are counted on the fly
            if flt['pos'][0] != 'at':
                flt['pos'] = ['at', resolve(flt['pos'], 14 if o['f'] in ('add', 'nest') else 6)]
            ff = c.fault = Fault(flt['kind'], flt['pos'][1], EXC[SEAM[flt['kind']]])
            c.seam = 0
            stats['fault_armed:' + flt['kind']] += 1
            r = None
            try:
                r = th()
            except engine.SimBudget:
                raise
            except BaseException:
                if ff.fired is None:
                    raise
            finally:
                c.fault = None
            if ff.fired is not None:
                stats['fault_fired:' + flt['kind']] += 1
                stats['failed_op'] += r is None
                flt['site'] = ff.fired
                sim.cover.add((flt['kind'], ff.fired))
            if r is None:
                for q in pool[-4:]:
                    look(q, 'a function after an aborted ' + what)
                if undo:
                    undo()
                r = th()
        else:
            r = th()
        fn = commit(r)
        if TRACE:
            print('#', pool.index(fn) if fn in pool else len(pool), what, fn.kind, 'sig', fn.sig, 'n', fn.n, 'd', fn.d, 'cov', fn.cov, fn.acov)
        stats['op:' + o['f']] += 1
        if fn not in pool:
            pool.append(fn)
            fn.names = what
        look(fn, 'a %s built by %s' % (type(fn.f).__name__, what))
        others(rs, what, 1)
        # an evaluation that is cut short leaves nothing behind
        if flt and flt['pos'][1] % 3 == 0 and not fn.empty and fn.sig:
            ps = params(fn.sig, SEEDS[0])
            ff = c.fault = Fault(flt['kind'], flt['pos'][1] * 3, EXC[SEAM[flt['kind']]])
            c.seam = 0
            try:
                fn.f.eval(ps)
            except engine.SimBudget:
                raise
            except BaseException:
                if ff.fired is None:
                    raise
                stats['fault_fired:' + flt['kind']] += 1
                stats['failed_op'] += 1
            finally:
                c.fault = None
            look(fn, 'a function after an aborted evaluation')
    for q in pool:
        look(q, 'a function at the end')
    findings = []
    if case['seed2'] % 4 == 0:
        findings = tennis(case['seed2'])
        stats['compared:tennis'] += 1
    return {'nontrivial': info['n'] >= 4 and info['multi'] > 0, 'findings': findings,
            'key': repr([(o['f'], o['p'] % 997, (o.get('fault') or {}).get('site')) for o in case['ops']])}
