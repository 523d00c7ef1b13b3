"""Model zoo: JSON spec -> real maxlike objects + an independent dense reference.

The reference (class Ref) never calls maxlike: it evaluates the declared model
with plain numpy broadcasting, is complex-safe, and is differentiated with the
complex-step method, so gradients carry no cancellation error and no code is
shared with the analytic derivatives under test.
"""
import copy

import numpy as np
from scipy.special import gammaln, factorial

M = None  # the maxlike package, set by boot


def setm(m):
    global M
    M = m


class _NS:
    """maxlike.func, with the leaves wrapped by a harness component"""
    wrap = None
    LEAVES = ('X', 'Vector', 'Scalar', 'Constant', 'Exp')

    rec = None          # records the arrays and lists given to constructors

    def __getattr__(self, name):
        obj = getattr(M.func, name)
        if _NS.rec is not None and name in ('Constant', 'Vector'):
            def made(v):
                v = np.array(v, dtype=float)
                _NS.rec.append(v)
                return obj(v) if _NS.wrap is None else _NS.wrap(obj(v), name)
            return made
        if _NS.wrap is not None and name in self.LEAVES:
            return lambda *a, **k: _NS.wrap(obj(*a, **k), name)
        return obj


NS = _NS()


# --------------------------------------------------------------------------
# reference kernels (complex-safe, last axes = dim)
# --------------------------------------------------------------------------

def k_poisson(lam, n):
    x = np.arange(n)
    return lam[..., None] ** x / factorial(x)


def k_lognb(m, n, r):
    x = np.arange(n)
    m = m[..., None]
    return (gammaln(r + x) - gammaln(r) - gammaln(x + 1.0) + x * np.log(m) +
            r * np.log(r) - (x + r) * np.log(r + m))


def k_markov_vector(p1, p2, size, steps):
    s1, s2 = p1 / steps, p2 / steps
    n = 2 * size - 1
    m = np.zeros(s1.shape + (n,), dtype=np.result_type(s1, float))
    m[..., size - 1] = 1
    for _ in range(steps):
        new = m * (1 - s1 - s2)[..., None]
        up = m * s1[..., None]
        dn = m * s2[..., None]
        new[..., 1:] += up[..., :-1]
        new[..., -1] += up[..., -1]
        new[..., :-1] += dn[..., 1:]
        new[..., 0] += dn[..., 0]
        m = new
    return m


def k_markov_matrix(p1, p2, size, steps):
    s1, s2 = p1 / steps, p2 / steps
    m = np.zeros(s1.shape + (size, size), dtype=np.result_type(s1, float))
    m[..., 0, 0] = 1
    for _ in range(steps):
        new = m * (1 - s1 - s2)[..., None, None]
        up = m * s1[..., None, None]
        rt = m * s2[..., None, None]
        new[..., 1:, :] += up[..., :-1, :]
        new[..., -1, :] += up[..., -1, :]
        new[..., :, 1:] += rt[..., :, :-1]
        new[..., :, -1] += rt[..., :, -1]
        m = new
    return m


def k_collapse(f):
    n, k = f.shape[-2:]
    d = np.arange(n)[:, None] - np.arange(k)[None, :]
    return np.stack([(f * (np.sign(d) == s)).sum((-1, -2))
                     for s in (1, 0, -1)], -1)


def k_game(p):
    q = 1 - p
    return (p ** 4 + 4 * p ** 4 * q + 10 * p ** 4 * q ** 2 +
            20 * p ** 5 * q ** 3 / (1 - 2 * p * q))


def k_tie(p):
    q = 1 - p
    s = 924 * p ** 8 * q ** 6 / (1 - 2 * p * q)
    for k, c in enumerate((1, 7, 28, 84, 210, 462)):
        s = s + c * p ** 7 * q ** k
    return s


def k_set(p, t):
    q = 1 - p
    return np.stack([p ** 6, 6 * p ** 6 * q, 21 * p ** 6 * q ** 2,
                     56 * p ** 6 * q ** 3, 126 * p ** 6 * q ** 4,
                     252 * p ** 7 * q ** 5, 504 * p ** 6 * q ** 6 * t], -1)


def ax(v, axes, n):
    """place the axes of v at positions `axes` of an n-axes array"""
    v = np.asarray(v)
    order = np.argsort(axes)
    v = v.transpose(order)
    idx = [None] * n
    for a in axes:
        idx[a] = slice(None)
    return v[tuple(idx)]


# --------------------------------------------------------------------------
# templates.  each: sizes(spec), params(spec)->[shape], model(spec)->Func,
#                   y(spec, params)->dense array over N's axes
# --------------------------------------------------------------------------

class Additive:
    """y = c + wa*a_i - wb*b_j [+ v_k h] [+ s]"""
    n_feat = 3

    @staticmethod
    def shapes(sp):
        s = sp['sizes']
        out = {'a': (s[0],), 'b': (s[1],)}
        if sp['h']:
            out['h'] = ()
        if sp.get('sc'):
            out['s'] = ()
        return out

    @staticmethod
    def feats(sp):
        s = sp['sizes']
        return (s[0], s[1], s[2]) if sp['h'] else (s[0], s[1])

    @staticmethod
    def build(sp, ix):
        F = NS
        nf = 3 if sp['h'] else 2
        s = F.Sum(nf)
        style = sp.get('style', 0)
        wa, wb = sp.get('wa', 1.0), sp.get('wb', 1.0)
        fa = F.X() if wa == 1 else (wa * F.X() if style != 1 else F.X())
        if wa != 1 and style == 1:
            s.add(fa, ix['a'], 0, weight=wa)
        else:
            s.add(fa, ix['a'], 0)
        if style == 2:
            inner = F.Sum(nf - 1 if nf == 3 else 2)
            inner.add(F.X(), ix['b'] * 0, 1)
            s.add(-wb * inner, [ix['b']], [0, 1])
        else:
            s.add(-F.X() if wb == 1 else (-wb) * F.X(), ix['b'], 1)
        if sp['h']:
            v = np.asarray(sp['v'], dtype=float)
            if style == 2:
                k = F.Constant(v)
                p = F.Product(1).add(k, None, 0).add(F.Scalar(), 0, None)
                s.add(p, ix['h'], 2)
            else:
                s.add(F.Vector(v), ix['h'], 2)
        if sp.get('sc'):
            s.add(F.Scalar(), ix['s'], None)
        if sp.get('c'):
            if style == 1:
                return s + sp['c']
            s.add(F.Constant(np.asarray(float(sp['c']))), None, None)
        return s

    @staticmethod
    def y(sp, p):
        n = 3 if sp['h'] else 2
        y = sp.get('wa', 1.0) * ax(p['a'], [0], n) - \
            sp.get('wb', 1.0) * ax(p['b'], [1], n) + sp.get('c', 0)
        if sp['h']:
            y = y + ax(np.asarray(p['h']) * np.asarray(sp['v'], float), [2], n)
        if sp.get('sc'):
            y = y + p['s']
        return y


class Grid:
    """y = m_ij (+ a_i); m is 2-dimensional"""
    @staticmethod
    def shapes(sp):
        s = sp['sizes']
        out = {'m': (s[1], s[0]) if sp['swap'] else (s[0], s[1])}
        if sp['h']:
            out['h'] = ()
        return out

    @staticmethod
    def feats(sp):
        s = sp['sizes']
        return (s[0], s[1], s[2]) if sp['h'] else (s[0], s[1])

    @staticmethod
    def build(sp, ix):
        F = NS
        s = F.Sum(3 if sp['h'] else 2)
        s.add(F.X(), ix['m'], [1, 0] if sp['swap'] else [0, 1])
        if sp['h']:
            s.add(F.Vector(np.asarray(sp['v'], float)), ix['h'], 2)
        return s

    @staticmethod
    def y(sp, p):
        n = 3 if sp['h'] else 2
        y = ax(p['m'], [1, 0] if sp['swap'] else [0, 1], n)
        if sp['h']:
            y = y + ax(np.asarray(p['h']) * np.asarray(sp['v'], float), [2], n)
        return y


class Cross:
    """y = a_i - a_j - h"""
    @staticmethod
    def shapes(sp):
        out = {'a': (sp['sizes'][0],)}
        if sp['h']:
            out['h'] = ()
        return out

    @staticmethod
    def feats(sp):
        return (sp['sizes'][0],) * 2

    @staticmethod
    def build(sp, ix):
        F = NS
        s = F.Sum(2)
        s.add(F.X(), ix['a'], 0)
        s.add(-F.X(), ix['a'], 1)
        if sp['h']:
            s.add(-F.Scalar(), ix['h'], [])
        return s

    @staticmethod
    def y(sp, p):
        y = ax(p['a'], [0], 2) - ax(p['a'], [1], 2)
        if sp['h']:
            y = y - p['h']
        return y


class Bilinear:
    """y = a_i * b_j (+ s)"""
    @staticmethod
    def shapes(sp):
        out = {'a': (sp['sizes'][0],), 'b': (sp['sizes'][1],)}
        if sp.get('sc'):
            out['s'] = ()
        return out

    @staticmethod
    def feats(sp):
        return tuple(sp['sizes'][:2])

    @staticmethod
    def build(sp, ix):
        F = NS
        p = F.Product(2).add(F.X(), 0, 0).add(F.X(), 1, 1)
        if sp.get('style') == 1:
            q = F.Product(2)
            q.add(p, [0, 1], [0, 1])
            p = q
        s = F.Sum(2)
        s.add(p, [ix['a'], ix['b']], [0, 1])
        if sp.get('sc'):
            s.add(F.Scalar(), ix['s'], None)
        return s

    @staticmethod
    def y(sp, p):
        y = ax(p['a'], [0], 2) * ax(p['b'], [1], 2)
        if sp.get('sc'):
            y = y + p['s']
        return y


class Interact:
    """y = s_ij + v_k (h + g * (s_ij - s_ji)), s_ij = a_i - b_j"""
    @staticmethod
    def shapes(sp):
        n = sp['sizes'][0]
        return {'a': (n,), 'b': (n,), 'h': (), 'g': ()}

    @staticmethod
    def feats(sp):
        n = sp['sizes'][0]
        return (n, n, len(sp['v']))

    @staticmethod
    def build(sp, ix):
        F = NS
        s = F.Sum(2).add(F.X(), 0, 0).add(-F.X(), 1, 1)
        sd = F.Sum(2)
        sd.add(s, [0, 1], [0, 1])
        sd.add(-s, [0, 1], [1, 0])
        hs = F.Product(2)
        hs.add(F.Scalar(), 2, None)
        hs.add(sd, [0, 1], [0, 1])
        hd = F.Sum(2)
        hd.add(F.Scalar(), 2, None)
        hd.add(hs, [0, 1, 3], [0, 1])
        H = F.Product(3)
        H.add(F.Constant(np.asarray(sp['v'], float)), [], 2)
        H.add(hd, [0, 1, 2, 3], [0, 1])
        f = F.Sum(3)
        f.add(s, [ix['a'], ix['b']], [0, 1])
        f.add(H, [ix['a'], ix['b'], ix['h'], ix['g']], [0, 1, 2])
        return f

    @staticmethod
    def y(sp, p):
        s = ax(p['a'], [0], 2) - ax(p['b'], [1], 2)
        d = p['h'] + p['g'] * (s - s.T)
        return s[..., None] + d[..., None] * np.asarray(sp['v'], float)


def _pair(sp, p):
    n = 2
    a, b, h = p['a'], p['b'], p['h']
    f1 = ax(a, [0], n) - ax(b, [1], n) + .5 * h
    f2 = ax(a, [1], n) - ax(b, [0], n) - .5 * h
    return f1, f2


def _pair_build(ix, swap):
    F = NS
    f1 = F.Sum(2)
    f1.add(F.X(), 0, 0)
    f1.add(-F.X(), 1, 1)
    f1.add(.5 * F.Scalar(), 2, None)
    f2 = F.Sum(2)
    f2.add(F.X(), 0, 1 if swap else 0)
    f2.add(-F.X(), 1, 0 if swap else 1)
    f2.add(-.5 * F.Scalar(), 2, None)
    return f1, f2


class PairBase:
    @staticmethod
    def shapes(sp):
        n = sp['sizes'][0]
        return {'a': (n,), 'b': (n,), 'h': ()}

    @staticmethod
    def feats(sp):
        n = sp['sizes'][0]
        return (n, n)


class LogSum(PairBase):
    """y = log(exp(a_i-b_j+h/2) + exp(a_j-b_i-h/2))"""
    @staticmethod
    def build(sp, ix):
        F = NS
        f1, f2 = _pair_build(ix, False)
        S = F.Sum(2)
        pm = [ix['a'], ix['b'], ix['h']]
        S.add(F.Exp() @ f1, pm, [0, 1])
        S.add(F.Exp() @ f2, pm, [1, 0])
        return F.Log() @ S

    @staticmethod
    def y(sp, p):
        f1, f2 = _pair(sp, p)
        return np.log(np.exp(f1) + np.exp(f2))


class ProdMatrix(PairBase):
    @staticmethod
    def build(sp, ix):
        F = NS
        f1, f2 = _pair_build(ix, False)
        n = sp['n']
        P = F.Product(2, 2)
        pm = [ix['a'], ix['b'], ix['h']]
        P.add(F.Poisson(n) @ F.Exp() @ f1, pm, [0, 1], 0)
        P.add(F.Poisson(n) @ F.Exp() @ f2, pm, [1, 0], 1)
        if sp.get('collapse'):
            return F.CollapseMatrix() @ P
        return P

    @staticmethod
    def y(sp, p):
        f1, f2 = _pair(sp, p)
        u, v = k_poisson(np.exp(f1), sp['n']), k_poisson(np.exp(f2), sp['n'])
        m = u[..., :, None] * v[..., None, :]
        return k_collapse(m) if sp.get('collapse') else m


class MarkovV(PairBase):
    @staticmethod
    def build(sp, ix):
        F = NS
        f1, f2 = _pair_build(ix, True)
        k = F.MarkovVector(steps=sp['steps'], size=sp['n']) @ \
            [F.Exp() @ f1, F.Exp() @ f2]
        if [ix['a'], ix['b'], ix['h']] == [0, 1, 2]:
            return k
        s = F.Sum(2, 1)
        s.add(k, [ix['a'], ix['b'], ix['h']], [0, 1], 0)
        return s

    @staticmethod
    def y(sp, p):
        f1, f2 = _pair(sp, p)
        return k_markov_vector(np.exp(f1), np.exp(f2), sp['n'], sp['steps'])


class MarkovM(PairBase):
    @staticmethod
    def build(sp, ix):
        F = NS
        f1, f2 = _pair_build(ix, True)
        k = F.MarkovMatrix(steps=sp['steps'], size=sp['n']) @ \
            [F.Exp() @ f1, F.Exp() @ f2]
        if [ix['a'], ix['b'], ix['h']] == [0, 1, 2]:
            return k
        s = F.Sum(2, 2)
        s.add(k, [ix['a'], ix['b'], ix['h']], [0, 1], [0, 1])
        return s

    @staticmethod
    def y(sp, p):
        f1, f2 = _pair(sp, p)
        return k_markov_matrix(np.exp(f1), np.exp(f2), sp['n'], sp['steps'])


class FinPoisson:
    """Poisson(n) @ Exp @ additive"""
    @staticmethod
    def shapes(sp):
        return Additive.shapes(sp)

    @staticmethod
    def feats(sp):
        return Additive.feats(sp)

    @staticmethod
    def build(sp, ix):
        F = NS
        s = Additive.build(sp, ix)
        if sp.get('nb'):
            return F.NegativeBinomial(sp['n'], sp['nb']) @ F.Exp() @ s
        return F.Poisson(sp['n']) @ F.Exp() @ s

    @staticmethod
    def y(sp, p):
        m = np.exp(Additive.y(sp, p))
        if sp.get('nb'):
            return np.exp(k_lognb(m, sp['n'], sp['nb']))
        return k_poisson(m, sp['n'])


class SigRate:
    """y = scale * sigmoid(a_i - b_j)  (log-rate of a Poisson)"""
    @staticmethod
    def shapes(sp):
        return {'a': (sp['sizes'][0],), 'b': (sp['sizes'][1],)}

    @staticmethod
    def feats(sp):
        return tuple(sp['sizes'][:2])

    @staticmethod
    def build(sp, ix):
        F = NS
        s = F.Sum(2)
        s.add(F.X(), ix['a'], 0)
        s.add(-F.X(), ix['b'], 1)
        return sp['scale'] * (F.Sigmoid(sp['sig']) @ s)

    @staticmethod
    def y(sp, p):
        z = ax(p['a'], [0], 2) - ax(p['b'], [1], 2)
        if sp['sig'] == 'logistic':
            return sp['scale'] / (1 + np.exp(-z))
        # arctan is holomorphic near the real axis; numpy handles complex
        return sp['scale'] * (np.arctan(z) / np.pi + .5)


class Tennis:
    """single feature: p_i = logistic(a_i); set scores"""
    @staticmethod
    def shapes(sp):
        return {'a': (sp['sizes'][0],)}

    @staticmethod
    def feats(sp):
        return (sp['sizes'][0],)

    @staticmethod
    def build(sp, ix):
        F = NS
        from maxlike.func.tennis import Game, TieBreak, Set
        s = F.Sum(1)
        s.add(F.X(), ix['a'], 0)
        return Set() @ [F.Collapse(Game(), False),
                        F.Collapse(TieBreak(), False)] @ F.Logistic() @ s

    @staticmethod
    def y(sp, p):
        q = 1 / (1 + np.exp(-p['a']))
        return k_set(k_game(q), k_tie(q))


TMPL = {'add': Additive, 'grid': Grid, 'cross': Cross, 'bil': Bilinear,
        'inter': Interact, 'logsum': LogSum, 'pmat': ProdMatrix,
        'mkv': MarkovV, 'mkm': MarkovM, 'fin': FinPoisson, 'sig': SigRate,
        'tennis': Tennis}


# --------------------------------------------------------------------------
# reference likelihoods (log-likelihood, complex-safe)
# --------------------------------------------------------------------------

def loglike(like, arg, y, d):
    N = d['N']
    if like == 'Poisson':
        X = d['X']
        return (X * y - N * np.exp(y) - gammaln(X + 1)).sum()
    if like == 'ZeroInflatedPoisson':
        X, Z = d['X'], d['Z']
        return (X * y + Z * np.log(arg) -
                N * np.log(np.exp(np.exp(y)) + arg - 1) -
                gammaln(X + 1)).sum()
    if like == 'Logistic':
        X = d['X']
        return -(N * np.log(1 + np.exp(-y)) + (N - X) * y).sum()
    if like == 'NegativeBinomial':
        X = d['X']
        r = arg
        return (gammaln(X + r) - gammaln(X + 1) + r * np.log(r) - gammaln(r) +
                X * y - (X + r * N) * np.log(r + np.exp(y))).sum()
    nd = len(d['_feat'])
    z = y.sum(tuple(range(nd, y.ndim)), keepdims=True)
    if like == 'Finite':
        return (N * (np.log(y) - np.log(z))).sum()
    if like == 'NormalizedFinite':
        return (N * np.log(y)).sum()
    raise KeyError(like)


def formed(a, form):
    """a fresh copy of an array, in one of the forms users have"""
    a = np.array(a)
    if form == 'fortran':
        return np.array(a, order='F')
    if form == 'slice':
        b = np.zeros((2,) + a.shape[::-1] + (2,), a.dtype)[1, ..., 0].T
        b[...] = a
        return b
    if form == 'list':
        return a.tolist()
    if form == 'int' and a.dtype.kind in 'bf' and a.astype(int).astype(float).tobytes() == a.astype(float).tobytes():
        return a.astype(int).tolist()
    if form == 'readonly':
        a.flags.writeable = False
    return a


def linked(p, q, c, names, pairs=False):
    """p + c * q: over all pairs of entries, or each entry of one param
    with itself (a square one, with its transpose)"""
    p, q = np.asarray(p), np.asarray(q)
    if names[0] == names[1] and not pairs:
        return p + c * q.T
    return np.add.outer(p, c * q)


def linker(shapes, c, names, pairs=False):
    F = M.func
    m, n = len(shapes[0]), len(shapes[1])
    if names[0] == names[1] and not pairs:
        s = F.Sum(m)
        s.add(F.X(), 0, list(range(m)))
        s.add(c * F.X(), 1, list(range(m))[::-1])
        return s
    s = F.Sum(m + n)
    s.add(F.X() if m else F.Scalar(), 0, list(range(m)) or None)
    s.add(c * (F.X() if n else F.Scalar()), 1, list(range(m, m + n)) or None)
    return s


class World:
    def __init__(self, spec):
        self.spec = spec
        self.T = TMPL[spec['tmpl']]
        self.shapes = self.T.shapes(spec)
        self.names = spec['order']            # param order: names
        assert sorted(self.names) == sorted(self.shapes), spec
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.like = spec['like']
        self.arg = spec.get('arg')
        self.feat = tuple(self.T.feats(spec))
        self.masks = [np.array(spec['fixed'].get(n, np.zeros(self.shapes[n], bool)),
                               dtype=bool).reshape(self.shapes[n])
                      for n in self.names]
        rs = np.random.RandomState(spec['seed'])
        sc = spec.get('pscale', .3)
        self.truth = [rs.uniform(-sc, sc, self.shapes[n]) +
                      spec.get('base', {}).get(n, 0) for n in self.names]
        self.start = [t + rs.uniform(-1, 1, t.shape) * spec.get('jit', .2)
                      for t in self.truth]
        self.start = [np.round(s, 6) for s in self.start]
        for i, n in enumerate(self.names):
            if spec.get('forms', {}).get(n, [''])[0] == 'int':
                self.start[i] = np.round(self.start[i])
        for i, n in enumerate(self.names):
            if self.masks[i].any():
                self.truth[i] = np.where(self.masks[i], self.start[i], self.truth[i])
        self._project()
        self._data = {}

    # make the start satisfy the linear constraints (a feasible guess)
    def _project(self):
        cons = self.spec.get('con', [])
        if not cons or self.spec.get('infeasible'):
            return
        free = np.concatenate([(~m).ravel() for m in self.masks])
        x = np.concatenate([s.ravel() for s in self.start]).astype(float)
        A = np.array([self._conrow(c) for c in cons])
        Af = A[:, free]
        x[free] -= np.linalg.lstsq(Af, A @ x, rcond=None)[0]
        self.start = self.split(x)

    def _conrow(self, con):
        names, w = con
        row = [np.zeros(self.shapes[n]) for n in self.names]
        for n, wi in zip(names, w):
            row[self.ix[n]] = row[self.ix[n]] + np.asarray(wi)
        return np.concatenate([r.ravel() for r in row])

    def split(self, x):
        out, k = [], 0
        for n in self.names:
            s = self.shapes[n]
            m = int(np.prod(s))
            out.append(np.array(x[k:k + m]).reshape(s))
            k += m
        return out

    # -------------------------------------------------------------- data
    def data(self, k=0):
        """k-th synthetic data set (fresh copies on each call)"""
        if k not in self._data:
            self._data[k] = self._mkdata(k)
        return {n: formed(v, self.spec.get('dform')) for n, v in self._data[k].items()}

    def _mkdata(self, k):
        d = self._rawdata(k)
        cell = self.spec.get('hole')
        if cell is not None:
            # nothing observed for a combination of features
            for v in d.values():
                v[tuple(cell)] = 0
        c = self.spec.get('wscale', 1)
        return {n: v * c for n, v in d.items()}

    def _rawdata(self, k):
        rs = np.random.RandomState((self.spec['seed'] * 7919 + 104729 * k + 13) % (2 ** 31))
        truth = [t + (0 if k == 0 else rs.uniform(-.15, .15, t.shape)) for t in self.truth]
        y = np.broadcast_arrays(self.y(truth))[0]
        full = tuple(self.feat) + y.shape[len(self.feat):]
        y = np.broadcast_to(y, full)
        w = self.spec.get('weight', 8)
        if self.like in ('Finite', 'NormalizedFinite'):
            nd = len(self.feat)
            p = y / y.sum(tuple(range(nd, y.ndim)), keepdims=True)
            flat = p.reshape(self.feat + (-1,))
            N = np.zeros_like(flat)
            for i in np.ndindex(*self.feat):
                q = flat[i] / flat[i].sum()
                N[i] = rs.multinomial(rs.randint(w, 3 * w), q)
            N = N.reshape(y.shape) + .25
            if self.like == 'NormalizedFinite' and self.spec['tmpl'] == 'tennis':
                N = N
            return {'N': N}
        N = rs.randint(w, 2 * w + 1, full).astype(float)
        if self.like == 'Logistic':
            X = rs.binomial(N.astype(int), 1 / (1 + np.exp(-y))).astype(float)
            X = np.clip(X, .5, N - .5)
            return {'N': N, 'X': X}
        if self.like == 'NegativeBinomial':
            r = self.arg
            lam = rs.gamma(r * N, np.exp(y) / r)
            return {'N': N, 'X': rs.poisson(lam).astype(float) + .5}
        lam = N * np.exp(y)
        if self.like == 'ZeroInflatedPoisson':
            s = self.arg
            lam = lam / (1 + (s - 1) * np.exp(-np.exp(y)))
        X = rs.poisson(lam).astype(float) + .5
        if self.like == 'ZeroInflatedPoisson':
            Z = np.floor(N * s / (np.exp(np.exp(y)) + s - 1))
            return {'N': N, 'X': X, 'Z': Z}
        return {'N': N, 'X': X}

    # -------------------------------------------------------------- reference
    def y(self, params):
        return self.T.y(self.spec, dict(zip(self.names, params)))

    def objective(self, params, data):
        """mean penalised log-likelihood (complex-safe)"""
        d = dict(data)
        d['_feat'] = self.feat
        v = loglike(self.like, self.arg, self.y(params), d)
        for names, u, s, *link in self.spec.get('reg', []):
            if link:
                z = (linked(params[self.ix[names[0]]], params[self.ix[names[1]]], *link[:1], names, *link[1:]) - np.asarray(u)) / np.asarray(s)
                v = v - (z * z).sum()
                continue
            for n in names:
                z = (np.asarray(params[self.ix[n]]) - np.asarray(u)) / np.asarray(s)
                v = v - (z * z).sum()
        return v / d['N'].sum()

    def constraints(self, params):
        return np.array([sum((np.asarray(w) * np.asarray(params[self.ix[n]])).sum()
                             for n, w in zip(names, ws))
                         for names, ws in self.spec.get('con', [])])

    def free(self):
        return np.concatenate([(~m).ravel() for m in self.masks])

    def flat(self, params):
        return np.concatenate([np.asarray(p).ravel() for p in params])

    def grad_full(self, x, data):
        """complex-step gradient of the objective, all entries"""
        g = np.zeros(len(x))
        h = 1e-30
        for i in range(len(x)):
            z = x.astype(complex)
            z[i] += 1j * h
            g[i] = self.objective(self.split(z), data).imag / h
        return g

    def hess_free(self, x, data):
        free = np.flatnonzero(self.free())
        H = np.zeros((len(free), len(free)))
        e = 1e-5
        for k, i in enumerate(free):
            xp = x.copy(); xp[i] += e
            xm = x.copy(); xm[i] -= e
            H[k] = ((self.grad_full(xp, data) - self.grad_full(xm, data)) / (2 * e))[free]
        return .5 * (H + H.T)

    def conmat_free(self):
        cons = self.spec.get('con', [])
        free = self.free()
        return np.array([self._conrow(c)[free] for c in cons]).reshape(len(cons), int(free.sum()))

    def kkt(self, params, data):
        """(kkt matrix of the SUM objective, rhs, free idx) at params"""
        x = self.flat(params)
        n = float(data['N'].sum())
        H = self.hess_free(x, data) * n
        g = self.grad_full(x, data)[self.free()] * n
        A = self.conmat_free()
        c = self.constraints(params)
        m = len(A)
        K = np.block([[H, A.T], [A, np.zeros((m, m))]]) if m else H
        return K, np.concatenate([g, c]), H, A

    def newton_decrement(self, params, data):
        """predicted gain of the mean objective left at `params` on the
        constraint surface, relative to its value; and the constraint residual"""
        K, r, H, A = self.kkt(params, data)
        if not (np.isfinite(K).all() and np.isfinite(r).all()):
            return float('inf'), float('inf')
        s = np.linalg.lstsq(K, r, rcond=1e-12)[0][:H.shape[0]]
        f = self.objective(params, data)
        n = float(data['N'].sum())
        return float(abs(s @ (H @ s)) / 2 / n / max(abs(f), 1e-9)), \
            float(np.abs(self.constraints(params)).max()) if len(A) else 0.0

    # -------------------------------------------------------------- real code
    def model(self, wrap=None):
        _NS.wrap = wrap
        try:
            return self.T.build(self.spec, self.ix)
        finally:
            _NS.wrap = None

    def estimator(self, model=None, params=True, wrap=None, hook=None):
        """hook(kind, x): replaces the class ('cls'), a constraint ('con') or
        a regularization ('reg') by a user supplied one"""
        hook = hook or (lambda kind, x: x)
        cls = hook('cls', getattr(M, self.like))
        if self.like in ('Finite', 'NormalizedFinite'):
            d = self.y(self.truth).ndim - len(self.feat)
            e = cls(dim=d) if d != 1 or self.spec['seed'] % 2 else cls()
        elif self.arg is not None:
            e = cls(self.arg)
        else:
            e = cls()
        e.model = self.model(wrap) if model is None else model
        for c in self.spec.get('con', []):
            self.add_con(e, c, hook)
        for r in self.spec.get('reg', []):
            self.add_reg(e, r, hook)
        if params:
            self.add_params(e)
        return e

    def add_con(self, e, con, hook=lambda kind, x: x):
        rec = _NS.rec if _NS.rec is not None else []
        names, w = con
        pm, w = [self.ix[n] for n in names], copy.deepcopy(w)
        bare = len(pm) == 1 and self.spec['seed'] % 3 == 0
        e.add_constraint(pm[0] if bare else pm,
                         hook('con', M.func.Linear(w[0] if bare and isinstance(w[0], (int, float)) else w)))
        rec.extend([pm, w])

    def add_reg(self, e, reg, hook=lambda kind, x: x):
        rec = _NS.rec if _NS.rec is not None else []
        names, u, s, *link = reg
        pm = [self.ix[n] for n in names]
        if rec is _NS.rec:
            u, s = np.array(u, float), np.array(s, float)
        q = M.func.Quadratic(u, s)
        if link:
            q = q @ linker([self.shapes[n] for n in names], link[0], names, *link[1:])
        e.add_regularization(pm[0] if len(pm) == 1 and self.spec['seed'] % 3 == 1 else pm, hook('reg', q))
        rec.extend([pm, u, s])


    def add_params(self, e, start=None):
        for i, n in enumerate(self.names):
            m = self.masks[i]
            v = (start or self.start)[i]
            fv, fm = self.spec.get('forms', {}).get(n, (None, None))
            e.add_param(formed(v, fv), formed(m, fm) if m.any() else False if fm == 'list' else None)


# --------------------------------------------------------------------------
# random specs
# --------------------------------------------------------------------------

def gen_spec(rng, small=True, tmpls=None, likes=None):
    """rng: random.Random.  Returns a JSON-able spec of a well posed problem."""
    t = rng.choice(tmpls or ['add'] * 5 + ['grid', 'grid', 'cross', 'cross', 'bil', 'bil', 'inter',
                             'logsum', 'pmat', 'pmat', 'mkv', 'mkm', 'fin', 'fin', 'fin', 'sig', 'tennis'])
    sp = {'tmpl': t, 'seed': rng.randrange(10 ** 6), 'fixed': {}, 'con': [], 'reg': []}
    hi = 3 if small else 5
    sizes = [rng.randint(2, hi), rng.randint(2, hi), rng.randint(2, 3)]
    sp['sizes'] = sizes
    sp['h'] = rng.random() < .5
    sp['v'] = [-.5, .5] if rng.random() < .6 else [round(rng.uniform(-1, 1), 2) for _ in range(sizes[2])]
    if len(sp['v']) == 2:
        sizes[2] = 2
    cl = ['Poisson'] * 4 + ['Logistic', 'Logistic', 'NegativeBinomial', 'ZeroInflatedPoisson']
    like = rng.choice(cl)
    if t in ('add', 'fin'):
        sp['style'] = rng.randrange(3)
        if rng.random() < .4:
            sp['wa'] = rng.choice([.5, 2.0, 1.5])
        if rng.random() < .4:
            sp['wb'] = rng.choice([.5, 2.0, 1.5])
        if rng.random() < .4:
            sp['c'] = rng.choice([.3, -.25, .5])
    if t == 'grid':
        sp['swap'] = rng.random() < .5
    if t == 'bil':
        sp['style'] = rng.randrange(2)
        sp['sc'] = rng.random() < .5
        sp['base'] = {'a': 1.0, 'b': .8}
        sp['weight'] = 40
        like = rng.choice(['Poisson', 'Poisson', 'NegativeBinomial'])
    if t == 'inter':
        sp['weight'] = 100
        if max(sp['v']) - min(sp['v']) < .6:
            sp['v'] = [-.5, .5]
        like = rng.choice(['Poisson', 'Logistic'])
    if t == 'cross':
        like = rng.choice(['Logistic', 'Logistic', 'Poisson'])
    if t == 'logsum':
        like = 'Poisson'
        sp['weight'] = 60
        sp['base'] = {'h': .8}
    if t in ('pmat', 'mkv', 'mkm', 'fin'):
        like = 'Finite'
        sp['n'] = rng.randint(3, 4)
    if t == 'fin':
        if rng.random() < .5:
            sp['nb'] = rng.choice([1, 2])
        if rng.random() < .3:
            like = 'Finite'
    if t == 'pmat':
        sp['collapse'] = rng.random() < .5
        sp['weight'] = 20
    if t in ('mkv', 'mkm'):
        sp['steps'] = rng.randint(9, 11)
        sp['n'] = rng.randint(2, 3)
        sp['weight'] = 40
    if t == 'sig':
        sp['sig'] = rng.choice(['logistic', 'arctan'])
        sp['scale'] = rng.choice([2.0, 3.0])
        sp['weight'] = 40
        like = 'Poisson'
    if t == 'tennis':
        like = 'NormalizedFinite'
        sp['weight'] = 40
    if likes:
        like = rng.choice(likes)
    sp['like'] = like
    if like == 'NegativeBinomial':
        sp['arg'] = rng.choice([1, 2, 3.5])
    if like == 'ZeroInflatedPoisson':
        sp['arg'] = rng.choice([1.0, 2, 1.5, .5, .3])
    names = list(TMPL[t].shapes(sp))
    shapes = TMPL[t].shapes(sp)
    order = names[:]
    if rng.random() < .35:
        rng.shuffle(order)
    sp['order'] = order

    def fix(n, k=None):
        cnt = int(np.prod(shapes[n]))
        m = [False] * cnt
        m[rng.randrange(cnt) if k is None else k] = True
        if cnt > 2 and rng.random() < .25:
            m[rng.randrange(cnt)] = True
            if all(m):
                m[0] = False
        sp['fixed'][n] = np.array(m).reshape(shapes[n]).tolist()

    # ---- identification
    if 'a' in names and 'b' in names and t != 'bil':
        ident = rng.choice(['con', 'con', 'fix', 'reg', 'confix'])
        pair = ['a', 'b']
        if rng.random() < .3:
            pair.reverse()
        if ident in ('con', 'confix'):
            w = [1, 1] if rng.random() < .7 else [rng.choice([1, 2]), rng.choice([1, .5])]
            sp['con'].append([pair, w])
            if ident == 'confix':
                fix(rng.choice(['a', 'b']))
        elif ident == 'fix':
            fix(rng.choice(['a', 'b']))
        if ident == 'reg' or rng.random() < .2:
            sp['reg'].append([pair, rng.choice([0, .1]), rng.choice([1, 2, .5])])
    elif t == 'bil':
        fix('b')
        if rng.random() < .3:
            sp['reg'].append([['a'], rng.choice([0, 1.0]), rng.choice([1, 2])])
        if sp.get('sc'):
            # a_i*b_j + s : needs a strong prior on s
            sp['reg'] = [[['s'], 0, .2]]
    elif t == 'cross':
        if rng.random() < .6:
            sp['con'].append([['a'], [1]])
        else:
            fix('a')
        if like == 'Logistic' or True:
            if rng.random() < .3:
                sp['reg'].append([['a'], 0, 1])
    elif t == 'grid':
        if rng.random() < .5:
            fix('m')
        if rng.random() < .3:
            sp['con'].append([['m'], [1]])
        if rng.random() < .4:
            sp['reg'].append([['m'], 0, 1])
    elif t == 'tennis':
        if rng.random() < .4:
            fix('a')
        if rng.random() < .4:
            sp['con'].append([['a'], [1]])
    if t == 'logsum':
        sp['reg'].append([['h'], .8, .2])
    for n in ('h', 's', 'g'):
        if n in names and rng.random() < .12:
            sp['fixed'][n] = True
    # ---- other forms of the constraints and regularizations
    def spread(n, c):
        # weights that differ over the entries, of the same sum
        k = int(np.prod(shapes[n]))
        u = [rng.choice([-.5, -.25, 0, .25, .5]) for _ in range(k)]
        m = sum(u) / k
        return np.round([c * (1 + x - m) for x in u], 6).reshape(shapes[n]).tolist()

    for con in sp['con']:
        if rng.random() < .35:
            con[1] = [spread(n, c) if rng.random() < .6 else c for n, c in zip(*con)]
        if rng.random() < .2:
            # a param that is used twice
            n, c = con[0][0], con[1][0]
            k = rng.choice([.25, .5, .75])
            con[0] = con[0] + [n]
            con[1] = [(np.asarray(c) * k).tolist()] + con[1][1:] + [
                (np.asarray(c) * (1 - k)).tolist() if rng.random() < .5 or isinstance(c, list) else spread(n, c * (1 - k))]
    if 'b' in names and t in ('add', 'cross', 'grid', 'fin') and 'b' not in sp['fixed'] and \
            int(np.prod(shapes['b'])) > 2 and rng.random() < .25:
        # a second constraint
        k = int(np.prod(shapes['b']))
        sp['con'].append([['b'], [np.reshape([1] + [0] * (k - 2) + [-1], shapes['b']).tolist()]])
        if rng.random() < .5:
            sp['con'].reverse()
    for reg in sp['reg']:
        if len(reg[0]) == 1 and rng.random() < .3:
            k = int(np.prod(shapes[reg[0][0]]))
            if rng.random() < .5:
                reg[1] = np.round([reg[1] + rng.uniform(-.2, .2) for _ in range(k)], 3).reshape(shapes[reg[0][0]]).tolist()
            else:
                reg[2] = np.round([reg[2] * rng.choice([.5, 1, 2]) for _ in range(k)], 3).reshape(shapes[reg[0][0]]).tolist()
        if rng.random() < .15 and t != 'logsum':
            reg[0] = reg[0] + [rng.choice(reg[0])] if not isinstance(reg[1], list) and not isinstance(reg[2], list) else reg[0] * 2
    if t not in ('bil', 'logsum', 'inter') and rng.random() < .2:
        # a prior on combinations of two params, or of one used twice
        n1, n2 = rng.choice(names), rng.choice(names)
        c = rng.choice([1, -1, .5, -2])
        if 0 < len(shapes[n1]) + len(shapes[n2]) <= 3 or n1 == n2 and shapes[n1]:
            if n1 != n2 or len(set(shapes[n1])) < 2:
                sp['reg'].append([[n1, n2], rng.choice([0, .1, -.1]), rng.choice([.5, 1, 2, 4]), c])
                if n1 == n2 and len(shapes[n1]) == 1 and rng.random() < .5:
                    # of every pair of entries, each with a weight of its own
                    k = shapes[n1][0]
                    sp['reg'][-1][2] = [[rng.choice([.5, 1, 2, 4]) * (i * k + j + 1) ** .5 for j in range(k)] for i in range(k)]
                    sp['reg'][-1].append(True)
    sp['jit'] = rng.choice([.05, .2, .2, .35])
    if t in ('bil', 'sig', 'inter', 'tennis', 'pmat', 'mkv', 'mkm', 'logsum'):
        sp['jit'] = rng.choice([.05, .1])
    if t in ('add', 'cross', 'grid', 'fin') and not sp['reg'] and rng.random() < .25:
        # weighted observations; those below one can make the objective positive
        sp['wscale'] = rng.choice([.01, .002, 100])
        if t == 'add' and like == 'Poisson':
            sp['c'] = 1.2
    if t in ('add', 'cross', 'fin') and rng.random() < .2:
        sp['hole'] = [rng.randrange(k) for k in TMPL[t].feats(sp)]
    for n in names:
        if rng.random() < (.6 if t == 'grid' else .3):
            v = rng.choice(['fortran', 'slice', 'list', 'readonly'] + ['int'] * (t in ('add', 'cross', 'grid', 'fin')))
            sp.setdefault('forms', {})[n] = [v, rng.choice(['array', 'fortran', 'slice', 'list', 'int'])]
    if rng.random() < .2:
        sp['dform'] = rng.choice(['fortran', 'slice', 'readonly'])
    return sp
