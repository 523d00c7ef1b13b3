"""C12: tensor expressions equal dense algebra and never change their operands."""
from array import array

import copy

import numpy as np

import engine
import world
from common import EXC, SEAM, Fault, check, resolve

QUICK, THOROUGH = 7000, 150000
RULE = ('random programs of tensor operations over a growing pool of tensors (diagonal, full, broadcast and scalar ones with 0-2 '
        'axes in each of the x, y, feature and extra spaces, sums of diagonal terms), alone with aborted and invalid operations in '
        'between, or 2-3 client threads on the same pool; every result is compared with a dense numpy model, every operand and '
        'earlier result is compared bit for bit with what it was.  Non-trivial: at least 4 results were compared, one of them '
        'with a diagonal')
REAL = ['maxlike.tensor', 'numpy']
STUB = ['in the runs with threads the scheduler decides which one runs, switching between source lines of maxlike']
ASSUME = ['no division by tensors that have zeros',
          'an array handed to Tensor() is not modified afterwards by its owner (it is a view)']
MEASURE = 'distinct (fault kind, code location) where a fault fired, and code lines at which clients were switched'
LISTS = ('clients', 'sched.switches', 'clients.0', 'clients.1', 'clients.2')
MINLEN = {'clients': 1}
OPS = ['bin'] * 8 + ['ibin'] * 2 + ['arr'] * 2 + ['sc'] * 4 + ['neg', 'T', 'T', 'drop', 'sum', 'sum', 'psum', 'psum', 'psum', 'expand', 'expdim',
                                                       'flip', 'pow', 'ufunc', 'dotL', 'dotL', 'dotR', 'dotR', 'new', 'poke', 'bad', 'bad']


REFUSED = object()


def given(f, *a):
    """f with arguments that have to be left as they are"""
    def th():
        keep = copy.deepcopy(a)
        r = f(*a)
        check(a == keep, 'operand-changed', 'the argument %s of an operation was modified to %s', keep, a)
        return r
    return th
NP = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.divide}


def gen_prog(rng, n, threads):
    prog = []
    for _ in range(n):
        o = {'f': rng.choice(OPS), 'a': rng.randrange(1000), 'b': rng.randrange(1000), 'p': rng.randrange(10 ** 6)}
        if o['f'] not in ('poke', 'bad', 'new') and rng.random() < (.1 if threads else .25):
            o['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'fpe', 'recursion']),
                          'pos': ['at', rng.randint(1, 30)] if threads else ['frac', round(rng.random(), 4)]}
        prog.append(o)
    return prog


def gen(rng, tier, i):
    th = rng.random() < .25
    ns = [rng.choice([2, 3]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    case = {'seed2': rng.randrange(10 ** 6), 'n': ns, 'threads': th,
            'x': [rng.choice(ns) if rng.random() < .8 else 4 for _ in range(rng.choice([1, 1, 2]))],
            'y': [rng.choice(ns) if rng.random() < .8 else 4 for _ in range(rng.choice([1, 1, 2]))],
            'd': rng.choice([[], [], [2], [2], [2, 3]]), 'pool': rng.randint(3, 6),
            'one': rng.choice([.05, .12, .35])}
    k = rng.choice([2, 2, 3]) if th else 1
    m = rng.randint(6, 14 if tier == 'quick' else 30)
    case['clients'] = [gen_prog(rng, m, th) for _ in range(k)]
    if th:
        case['sched'] = engine.gen_sched(rng, gaps=(1, 2, 5, 20), spans=(2000,))
    return case


class Val:
    """a tensor and its dense model: A has the axes x, y, n, d in this order,
    of the sizes given (size 1 where the tensor is constant)"""

    def __init__(self, t, A, B, x, y, n, d, plain):
        self.t, self.A, self.B = t, np.asarray(A, float), np.asarray(B, float)
        self.x, self.y, self.n, self.d, self.plain = tuple(x), tuple(y), tuple(n), tuple(d), plain

    @property
    def sp(self):
        return (self.x, self.y, self.n, self.d)

    def nd(self):
        return len(self.x) + len(self.y) + len(self.n) + len(self.d)


def aligned(A, sp, to):
    """the axes of A (spaces sp) placed into the spaces `to`"""
    idx = []
    for have, want in zip(sp, to):
        idx += [slice(None)] * len(have) if have else [None] * len(want)
    return A[tuple(idx)]


def merge(a, b):
    """spaces of an operation on both, or None"""
    out = []
    for p, q in zip(a, b):
        if p and q and p != q:
            return None
        out.append(p or q)
    return tuple(out)


def print_of(t):
    """everything observable of a tensor"""
    out = [t.x_dim, t.y_dim, t.n, t.dim]
    if hasattr(t, 'elements'):
        return out + [print_of(e) for e in t.elements]
    v = np.asarray(t.values)
    return out + [v.shape, v.dtype.str, v.tobytes(), list(t.x_map), list(t.y_map)]


def fresh(rs, x, y, n, d, one=.12, mapped=.5):
    """a random tensor over the spaces, some diagonal, some axes constant"""
    T = world.M.Tensor
    nsh = [s if rs.rand() > one else 1 for s in n]

    def side(sz):
        if not sz or rs.rand() >= mapped:
            return list(sz), None
        sh, m, part = list(sz), [-1] * len(sz), rs.rand() < .25
        for k, s in enumerate(sz):
            o = [f for f in range(len(n)) if nsh[f] == s and f not in m]
            if o and not (part and rs.rand() < .5):
                m[k], sh[k] = o[rs.randint(len(o))], 1
            elif not o and not part:
                return list(sz), None
        return (sh, m) if max(m) >= 0 else (list(sz), None)
    xs, xm = side(x)
    ys, ym = side(y)
    sh = xs + ys + nsh + list(d)
    v = rs.randint(-8, 9, sh) / 4. if rs.rand() < .7 else rs.randint(1, 9, sh) / 4.
    v = np.asarray(v, float)
    t = T(v if sh else float(v), len(x), len(y), len(d), array('b', xm) if xm else None, array('b', ym) if ym else None)
    A = np.array(v)
    p = len(x) + len(y)
    for off, m in ((0, xm), (len(x), ym)):
        for k, f in enumerate(m or []):
            if f >= 0:
                A = A * delta(A.ndim, off + k, p + f, nsh[f])
    return Val(t, A, np.abs(A), x, y, n, d, not (xm or ym))


def delta(nd, i, j, s):
    sh = [1] * nd
    sh[i] = sh[j] = s
    return np.eye(s).reshape(sh)


def pick(rs, xs):
    return xs[rs.randint(len(xs))]


def plan(o, pool, rs, sp):
    """-> (thunk, model value without tensor, extra operands) or None if the
    operation does not apply"""
    a, b = pool[o['a'] % len(pool)], pool[o['b'] % len(pool)]
    f = o['f']
    X, Y, N, D = len(a.x), len(a.y), len(a.n), len(a.d)
    p = X + Y

    def val(A, B, sp2=None, plain=None, extra=()):
        s = sp2 or a.sp
        return Val(None, A, B, s[0], s[1], s[2], s[3], a.plain if plain is None else plain)
    if f in ('bin', 'ibin'):
        op = pick(rs, ['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul'])
        to = merge(a.sp, b.sp)
        if to is None:
            return None
        P, Q = aligned(a.A, a.sp, to), aligned(b.A, b.sp, to)
        BP, BQ = aligned(a.B, a.sp, to), aligned(b.B, b.sp, to)
        if op == 'div' and (not b.plain or (b.A == 0).any() or not b.nd()):
            return None
        plain = a.plain and b.plain
        if f == 'bin' and rs.rand() < .15:
            g = NP[op]
            return (lambda: g(a.t, b.t)), val(*arith(op, P, Q, BP, BQ), to, plain), 'np ' + op
        if f == 'bin':
            th = {'add': lambda: a.t + b.t, 'sub': lambda: a.t - b.t, 'mul': lambda: a.t * b.t, 'div': lambda: a.t / b.t}[op]
        else:
            def th():
                c = a.t
                if op == 'add':
                    c += b.t
                elif op == 'sub':
                    c -= b.t
                elif op == 'mul':
                    c *= b.t
                else:
                    c /= b.t
                return c
        return th, val(*arith(op, P, Q, BP, BQ), to, plain), op
    if f == 'arr':
        if not N and a.nd():
            return None
        op = pick(rs, ['add', 'sub', 'rsub', 'mul', 'div', 'radd', 'rmul'])
        v = rs.randint(1, 9, a.n or sp[2]) / 4.
        to = (a.x, a.y, a.n or sp[2], a.d)
        V = aligned(v, ((), (), to[2], ()), to)
        P, BP = aligned(a.A, a.sp, to), aligned(a.B, a.sp, to)
        keep = v.copy()
        via = rs.rand() < .2

        def th():
            if via:
                r = NP[op.lstrip('r')](*((v, a.t) if op[0] == 'r' else (a.t, v)))
            else:
                r = {'add': lambda: a.t + v, 'sub': lambda: a.t - v, 'rsub': lambda: v - a.t, 'mul': lambda: a.t * v,
                     'div': lambda: a.t / v, 'radd': lambda: v + a.t, 'rmul': lambda: v * a.t}[op]()
            check((v == keep).all(), 'operand-changed', 'the array operand of %s was modified', op)
            return r
        bop = {'radd': 'add', 'rmul': 'mul', 'rsub': 'sub'}.get(op, op)
        A, B = arith(bop, V, P, V, BP) if op[0] == 'r' else arith(bop, P, V, BP, V)
        return th, val(A, B, to), 'array ' + op
    if f == 'sc':
        s = pick(rs, [2, .5, -1.5, 1, 0, 3, np.float64(2.5), np.array(.75), 1.0, 0.0])
        op = pick(rs, ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv'])
        if op == 'div' and s == 0:
            return None
        if op == 'rdiv' and (not a.plain or (a.A == 0).any() or not a.nd()):
            return None
        th = {'add': lambda: a.t + s, 'radd': lambda: s + a.t, 'sub': lambda: a.t - s, 'rsub': lambda: s - a.t,
              'mul': lambda: a.t * s, 'rmul': lambda: s * a.t, 'div': lambda: a.t / s, 'rdiv': lambda: s / a.t}[op]
        if rs.rand() < .15:
            g = NP[op.lstrip('r')]
            th = (lambda: g(s, a.t)) if op[0] == 'r' else (lambda: g(a.t, s))
        S = np.asarray(float(s))
        bop = op.lstrip('r')
        A, B = arith(bop, S, a.A, abs(S), a.B) if op[0] == 'r' else arith(bop, a.A, S, a.B, abs(S))
        return th, val(A, B), 'scalar %s %r' % (op, s)
    if f == 'neg':
        return (lambda: -a.t), val(-a.A, a.B), 'neg'
    if f == 'T':
        perm = list(range(X, p)) + list(range(X)) + list(range(p, a.A.ndim))
        return (lambda: a.t.transpose()), val(a.A.transpose(perm), a.B.transpose(perm), (a.y, a.x, a.n, a.d)), 'transpose'
    if f == 'drop':
        if not a.nd():
            return None
        return (lambda: a.t.drop_dim()), val(a.A, a.B, (a.x, a.y, a.n + a.d, ())), 'drop_dim'
    if f == 'sum':
        sv, sd = pick(rs, [(True, True), (True, True), (True, False), (False, True), (False, False)])
        if not a.nd():
            return None
        ax = (tuple(range(p, p + N)) if sv else ()) + (tuple(range(p + N, p + N + D)) if sd else ())
        return (lambda: a.t.sum(sv, sd)), val(a.A.sum(ax) if ax else a.A, a.B.sum(ax) if ax else a.B, (
            a.x, a.y, () if sv else a.n, () if sd else a.d), a.plain or sv), 'sum(%s, %s)' % (sv, sd)
    if f == 'psum':
        if N < 2:
            return None
        k = sorted(rs.choice(N, rs.randint(1, N), replace=False).tolist())
        sd = bool(rs.randint(2))
        ax = tuple(p + q for q in k) + (tuple(range(p + N, p + N + D)) if sd else ())
        arg = k[0] if len(k) == 1 and rs.rand() < .5 else (k if rs.rand() < .5 else tuple(k[::-1]))
        return given(a.t.sum, arg, sd), val(a.A.sum(ax), a.B.sum(ax), (
            a.x, a.y, tuple(s for q, s in enumerate(a.n) if q not in k), () if sd else a.d)), 'sum(%s, %s)' % (arg, sd)
    if f == 'expand':
        size = N + rs.randint(0, 3)
        if size > 3 or not a.nd() or a.d:
            if not (a.nd() and size <= 3):
                return None
        w = rs.permutation(size)[:N].tolist()
        order = list(range(p)) + [p + q for q in np.argsort(w)] + list(range(p + N, p + N + D))
        idx = [slice(None)] * p + [slice(None) if k in w else None for k in range(size)] + [slice(None)] * D
        n = tuple(a.n[w.index(k)] if k in w else 0 for k in range(size))
        return given(a.t.expand, w, size), val(a.A.transpose(order)[tuple(idx)], a.B.transpose(order)[tuple(idx)],
                                                  (a.x, a.y, n, a.d)), 'expand(%s, %d)' % (w, size)
    if f == 'expdim':
        size = max(1, D + rs.randint(0, 2))
        if not a.nd() or size > 3:
            return None
        w = rs.permutation(size)[:D].tolist()
        order = list(range(p + N)) + [p + N + q for q in np.argsort(w)]
        idx = [slice(None)] * (p + N) + [slice(None) if k in w else None for k in range(size)]
        d = tuple(a.d[w.index(k)] if k in w else 0 for k in range(size))
        return given(a.t.expand, w, size, True), val(a.A.transpose(order)[tuple(idx)], a.B.transpose(order)[tuple(idx)],
                                                            (a.x, a.y, a.n, d)), 'expand dim(%s, %d)' % (w, size)
    if f == 'flip':
        if D and rs.rand() < .5:
            k = rs.permutation(D)[:rs.randint(1, D + 1)].tolist()
            ax = tuple(p + N + q for q in k)
            arg = k[0] if len(k) == 1 and rs.rand() < .5 else k
            return given(a.t.flip, arg, True), val(np.flip(a.A, ax), np.flip(a.B, ax)), 'flip dim'
        if not N:
            return None
        k = rs.permutation(N)[:pick(rs, [1, 1, 1, N, rs.randint(1, N + 1)])].tolist()
        ax = tuple(p + q for q in k)
        arg = k[0] if len(k) == 1 and rs.rand() < .3 else k

        def th():
            try:
                return given(a.t.flip, arg)()
            except NotImplementedError:
                # an axis with a diagonal: refused, or right
                if a.plain:
                    raise
                return REFUSED
        return th, val(np.flip(a.A, ax), np.flip(a.B, ax)), 'flip'
    if f == 'pow':
        if not a.plain or not a.nd():
            return None
        return (lambda: a.t ** 2), val(a.A ** 2, a.B ** 2), 'power'
    if f == 'ufunc':
        if not a.plain or p or not a.nd():
            return None
        u = pick(rs, ['exp', 'tanh', 'square', 'log', 'maximum', 'minimum'])
        if (u == 'exp' and np.abs(a.A).max() > 15) or (u == 'log' and (a.A <= 1e-3).any()) or np.abs(a.B).max() > 1e3:
            return None
        g = getattr(np, u)
        if u in ('maximum', 'minimum') and rs.rand() < .6:
            # with another tensor, an array, or from the left
            left = rs.rand() < .5
            if rs.rand() < .5 and b.plain and not b.x and not b.y:
                to = merge(a.sp, b.sp)
                if to is None:
                    return None
                P, Q, BP, BQ = aligned(a.A, a.sp, to), aligned(b.A, b.sp, to), aligned(a.B, a.sp, to), aligned(b.B, b.sp, to)
                return ((lambda: g(b.t, a.t)) if left else (lambda: g(a.t, b.t))), val(g(P, Q), BP + BQ, to), u + ' of tensors'
            v = 1.25 if D or rs.rand() < .4 else rs.randint(1, 9, a.A.shape) / 4.
            return ((lambda: g(v, a.t)) if left else (lambda: g(a.t, v))), val(g(a.A, v), a.B + v), u + ' with an array'
        A = g(a.A, .5) if u in ('maximum', 'minimum') else g(a.A)
        th = (lambda: g(a.t, .5)) if u in ('maximum', 'minimum') else (lambda: g(a.t))
        slack = a.B * (np.exp(a.A) if u == 'exp' else 2 * a.B if u == 'square' else 1 / a.A if u == 'log' else 1)
        return th, val(A, np.abs(A) + slack), u
    if f in ('dotL', 'dotR'):
        if not N or 0 in a.n or 1 in a.A.shape[p:p + N] or (f == 'dotL' and Y) or (f == 'dotR' and D):
            return None
        M = tuple(rs.choice([2, 3], rs.randint(0, 3)).tolist())
        E = a.d if D and rs.rand() < .5 else tuple(sp[3]) if not D and rs.rand() < .5 else ()
        yy = tuple(sp[1]) if f == 'dotL' and rs.rand() < .5 else ()
        g = fresh(rs, a.n, yy, M, E, 0)
        if rs.rand() < .3:
            h = fresh(rs, a.n, yy, M, E, 0)
            g = Val(g.t + h.t, g.A + h.A, g.B + h.B, g.x, g.y, g.n, g.d, g.plain and h.plain)
        e = a.d or E
        i, y_, m, x_ = 'abcdlmnop'[:N], 'efg'[:len(yy)], 'hijk'[:len(M)], 'uvwxyz'[:p]

        def ein(F, O):
            F = F.reshape(F.shape + (1,) * (len(e) - len(E))) if e else F
            O = O.reshape(O.shape + (1,) * (len(e) - D)) if e else O
            z = 'stq'[:len(e)]
            if z:
                F = np.broadcast_to(F, F.shape[:F.ndim - len(z)] + e)
                O = np.broadcast_to(O, O.shape[:O.ndim - len(z)] + e)
            return np.einsum('%s,%s->%s' % (x_ + i + z, i + y_ + m + z, x_ + y_ + m + z), O, F)
        name = 'dot_left' if f == 'dotL' else 'dot_right'
        if (f == 'dotL' or X and Y) and rs.rand() < .3:
            name = 'dot'
        th = lambda: getattr(g.t, name)(a.t)
        to = (a.x, yy if f == 'dotL' else a.y, M, e)
        return th, val(ein(g.A, a.A), ein(g.B, a.B), to, a.plain and g.plain), name


def arith(op, P, Q, BP, BQ):
    if op == 'add':
        return P + Q, BP + BQ
    if op == 'sub':
        return P - Q, BP + BQ
    if op == 'mul':
        return P * Q, BP * BQ
    return P / Q, BP / np.abs(Q) * (BQ / np.abs(Q))


def bad(o, pool, rs):
    """an operation that cannot work"""
    a, b = pool[o['a'] % len(pool)], pool[o['b'] % len(pool)]
    k = rs.randint(8)
    t = a.t
    return [lambda: t / 0, lambda: setattr(t, 'x_dim', 7), lambda: t.expand(list(range(len(a.n) + 2)), 1),
            lambda: t + np.zeros((7,) * (len(a.n) + 1)), lambda: np.sin(t), lambda: np.exp(t) if a.x or a.y else np.sin(t),
            lambda: b.t / (a.t + b.t), lambda: t + 'text'][k]


def client(sim, case, k, pool, stats, watch, info):
    """runs the program of client k on the shared pool"""
    pool = list(pool)
    sp = (tuple(case['x']), tuple(case['y']), tuple(case['n']), tuple(case['d']))
    c = sim._who()

    def intact(what):
        for v, pr in watch + mine:
            check(print_of(v.t) == pr, 'operand-changed', '%s changed a tensor that existed before it', what)
    mine = []
    for o in case['clients'][k]:
        rs = np.random.RandomState(o['p'])
        if o['f'] == 'new':
            s = [x if rs.rand() < .6 else () for x in sp]
            v = fresh(rs, *s, one=case['one'])
            mine.append((v, print_of(v.t)))
            pool.append(v)
            continue
        if o['f'] == 'bad':
            try:
                bad(o, pool, rs)()
            except engine.SimBudget:
                raise
            except BaseException:
                stats['failed_op'] += 1
            intact('an invalid operation')
            continue
        if o['f'] == 'poke':
            # results are by value: writing into one must fail, or hit it alone
            v = pool[-1 - o['a'] % min(3, len(pool))]
            els = getattr(v.t, 'elements', (v.t,))
            hit = False
            for e in els:
                try:
                    e.values[...] = 1234.5
                    hit = True
                except (ValueError, TypeError, AttributeError):
                    pass
            if hit:
                pool = [q for q in pool if q is not v]
                mine = [q for q in mine if q[0] is not v]
                if any(q[0] is v for q in watch) or not pool:
                    check(False, 'writable', 'a shared tensor could be overwritten')
            stats['poked'] += hit
            intact('overwriting a result')
            continue
        pl = plan(o, pool, rs, sp)
        if pl is None:
            continue
        th, want, what = pl
        f = o.get('fault')
        if f:
            if f['pos'][0] != 'at':
                c.fault, c.seam = Fault(f['kind'], 1 << 60, MemoryError), 0
                c.rehearsal = True
                try:
                    th()
                finally:
                    c.rehearsal = False
                    c.fault = None
                f['pos'] = ['at', resolve(f['pos'], c.seam)]
            flt = c.fault = Fault(f['kind'], f['pos'][1], EXC[SEAM[f['kind']]])
            c.seam = 0
            stats['fault_armed:' + f['kind']] += 1
            r = None
            try:
                r = th()
            except engine.SimBudget:
                raise
            except BaseException as ex:
                if flt.fired is None:
                    raise
                stats['failed_op'] += 1
            finally:
                c.fault = None
            if flt.fired:
                stats['fault_fired:' + f['kind']] += 1
                f['site'] = flt.fired
            intact('an aborted %s' % what)
            if r is not None and r is not REFUSED:
                compare(r, want, what + ' (with a fault inside)')
        r = th()
        if r is REFUSED:
            stats['refused'] += 1
            intact(what)
            continue
        stats['op:' + o['f']] += 1
        zero = compare(r, want, what)
        intact(what)
        info['n'] += 1
        info['diag'] += not want.plain
        if zero or not hasattr(r, 'toarray'):
            continue
        want.t = r
        want.x, want.y, want.n, want.d = [tuple(want.A.shape[i] if s == 0 else s for i, s in part) for part in parts(want)]
        if np.abs(want.B).max() < 1e7 and want.nd() <= 9 and want.A.size < 20000:
            mine.append((want, print_of(r)))
            pool.append(want)
    return True


def parts(v):
    i, out = 0, []
    for s in v.sp:
        out.append([(i + k, q) for k, q in enumerate(s)])
        i += len(s)
    return out


def compare(r, want, what):
    """-> whether the result degenerated to the scalar 0"""
    tol = 1e-9 * want.B + 1e-12
    if not hasattr(r, 'toarray'):
        check(np.ndim(r) == 0 and (np.abs(float(r) - want.A) <= tol).all(), 'value', '%s gives %s instead of %s', what, r,
              want.A.tolist())
        return True
    got = np.asarray(r.toarray(), float)
    if got.ndim == 0 and want.A.ndim and float(got) == 0:
        # zero times anything is the scalar 0
        check((np.abs(want.A) <= tol).all(), 'value', '%s gives 0 instead of %s', what, want.A.tolist())
        return True
    sp = (r.x_dim, r.y_dim, r.n, r.dim)
    check(sp == tuple(len(s) for s in want.sp), 'spaces', '%s gives a tensor with %s axes in its spaces instead of %s', what, sp,
          tuple(len(s) for s in want.sp))
    check(got.ndim == sum(sp), 'spaces', 'the array of %s has %d axes instead of %d', what, got.ndim, sum(sp))
    try:
        d = np.broadcast_shapes(got.shape, want.A.shape) if got.ndim == want.A.ndim else None
    except ValueError:
        d = None
    check(d is not None and all(g in (w, 1) for g, w in zip(got.shape, want.A.shape)) or d == got.shape, 'shape',
          '%s gives the shape %s instead of %s', what, got.shape, want.A.shape)
    bad_ = ~(np.abs(got - want.A) <= tol)
    check(not bad_.any(), 'value', '%s gives %s instead of %s', what, got.tolist(), want.A.tolist())
    return False


def run(case, sim, stats):
    rs = np.random.RandomState(case['seed2'])
    sp = (tuple(case['x']), tuple(case['y']), tuple(case['n']), tuple(case['d']))
    full = [fresh(rs, *[s if k == 2 or k == 3 or rs.rand() < .6 else () for k, s in enumerate(sp)], one=case['one'])
            for _ in range(case['pool'])]
    full += [fresh(rs, *[s if rs.rand() < .5 else () for s in sp], one=case['one']) for _ in range(2)]
    watch = [(v, print_of(v.t)) for v in full]
    info = {'n': 0, 'diag': 0}
    if case.get('threads'):
        n = len(case['clients'])
        sched = engine.mksched(case['sched'])
        sim.steps = 0
        infos = [{'n': 0, 'diag': 0} for _ in range(n)]
        cl = sim.run_clients([lambda c, i=i: client(sim, case, i, full, stats, watch, infos[i]) for i in range(n)], sched)
        case['sched'] = {'kind': 'replay', 'first': sched.first_idx, 'switches': sched.log}
        for c in cl:
            if c.exc is not None:
                raise c.exc
        for k in info:
            info[k] = sum(i[k] for i in infos)
        stats['switches'] += len(sched.log)
    else:
        client(sim, case, 0, full, stats, watch, info)
    for v, pr in watch:
        check(print_of(v.t) == pr, 'operand-changed', 'a tensor of the pool was changed')
    return {'nontrivial': info['n'] >= 4 and info['diag'] > 0,
            'key': repr((case['x'], case['y'], case['n'], case['d'],
                         [[(o['f'], o['p'] % 97, (o.get('fault') or {}).get('site')) for o in p] for p in case['clients']]))}
