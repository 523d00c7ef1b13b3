"""Shared pieces of the property checks: observations, faults, components."""
import copy
import errno
import io
import os
import pickle
import random
import sys
import traceback
from collections import Counter

import numpy as np

import boot
import engine
import world
from engine import Sim, Fault, SimBudget
from world import World


class Violation(Exception):
    def __init__(self, cls, msg, finding=None):
        Exception.__init__(self, msg)
        self.cls, self.msg, self.finding = cls, msg, finding


def check(cond, cls, msg, *a):
    if not cond:
        raise Violation(cls, msg % a if a else msg)


class CompError(Exception):
    """raised by a user supplied component"""


EXC = {
    'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
    'FloatingPointError': FloatingPointError, 'RecursionError': RecursionError,
    'LinAlgError': np.linalg.LinAlgError, 'ValueError': ValueError,
    'TypeError': TypeError, 'IndexError': IndexError, 'KeyError': KeyError,
    'AttributeError': AttributeError, 'ZeroDivisionError': ZeroDivisionError,
    'ArithmeticError': ArithmeticError, 'RuntimeError': RuntimeError,
    'StopIteration': StopIteration, 'NotImplementedError': NotImplementedError,
    'AssertionError': AssertionError, 'OSError': OSError,
    'SystemExit': SystemExit, 'CompError': CompError, 'OverflowError': OverflowError,
    'TimeoutError': TimeoutError, 'StopAsyncIteration': StopAsyncIteration,
    'LookupError': LookupError, 'GeneratorExit': GeneratorExit,
    'UnicodeDecodeError': lambda *a: UnicodeDecodeError('utf8', b'x', 0, 1, 'bad'),
}
COMP_EXC = ['ValueError', 'TypeError', 'IndexError', 'KeyError', 'AttributeError',
            'ZeroDivisionError', 'FloatingPointError', 'RuntimeError', 'StopIteration',
            'NotImplementedError', 'AssertionError', 'MemoryError', 'OSError',
            'KeyboardInterrupt', 'SystemExit', 'CompError', 'LinAlgError',
            'OverflowError', 'LookupError', 'GeneratorExit', 'UnicodeDecodeError']

# kinds raised at seam events inside the library
SEAM = {'alloc': 'MemoryError', 'interrupt': 'KeyboardInterrupt',
        'fpe': 'FloatingPointError', 'linalg': 'LinAlgError',
        'recursion': 'RecursionError'}
LINALG = ('solve', 'pinvh', 'inv', 'pinv', 'lstsq', 'eigh')


# --------------------------------------------------------------------------
# observations through the public API
# --------------------------------------------------------------------------

def canon(a):
    """bytes of an array with NaNs canonicalised"""
    a = np.array(a, dtype=float)
    a[np.isnan(a)] = np.nan
    return (a.shape, a.tobytes())


def obs_params(e):
    out = []
    for p in e.get_params():
        m = np.broadcast_to(np.ma.getmaskarray(p), np.shape(p))
        out.append((np.shape(p), canon(np.ma.getdata(p)), m.tobytes()))
    return out


def est(e):
    return [np.array(np.ma.getdata(p), dtype=float) for p in e.get_params()]


def obs_call(fn):
    try:
        r = fn()
    except engine.SimBudget:
        raise
    except Exception as ex:
        return ('exc', type(ex).__name__)
    return r


def flatnest(x):
    if isinstance(x, np.ma.MaskedArray):
        return [canon(np.ma.getdata(x)), np.ma.getmaskarray(x).tobytes()]
    if isinstance(x, (list, tuple)):
        return [flatnest(y) for y in x]
    if isinstance(x, (str, bytes)):
        return x
    return canon(x)


def in_fork(fn):
    """fn() in a child process: nothing it leaves behind in the process (caches, tables) reaches the caller"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ('ret', fn())
            except SimBudget:
                res = ('budget', None)
            except Violation as v:
                res = ('viol', (v.cls, v.msg, v.finding))
            except BaseException as ex:
                res = ('exc', ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__)))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    kind, val = pickle.loads(blob)
    if kind == 'budget':
        raise SimBudget()
    if kind == 'viol':
        raise Violation(*val)
    if kind == 'exc':
        raise RuntimeError('in a forked reference run: ' + val)
    return val


class muted:
    def __enter__(self):
        self.c = Sim.current._who() if Sim.current else None
        if self.c:
            self.c.mute += 1

    def __exit__(self, *a):
        if self.c:
            self.c.mute -= 1


def snap(e):
    """everything a user can read of the fitted state"""
    with muted():
        s = {'params': obs_call(lambda: obs_params(e))}
        for k, f in (('std_error', lambda: e.std_error()),
                     ('error_matrix', lambda: e.error_matrix()),
                     ('fisher_matrix', lambda: e.fisher_matrix())):
            s[k] = flatnest(obs_call(f))
        return s


def snapdiff(a, b):
    return [k for k in a if a[k] != b[k]]


def outcome_eq(a, b, rtol=1e-8, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


# --------------------------------------------------------------------------
# components supplied by the user
# --------------------------------------------------------------------------

class Ctl:
    """decides what the wrapped component does at its n-th invocation"""

    def __init__(self):
        self.n = 0
        self.armed = None      # (kind, at, payload)
        self.fired = 0
        self.calls = Counter()
        self.spy = None        # callable(kind, params)
        self.last = self.first = None      # exceptions raised
        self.only = None       # the client that faults are meant for
        self.on = None

    def other(self):
        return self.only is not None and Sim.current._who().idx != self.only

    def arm(self, kind, at, payload=None, span=1, on=None):
        self.on = on           # the invocations that count: all, or of one name
        self.n = 0
        self.fired = 0
        self.armed = (kind, at, payload, span)
        self.last = self.first = None

    def disarm(self):
        self.armed = None

    def before(self, kind, params):
        if self.other():
            Sim.current.tick()
            return
        self.calls[kind] += 1
        if self.on is None or kind == self.on:
            self.n += 1
        if Sim.current is not None:
            Sim.current.tick()
        if self.spy is not None:
            self.spy(kind, params)
        a = self.armed if self.on is None or kind == self.on else None
        if a and a[0] == 'raise' and self.n >= a[1] and not self.fired:
            self.fired = 1
            e = EXC[a[2]]
            self.last = self.first = e('injected') if a[2] != 'UnicodeDecodeError' else e()
            raise self.last
        if a and a[0] == 'always' and self.n >= a[1]:
            e = EXC[a[2]]
            self.fired += 1
            self.last = e('injected') if a[2] != 'UnicodeDecodeError' else e()
            if self.first is None:
                self.first = self.last
            raise self.last
        if a and a[0] == 'cb' and self.n >= a[1] and not self.fired:
            self.fired = 1
            a[2]()

    def after(self, kind, val):
        a = self.armed
        if self.other():
            return val
        if a and a[0] == 'value' and a[1] <= self.n < a[1] + a[3]:
            self.fired += 1
            return self.poison(val, a[2])
        return val

    def poison(self, val, what):
        T = world.M.Tensor
        x = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[what]
        if isinstance(val, T):
            v = np.array(val.values, dtype=float)
            if v.ndim == 0:
                v = np.array(x)
            elif v.size:
                v.flat[self.n % v.size] = x
            return T(v, val.x_dim, val.y_dim, val.dim, val.x_map, val.y_map)
        return val


_PROBE = []


def probe(base, ctl):
    """a Func that forwards to base, under the control of ctl"""
    if not _PROBE:
        Func = world.M.func.Affine.__mro__[1]

        class Probe(Func):
            def __init__(self, base, ctl):
                self.base, self.ctl = base, ctl

            def __call__(self, params):
                self.ctl.before('call', params)
                return self.ctl.after('call', self.base(params))

            def grad(self, params, i):
                self.ctl.before('grad', params)
                return self.ctl.after('grad', self.base.grad(params, i))

            def hess(self, params, i, j):
                self.ctl.before('hess', params)
                return self.ctl.after('hess', self.base.hess(params, i, j))

            def eval(self, params):
                self.ctl.before('eval', params)
                v, g, h = self.base.eval(params)
                w = self.ctl.armed and self.ctl.armed[0] == 'value' and self.ctl.n % 3
                if w == 1:
                    g = [self.ctl.after('eval', d) for d in g]
                elif w == 2:
                    h = [[self.ctl.after('eval', d) for d in l] for l in h]
                else:
                    v = self.ctl.after('eval', v)
                return v, g, h
        _PROBE.append(Probe)
    return _PROBE[0](base, ctl)


def wrapper(ctl, which):
    """wrap the `which`-th leaf of the model (and only that one)"""
    k = [0]

    def w(base, name):
        k[0] += 1
        return probe(base, ctl) if k[0] - 1 == which else base
    return w


def user_class(ctl):
    """a user subclass of the likelihood, under the control of ctl"""
    def hook(kind, x):
        if kind != 'cls':
            return x

        class User(x):
            def like(self, params, y):
                ctl.before('like', params)
                return ctl.after('like', x.like(self, params, y))

            def grad_like(self, params, y, der):
                ctl.before('grad_like', params)
                return x.grad_like(self, params, y, der)

            def hess_like(self, params, y, der, hess):
                ctl.before('hess_like', params)
                return x.hess_like(self, params, y, der, hess)
        return User
    return hook


KINDS = ['leaf0', 'leaf0', 'leaf1', 'leaf2', 'top', 'top', 'con', 'reg', 'like']


def spied(w, ctl, kind='leaf0', params=True):
    """an estimator with one user supplied part under the control of ctl"""
    if kind == 'con' and not w.spec.get('con'):
        kind = 'top'
    if kind == 'reg' and not w.spec.get('reg'):
        kind = 'leaf0'
    if kind == 'top':
        return w.estimator(model=probe(w.model(), ctl), params=params)
    if kind in ('con', 'reg'):
        return w.estimator(params=params, hook=lambda k, x: probe(x, ctl) if k == kind else x)
    if kind == 'like':
        return w.estimator(params=params, hook=user_class(ctl))
    return w.estimator(params=params, wrap=wrapper(ctl, int(kind[4:])))


def clone(e, ctl=None):
    """a copy of an estimator with all its state; model objects and immutable
    values are shared"""
    M = world.M
    bases = [M.func.Affine.__mro__[1], M.Tensor.__mro__[1], M.Tensor]
    p = getattr(M.maxlike_base, 'Param', None) if hasattr(M, 'maxlike_base') else None
    if p is not None:
        bases.append(p)
    todo, seen = list(bases), set()
    while todo:
        c = todo.pop()
        if c in seen or c is object:
            continue
        seen.add(c)
        copy._deepcopy_dispatch[c] = lambda x, memo: x
        todo.extend(c.__subclasses__())
    return copy.deepcopy(e, {id(ctl): ctl})


# --------------------------------------------------------------------------
# standard output
# --------------------------------------------------------------------------

class Out(io.TextIOBase):
    """stdout that can break at the n-th write"""

    def __init__(self, at=None, kind='pipe'):
        self.at, self.kind, self.n, self.fired = at, kind, 0, False

    def write(self, s):
        self.n += 1
        if self.at is not None and self.n >= self.at:
            self.fired = True
            if self.kind == 'pipe':
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            raise OSError(errno.ENOSPC, 'No space left on device')
        return len(s)

    def flush(self):
        pass


class stdout_to:
    def __init__(self, out):
        self.out = out

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self.out
        return self.out

    def __exit__(self, *a):
        sys.stdout = self.old


# --------------------------------------------------------------------------
# faulted operations
# --------------------------------------------------------------------------

FAULT_KINDS = ['alloc', 'alloc', 'interrupt', 'fpe', 'linalg', 'comp', 'comp', 'nan', 'stdout', 'recursion']


def gen_fault(rng, kinds=None):
    k = rng.choice(kinds or FAULT_KINDS)
    f = {'kind': k}
    m = rng.random()
    if m < .2:
        f['pos'] = ['early', rng.randint(1, 60)]
    elif m < .5:
        f['pos'] = ['late', rng.randint(0, 60)]
    else:
        f['pos'] = ['frac', round(rng.random(), 4)]
    if k == 'comp':
        f['exc'] = rng.choice(COMP_EXC)
        f['pos'] = ['late', rng.randint(0, 2)] if rng.random() < .3 else ['frac', round(rng.random(), 4)]
    if k == 'nan':
        f['what'] = rng.choice(['nan', 'nan', 'inf', '-inf'])
        f['span'] = rng.choice([1, 1, 1, 2, 3, 50])
        f['pos'] = ['frac', round(rng.random(), 4)]
    if k == 'stdout':
        f['out'] = rng.choice(['pipe', 'full'])
        f['pos'] = ['frac', round(rng.random(), 4)]
    return f


def resolve(pos, total):
    """absolute 1-based event number"""
    how, v = pos
    if how == 'at':
        return v
    total = max(1, total)
    if how == 'early':
        return min(v, total)
    if how == 'late':
        return max(1, total - v)
    return max(1, min(total, int(v * total) + 1))


class offstage:
    """what happens inside is not part of the simulated run: no time passes"""

    def __init__(self, sim):
        self.c = sim._who()

    def __enter__(self):
        self.keep, self.c.rehearsal = self.c.rehearsal, True

    def __exit__(self, *a):
        self.c.rehearsal = self.keep


class FaultRun:
    """runs one operation under a fault; the fault's position is a fraction of
    the events of a fault-free dress rehearsal, fixed into the fault as an
    absolute event number, so that a replay needs no rehearsal"""

    def __init__(self, sim, ctl, stats):
        self.sim, self.ctl, self.stats = sim, ctl, stats

    def count(self, fault, rehearse):
        """events of the kind `fault` counts, in a rehearsal"""
        c = self.sim._who()
        k = fault['kind']
        if k in SEAM:
            f = Fault(k, 1 << 60, Exception, LINALG if k == 'linalg' else None)
            c.seam, c.fault = 0, f
        self.ctl.disarm()
        n0 = sum(self.ctl.calls.values())
        out = Out()
        spy, self.ctl.spy = self.ctl.spy, None
        c.rehearsal = True
        try:
            with stdout_to(out):
                try:
                    rehearse()
                except SimBudget:
                    raise
                except Exception:
                    pass
        finally:
            c.rehearsal = False
            c.fault = None
            self.ctl.spy = spy
        if k in SEAM:
            return c.seam
        if k in ('comp', 'nan'):
            return sum(self.ctl.calls.values()) - n0
        return out.n

    def run(self, fn, fault=None, rehearse=None):
        """-> ('ret', value) | ('exc', exception), fired"""
        c = self.sim._who()
        out, fired = Out(), False
        f = None
        if fault is not None:
            k = fault['kind']
            if fault['pos'][0] != 'at':
                fault['pos'] = ['at', resolve(fault['pos'], self.count(fault, rehearse))]
            at = fault['pos'][1]
            c.seam = 0
            if k in SEAM:
                f = Fault(k, at, EXC[SEAM[k]], LINALG if k == 'linalg' else None)
                c.fault = f
            elif k == 'comp':
                self.ctl.arm('raise', at, fault['exc'])
            elif k == 'nan':
                self.ctl.arm('value', at, fault['what'], fault.get('span', 1))
            elif k == 'stdout':
                out = Out(at, fault['out'])
        try:
            with stdout_to(out):
                try:
                    res = ('ret', fn())
                except (SimBudget, Violation):
                    raise
                except BaseException as ex:
                    res = ('exc', ex)
        finally:
            c.fault = None
            if fault is not None and k in ('comp', 'nan'):
                fired = bool(self.ctl.fired)
                self.ctl.disarm()
        if f is not None:
            fired = f.fired is not None
        elif out.at is not None:
            fired = out.fired
        if fault is not None:
            self.stats['fault_armed:' + fault['kind']] += 1
            if fired:
                self.stats['fault_fired:' + fault['kind']] += 1
                if k in SEAM:
                    fault['site'] = f.fired
                self.sim.cover.add((fault['kind'], fault.get('exc', ''), fault.get('site', at if k != 'nan' else fault['what'])))
        return res, fired


def name(ex):
    return '%s(%s)' % (type(ex).__name__, str(ex)[:120])


def in_library(tb):
    """does the traceback pass through the library under test?"""
    import os
    pre = os.path.join(os.path.realpath(boot.REPO), 'maxlike')
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pre):
            return True
        tb = tb.tb_next
    return False


def gen_fit(rng, ndata=2, methods=None, first=False):
    m = rng.choice(methods or ['newton', 'newton', 'newton', 'broyden'])
    op = {'op': 'fit', 'method': m,
          'data': rng.randrange(ndata) if first or rng.random() < .6 else None,
          'tol': rng.choice([1e-8, 1e-8, 1e-6, 1e-10]),
          'steps': rng.choice([20, 40, 60]) if m == 'newton' else rng.choice([40, 60]),
          'verbose': rng.choice([0, 0, 0, 1, 2])}
    return op


def do_fit(e, w, op):
    kw = w.data(op['data']) if op['data'] is not None else {}
    if op.get('rev'):
        kw = dict(reversed(list(kw.items())))
    return e.fit(tol=op['tol'], max_steps=op['steps'], verbose=op['verbose'],
                 method=op['method'], **kw)
