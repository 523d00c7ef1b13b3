"""Histories of operations on one estimator, with faults (C01, C02, C08, C14).

The harness keeps a model of what is committed: which data set is in force and
whether a fit has succeeded; parameters are read back through the public API.
"""
import numpy as np

import world
from common import (Ctl, FaultRun, KINDS, Violation, check, do_fit, est, gen_fault,
                    gen_fit, muted, name, offstage, obs_call, obs_params, snap, snapdiff, spied)
from world import World, gen_spec

BAD = ['method', 'method_type', 'unreadable', 'unreadable', 'ragged', 'text', 'shape', 'steps0', 'steps1', 'tol0', 'zeros', 'nan']


def gen_world(rng, tier, tmpls=None):
    return gen_spec(rng, small=tier == 'quick' or rng.random() < .7, tmpls=tmpls)


def gen_bad(rng, ndata=2):
    return {'op': 'badfit', 'how': rng.choice(BAD), 'data': rng.randrange(ndata),
            'method': rng.choice(['newton', 'newton', 'broyden']),
            'where': rng.choice(['N', 'X', 'last']), 'verbose': rng.choice([0, 0, 1])}


def gen_addbad(rng):
    return {'op': 'addbad', 'how': rng.choice(['ragged', 'mask', 'masklist', 'maskragged', 'fault', 'fault']),
            'fault': {'kind': rng.choice(['alloc', 'interrupt', 'recursion']), 'pos': ['frac', round(rng.random(), 3)]}}


def gen_extend(rng, w, con=True):
    """the user adds a prior, or a constraint, to an estimator in use"""
    shapes = world.TMPL[w['tmpl']].shapes(w)
    names = [n for n in w['order'] if n != 'v' or w['tmpl'] not in ('bil', 'logsum', 'inter')]
    n = rng.choice(names)
    k = int(np.prod(shapes[n]))
    used = {x for c in w['con'] for x in c[0]}
    if con and w['tmpl'] in ('add', 'grid', 'cross') and n not in used and rng.random() < .6 and \
            k - int(np.sum(w['fixed'].get(n, 0))) > 2 and not w.get('infeasible'):
        wt = np.array([rng.choice([1, 2, -1, .5]) for _ in range(k)]).reshape(shapes[n]).tolist()
        return {'op': 'extend', 'what': 'con', 'entry': [[n], [wt]], 'jit': rng.randrange(1000)}
    return {'op': 'extend', 'what': 'reg', 'entry': [[n], rng.choice([0, .1, -.1]), rng.choice([.5, 1, 2, 5])]}


class Unreadable:
    """an input that cannot be converted to an array"""

    def __array__(self, *a, **k):
        raise OSError('unreadable input')

    def __len__(self):
        raise OSError('unreadable input')


def bad_call(e, w, op):
    """a fit call with invalid arguments"""
    kw = w.data(op['data'])
    names = list(kw)
    how = op['how']
    tgt = op['where'] if op['where'] in kw else names[-1]
    if op['where'] == 'last':
        v = kw.pop(tgt)
        kw[tgt] = v
    a = {'tol': 1e-8, 'max_steps': 20, 'verbose': op['verbose'], 'method': op['method']}
    if how == 'method':
        a['method'] = 'gradient'
    elif how == 'method_type':
        a['method'] = 7
    elif how == 'ragged':
        kw[tgt] = [[1., 2.], [3.]]
    elif how == 'unreadable':
        kw[tgt] = Unreadable()
    elif how == 'text':
        kw[tgt] = 'abc'
    elif how == 'shape':
        kw[tgt] = np.ones(tuple(s + 1 for s in kw[tgt].shape))
    elif how == 'steps0':
        a['max_steps'] = 0
    elif how == 'steps1':
        a['max_steps'], a['tol'] = 1, 1e-14
    elif how == 'tol0':
        a['tol'], a['max_steps'] = -1, 3
    elif how == 'zeros':
        kw[tgt] = np.zeros_like(kw[tgt])
    elif how == 'nan':
        kw[tgt] = kw[tgt] * np.nan
    return e.fit(**a, **kw)


def bad_add(e, how):
    if how == 'ragged':
        e.add_param([[1., 2.], [3.]], [[True, False], [False]])
    elif how == 'mask':
        e.add_param(np.zeros(3), np.zeros(2, bool))
    elif how == 'masklist':
        e.add_param(np.zeros((2, 2)), [True, False])
    elif how == 'maskragged':
        e.add_param(np.zeros(3), [[True], [False, True]])
    else:
        e.add_param(np.arange(4.), [True, False, False, True])


def bic_ref(w, params, data, fixed=False):
    """reference BIC; fixed=True counts the fixed entries as free (finding
    aic-counts-fixed)"""
    n = data['N'].sum()
    k = sum((~m).sum() if not fixed else m.size for m in w.masks) - len(w.spec.get('con', []))
    with np.errstate(all='ignore'):
        return float(k * np.log(n) / n - 2 * w.objective(params, data))


def bic(e):
    with muted():
        return obs_call(lambda: float(e.bayesian_information_criterion()))


def close(a, b, rtol=1e-8):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return abs(a - b) <= rtol * (1 + abs(a) + abs(b)) or (a != a and b != b)


class Hist:
    """an estimator, the model of its state, and the fault machinery"""

    def __init__(self, case, sim, stats):
        self.case, self.sim, self.stats = case, sim, stats
        self.w = World(case['world'])
        self.ctl = Ctl()
        self.kind = case.get('kind', 'leaf0')
        self.e = spied(self.w, self.ctl, self.kind)
        self.fr = FaultRun(sim, self.ctl, stats)
        self.cur = None        # data set in force: index, None (none yet), or '?' (unusable)
        self.fits = 0          # committed fits
        self.fails = 0

    def fresh(self):
        """an estimator in the committed state, for a dress rehearsal"""
        with offstage(self.sim):
            r = spied(self.w, self.ctl, self.kind, params=False)
            p = est(self.e)
            for v, m in zip(p, self.w.masks):
                r.add_param(v.copy(), m.copy() if m.any() else None)
        return r

    def rehearse(self, op):
        r = self.fresh()
        o = dict(op)
        if o['op'] == 'fit' and o.get('data') is None:
            if not isinstance(self.cur, int):
                return None
            o['data'] = self.cur
        return lambda: self.call(r, o)

    def call(self, e, op):
        if op['op'] == 'fit':
            return do_fit(e, self.w, op)
        if op['op'] == 'badfit':
            return bad_call(e, self.w, op)
        if op['op'] == 'addbad':
            return bad_add(e, op['how'])

    def extend(self, op, others=()):
        spec = dict(self.w.spec)
        spec[op['what']] = spec[op['what']] + [op['entry']]
        w = World(spec)
        for e in (self.e,) + tuple(others):
            if op['what'] == 'reg':
                w.add_reg(e, op['entry'])
            else:
                w.add_con(e, op['entry'])
                # from a guess that satisfies it
                e.reset_params()
                w.add_params(e)
        self.w = w

    def reset(self, jit=None):
        self.e.reset_params()
        start = None
        if jit is not None:
            rs = np.random.RandomState(jit)
            start = [np.where(m, s, s + rs.uniform(-.05, .05, s.shape)) for m, s in zip(self.w.masks, self.w.start)]
        self.w.add_params(self.e, start)

    def run(self, op):
        """-> (result, fired).  result: ('ret', v) | ('exc', e)"""
        f = op.get('fault')
        reh = None
        if f is not None and f['pos'][0] != 'at':
            reh = self.rehearse(op)
            if reh is None:
                f = op['fault'] = None
        if op['op'] == 'addbad' and op['how'] != 'fault':
            f = None
        return self.fr.run(lambda: self.call(self.e, op), f, reh)

    def data_after(self, op, failed):
        """which data set may be in force after op"""
        if op['op'] == 'fit':
            new = self.cur if op['data'] is None else op['data']
            return {self.cur, new} if failed else {new}
        if op['op'] == 'badfit':
            if op['how'] == 'unreadable':
                return {self.cur}
            if op['how'] in ('ragged', 'text', 'shape', 'zeros', 'nan'):
                return {self.cur, '?'}
            return {self.cur, op['data']}
        return {self.cur}

    def identify(self, allowed, what):
        """find out, through BIC, which of the allowed data sets is in force"""
        got = bic(self.e)
        p = est(self.e)
        for d in sorted(allowed, key=lambda x: (x is None, x == '?', str(x))):
            if d is None:
                if isinstance(got, tuple):
                    self.cur = None
                    return
            elif d == '?':
                self.cur = '?'
                return
            else:
                if any(close(got, bic_ref(self.w, p, self.w.data(d), f)) for f in (True, False)):
                    self.cur = d
                    return
        raise Violation('data-mixture',
                        'after %s the data in force is none of %s: BIC reads %r, expected one of %r' % (
                            what, sorted(map(str, allowed)), got,
                            [bic_ref(self.w, p, self.w.data(d), True) for d in allowed if isinstance(d, int)]))


def describe(op, res):
    s = op['op']
    if op['op'] == 'extend':
        s = 'adding a %s' % {'reg': 'prior', 'con': 'constraint'}[op['what']]
    if op['op'] == 'fit':
        s = 'fit(%s, data=%s)' % (op['method'], op['data'])
    elif op['op'] in ('badfit', 'addbad'):
        s = '%s(%s)' % (op['op'], op['how'])
    f = op.get('fault')
    if f:
        s += ' under %s' % ({k: f[k] for k in ('kind', 'exc', 'what', 'span', 'site', 'pos') if k in f},)
    if res is not None and res[0] == 'exc':
        s += ' -> %s' % name(res[1])
    return s
