"""C08: inputs and results are by value."""
import numpy as np

import world
from common import Ctl, FaultRun, canon, check, flatnest, gen_fault, gen_fit, muted, name, obs_call, offstage, snap, snapdiff, spied
from props.hist import bad_add, describe, gen_bad, gen_world
from world import World

QUICK, THOROUGH = 550, 12000
RULE = ('random model, history of add_param, fits (both methods), invalid calls, faults and reads; inputs come as arrays, '
        'views, Fortran arrays, read-only arrays, lists, tensors.  Every input handed over is checked for modification, '
        'then overwritten; everything returned is overwritten.  The estimator must stay bit for bit equal to a twin that '
        'went through the same calls and faults with its own untouched copies.  Non-trivial: an input of a committed '
        'operation and a result were overwritten, with comparisons afterwards')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['one model component, constraint, regularization or likelihood forwards to the real one and can raise',
        'sys.stdout (counts writes, can break)']
ASSUME = ['inputs are overwritten after the call returns, not while it runs']
LISTS = ('ops',)
MINLEN = {'ops': 0}
FORMS = ['array', 'array', 'fortran', 'slice', 'readonly', 'list', 'tensor', 'int']


def gen(rng, tier, i):
    case = {'world': gen_world(rng, tier), 'kind': rng.choice(['leaf0', 'leaf1', 'top'])}
    case['pform'] = [rng.choice(['array', 'array', 'slice', 'list', 'fortran', 'readonly']) for _ in range(5)]
    case['mform'] = [rng.choice(['array', 'array', 'list', 'int', 'slice']) for _ in range(5)]
    ops = []
    n = rng.randint(3, 7 if tier == 'quick' else 12)
    while len(ops) < n:
        x = rng.random()
        if x < .45 or not ops:
            o = gen_fit(rng, first=not ops)
            o['form'] = rng.choice(FORMS)
            o['fault'] = gen_fault(rng, ['alloc', 'interrupt', 'fpe', 'linalg', 'comp', 'stdout', 'recursion']) if rng.random() < .35 else None
            if o['fault'] and o['fault']['kind'] == 'stdout':
                o['verbose'] = max(1, o['verbose'])
            ops.append(o)
        elif x < .58:
            ops.append(dict(gen_bad(rng), form=rng.choice(['array', 'slice'])))
        elif x < .66:
            ops.append({'op': 'addbad', 'how': rng.choice(['mask', 'masklist'])})
        elif x < .74:
            ops.append({'op': 'reset'})
        else:
            ops.append({'op': 'read', 'what': rng.sample(['get_params', 'std_error', 'error_matrix', 'fisher_matrix', 'model'],
                                                        rng.randint(1, 4))})
    case['ops'] = ops
    case['late'] = rng.random() < .4      # inputs are overwritten later, not right after the call
    return case


def formed(a, form):
    """-> (object handed over, [arrays or lists behind it])"""
    a = np.asarray(a)
    if form == 'list' and a.ndim:
        v = a.tolist()
        return v, [v]
    if form == 'fortran':
        v = np.array(a, order='F')
        return v, [v]
    if form == 'slice':
        big = np.zeros(a.shape + (2,), a.dtype)
        big[..., 0] = a
        return big[..., 0], [big]
    if form == 'readonly':
        v = np.array(a)
        w = v.view()
        w.flags.writeable = False
        return w, [v]
    if form == 'int' and a.dtype.kind in 'bf' and (a == np.round(a.astype(float))).all():
        v = a.astype(int)
        return v, [v]
    if form == 'tensor':
        v = np.array(a)
        return ('tensor', v), [v]
    v = np.array(a)
    return v, [v]


def freeze(x):
    """contents and writability"""
    if isinstance(x, list):
        return repr(x)
    return (x.dtype.str, x.shape, x.tobytes(), bool(x.flags.writeable))


def trash(x, deep=True):
    """overwrite in place; -> whether something was overwritten"""
    if isinstance(x, np.ma.MaskedArray):
        hit = False
        for y in (np.ma.getdata(x), x.mask):
            hit |= trash(y)
        try:
            x[...] = 3
            x.mask = True
        except Exception:
            pass
        return hit
    if isinstance(x, (list, tuple)):
        hit = False
        for y in x:
            if isinstance(y, (list, tuple, np.ndarray)):
                hit |= trash(y)
        if isinstance(x, list):
            x[:] = [99. if isinstance(v, float) else 0 for v in x if not isinstance(v, list)][::-1] + [7]
            hit = True
        return hit
    if isinstance(x, np.ndarray):
        if not x.flags.writeable:
            return False
        try:
            x[...] = True if x.dtype == bool else 57
            return bool(x.size)
        except ValueError:
            return False
    return False


class Side:
    """one of the two estimators; the first one's inputs get overwritten"""

    def __init__(self, case, sim, stats, live):
        self.w = World(case['world'])
        self.case, self.live = case, live
        self.ctl = Ctl()
        rec = []
        world._NS.rec = rec
        try:
            self.e = spied(self.w, self.ctl, case['kind'], params=False)
        finally:
            world._NS.rec = None
        self.fr = FaultRun(sim, self.ctl, stats)
        self.pending = []
        self.cur = None
        self.given(rec)

    def given(self, objs):
        self.pending.append([(o, None) for o in objs])

    def hand(self, objs):
        self.pending.append([(o, freeze(o)) for o in objs if isinstance(o, (list, np.ndarray))])

    def check_inputs(self, what):
        for grp in self.pending:
            for o, f in grp:
                if f is not None:
                    g = freeze(o)
                    check(g == f, 'input-frozen' if g[:-1] == f[:-1] and isinstance(o, np.ndarray) else 'input-modified',
                          '%s: an input array was %s: %s -> %s', what,
                          'made read-only' if g[:-1] == f[:-1] and isinstance(o, np.ndarray) else 'modified', brief(f), brief(g))

    def overwrite(self):
        n = 0
        for grp in self.pending:
            for o, f in grp:
                n += bool(trash(o))
        self.pending = []
        return n

    def add(self):
        w = self.w
        for i, nme in enumerate(w.names):
            v, b1 = formed(w.start[i], self.case['pform'][i % 5])
            m, b2 = (None, [])
            if w.masks[i].any():
                m, b2 = formed(w.masks[i], self.case['mform'][i % 5])
            self.hand(b1 + b2)
            self.e.add_param(v, m)

    def data(self, k, form):
        kw, back = {}, []
        for n, v in self.w.data(k).items():
            x, b = formed(v, form)
            if isinstance(x, tuple):
                d = getattr(self.e, 'dim', 0)
                x = world.M.Tensor(x[1], dim=d)
            kw[n] = x
            back += b
        return kw, back

    def call(self, op):
        from props import hist
        e = self.e
        if op['op'] == 'fit':
            kw, back = self.data(op['data'], op['form']) if op['data'] is not None else ({}, [])
            self.hand(back)
            return e.fit(tol=op['tol'], max_steps=op['steps'], verbose=op['verbose'], method=op['method'], **kw)
        if op['op'] == 'badfit':
            kw, back = self.data(op['data'], op['form'])
            self.hand(back)
            return hist.bad_call(e, _Given(kw), op)
        if op['op'] == 'addbad':
            return bad_add(e, op['how'])


class _Given:
    def __init__(self, kw):
        self.kw = kw

    def data(self, k):
        return dict(self.kw)


def brief(f):
    return f[:60] if isinstance(f, str) else '%s%s %s%s' % (f[0], f[1], np.frombuffer(f[2], f[0])[:5].tolist(), '' if f[3] else ' read-only')


def observe(s):
    o = snap(s.e)
    with muted():
        o['bic'] = repr(obs_call(lambda: float(s.e.bayesian_information_criterion())))
        ps = [np.array(x) for x in s.w.start]
        o['model'] = repr(flatnest(obs_call(lambda: s.e.model(ps).toarray())))
    return o


def run(case, sim, stats):
    a, b = Side(case, sim, stats, True), Side(case, sim, stats, False)
    wrote_in = wrote_out = compared = 0

    def compare(what):
        nonlocal compared
        x, y = observe(a), observe(b)
        d = snapdiff(x, y)
        check(not d, 'aliased', '%s: %s differ from an estimator whose inputs and results were left alone', what, ', '.join(d))
        compared += 1

    def settle(what, late=False):
        nonlocal wrote_in
        a.check_inputs(what)
        b.check_inputs(what)
        if not late:
            wrote_in += a.overwrite()
            b.pending = []
            compare('after %s and overwriting its inputs' % what)

    for s in (a, b):
        with muted():
            s.add()
    settle('building the estimator')
    fits = 0
    for k, op in enumerate(case['ops']):
        late = case['late'] and k % 2 == 0 and k < len(case['ops']) - 1
        if op['op'] == 'reset':
            for s in (a, b):
                with muted():
                    s.e.reset_params()
                    s.add()
            settle('adding the params again', late)
            continue
        if op['op'] == 'read':
            for what in op['what']:
                with muted():
                    if what == 'model':
                        ps = [np.array(x) for x in a.w.start]
                        t = obs_call(lambda: a.e.model(ps))
                        got = [t.values, t.toarray()] if hasattr(t, 'toarray') and hasattr(t, 'values') else []
                        g = obs_call(lambda: a.e.model.grad(ps))
                        if isinstance(g, list):
                            got += [d.values for d in g if hasattr(d, 'values')]
                        hit = False
                        for v in got:
                            # a result may be a read-only view; writing must fail then
                            try:
                                v[...] = 57
                                hit = True
                            except (ValueError, TypeError):
                                pass
                    else:
                        got = obs_call(getattr(a.e, what))
                        hit = trash(got) if isinstance(got, list) else False
                wrote_out += bool(hit)
                stats['overwrote:' + what] += bool(hit)
                compare('after overwriting what %s returned' % ('the model' if what == 'model' else what))
            continue
        if op['op'] == 'fit' and op['data'] is None and not isinstance(a.cur, int):
            op = dict(op, data=0)
        res = []
        f = op.get('fault')
        for s in (a, b):
            reh = None
            if f is not None and f['pos'][0] != 'at':
                with offstage(sim), muted():
                    r = Side(case, sim, stats, False)
                    r.add()
                o = dict(op, data=op['data'] if op['data'] is not None else a.cur)
                reh = lambda: r.call(o)
            rr, fired = s.fr.run(lambda: s.call(op), f, reh)
            res.append((rr[0], name(rr[1]) if rr[0] == 'exc' else rr[1]))
        what = describe(op, None)
        check(res[0] == res[1], 'aliased', '%s gives %s; with inputs and results left alone it gives %s', what, res[0], res[1])
        stats['%s:%s' % (op['op'], res[0][0])] += 1
        if op['op'] == 'addbad' and res[0][0] == 'ret':
            for s in (a, b):
                with muted():
                    s.e.reset_params()
                    s.add()
        if op['op'] == 'fit':
            a.cur = op['data'] if op['data'] is not None else a.cur
        elif op['op'] == 'badfit':
            a.cur = None
        settle(what, late)
    settle('the history')
    return {'nontrivial': wrote_in > 0 and compared > 2,
            'key': repr((case['world']['tmpl'], case['world']['like'], case['pform'], [(o['op'], o.get('form'), o.get('how'), tuple(o.get('what', ()))) for o in case['ops']]))}
