"""C11: preprocessing is invariant to arrival order and conserves totals."""
import numpy as np
import pandas as pd

import world
from common import COMP_EXC, EXC, SEAM, Fault, check, name, resolve

QUICK, THOROUGH = 2400, 15000
RULE = ('random observation tables (1-3 label columns of several types, unused levels, repeated cells, dyadic values so that sums '
        'are exact) ingested through prepare_series, prepare_dataframe and df_count in seeded arrival orders and batch splits, '
        'with added labels, failing or interrupted calls and retries; compared exactly with a dictionary model of the cells.  '
        'Non-trivial: an order or batch permutation of a table with at least one repeated cell was compared')
REAL = ['maxlike.preprocessing', 'pandas', 'numpy']
STUB = ['user transformations can raise at a seeded invocation']
ASSUME = ['labels of one level are of one sortable type', 'values are dyadic rationals, so the order of summation cannot change a sum']
LISTS = ('ops',)
MINLEN = {'ops': 1}
KINDS = ['int', 'str', 'float', 'date', 'bool', 'neg']


def gen(rng, tier, i):
    nl = rng.choice([1, 2, 2, 2, 3])
    case = {'seed2': rng.randrange(10 ** 6), 'rows': rng.choice([3, 8, 20, 60]), 'vals': rng.choice(['int', 'dyadic', 'neg']),
            'levels': [{'kind': rng.choice(KINDS), 'n': rng.randint(1, 5)} for _ in range(nl)],
            'flat': nl == 1, 'raw': rng.random() < .3, 'dtype': rng.choice(['float', 'float', 'int']), 'named': rng.random() < .85}
    ops = []
    for _ in range(rng.randint(2, 5 if tier == 'quick' else 9)):
        k = rng.choice(['order', 'order', 'batch', 'batch', 'axis', 'fault', 'comp', 'df', 'df', 'dfbatch', 'count', 'count'])
        o = {'op': k, 'seed': rng.randrange(10 ** 6), 'axis': rng.random() < .5,
             'tr': rng.choice([['N', 'X'], ['X'], ['N', 'X', 'Z'], ['N', 'X', 'M'], ['N'], ['X', 'S']])}
        if k in ('fault', 'df', 'count') and rng.random() < (1 if k == 'fault' else .3):
            o['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'recursion', 'fpe']), 'pos': ['frac', round(rng.random(), 4)]}
        if k == 'comp':
            o['exc'] = rng.choice(COMP_EXC)
            o['at'] = rng.randint(1, 8)
        ops.append(o)
    case['ops'] = ops
    return case


def labels(rng, spec):
    n, k = spec['n'], spec['kind']
    if k == 'int':
        return [int(x) for x in rng.choice(np.arange(0, 12), n + 3, replace=False)]
    if k == 'neg':
        return [int(x) for x in rng.choice(np.arange(-6, 6), n + 3, replace=False)]
    if k == 'str':
        return list(rng.choice(np.array(['Ann', 'bob', 'Zed', 'a', 'aa', 'B', 'x1', 'x10', 'x2', 'Mid']), n + 3, replace=False))
    if k == 'float':
        return [float(x) for x in rng.choice(np.arange(-8, 8) / 4., n + 3, replace=False)]
    if k == 'date':
        return [pd.Timestamp('2020-01-01') + pd.Timedelta(days=int(x)) for x in rng.choice(np.arange(40), n + 3, replace=False)]
    return [True, False][:max(1, min(n, 2))]


class Table:
    def __init__(self, case):
        rs = np.random.RandomState(case['seed2'])
        self.case = case
        self.labs = [labels(rs, l) for l in case['levels']]
        n = case['rows']
        self.used = [l[:max(1, lv['n'])] if lv['kind'] != 'bool' else l for l, lv in zip(self.labs, case['levels'])]
        self.extra = [l[len(u):] for l, u in zip(self.labs, self.used)]
        cells = [tuple(u[rs.randint(len(u))] for u in self.used) for _ in range(n)]
        v = rs.randint(0, 6, n).astype(float)
        if case['vals'] == 'dyadic':
            v = v + rs.randint(0, 8, n) / 8.
        if case['vals'] == 'neg':
            v = v - 3
        w = rs.randint(1, 5, n) / 2.
        self.rows = list(zip(cells, v.tolist(), w.tolist()))
        self.names = ['l%d' % k for k in range(len(self.labs))] if case['named'] else [None] * len(self.labs)

    def index(self, rows):
        c = self.case
        if c['flat']:
            return pd.Index([r[0][0] for r in rows], name=self.names[0])
        if c['raw']:
            # levels in no particular order
            lv = [list(u)[::-1] for u in self.used]
            return pd.MultiIndex(levels=lv, codes=[[lv[k].index(r[0][k]) for r in rows] for k in range(len(lv))],
                                 names=self.names)
        return pd.MultiIndex.from_tuples([r[0] for r in rows], names=self.names)

    def series(self, rows):
        return pd.Series([r[1] for r in rows], index=self.index(rows), name='obs',
                         dtype=int if self.case['dtype'] == 'int' and self.case['vals'] != 'dyadic' else float)

    def frame(self, rows):
        return pd.DataFrame({'w': [r[2] for r in rows], 'junk': 1, 'r': [r[1] for r in rows]}, index=self.index(rows))

    def axes(self, rows, add=None):
        out = []
        for k in range(len(self.labs)):
            a = set(self.used[k]) if self.case['raw'] and not self.case['flat'] else {r[0][k] for r in rows}
            if add is not None:
                a |= set(add[k])
            out.append(sorted(a))
        return out


def transformations(names, hook=None):
    f = {'N': np.size, 'X': np.sum, 'S': 'sum', 'Z': lambda x: float((x == 0).sum()), 'M': lambda x: x.max()}
    ref = {'N': len, 'X': sum, 'S': sum, 'Z': lambda v: sum(x == 0 for x in v), 'M': max}
    d = {k: f[k] for k in names}
    if hook is not None:
        d[names[-1]] = hook({'N': np.size, 'X': np.sum, 'S': np.sum, 'Z': f['Z'], 'M': f['M']}[names[-1]])
    return d, {k: ref[k] for k in names}


def cells(rows, axes, fn, col):
    """dense array of the dictionary model"""
    out = np.zeros([len(a) for a in axes])
    groups = {}
    for r in rows:
        groups.setdefault(r[0], []).append(col(r))
    for c, v in groups.items():
        out[tuple(a.index(x) for a, x in zip(axes, c))] = fn(v)
    return out


def frz(x):
    """everything observable of an input"""
    if isinstance(x, pd.DataFrame):
        return ('df', x.to_numpy().tobytes(), [str(d) for d in x.dtypes], list(x.columns), frz(x.index))
    if isinstance(x, pd.Series):
        return ('s', x.to_numpy().tobytes(), str(x.dtype), x.name, frz(x.index))
    if isinstance(x, pd.MultiIndex):
        return ('mi', [list(l) for l in x.levels], [list(c) for c in x.codes], list(x.names))
    if isinstance(x, pd.Index):
        return ('i', list(x), x.name, str(x.dtype))
    if isinstance(x, dict):
        return [(k, frz(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [frz(v) for v in x]
    return repr(x)


def run(case, sim, stats):
    P = world.M.preprocessing
    t = Table(case)
    rows = t.rows
    c = sim._who()
    findings = []
    compared = 0
    rep = len({r[0] for r in rows}) < len(rows)

    def add_axis(rs):
        add = [[x for x in e if rs.rand() < .7] for e in t.extra]
        full = [list(a) + ([t.used[k][0]] if rs.rand() < .5 else []) for k, a in enumerate(add)]
        if case['flat']:
            return full, full[0]
        given = [k for k in range(len(full)) if rs.rand() < .8]
        return [full[k] if k in given else [] for k in range(len(full))], {t.names[k]: full[k] for k in given}

    def guarded(fn, inputs, what, o):
        """run fn (twice if it fails) -> result; inputs stay untouched"""
        before = frz(inputs)
        f = o.get('fault')
        flt = None
        if f:
            if f['pos'][0] != 'at':
                c.fault, c.seam = Fault(f['kind'], 1 << 60, MemoryError), 0
                c.rehearsal = True
                try:
                    fn()
                finally:
                    c.rehearsal = False
                    c.fault = None
                f['pos'] = ['at', resolve(f['pos'], c.seam)]
            flt = c.fault = Fault(f['kind'], f['pos'][1], EXC[SEAM[f['kind']]])
            c.seam = 0
            stats['fault_armed:' + f['kind']] += 1
        failed = None
        try:
            r = fn()
        except BaseException as ex:
            failed = ex
        finally:
            c.fault = None
        if flt is not None and flt.fired:
            stats['fault_fired:' + f['kind']] += 1
            f['site'] = flt.fired
        check(frz(inputs) == before, 'input-modified', '%s modified its input%s', what, ' while failing' if failed else '')
        if failed is not None:
            if not ((flt is not None and flt.fired) or o.get('fired')):
                raise failed
            stats['failed'] += 1
            r = fn()
            check(frz(inputs) == before, 'input-modified', '%s (retry) modified its input', what)
        return r

    def axes_eq(got, want, what):
        got = [list(a) for a in ([got] if case['flat'] else got)]
        check(got == want, 'axes', '%s gives the axes %s instead of %s', what, got, want)

    def series(rws, o, what, add=None, addarg=None, tr=None, ref=None, axrows=None):
        s = t.series(rws)
        if tr is None:
            tr, ref = transformations(o['tr'])
        given = [s, tr, addarg]
        default = o['tr'] == ['X'] and len(rws) % 2 == 0 and list(tr) == ['X']
        if default:
            # no transformations: the sum, called N
            kw = {} if addarg is None else {'add_axis': addarg}
            r, axis = guarded(lambda: P.prepare_series(s, **kw), given, what, o)
            check(sorted(r) == ['N'], 'keys', '%s returns %s', what, sorted(r))
            r = {'X': r['N']}
        else:
            r, axis = guarded(lambda: P.prepare_series(s, tr, add_axis=addarg) if addarg is not None else P.prepare_series(s, tr),
                              given, what, o)
        ax = t.axes(axrows or rws, add)
        axes_eq(axis, ax, what)
        check(sorted(r) == sorted(tr), 'keys', '%s returns %s', what, sorted(r))
        for k in tr:
            want = cells(rws, ax, ref[k], lambda q: q[1])
            got = np.asarray(r[k], float)
            check(got.shape == want.shape, 'shape', '%s: %s has shape %s instead of %s', what, k, got.shape, want.shape)
            check((got == want).all(), 'cells', '%s: %s is %s instead of %s', what, k, got.tolist(), want.tolist())
            if k in ('X', 'S'):
                check(got.sum() == sum(q[1] for q in rws), 'total', '%s: the total of %s is %r', what, k, got.sum())
            if k == 'N':
                check(got.sum() == len(rws), 'total', '%s: counted %r of %d observations', what, got.sum(), len(rws))
        return r, ax

    def frame(rws, o, what, add=None, addarg=None):
        if case['flat']:
            return None
        d = t.frame(rws)
        tr, ref = transformations([k for k in o['tr'] if k != 'N'] or ['X'])
        r, axis = guarded(lambda: P.prepare_dataframe(d, 'w', 'r', tr, add_axis=addarg) if addarg is not None
                          else P.prepare_dataframe(d, 'w', 'r', tr), [d, tr, addarg], what, o)
        ax = t.axes(rws, add)
        axes_eq(axis, ax, what)
        check(sorted(r) == sorted(list(tr) + ['N']), 'keys', '%s returns %s', what, sorted(r))
        want = cells(rws, ax, sum, lambda q: q[2])
        check(np.asarray(r['N']).shape == want.shape and (r['N'] == want).all(), 'cells', '%s: N is %s instead of %s', what,
              np.asarray(r['N']).tolist(), want.tolist())
        for k in tr:
            want = cells(rws, ax, ref[k], lambda q: q[1] * q[2])
            check(np.asarray(r[k]).shape == want.shape and (r[k] == want).all(), 'cells', '%s: %s is %s instead of %s', what, k,
                  np.asarray(r[k]).tolist(), want.tolist())
        return r, ax

    for o in case['ops']:
        rs = np.random.RandomState(o['seed'])
        perm = [rows[k] for k in rs.permutation(len(rows))]
        add = addarg = None
        if o['axis'] and case['named']:
            add, addarg = add_axis(rs)
        k = o['op']
        stats['op:' + k] += 1
        if k in ('order', 'axis', 'fault'):
            if k == 'axis' and case['named'] and add is None:
                add, addarg = add_axis(rs)
            series(rows, o, 'prepare_series', add, addarg)
            series(perm, o, 'prepare_series, another arrival order', add, addarg)
            compared += rep
        elif k == 'batch' or k == 'dfbatch':
            # merging batches over common axes equals preparing at once
            cut = sorted(rs.choice(len(rows), min(len(rows) - 1, rs.randint(1, 4)), replace=False)) if len(rows) > 1 else []
            parts = [p for p in np.split(np.arange(len(rows)), cut) if len(p)]
            if not case['named']:
                continue
            full = [sorted(set(u)) for u in t.used]
            arg = full[0] if case['flat'] else {t.names[q]: full[q] for q in range(len(full))}
            o2 = dict(o, tr=[q for q in o['tr'] if q != 'M'] or ['X'])
            f = series if k == 'batch' else frame
            if k == 'dfbatch' and case['flat']:
                continue
            tot = None
            for p in parts:
                r, ax = f([perm[q] for q in p], o2, 'a batch', full, arg)
                tot = r if tot is None else {q: np.asarray(tot[q]) + np.asarray(r[q]) for q in tot}
            r, ax = f(rows, o2, 'all batches at once', full, arg)
            for q in r:
                check((np.asarray(r[q]) == tot[q]).all(), 'merge', 'merged batches of %s give %s, at once it is %s', q,
                      np.asarray(tot[q]).tolist(), np.asarray(r[q]).tolist())
            compared += rep
        elif k == 'comp':
            n = [0]
            exc = EXC[o['exc']]

            def hook(fn):
                def g(x):
                    n[0] += 1
                    if n[0] == o['at']:
                        o['fired'] = True
                        raise exc('injected') if o['exc'] != 'UnicodeDecodeError' else exc()
                    return fn(x)
                return g
            o.pop('fired', None)
            tr, ref = transformations(o['tr'], hook)
            series(rows, o, 'prepare_series with a failing transformation', add, addarg, tr, ref)
            stats['fault_armed:comp'] += 1
            stats['fault_fired:comp'] += bool(o.pop('fired', None))
            series(perm, dict(o, fault=None), 'prepare_series after a failed one', add, addarg)
            compared += rep
        elif k == 'df':
            if frame(rows, o, 'prepare_dataframe', add, addarg):
                frame(perm, o, 'prepare_dataframe, another arrival order', add, addarg)
                compared += rep
        else:
            size = int(rs.randint(2, 7))
            s = t.series(perm)
            nm = [None, 'goals'][rs.randint(2)]
            d = guarded(lambda: P.df_count(s, size, nm) if nm else P.df_count(s, size), [s], 'df_count', o)
            check(list(d.columns) == list(range(size)) and d.columns.name == (nm or 'count'), 'columns',
                  'df_count has the columns %s named %r', list(d.columns), d.columns.name)
            check(frz(d.index) == frz(s.index), 'index', 'df_count changed the order or the labels of the observations')
            v = np.asarray(d.values, float)
            check(v.shape == (len(perm), size) and ((v == 0) | (v == 1)).all() and (v.sum(1) == 1).all(), 'cells',
                  'df_count does not put every observation in exactly one column: %s', v.tolist())
            want = np.zeros_like(v)
            for q, r in enumerate(perm):
                want[q, int(r[1]) if r[1] == int(r[1]) and 0 <= r[1] < size - 1 else size - 1] = 1
            if (v != want).any():
                sw = want.copy()
                sw[:, [size - 2, size - 1]] = want[:, [size - 1, size - 2]]
                check((v == sw).all(), 'count', 'df_count(%s, %d) gives %s instead of %s', [r[1] for r in perm], size, v.tolist(), want.tolist())
                findings.append(('df-count-overflow-column',
                                 'df_count(series, %d) puts the overflow count into column %d and the count of %d into column %d' % (
                                     size, size - 2, size - 2, size - 1)))
    # the listed finding, in every run
    d = np.asarray(P.df_count(pd.Series([0., 1, 2, 5]), 3).values, float)
    if (d == np.array([[1, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 0]])).all():
        findings.append(('df-count-overflow-column', 'df_count([0, 1, 2, 5], 3) counts the 1 in column 2, and 2 and 5 (overflow) in column 1'))
    elif not (d == np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 1]])).all():
        check(False, 'count', 'df_count([0, 1, 2, 5], 3) gives %s', d.tolist())
    return {'nontrivial': compared > 0, 'findings': findings[-1:],
            'key': repr((case['levels'], case['rows'], case['raw'], [(o['op'], o['tr'], (o.get('fault') or {}).get('site')) for o in case['ops']]))}
