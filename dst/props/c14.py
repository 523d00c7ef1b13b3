"""C14: standard errors, information matrices and criteria describe the committed fit."""
import random

import numpy as np

import engine
from common import FaultRun, KINDS, canon, check, est, flatnest, gen_fault, gen_fit, muted, name, obs_call, obs_params
from props.hist import Hist, close, describe, gen_addbad, gen_bad, gen_world
from world import gen_spec

QUICK, THOROUGH = 900, 12000
RULE = ('random model and data; history of fits, faulted, invalid and interrupted calls, faulted reads, and reads by 1-2 other '
        'threads while an operation runs under a seeded scheduler.  After every operation the reports are compared with an '
        'independent dense reference (complex-step gradient, its differences, the constraint rows) at the committed '
        'parameters, with each other, and with the reads before.  Non-trivial: reports of a converged newton fit were compared '
        'with the reference after a further operation')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['one model component, constraint, regularization or likelihood forwards to the real one and can raise or return NaN',
        'sys.stdout (counts writes, can break)', 'the scheduler decides which thread runs, in runs with readers']
ASSUME = ['the hessian committed is that of the last step: compared up to the size that the tolerance of the fit allows for it']
LISTS = ('ops', 'sched.switches')
MINLEN = {'ops': 1}
REPORTS = ['std_error', 'error_matrix', 'fisher_matrix', 'akaine_information_criterion', 'bayesian_information_criterion']


def gen(rng, tier, i):
    if rng.random() < .12:
        # likelihoods with models that have second derivatives
        wd = gen_spec(rng, tmpls=['bil', 'bil', 'logsum', 'sig'], likes=['ZeroInflatedPoisson', 'ZeroInflatedPoisson',
                                                                         'NegativeBinomial', 'Logistic', 'Poisson'])
    else:
        wd = gen_world(rng, tier)
    case = {'world': wd, 'kind': rng.choice(KINDS)}
    thr = rng.random() < .3
    ops = []

    def fit(first=False, same=False):
        o = gen_fit(rng, methods=['newton', 'newton', 'newton', 'broyden'], first=True)
        if o['method'] == 'newton':
            o['tol'] = rng.choice([1e-9, 1e-10, 1e-11, 1e-12])
        if same:
            o['data'] = ops[0]['data']
        return o
    ops.append(dict(fit(), method='newton', steps=40, tol=1e-11))
    for _ in range(rng.randint(2, 5 if tier == 'quick' else 9)):
        x = rng.random()
        if x < .3:
            ops.append(fit(same=thr))
        elif x < .6:
            o = fit(same=thr)
            o['fault'] = gen_fault(rng, ['alloc', 'interrupt', 'fpe', 'linalg', 'comp', 'comp', 'stdout', 'recursion', 'nan'])
            if o['fault']['kind'] == 'stdout':
                o['verbose'] = max(1, o['verbose'])
            ops.append(o)
        elif x < .7:
            ops.append(gen_bad(rng) if not thr else dict(gen_bad(rng), how=rng.choice(['method', 'unreadable', 'steps0'])))
        elif x < .78:
            ops.append(gen_addbad(rng))
        elif x < .84:
            ops.append(dict(fit(same=thr), steps=1, tol=1e-12))
        else:
            ops.append({'op': 'read', 'what': rng.choice(REPORTS),
                        'fault': {'kind': rng.choice(['alloc', 'interrupt', 'linalg', 'recursion', 'fpe']),
                                  'pos': ['frac', round(rng.random(), 4)]}})
    for o in ops:
        o['reads'] = rng.sample(REPORTS, rng.randint(2, 5))
        o['extra'] = rng.choice([0, 0, 1, 3])
    case['ops'] = ops
    if thr:
        case['threads'] = True
        case['readers'] = [{'reads': rng.randint(5, 20), 'mix': rng.sample(range(5), rng.randint(1, 4)),
                            'nap': rng.randrange(10 ** 6) if rng.random() < .7 else None} for _ in range(rng.choice([1, 1, 2]))]
        case['sched'] = engine.gen_sched(rng, gaps=(2, 5, 15, 60), spans=(8000,))
    return case


def report(e, what, extra=0):
    f = getattr(e, what)
    return obs_call((lambda: float(f(extra))) if what.endswith('criterion') else f)


def frozen(r):
    return r if isinstance(r, tuple) else repr(r) if isinstance(r, float) else flatnest(r)


class Ref:
    """the reports of one committed newton fit, by the independent model"""

    def __init__(self, w, params, data, tol):
        self.w, self.data = w, data
        self.p = params
        K, _, H, A = w.kkt(params, data)
        self.K, self.nf, self.m = K, len(H), len(A)
        self.A = A
        # the last step gained less than tol: how far the hessian may be off
        Z = np.eye(self.nf) if not self.m else np.linalg.svd(A)[2][np.linalg.matrix_rank(A):].T
        lo = np.abs(np.linalg.eigvalsh(Z.T @ H @ Z)).min(initial=np.inf) if Z.size else np.inf
        n = float(data['N'].sum())
        g = abs(w.objective(params, data))
        step = np.sqrt(2 * n * max(g, 1e-6) * (tol + 1e-12) / lo) if lo > 0 else np.inf
        self.rt = 1e-6 + 20 * float(step)
        self.cond = np.linalg.cond(K) if np.isfinite(K).all() else np.inf


def blocks(e, mats, w, fixed):
    """nested blocks -> dense matrix over the free entries; the others must be `fixed`"""
    names, free = w.names, [(~m).ravel() for m in w.masks]
    rows = []
    for i in range(len(names)):
        row = []
        for j in range(len(names)):
            b = np.asarray(np.ma.getdata(mats[i][j]), float)
            check(b.shape == w.masks[i].shape + w.masks[j].shape, 'report-shape', 'block %d, %d has shape %s', i, j, b.shape)
            b = b.reshape(free[i].size, free[j].size)
            out = np.ones(b.shape, bool)
            out[np.ix_(free[i], free[j])] = False
            bad = ~np.isnan(b[out]) if fixed != fixed else b[out] != fixed
            check(not bad.any(), 'report-fixed', 'block %d, %d: an entry of a fixed value is %r', i, j, b[out][bad][:1].tolist())
            row.append(b[np.ix_(free[i], free[j])])
        rows.append(np.hstack(row))
    return np.vstack(rows)


def against(h, e, ref, stats, what):
    """compare the matrices with the reference and with each other"""
    w = h.w
    with muted():
        fm, em, se = e.fisher_matrix(), obs_call(e.error_matrix), obs_call(e.std_error)
    F = blocks(e, fm, w, 0)
    K = ref.K
    sc = np.abs(K[:ref.nf, :ref.nf]).max(initial=0)
    n = 0
    if ref.rt < .1:
        d = np.abs(F - K[:ref.nf, :ref.nf]).max(initial=0)
        check(d <= ref.rt * sc + 1e-9, 'fisher', '%s: fisher_matrix is off by %g (scale %g, allowed %g) from the hessian at the committed params',
              what, d, sc, ref.rt * sc)
        n += 1
        stats['compared:fisher'] += 1
    else:
        stats['loose:fisher'] += 1
    Kl = np.block([[F, ref.A.T], [ref.A, np.zeros((ref.m, ref.m))]]) if ref.m else F
    cond = np.linalg.cond(Kl)
    if not cond < 1e8:
        stats['singular'] += 1
        return n
    E = -np.linalg.inv(Kl)[:ref.nf, :ref.nf]
    top = np.abs(E).max(initial=0)
    tol = (1e-9 + 1e-14 * cond * 10) * max(top, 1.0 / max(sc, 1e-300))
    check(not isinstance(em, tuple), 'error-matrix', '%s: error_matrix fails: %s', what, em)
    G = blocks(e, em, w, np.nan)
    d = np.abs(G - E).max(initial=0)
    check(d <= tol, 'error-matrix', '%s: error_matrix is off by %g (scale %g) from the inverse of the information matrix', what, d, top)
    check(not isinstance(se, tuple), 'std-error', '%s: std_error fails: %s', what, se)
    dg = np.diag(E)
    k = 0
    check(len(se) == len(w.names), 'std-error', '%s: std_error has %d arrays', what, len(se))
    for s, m in zip(se, w.masks):
        check(np.shape(s) == m.shape, 'std-error', '%s: std_error has shape %s', what, np.shape(s))
        mk = np.broadcast_to(np.ma.getmaskarray(s), m.shape)
        check((mk == m).all(), 'report-fixed', '%s: std_error masks %s instead of %s', what, mk.tolist(), m.tolist())
        v = np.asarray(np.ma.getdata(s), float)[~m]
        r = dg[k:k + v.size]
        k += v.size
        ok = r > 1e3 * tol
        with np.errstate(invalid='ignore'):
            check((np.abs(v[ok] ** 2 - r[ok]) <= 10 * tol + 1e-9 * r[ok]).all(), 'std-error', '%s: std_error is %s instead of %s', what,
                  v.tolist(), np.sqrt(np.maximum(r, 0)).tolist())
    stats['compared:error'] += 1
    return n


def criteria(h, e, stats, what, findings, extra):
    """AIC and BIC of the committed params and the data in force"""
    if not isinstance(h.cur, int):
        return 0
    w = h.w
    data = w.data(h.cur)
    p = est(e)
    n = float(data['N'].sum())
    with np.errstate(all='ignore'):
        l = w.objective(p, data)
    if not np.isfinite(l):
        return 0
    kf = sum((~m).sum() for m in w.masks) - len(w.spec.get('con', [])) + extra
    ka = sum(m.size for m in w.masks) - len(w.spec.get('con', [])) + extra
    for nm, f in (('akaine_information_criterion', lambda k: 2 * k / (n - k - 1) - 2 * l),
                  ('bayesian_information_criterion', lambda k: k * np.log(n) / n - 2 * l)):
        with muted():
            got = report(e, nm, extra)
        if close(got, f(kf)):
            continue
        if ka != kf and close(got, f(ka)):
            findings.append(('aic-counts-fixed', '%s counts the fixed entries as degrees of freedom' % nm))
            continue
        check(False, nm[:3], '%s: %s(%d) is %r instead of %r', what, nm, extra, got, f(kf))
    stats['compared:criteria'] += 1
    return 1


def run(case, sim, stats):
    h = Hist(case, sim, stats)
    w, e = h.w, h.e
    ref = None
    findings = []
    compared = 0
    last = None       # the reports seen last, frozen
    peeks = {}

    def look(what, op, fresh):
        """all observations after an operation"""
        nonlocal last, compared
        with muted():
            now = {}
            for r in peeks:
                check(frozen(report(e, r)) == peeks[r], 'unstable', '%s: %s differs when read again', what, r)
            for r in op['reads'] + [x for x in REPORTS if x not in op['reads']]:
                now[r] = frozen(report(e, r))
            for r in reversed(op['reads']):
                again = frozen(report(e, r))
                check(again == now[r], 'unstable', '%s: %s differs when read again', what, r)
        if not fresh and last is not None:
            for r in REPORTS[:3]:
                check(now[r] == last[r], 'changed', '%s changed %s of the committed fit', what, r)
        last = now
        if ref is not None:
            compared += against(h, e, ref, stats, what) and not fresh
        criteria(h, e, stats, what, findings, op['extra'])

    def step(op, fn):
        """one operation -> (what, success of a fit)"""
        nonlocal ref
        if op['op'] == 'read':
            peeks.clear()
            res, fired = h.fr.run(lambda: getattr(e, op['what'])(), op.get('fault'), lambda: getattr(e, op['what'])())
            what = '%s under %s' % (op['what'], {k: op['fault'][k] for k in ('kind', 'pos', 'site') if k in op['fault']})
            if res[0] == 'exc' and not fired and ref is not None and ref.cond < 1e10 and isinstance(h.cur, int):
                check(False, 'read-failed', '%s raised %s', op['what'], name(res[1]))
            return what, False
        p0 = obs_params(e)
        res, fired = h.run(op)
        # the first reads, before any other call
        peeks.clear()
        with muted():
            for r in op['reads']:
                peeks[r] = frozen(report(e, r))
        what = describe(op, res)
        stats['%s:%s' % (op['op'], res[0])] += 1
        if res[0] == 'ret' and op['op'] == 'addbad':
            with muted():
                h.reset()
            peeks.clear()
            h.identify(h.data_after(op, False), what)
            ref = None
            return what, True
        h.identify(h.data_after(op, res[0] == 'exc'), what)
        if res[0] == 'ret':
            good = (op['op'] == 'fit' and op['method'] == 'newton' and isinstance(h.cur, int) and
                    not (fired and op['fault']['kind'] == 'nan'))
            ref = Ref(w, est(e), w.data(h.cur), op['tol']) if good else None
            return what, True
        check(obs_params(e) == p0, 'changed', '%s changed the params', what)
        return what, False

    if not case.get('readers'):
        for op in case['ops']:
            what, fresh = step(op, None)
            look('after ' + what, op, fresh)
    else:
        op = case['ops'][0]
        what, fresh = step(op, None)
        look('after ' + what, op, fresh)
        # versions of the reports; readers run while further operations do
        def table():
            with muted():
                return {r: frozen(report(e, r)) for r in REPORTS}
        vers, spans, obs = [table()], [(0, 0)], []

        def writer(c):
            nonlocal compared
            for op in case['ops'][1:]:
                t0 = sim.steps
                what, fresh = step(op, None)
                vers.append(table())
                spans.append((t0, sim.steps))
                if not fresh:
                    for r in REPORTS[:3]:
                        check(vers[-1][r] == vers[-2][r], 'changed', '%s changed %s of the committed fit', what, r)
                elif op['op'] == 'addbad':
                    return
                if ref is not None:
                    compared += against(h, e, ref, stats, 'after ' + what) and not fresh
                criteria(h, e, stats, 'after ' + what, findings, op['extra'])

        def reader(k):
            def f(c):
                r = case['readers'][k]
                nap = random.Random(r['nap']) if r.get('nap') is not None else None
                for j in range(r['reads']):
                    nm = REPORTS[r['mix'][j % len(r['mix'])]]
                    t0 = sim.steps
                    v = frozen(report(e, nm))
                    obs.append((c.idx, nm, v, t0, sim.steps))
                    if nap:
                        sim.sleep(int(10 ** nap.uniform(1, 3.5)))
                    else:
                        sim.tick()
            return f
        h.ctl.only = 0
        sched = engine.mksched(case['sched'])
        cl = sim.run_clients([writer] + [reader(k) for k in range(len(case['readers']))], sched)
        case['sched'] = {'kind': 'replay', 'first': sched.first_idx, 'switches': sched.log}
        stats['switches'] += len(sched.log)
        for c in cl:
            if c.exc is not None:
                raise c.exc
        stats['reads'] += len(obs)
        adds = any(o['op'] == 'addbad' and o['how'] == 'fault' for o in case['ops'])
        kinds = {o.get('fault', {}).get('kind') for o in case['ops'] if o.get('fault')}
        for who, nm, v, t0, t1 in obs:
            if adds:
                continue      # a param was added, and removed again, meanwhile
            lo = max(k for k, (a, b) in enumerate(spans) if b <= t0)
            hi = max(k for k, (a, b) in enumerate(spans) if a <= t1)
            ok = [k for k in range(lo, hi + 1) if vers[k][nm] == v]
            if not ok and nm.endswith('criterion') and 'bad' in {o['op'][:3] for o in case['ops']}:
                continue      # an invalid call may have put other data in force
            check(ok, 'torn-report', 'reader %d: %s between operations %d and %d is that of no committed fit: %s', who, nm, lo, hi, str(v)[:200])
            stats['matched'] += 1
    return {'nontrivial': compared > 0, 'findings': findings[-1:],
            'key': repr((case['world']['tmpl'], case['world']['like'], [(o['op'], o.get('method'), o.get('how'), (o.get('fault') or {}).get('site', (o.get('fault') or {}).get('kind'))) for o in case['ops']]))}
