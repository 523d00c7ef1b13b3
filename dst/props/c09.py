"""C09: results depend on arguments only, and nothing global is left changed."""
import copy
import decimal
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

import engine
import world
from common import Ctl, FaultRun, Out, check, flatnest, gen_fault, gen_fit, in_fork, offstage, spied
from props import hist
from props.c06 import Shared, nest
from world import World, gen_spec

QUICK, THOROUGH = 550, 12000
RULE = ('one scenario (fits of both methods, reports, model evaluations, copulas, root finders, preprocessing, tensors) run in '
        'a neutral environment and again in a perturbed one: random states, floating point mode, print options, warning '
        'filters, output stream, verbosity, argument order, another thread, after and between unrelated work on other '
        'estimators that succeeds, fails or is hit by a fault.  Results are compared bit for bit; after every operation the '
        'global state is compared with that before.  Non-trivial: at least one fit was compared and two perturbations applied')
REAL = ['maxlike (all parts)', 'numpy', 'scipy', 'pandas']
STUB = ['the environment: random generators, FP error mode, print options, warning filters, sys.stdout',
        'components of the unrelated estimators can raise or return NaN']
ASSUME = ['the floating point mode is one that does not raise, warning filters do not turn warnings into errors']
LISTS = ('ops', 'noise', 'env')
MINLEN = {'ops': 1}

ENV = ['pyseed', 'npseed', 'err_ignore', 'err_warn', 'err_call', 'printopts', 'filters', 'stdout_none', 'stdout_broken',
       'verbose', 'order', 'case', 'thread', 'decimal', 'reclimit', 'gc', 'churn']


def gen_op(rng):
    k = rng.choice(['fit'] * 6 + ['report'] * 3 + ['eval', 'copula', 'root', 'prep', 'tensor', 'count'])
    o = {'op': k, 'seed': rng.randrange(10 ** 6)}
    if k == 'fit':
        o = gen_fit(rng, first=True)
        o['steps'] = min(o['steps'], 20)
        o['verbose'] = 0
        o['seed'] = rng.randrange(10 ** 6)
        o['tens'] = [['own', rng.randint(0, 2)]] * (rng.random() < .25) + [[x, 0] for x in 'NX' if rng.random() < .15]
    return o


def gen_noise(rng, spec):
    s = copy.deepcopy(spec)
    x = rng.random()
    if x < .4:
        # the same model with other numbers: what a cache could confuse
        s['seed'] = rng.randrange(10 ** 6)
    elif x < .7:
        s['seed'] = rng.randrange(10 ** 6)
        if s['like'] == 'NegativeBinomial':
            s['arg'] = rng.choice([1, 2, 3.5, 5])
        if s['like'] == 'ZeroInflatedPoisson':
            s['arg'] = rng.choice([1.0, 2, 1.5, 3])
        if s.get('c') is not None:
            s['c'] = round(rng.uniform(-.5, .5), 2)
        if 'v' in s:
            s['v'] = [round(v * rng.choice([.8, 1.3, -1]), 3) for v in s['v']]
        if rng.random() < .4:
            s['con'] = []
    else:
        s = gen_spec(rng, small=True)
    o = gen_fit(rng, first=True)
    o['steps'] = min(o['steps'], 12)
    n = {'world': s, 'ops': [o], 'at': rng.randint(0, 4), 'kind': rng.choice(['leaf0', 'top', 'like'])}
    if rng.random() < .55:
        o['fault'] = gen_fault(rng)
        if o['fault']['kind'] == 'stdout':
            o['verbose'] = 1
    if rng.random() < .3:
        n['ops'].append(hist.gen_bad(rng))
    if rng.random() < .4:
        n['other'] = {'op': rng.choice(['copula', 'copula', 'root', 'prep', 'tensor', 'eval']), 'seed': rng.randrange(10 ** 6),
                      'fault': {'kind': rng.choice(['alloc', 'interrupt', 'fpe', 'recursion']),
                                'pos': ['frac', round(rng.random(), 4)]}}
    return n


def gen(rng, tier, i):
    w = gen_spec(rng, small=True)
    ops = [gen_op(rng) for _ in range(rng.randint(2, 5 if tier == 'quick' else 9))]
    if not any(o['op'] == 'fit' for o in ops):
        ops.insert(0, dict(gen_fit(rng, first=True), steps=20, verbose=0, seed=rng.randrange(10 ** 6)))
    return {'world': w, 'ops': ops, 'noise': [gen_noise(rng, w) for _ in range(rng.randint(0, 3))],
            'env': rng.sample(ENV, rng.randint(2, 6)), 'eseed': rng.randrange(10 ** 6)}


# ------------------------------------------------------------- global state
def glob():
    return {
        'the random state': random.getstate(),
        'the numpy random state': [x.tobytes() if hasattr(x, 'tobytes') else x for x in np.random.get_state()],
        'the floating point error mode': (sorted(np.geterr().items()), id(np.geterrcall()), np.getbufsize()),
        'the print options': repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        'the warning filters': [(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters],
        'the warning display': id(warnings.showwarning),
        'sys.stdout': id(sys.stdout),
        'the recursion limit': sys.getrecursionlimit(),
        'the garbage collector': (gc.isenabled(), gc.get_threshold()),
        'the decimal context': repr(decimal.getcontext()).split('flags')[0],
        'the working directory': os.getcwd(),
        'the environment': sorted(os.environ.items()),
        'the locale': locale.setlocale(locale.LC_ALL),
        'the number of threads': threading.active_count(),
        'the interrupt handler': id(signal.getsignal(signal.SIGINT)),
        'the ufunc/exception hooks': (id(sys.excepthook), id(np.exp), id(np.random.random)),
    }


class Watch:
    def __init__(self, stats):
        self.stats = stats

    def __call__(self, what, fn):
        a = glob()
        r = fn()
        b = glob()
        for k in a:
            check(a[k] == b[k], 'leak', '%s changed %s', what() if callable(what) else what, k)
        self.stats['leak_checks'] += 1
        return r


class Env:
    """applies a perturbed environment, and takes it back"""

    def __init__(self, names, seed):
        self.names, self.rs = names, random.Random(seed)

    def __enter__(self):
        n, rs = self.names, self.rs
        self.keep = (random.getstate(), np.random.get_state(), np.geterr(), np.geterrcall(), np.get_printoptions(),
                     sys.getrecursionlimit(), sys.stdout, decimal.getcontext().prec)
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        if 'pyseed' in n:
            random.seed(rs.randrange(1 << 30))
        if 'npseed' in n:
            np.random.seed(rs.randrange(1 << 30))
        if 'err_ignore' in n:
            np.seterr(all='ignore')
        if 'err_warn' in n:
            np.seterr(all='warn')
        if 'err_call' in n:
            np.seterrcall(lambda *a: None)
            np.seterr(all='call')
        if 'printopts' in n:
            np.set_printoptions(precision=2, suppress=True, threshold=3)
        if 'filters' in n:
            warnings.simplefilter(rs.choice(['always', 'ignore', 'once']))
        if 'reclimit' in n:
            sys.setrecursionlimit(sys.getrecursionlimit() + rs.randrange(100, 1000))
        if 'decimal' in n:
            decimal.getcontext().prec = 5
        if 'gc' in n:
            gc.disable()
        if 'stdout_none' in n:
            sys.stdout = None
        elif 'stdout_broken' in n and 'verbose' not in n:
            sys.stdout = Out(1, 'pipe')
        else:
            sys.stdout = Out()
        return self

    def __exit__(self, *a):
        random.setstate(self.keep[0])
        np.random.set_state(self.keep[1])
        np.seterr(**self.keep[2])
        np.seterrcall(self.keep[3])
        np.set_printoptions(**self.keep[4])
        sys.setrecursionlimit(self.keep[5])
        sys.stdout = self.keep[6]
        decimal.getcontext().prec = self.keep[7]
        gc.enable()
        self.cw.__exit__(*a)


# ------------------------------------------------------------- the scenario
def outcome(fn):
    try:
        return flatnest(fn())
    except (engine.SimBudget, AssertionError) as ex:
        if isinstance(ex, engine.SimBudget):
            raise
        return ('exc', 'AssertionError')
    except BaseException as ex:
        return ('exc', type(ex).__name__)


def other(o, sh):
    """an operation outside of estimators -> callable"""
    rs = np.random.RandomState(o['seed'])
    k = o['op']
    M = world.M
    if k == 'eval':
        p = [s + rs.uniform(-.1, .1, s.shape) for s in sh.w.start]
        return lambda: nest([sh.model(p), sh.model.eval(p)])
    if k == 'copula':
        # zeros in the margins: logs and powers of zero inside
        x, y = rs.uniform(0, 1, 4), rs.uniform(0, 1, 3)
        x[rs.randint(3)] = 0
        x[0] = 0
        cop = sh.cops[rs.randint(len(sh.cops))]
        return lambda: nest(cop([x, y]))
    if k == 'root':
        t, n = float(rs.uniform(.1, .8)), int(rs.randint(0, 4))
        return lambda: [M.skellam.poisson_cdf_root(t, n), list(M.skellam.skellam_cdf_root(t / 2, (1 - t) / 3)),
                        M.skellam.conditional_skellam_cdf_root(1.2, .2 + t / 2)]
    if k == 'prep':
        import pandas as pd

        def f():
            r, axis = M.preprocessing.prepare_series(sh.obs, {'N': np.size, 'X': np.sum})
            df = pd.DataFrame({'w': sh.obs.values + 1, 'r': sh.obs.values}, index=sh.obs.index)
            q, ax2 = M.preprocessing.prepare_dataframe(df, 'w', 'r', {'X': np.sum})
            return [r['N'], r['X'], q['N'], q['X']] + [np.asarray(a) for a in axis] + [np.asarray(a) for a in ax2]
        return f
    if k == 'count':
        return lambda: M.preprocessing.df_count(sh.obs, 4).values.astype(float)
    a, b = sh.tens[rs.randint(4)], sh.tens[rs.randint(4)]
    return lambda: nest([a + b, a * b, a.sum(), (a - b) * 2.5, -a.transpose()])


def noise_run(nz, sim, stats, watch, sh):
    w = World(nz['world'])
    ctl = Ctl()

    def mk():
        return spied(w, ctl, nz['kind'])
    out = sys.stdout
    e = watch('building an estimator', mk)
    fr = FaultRun(sim, ctl, stats)

    def call(x, o):
        if o['op'] == 'fit':
            from common import do_fit
            return do_fit(x, w, o)
        return hist.bad_call(x, w, o)
    for o in nz['ops']:
        f = o.get('fault')
        if f and f['pos'][0] != 'at':
            with offstage(sim):
                r = mk()
            rs, nrs = random.getstate(), np.random.get_state()
            from common import resolve
            f['pos'] = ['at', resolve(f['pos'], fr.count(f, lambda: call(r, o)))]
            random.setstate(rs)
            np.random.set_state(nrs)
        res = watch(lambda: 'an unrelated ' + hist.describe(o, None), lambda: fr.run(lambda: call(e, o), f, None)[0])
        stats['noise:' + res[0]] += 1
    if nz.get('other'):
        o = nz['other']
        fn = other(o, sh)
        f = o['fault']
        from common import resolve
        if f['pos'][0] != 'at':
            f['pos'] = ['at', resolve(f['pos'], fr.count(f, fn))]
        watch(lambda: 'an unrelated %s call under %s' % (o['op'], f), lambda: fr.run(fn, f, None)[0])
    assert sys.stdout is out


def scenario(case, sim, stats, env, watch, noisy):
    w = World(case['world'])
    sh = Shared(case['world'])
    noise = copy.deepcopy(case['noise']) if not noisy else case['noise']

    def at(k):
        if noisy:
            for nz in noise:
                if nz['at'] == k:
                    noise_run(nz, sim, stats, watch, sh)
    at(0)
    e = watch('building an estimator', lambda: w.estimator())
    out = []
    for k, o in enumerate(case['ops']):
        if o['op'] == 'fit':
            kw = w.data(o['data'])
            for t in o.get('tens') or ():
                # data of the user's own: a keyword the likelihood does not use, and Tensors
                if t[0] == 'own':
                    kw['W'] = world.M.tensor.Tensor(np.ones((2,) * (1 + t[1])), dim=t[1])
                elif t[0] in kw:
                    kw[t[0]] = world.M.tensor.Tensor(np.array(kw[t[0]], float), dim=getattr(e, 'dim', 0))
            if 'order' in env:
                names = list(kw)
                random.Random(o['seed']).shuffle(names)
                kw = {x: kw[x] for x in (names if names != list(kw) else reversed(names))}
            m = o['method']
            if 'case' in env:
                m = m.upper() if k % 2 else m.capitalize()
            v = (1 + k % 2) if 'verbose' in env else 0
            fn = lambda: [e.fit(tol=o['tol'], max_steps=o['steps'], verbose=v, method=m, **kw), 0]
        elif o['op'] == 'report':
            fn = lambda: [outcome(f) for f in (e.std_error, e.error_matrix, e.fisher_matrix,
                                               e.akaine_information_criterion, e.bayesian_information_criterion)]
        else:
            fn = other(o, sh)
        r = watch(o['op'] + (' (%s)' % o['method'] if o['op'] == 'fit' else ''), lambda: outcome(fn))
        out.append((o['op'], r, [np.ma.getdata(p).tobytes() for p in e.get_params()]))
        at(k + 1)
    return out


def churn(case):
    """many short lived estimators of the same kind, with other data"""
    for k in range(10):
        w = World(dict(case['world'], seed=case['eseed'] + k))
        e = w.estimator()
        for d in (0, 1):
            outcome(lambda: [e.fit(max_steps=1 + d, verbose=0, **w.data(d)), 0])
            outcome(lambda: [e.bayesian_information_criterion()])
        outcome(lambda: e.std_error())


def run(case, sim, stats):
    watch = Watch(stats)
    with Env([], 0):
        # in a process that never did anything else
        ref = in_fork(lambda: scenario(case, sim, stats, [], watch, False))
    env = case['env']
    with Env(env, case['eseed']):
        if 'churn' in env:
            churn(case)
        if 'thread' in env:
            box = []

            def body():
                if 'err_ignore' in env:
                    np.seterr(all='ignore')
                try:
                    box.append(('ret', scenario(case, sim, stats, env, watch, True)))
                except BaseException as ex:
                    box.append(('exc', ex))
            t = threading.Thread(target=body)
            t.start()
            t.join()
            if box[0][0] == 'exc':
                raise box[0][1]
            got = box[0][1]
        else:
            got = scenario(case, sim, stats, env, watch, True)
    fits = 0
    for k, (a, b) in enumerate(zip(ref, got)):
        stats['compared:' + a[0]] += 1
        fits += a[0] == 'fit'
        why = 'in the environment %s, after %d unrelated activities' % (env, len(case['noise']))
        check(a[1] == b[1], 'depends-on-environment', 'step %d (%s) gives another result %s', k, a[0], why)
        check(a[2] == b[2], 'depends-on-environment', 'step %d (%s) reaches other parameters %s', k, a[0], why)
    return {'nontrivial': fits > 0 and len(env) > 1,
            'key': repr((case['world']['tmpl'], case['world']['like'], sorted(env), [o['op'] for o in case['ops']], len(case['noise'])))}
