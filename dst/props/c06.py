"""C06: concurrent use gives each client the result of running alone."""
import numpy as np
import pandas as pd

import engine
import world
from common import EXC, LINALG, SEAM, Fault, Out, check, flatnest, gen_fit, in_fork, resolve, stdout_to
from world import World, gen_spec

THREADS = True
QUICK, THOROUGH = 1800, 40000
RULE = ('2-4 client threads sharing model, constraint, regularization, copula, data and tensor objects, each with its own '
        'estimator or calls; seeded scheduler (random, priorities, round robin, starvation) switching at any source line of '
        'maxlike; faults in some clients.  Each client is compared bit for bit with the same client alone on fresh objects. '
        'Non-trivial: at least 3 switches happened between unfinished clients')
REAL = ['maxlike (all parts)', 'numpy', 'scipy', 'pandas']
STUB = ['the scheduler decides which thread runs; one thread at a time, switching between source lines of maxlike and '
        'component invocations', 'sys.stdout counts writes']
ASSUME = ['preemption at the source lines and the calls of maxlike, not between two bytecodes without a call or inside numpy (which holds the GIL there)']
MEASURE = 'distinct (code, line) at which a preemptive switch happened, and fault sites'
LISTS = ('clients', 'sched.switches')
MINLEN = {'clients': 1}


def gen_client(rng, w):
    k = rng.choice(['fit'] * 5 + ['eval'] * 3 + ['copula', 'skellam', 'prep', 'tensor', 'build', 'read'])
    c = {'kind': k, 'seed': rng.randrange(10 ** 6)}
    if k in ('fit', 'read'):
        c['ops'] = [gen_fit(rng, ndata=2, first=True) for _ in range(rng.randint(1, 2))]
        for o in c['ops']:
            o['steps'] = min(o['steps'], 12)
            o['tol'] = max(o['tol'], 1e-8)
        c['how'] = rng.choice(['start', 'jit'])
    else:
        c['n'] = rng.randint(1, 4)
    if rng.random() < .3:
        c['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'fpe', 'recursion', 'linalg']), 'pos': ['frac', round(rng.random(), 4)]}
    return c


HEAVY = ('mkv', 'mkm', 'pmat', 'inter', 'logsum')


def light(rng):
    """short calls on the same objects, in every client"""
    w = gen_spec(rng, small=True, tmpls=['add', 'fin', 'bil', 'sig', 'grid', 'tennis', 'mkv', 'mkm', 'pmat'])
    k = rng.choice(['skellam', 'copula', 'copula', 'prep', 'tensor', 'eval', 'eval', 'build'])
    cop = rng.randrange(5)
    clients = []
    for _ in range(rng.choice([2, 2, 3])):
        c = {'kind': k if rng.random() < .85 else rng.choice(['skellam', 'copula', 'tensor', 'eval']), 'seed': rng.randrange(10 ** 6),
             'n': rng.randint(1, 3), 'cop': cop}
        if rng.random() < .15:
            c['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'fpe', 'recursion', 'linalg']), 'pos': ['frac', round(rng.random(), 4)]}
        clients.append(c)
    return {'world': w, 'clients': clients, 'sched': engine.gen_sched(rng, gaps=(2, 5, 15, 60, 300), spans=(300, 3000), qs=(.01, .04, .12, .3))}


def gen(rng, tier, i):
    if rng.random() < .6:
        return light(rng)
    w = gen_spec(rng, small=True)
    if rng.random() < .6:
        # concurrent use matters most where model objects nest
        w = gen_spec(rng, small=True, tmpls=['fin', 'pmat', 'mkv', 'mkm', 'inter', 'logsum', 'tennis', 'bil', 'sig', 'add'])
    case = {'world': w}
    n = rng.choice([2, 2, 2, 3, 3, 4])
    case['clients'] = [gen_client(rng, w) for _ in range(n)]
    if rng.random() < .4:
        # the same thing in every client: the densest sharing
        k = rng.choice(['fit', 'fit', 'eval', 'eval', 'skellam', 'copula', 'prep'])
        for c in case['clients']:
            if c['kind'] != k:
                c.clear()
                c.update(gen_client(rng, w))
                c['kind'] = k
                c.setdefault('n', 2)
                c.setdefault('ops', [dict(gen_fit(rng, ndata=2, first=True), steps=8)])
                c.setdefault('how', 'jit')
    for c in case['clients']:
        # the same interleavings, in less time
        for o in c.get('ops', []):
            if w['tmpl'] in HEAVY:
                o['steps'] = min(o['steps'], 4)
    case['sched'] = engine.gen_sched(rng)
    return case


class Shared:
    """the objects the clients share"""

    def __init__(self, spec):
        self.w = World(spec)
        self.model = self.w.model()
        self.data = [self.w.data(k) for k in range(2)]
        cons, regs = {}, {}

        def hook(kind, x):
            if kind in ('con', 'reg'):
                d = cons if kind == 'con' else regs
                n = self.counter.setdefault(kind, 0)
                self.counter[kind] += 1
                return d.setdefault(n, x)
            return x
        self.hook = hook
        self.counter = {}
        C = world.M.copula
        self.cops = [C.Gaussian(rho=.4), C.Clayton(rho=.7), C.Gumbel(rho=1.6), C.Frank(rho=2.5), C.AkiMikhailHaq(rho=.5)]
        rs = np.random.RandomState(spec['seed'])
        T = world.M.Tensor
        from array import array
        self.tens = [T(rs.uniform(.5, 2, (3, 3)), dim=0), T(rs.uniform(.5, 2, (1, 3, 3)), 1, 0, 0, array('b', [0])),
                     T(rs.uniform(.5, 2, (3, 3, 2)), dim=1), T(1.5)]
        self.obs = pd.Series(rs.randint(0, 5, 24).astype(float),
                             index=pd.MultiIndex.from_arrays([rs.randint(0, 3, 24), rs.randint(0, 4, 24)], names=['u', 'v']))

    def estimator(self, params=True):
        self.counter = {}
        e = self.w.estimator(model=self.model, params=params, hook=self.hook)
        return e


def out_of(fn):
    try:
        return flatnest(fn())
    except engine.SimBudget:
        raise
    except BaseException as ex:
        return ('exc', type(ex).__name__)


def tens(t):
    """a tensor as plain data"""
    if hasattr(t, 'elements'):
        return [tens(x) for x in t.elements]
    if hasattr(t, 'values'):
        return [t.x_dim, t.y_dim, t.dim, np.asarray(t.values, float)]
    return t


def nest(x):
    if isinstance(x, (list, tuple)):
        return [nest(y) for y in x]
    return tens(x)


def dense(x):
    """the arrays a reader of the results takes from them"""
    if isinstance(x, (list, tuple)):
        return [dense(y) for y in x]
    return x.toarray() if hasattr(x, 'toarray') else x


def pick_out(rs):
    return dense if rs.rand() < .6 else nest


def make(c, sh, estimator):
    """the client as a function of no arguments -> list of outcomes"""
    rs = np.random.RandomState(c['seed'])
    w = sh.w
    k = c['kind']
    steps = []
    if k in ('fit', 'read'):
        e = estimator
        start = None
        if c['how'] == 'jit':
            start = [np.where(m, s, s + rs.uniform(-.02, .02, s.shape)) for m, s in zip(w.masks, w.start)]
            if w.spec.get('con'):
                start = None
        steps.append(lambda: w.add_params(e, start))
        for o in c['ops']:
            steps.append(lambda o=o: e.fit(tol=o['tol'], max_steps=o['steps'], verbose=o['verbose'],
                                           method=o['method'], **sh.data[o['data']]))
            steps.append(lambda: [np.asarray(np.ma.getdata(p)) for p in e.get_params()])
            steps.append(lambda: [np.asarray(np.ma.getdata(p)) for p in e.std_error()])
            steps.append(lambda: e.fisher_matrix())
            steps.append(lambda: [e.bayesian_information_criterion(), e.akaine_information_criterion()])
    elif k == 'eval':
        for _ in range(c['n']):
            p = [s + rs.uniform(-.1, .1, s.shape) for s in w.start]
            what = rs.choice(['call', 'grad', 'hess', 'eval', 'eval'])
            if what == 'call':
                steps.append(lambda p=p: nest(sh.model(p)))
            elif what == 'eval':
                steps.append(lambda p=p, out=pick_out(rs): out(sh.model.eval(p)))
            else:
                steps.append(lambda p=p, what=what, out=pick_out(rs): out(getattr(sh.model, what)(p)))
    elif k == 'copula':
        for _ in range(c['n']):
            x, y = rs.uniform(.1, 1, 4), rs.uniform(.1, 1, 3)
            cop = sh.cops[c.get('cop', rs.randint(len(sh.cops)))]
            steps.append(lambda x=x, y=y, cop=cop: nest(cop([x, y])))
    elif k == 'skellam':
        S = world.M.skellam
        for _ in range(c['n']):
            t, n = float(rs.uniform(.1, .8)), int(rs.randint(0, 4))
            steps.append(lambda t=t, n=n: S.poisson_cdf_root(t, n))
            steps.append(lambda t=t, n=n: list(S.skellam_cdf_root(t / 2, (1 - t) / 3)))
            steps.append(lambda t=t, n=n: S.conditional_skellam_cdf_root(1.2, .3 + t / 2))
    elif k == 'prep':
        P = world.M.preprocessing
        for _ in range(c['n']):
            def f():
                r, axis = P.prepare_series(sh.obs, {'N': np.size, 'X': np.sum})
                return [r['N'], r['X']] + [np.asarray(a) for a in axis]
            steps.append(f)

            def g():
                df = pd.DataFrame({'w': sh.obs.values + 1, 'r': sh.obs.values}, index=sh.obs.index)
                r, axis = P.prepare_dataframe(df, 'w', 'r', {'X': np.sum})
                return [r['N'], r['X']]
            steps.append(g)
    elif k == 'tensor':
        for _ in range(c['n'] * 4):
            a, b = sh.tens[rs.randint(4)], sh.tens[rs.randint(4)]
            op = rs.randint(10)
            if op == 0:
                f = lambda a=a, b=b: nest(a + b)
            elif op == 1:
                f = lambda a=a, b=b: nest(a * b)
            elif op == 2:
                f = lambda a=a: nest(a.sum())
            elif op == 3:
                f = lambda a=a, b=b: nest((a - b) * 2.5)
            elif op == 4:
                f = lambda a=a: nest(-a.transpose())
            elif op == 6:
                f = lambda a=a: a.toarray()
            elif op == 7:
                f = lambda a=a, b=b: (a + b).toarray()
            elif op == 8:
                f = lambda a=a, s=float(rs.randint(1, 4)): nest(s - a)
            elif op == 9:
                f = lambda a=a, b=b: (a * b).sum(0 if a.n and b.n else True).toarray()
            else:
                f = lambda a=a: nest(a.sum(sum_val=False))
            steps.append(f)
    else:
        # builds its own functions from the shared ones
        F = world.M.func
        n = len(w.names)
        nd = len(w.feat)
        p = [s + rs.uniform(-.1, .1, s.shape) for s in w.start]
        full = w.y(p).ndim > nd

        def f():
            g = F.Sum(nd, w.y(p).ndim - nd)
            for a in (1., float(rs.randint(2, 5))):
                g.add(a * sh.model, list(range(n)), list(range(nd)), list(range(w.y(p).ndim - nd)) if full else None)
            return nest(g.eval(p))
        steps = [f] * c['n']

    def run():
        res = []
        for s in steps:
            r = out_of(s)
            res.append(r)
        return res
    return run


def execute(sim, case, idx, stats):
    """run the clients of idx (all, or a single one alone) on fresh objects"""
    sh = Shared(case['world'])
    ests = {}
    for i in idx:
        if case['clients'][i]['kind'] in ('fit', 'read'):
            ests[i] = sh.estimator(params=False)
    fns = []
    faults = {}
    for i in idx:
        c = case['clients'][i]
        run = make(c, sh, ests.get(i))

        def body(cl, run=run, c=c, i=i):
            f = c.get('fault')
            if f and f['pos'][0] == 'at':
                cl.fault = faults[i] = Fault(f['kind'], f['pos'][1], EXC[SEAM[f['kind']]], LINALG if f['kind'] == 'linalg' else None)
            elif f:
                cl.fault = faults[i] = Fault(f['kind'], 1 << 60, MemoryError, LINALG if f['kind'] == 'linalg' else None)
            cl.seam = 0
            try:
                return run()
            finally:
                cl.fault = None
                faults[str(i)] = cl.seam
        fns.append(body)
    return sh, fns, faults


def alone(sim, case, i, stats):
    """a client alone -> (outcomes, number of seam events, where its fault fired)"""
    sh, fns, faults = execute(sim, case, [i], stats)
    sim.main.rehearsal = True
    try:
        r = fns[0](sim.main)
        return r, faults[str(i)], faults[i].fired if i in faults else None
    finally:
        sim.main.rehearsal = False


def shared_bits(sh):
    return flatnest([[d[k] for k in sorted(d)] for d in sh.data] + [nest(t) for t in sh.tens] + [sh.obs.values])


def run(case, sim, stats):
    n = len(case['clients'])
    with stdout_to(Out()):
        # positions of the faults: a rehearsal of each faulted client, alone
        for i, c in enumerate(case['clients']):
            if c.get('fault') and c['fault']['pos'][0] != 'at':
                c['fault']['pos'] = ['at', resolve(c['fault']['pos'], in_fork(lambda: alone(sim, case, i, stats)[1]))]
        # alone, each in a process of its own
        solos = [in_fork(lambda: alone(sim, case, i, stats)) for i in range(n)]
        # together
        sh, fns, faults = execute(sim, case, list(range(n)), stats)
        bits = shared_bits(sh)
        sched = engine.mksched(case['sched'])
        sim.steps = 0
        cl = sim.run_clients(fns, sched)
        case['sched'] = {'kind': 'replay', 'first': sched.first_idx, 'switches': sched.log}
        for c in cl:
            if c.exc is not None:
                raise c.exc
        check(shared_bits(sh) == bits, 'shared-changed', 'the shared data or tensors were modified')
        fired = 0
        for i, c in enumerate(case['clients']):
            if c.get('fault'):
                k = c['fault']['kind']
                stats['fault_armed:' + k] += 1
                if faults[i].fired:
                    fired += 1
                    stats['fault_fired:' + k] += 1
                    c['fault']['site'] = faults[i].fired
        for i, c in enumerate(case['clients']):
            solo, _, site = solos[i]
            got = cl[i].result
            stats['client:' + c['kind']] += 1
            if site != (faults[i].fired if c.get('fault') else None):
                # shared work done by another client: the fault struck elsewhere
                stats['fault_elsewhere'] += 1
                continue
            for k, (a, b) in enumerate(zip(got, solo)):
                check(a == b, 'interference', 'client %d (%s), step %d: %s; alone it gives %s', i, c['kind'], k, brief(a), brief(b))
            check(len(got) == len(solo), 'interference', 'client %d ended early', i)
    stats['switches'] += len(sched.log)
    return {'nontrivial': len(sched.log) >= 3,
            'key': repr((case['world']['tmpl'], [c['kind'] for c in case['clients']], hash(tuple(sched.log))))}


def brief(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'exc':
        return 'raises ' + x[1]

    def un(y):
        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], bytes):
            return np.frombuffer(y[1])[:6].tolist()
        if isinstance(y, list):
            return [un(z) for z in y[:4]]
        return y
    return str(un(x))[:300]
