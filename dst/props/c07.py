"""C07: readers see complete parameter versions while a fit runs."""
import random

import numpy as np

import engine
from common import canon, check, gen_fit, muted, obs_params
from props.hist import Hist, describe, gen_world

THREADS = True
QUICK, THOROUGH = 450, 12000
RULE = ('random model with several parameters; one writer thread performs a series of fits (both methods, alternating data, '
        'some hit by faults or not converging) while 1-3 readers call get_params, BIC and AIC under a seeded scheduler, and '
        'the model itself reads the estimator from inside its own evaluations.  Every read, and every parameter set a '
        'reader\'s evaluation receives, is matched against the committed versions, their order and their real-time window.  '
        'Non-trivial: reads overlapping a fit were seen, and at least two versions were observed')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['the model forwards to the real one, records the parameters it is given and reads the estimator back',
        'the scheduler decides which thread runs', 'sys.stdout counts writes']
ASSUME = ['preemption at the source lines and the calls of maxlike, not between two bytecodes without a call']
MEASURE = 'distinct (code, line) at which a preemptive switch happened, and fault sites'
LISTS = ('ops', 'sched.switches')
MINLEN = {'ops': 1}


def gen(rng, tier, i):
    w = gen_world(rng, tier, tmpls=['add'] * 6 + ['cross', 'grid', 'bil', 'fin'] * 2 + ['pmat', 'inter', 'logsum'])
    case = {'world': w, 'kind': 'top', 'threads': True}
    ops = [dict(gen_fit(rng, methods=['newton'], first=True), data=0)]
    n = rng.randint(2, 5 if tier == 'quick' else 9)
    heavy = w['tmpl'] in ('pmat', 'inter', 'logsum')
    if heavy and tier == 'quick':
        n = 2
    while len(ops) < n + 1:
        o = gen_fit(rng, first=True)
        o['data'] = (ops[-1]['data'] + 1) % 2 if rng.random() < .8 else ops[-1]['data']
        o['steps'] = min(o['steps'], 25)
        x = rng.random()
        if x < .2:
            o['fault'] = {'kind': rng.choice(['alloc', 'interrupt', 'fpe', 'linalg', 'recursion']),
                          'pos': rng.choice([['frac', round(rng.random(), 4)], ['late', rng.randint(0, 40)]])}
        elif x < .3:
            o['steps'] = rng.choice([1, 2])
        ops.append(o)
    case['ops'] = ops
    case['readers'] = [{'reads': rng.randint(20, 200), 'mix': rng.choice(['p', 'p', 'pb', 'b', 'pab']),
                        'nap': rng.randrange(10 ** 6) if rng.random() < .7 else None}
                       for _ in range(rng.choice([1, 1, 2, 3]))]
    case['every'] = rng.choice([1, 3, 7])
    case['sched'] = engine.gen_sched(rng, gaps=(2, 5, 15, 60, 300), spans=(20000,), kinds=('rand', 'pct', 'rr', 'starve', 'site', 'site'),
                                     qs=(.02, .08, .25))
    return case


def run(case, sim, stats):
    h = Hist(case, sim, stats)
    w = h.w
    # committed versions, with the times the fits were started and ended
    vers = [tuple(obs_params(h.e))]
    vals = [tuple(x[:2] for x in vers[0])]
    spans = [(0, 0)]
    obs = []             # (client, what, value set or params, t0, t1, inside)
    state = {'fit': None, 'deep': 0, 'n': 0}
    began = {}           # client -> start of the call it is in

    def rec(who, what, value, t0, inside=False):
        obs.append((who, what, value, t0, sim.steps, inside))

    def spy(kind, params):
        c = sim._who()
        if c.rehearsal:
            return
        writer = c.idx <= 0
        if not writer or state['deep']:
            rec(c.idx, 'the evaluation', tuple((np.shape(p), canon(np.ma.getdata(np.asarray(p)))) for p in params),
                began.get(c.idx, sim.steps), writer)
            return
        if state['fit'] is None:
            return
        state['n'] += 1
        if state['n'] % case['every']:
            return
        state['deep'] += 1
        try:
            t0 = sim.steps
            rec(c.idx, 'get_params', tuple(obs_params(h.e)), t0, True)
            if state['n'] % (3 * case['every']) == 0:
                h.e.bayesian_information_criterion()
        finally:
            state['deep'] -= 1
    h.ctl.spy = spy

    def commit(op):
        t0 = sim.steps
        state['fit'] = op
        try:
            res, fired = h.run(op)
        finally:
            state['fit'] = None
        stats['fit:' + res[0]] += 1
        with muted():
            now = tuple(obs_params(h.e))
        what = describe(op, res)
        if res[0] == 'exc':
            check(now == vers[-1], 'failed-fit-published', '%s changed the parameters', what)
        # a fit that fails commits the version before it again
        vers.append(now)
        vals.append(tuple(x[:2] for x in now))
        spans.append((t0, sim.steps))

    def writer(c):
        try:
            for op in case['ops'][1:]:
                commit(op)
        finally:
            state['over'] = True

    def cl_done():
        return state.get('over')

    def reader(k):
        def f(c):
            r = case['readers'][k]
            nap = random.Random(r['nap']) if r.get('nap') is not None else None
            for j in range(r['reads']):
                if nap and cl_done():
                    break
                m = r['mix'][j % len(r['mix'])]
                # the call may read the params at any time since here
                t0 = began[c.idx] = sim.steps
                if m == 'p':
                    rec(c.idx, 'get_params', tuple(obs_params(h.e)), t0)
                elif m == 'b':
                    h.e.bayesian_information_criterion()
                else:
                    h.e.akaine_information_criterion()
                if nap:
                    sim.sleep(int(10 ** nap.uniform(1, 4.5)))
                else:
                    sim.tick()
        return f

    commit(case['ops'][0])
    obs.clear()
    sched = engine.mksched(case['sched'])
    start = sim.steps
    cl = sim.run_clients([writer] + [reader(k) for k in range(len(case['readers']))], sched)
    case['sched'] = {'kind': 'replay', 'first': sched.first_idx, 'switches': sched.log}
    stats['switches'] += len(sched.log)
    for c in cl:
        if c.exc is not None:
            raise c.exc

    low = {}
    seen, overlap = set(), 0
    # versions are published at one instant: reads that do not overlap are
    # ordered in real time, whoever made them
    done = []
    for who, what, value, t0, t1, inside in sorted(obs, key=lambda o: o[4]):
        table = vers if what == 'get_params' else vals
        lo = 0
        for k, (a, b) in enumerate(spans):
            if b <= t0 and k <= len(spans) - 1:
                lo = k
        hi = max(k for k, (a, b) in enumerate(spans) if a <= t1)
        if inside:
            # the writer reading from inside its own fit
            lo = max(lo, hi - 1)
        name = 'a read from inside a model evaluation' if inside else 'reader %d' % who
        win = [k for k in range(lo, hi + 1) if table[k] == value]
        if not win:
            other = [k for k in range(len(table)) if table[k] == value]
            check(False, 'torn-read' if not other else 'stale-read',
                  '%s: %s returned %s at time %d, between commit %d and %d: %s', name, what, show(value), t1, lo, hi,
                  'version %s, which is not current' % other if other else 'not a committed version (%s)' % why(value, table))
        # order: not older than what a read that ended before this one started saw
        floor = max([v for t, v in done if t < t0] or [0])
        win2 = [k for k in win if k >= floor]
        check(win2, 'order', '%s: %s returned version %s after version %d had been observed', name, what, win, floor)
        v = win2[0]
        done.append((t1, v))
        seen.add(v)
        overlap += lo != hi
    stats['reads'] += len(obs)
    stats['overlapping_reads'] += overlap
    return {'nontrivial': overlap > 0 and len(seen) > 1,
            'key': repr((case['world']['tmpl'], case['world']['like'], len(case['ops']), hash(tuple(sched.log))))}


def show(value):
    return [np.frombuffer(x[1][1])[:4].round(6).tolist() for x in value][:4]


def why(value, table):
    """which parts belong to which version"""
    return 'parts from versions %s' % [[k for k in range(len(table)) if k < len(table) and i < len(table[k]) and table[k][i] == v]
                                       for i, v in enumerate(value)]
