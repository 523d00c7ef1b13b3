"""C15: an error in user code always reaches the caller."""
import copy
from collections import Counter

import numpy as np

import engine
import world
from common import COMP_EXC, EXC, Ctl, FaultRun, Out, Violation, canon, check, do_fit, est, flatnest, gen_fit, muted, name, probe, resolve, spied, stdout_to, user_class, wrapper
from props import c13
from props.hist import Hist, close, gen_world
from world import World

QUICK, THOROUGH = 1500, 40000
RULE = ('random models whose leaves, whole model, constraint, regularization or likelihood are user code, or random builder '
        'programs (Sum, Product, Compose, FuncWrap, Collapse, arithmetic) over user leaves; fits of both methods, AIC, BIC, the '
        'objective, call, grad, hess and eval are run with an exception raised at a seeded invocation, once or from then on; '
        'in a third of the estimator runs other threads use the same model meanwhile.  The exception must be the one the caller '
        'sees (or its cause), no result may be returned, the other threads see none of it, and the operation without it gives '
        'the same as before.  Non-trivial: an exception was raised')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['the user code forwards to real functions of the library', 'the scheduler decides which thread runs, in runs with threads']
ASSUME = ['StopIteration is not raised: in an iterator it has a meaning of its own']
MEASURE = 'distinct (exception, invocation)'
LISTS = ('ops', 'prog', 'sched.switches')
MINLEN = {'ops': 1}
EXCS = [x for x in COMP_EXC if x != 'StopIteration']
KINDS = ['leaf0', 'leaf1', 'leaf2', 'all', 'all', 'top', 'top', 'con', 'reg', 'like']


def gen(rng, tier, i):
    def pos():
        return ['late', rng.randint(0, 3)] if rng.random() < .25 else ['early', rng.randint(1, 4)] if rng.random() < .2 else [
            'frac', round(rng.random(), 4)]
    def on():
        return rng.randrange(12) if rng.random() < .6 else None
    big = 1 if tier == 'quick' else 2
    if rng.random() < .5:
        prog = [{'f': rng.choice(['leaf'] * 3 + c13.OPS[4:-1]), 'p': rng.randrange(10 ** 6)} for _ in range(rng.randint(8, 22 * big))]
        prog = [o for o in prog if o['f'] != 'badadd']
        return {'mode': 'func', 'seed2': rng.randrange(10 ** 6), 'prog': prog,
                'ops': [{'op': rng.choice(['call', 'grad', 'gradi', 'hess', 'hessij', 'eval', 'eval']), 'pick': rng.randint(0, 6), 'exc': rng.sample(EXCS, 3),
                         'pos': pos(), 'on': on(), 'span': rng.choice([1, 1, 10 ** 6]), 'k': rng.randrange(100)} for _ in range(rng.randint(6, 14 * big))]}
    kind = rng.choice(KINDS)
    wd = gen_world(rng, tier)
    for _ in range(40):
        if kind not in ('con', 'reg') or wd[kind]:
            break
        wd = gen_world(rng, tier)
    case = {'mode': 'est', 'world': wd, 'kind': kind}
    ops = []
    for _ in range(rng.randint(2, 5 * big)):
        k = rng.choice(['fit'] * 5 + ['bic', 'aic', 'g', 'model', 'step'])
        o = gen_fit(rng, first=True) if k == 'fit' else {'op': k}
        o['verbose'] = 0
        o.update(exc=rng.sample(EXCS, 4), pos=pos(), on=on(), span=rng.choice([1, 1, 1, 10 ** 6]))
        o['steps'] = min(o.get('steps', 20), 20)
        ops.append(o)
    case['ops'] = ops
    if rng.random() < .3:
        case['threads'] = True
        case['others'] = [{'n': rng.randint(3, 12), 'what': rng.choice(['model', 'eval', 'bic', 'mix'])} for _ in range(rng.choice([1, 1, 2]))]
        case['sched'] = engine.gen_sched(rng, gaps=(2, 5, 15, 60), spans=(8000,))
    return case


def shrink(case):
    for k, o in enumerate(case['ops']):
        for x in o['exc'] if len(o['exc']) > 1 else []:
            c = copy.deepcopy(case)
            c['ops'][k]['exc'] = [x]
            yield c


def chained(ex, want):
    seen = set()
    todo = [ex]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        if x is want:
            return True
        seen.add(id(x))
        todo += [x.__cause__, x.__context__]
    return False


def attempt(ctl, fn, op, stats, sim, what):
    """fn() with the exception; -> whether it was raised"""
    if op['pos'][0] != 'at':
        ctl.disarm()
        ctl.calls.clear()
        c = sim._who()
        c.rehearsal = True
        try:
            fn(True)
        except engine.SimBudget:
            raise
        except Exception:
            pass
        finally:
            c.rehearsal = False
        n = Counter(ctl.calls)
        if op.get('on') is not None:
            # one of the kinds of invocations that happened
            op['on'] = sorted(n)[op['on'] % len(n)] if n else None
        n = n[op['on']] if op.get('on') else sum(n.values())
        if not n:
            return False
        op['pos'] = ['at', resolve(op['pos'], n)]
    hits = 0
    for exc in list(op['exc']):
        hits += one(ctl, fn, op, exc, stats, sim, what)
    return hits


def one(ctl, fn, op, exc, stats, sim, what):
    on = op.get('on')
    ctl.arm('raise' if op['span'] == 1 else 'always', op['pos'][1], exc, on=on)
    stats['fault_armed:comp'] += 1
    got = None
    try:
        r = fn(False)
    except (engine.SimBudget, Violation):
        raise
    except BaseException as ex:
        got = ex
    finally:
        fired, last, first = ctl.fired, ctl.last, ctl.first
        ctl.disarm()
    if not fired:
        if got is not None and not isinstance(got, Exception):
            raise got
        return False
    stats['fault_fired:comp'] += 1
    stats['exc:' + exc] += 1
    if on:
        stats['on:' + on] += 1
    sim.cover.add(('comp', exc, str(on), op['pos'][1]))
    where = 'invocation %d%s' % (op['pos'][1], ' of ' + on if on else '')
    check(got is not None, 'swallowed', '%s returned %s although a component raised %s at its %s', what,
          brief(r) if got is None else '', exc, where)
    check(chained(got, first), 'replaced', '%s raised %s, which does not lead back to the %s of the component', what, name(got), exc)
    return True


def brief(r):
    return str(r)[:100].replace('\n', ' ')


# --------------------------------------------------------------------------

class Lib:
    """maxlike.func with user leaves"""

    def __init__(self, F, ctl):
        self.F, self.ctl = F, ctl

    def __getattr__(self, k):
        x = getattr(self.F, k)
        if k in ('Sum', 'Product', 'FuncWrap', 'Collapse', 'Compose', 'Affine') or not isinstance(x, type):
            return x
        return lambda *a, **kw: probe(x(*a, **kw), self.ctl)


def flat(t):
    if hasattr(t, 'toarray'):
        return canon(t.toarray())
    if isinstance(t, (list, tuple)):
        return [flat(x) for x in t]
    return canon(t)


def run_func(case, sim, stats):
    ctl = Ctl()
    F = Lib(world.M.func, ctl)
    r0 = np.random.RandomState(case['seed2'])
    pool = [c13.leaf(r0, F) for _ in range(3)]
    for o in case['prog']:
        pl = c13.plan(o, pool, np.random.RandomState(o['p']), F)
        if pl is None:
            continue
        fn = pl[1](pl[0]())
        if fn not in pool:
            pool.append(fn)
    pool = [q for q in pool if not q.empty]
    n = 0
    for op in case['ops']:
        fn = pool[-1 - op['pick'] % len(pool)]
        ps = c13.params(fn.sig, c13.SEEDS[op['k'] % 2])
        i = op['k'] % max(1, len(ps))
        j = op['k'] // 7 % (i + 1)
        k = op['op']
        if not ps and k in ('gradi', 'hessij'):
            k = 'call'
        f = fn.f
        go = {'call': lambda: f(ps), 'grad': lambda: f.grad(ps), 'gradi': lambda: f.grad(ps, i), 'hess': lambda: f.hess(ps),
              'hessij': lambda: f.hess(ps, i, j), 'eval': lambda: f.eval(ps)}[k]
        try:
            before = flat(go())
        except Exception:
            stats['unusable'] += 1      # for C13 to judge
            continue
        hit = attempt(ctl, lambda reh: go(), op, stats, sim, '%s of a %s of %d terms' % (k, fn.kind, fn.size))
        stats['op:%s:%s' % (fn.kind, k)] += 1
        n += hit
        if hit:
            check(flat(go()) == before, 'residue', '%s of a %s gives another result after a component raised %s in it', k, fn.kind, op['exc'][0])
    return {'nontrivial': n > 0, 'key': repr([(o['op'], o['pick'], o['exc'], o['pos']) for o in case['ops']])}


# --------------------------------------------------------------------------

def run(case, sim, stats):
    if case['mode'] == 'func':
        return run_func(case, sim, stats)
    w = World(case['world'])
    ctl = Ctl()

    def make():
        if case['kind'] != 'all':
            return spied(w, ctl, case['kind'])
        return w.estimator(wrap=lambda base, nm: probe(base, ctl), hook=lambda k, x: probe(x, ctl) if k in ('con', 'reg') else x)

    def prime(x):
        """data in force, and params where the model is defined"""
        with muted():
            try:
                x.fit(tol=1e-6, max_steps=60, **w.data(0))
            except engine.SimBudget:
                raise
            except Exception:
                x.reset_params()
                w.add_params(x)
                try:
                    x.fit(max_steps=0, **w.data(0))
                except world.M.ConvergenceError:
                    pass
    e = make()
    prime(e)
    box = {'n': 0}

    def act(op, x):
        k = op['op']
        if k == 'fit':
            with stdout_to(Out()):
                return do_fit(x, w, op)
        if k in ('bic', 'aic'):
            return float(x.bayesian_information_criterion() if k == 'bic' else x.akaine_information_criterion())
        ps = x.params
        if k == 'g':
            return x.g(ps)
        if k == 'step':
            return x.newton_step(ps)
        return flat(x.model(ps))

    def ops(c):
        for op in case['ops']:
            def fn(reh):
                x = e
                if reh:
                    # the same operation on another estimator in the same state
                    x = make()
                    with muted():
                        x.reset_params()
                        w.add_params(x, est(e))
                        if op['op'] not in ('fit', 'model'):
                            try:
                                x.fit(max_steps=0, **w.data(0))
                            except world.M.ConvergenceError:
                                pass
                        # only the operation itself is counted
                        ctl.calls.clear()
                return act(op, x)
            hit = attempt(ctl, fn, op, stats, sim, op['op'] + (' (%s)' % op['method'] if op['op'] == 'fit' else ''))
            stats['op:%s:%s' % (case['kind'], op['op'])] += 1
            box['n'] += hit
            if op['op'] == 'fit':
                prime(e)

    if not case.get('others'):
        ops(None)
    else:
        # other threads use the same model, and an estimator of their own
        ps = [np.array(x) for x in w.start]
        y0, e0 = flat(e.model(ps)), flat(e.model.eval(ps))
        twin = make()
        twin.model = e.model
        prime(twin)
        b0 = float(twin.bayesian_information_criterion())

        def other(k):
            def f(c):
                o = case['others'][k]
                for j in range(o['n']):
                    what = o['what'] if o['what'] != 'mix' else ['model', 'eval', 'bic'][j % 3]
                    if what == 'bic':
                        check(float(twin.bayesian_information_criterion()) == b0, 'other', 'BIC of another estimator changed')
                    elif what == 'model':
                        check(flat(e.model(ps)) == y0, 'other', 'the value of the model changed for another thread')
                    else:
                        check(flat(e.model.eval(ps)) == e0, 'other', 'eval of the model changed for another thread')
                    stats['other:' + what] += 1
            return f
        ctl.only = 0
        sched = engine.mksched(case['sched'])
        cl = sim.run_clients([ops] + [other(k) for k in range(len(case['others']))], sched)
        case['sched'] = {'kind': 'replay', 'first': sched.first_idx, 'switches': sched.log}
        stats['switches'] += len(sched.log)
        for c in cl[1:]:
            if c.exc is not None and chained(c.exc, ctl.first):
                raise Violation('misdirected', 'the exception of a component called by one thread was raised in another: %s' % name(c.exc))
        for c in cl:
            if c.exc is not None:
                raise c.exc
    return {'nontrivial': box['n'] > 0,
            'key': repr((case['world']['tmpl'], case['world']['like'], case['kind'], [(o['op'], o.get('method'), o['exc'], o['pos']) for o in case['ops']]))}
