"""C01: a failed operation leaves the estimator as it was."""
import random

from common import KINDS, check, gen_fault, gen_fit, muted, snap, snapdiff
from props.hist import Hist, describe, gen_addbad, gen_bad, gen_world

QUICK, THOROUGH = 700, 20000
RULE = ('random well posed model, likelihood, fixed mask, constraints; history of 3-9 operations (newton and broyden '
        'fits, invalid calls, add_param failures, resets), faults at seeded positions inside them.  Non-trivial: at '
        'least one operation failed after a fit had been committed, or a fault fired inside an operation')
REAL = ['maxlike (estimators, func, tensor)', 'numpy', 'scipy']
STUB = ['one model component, constraint, regularization or likelihood forwards to the real one and can raise or return NaN',
        'sys.stdout (counts writes, can break)']
ASSUME = ['faults strike where something can fail: calls, function entry, arithmetic; not between two plain assignments']
LISTS = ('ops',)
MINLEN = {'ops': 1}


def gen(rng, tier, i):
    case = {'world': gen_world(rng, tier), 'kind': rng.choice(KINDS)}
    ops = []
    n = rng.randint(3, 7 if tier == 'quick' else 12)
    if rng.random() < .85:
        ops.append(gen_fit(rng, first=True))
    while len(ops) < n:
        x = rng.random()
        if x < .6:
            o = gen_fit(rng, first=not ops)
            o['fault'] = gen_fault(rng) if rng.random() < .8 else None
            if o['fault'] and o['fault']['kind'] == 'stdout':
                o['verbose'] = max(1, o['verbose'])
            ops.append(o)
        elif x < .78:
            o = gen_bad(rng)
            ops.append(o)
        elif x < .93:
            ops.append(gen_addbad(rng))
        else:
            ops.append({'op': 'reset', 'jit': rng.randrange(1000)})
    case['ops'] = ops
    return case


def run(case, sim, stats):
    h = Hist(case, sim, stats)
    failed_after_commit = fired_any = 0
    for op in case['ops']:
        if op['op'] == 'reset':
            with muted():
                h.reset(op['jit'])
            continue
        if op['op'] == 'fit' and op['data'] is None and not isinstance(h.cur, int):
            op = dict(op, data=0)
        before = snap(h.e)
        res, fired = h.run(op)
        fired_any += fired
        what = describe(op, res)
        if res[0] == 'exc':
            after = snap(h.e)
            d = snapdiff(before, after)
            check(not d, 'torn-' + (d[0] if d else ''), '%s changed %s of the estimator', what, ', '.join(d))
            stats['failed:' + op['op']] += 1
            failed_after_commit += h.fits > 0
            allowed = h.data_after(op, True)
        else:
            stats['ok:' + op['op']] += 1
            if op['op'] == 'addbad':
                # the call was valid and no fault struck: undo it
                check(op['how'] == 'fault', 'bad-add-accepted', 'add_param accepted %s', op['how'])
                with muted():
                    h.reset()
                continue
            if op['op'] == 'badfit' and op['how'] in ('unreadable', 'method', 'method_type', 'steps0'):
                check(False, 'bad-fit-accepted', '%s returned %r', what, res[1])
            h.fits += 1
            allowed = h.data_after(op, False)
        h.identify(allowed, what)
    return {'nontrivial': bool(failed_after_commit or fired_any),
            'key': '|'.join('%s%s' % (o['op'][0], (o.get('fault') or {}).get('site', (o.get('fault') or {}).get('kind', '')))
                            for o in case['ops'])}
