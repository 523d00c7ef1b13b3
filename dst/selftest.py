"""Is one seed one exactly repeatable execution?

For every property, some cases are run several times: in other worker layouts,
in processes with another PYTHONHASHSEED, and from their own explicit (replay)
form.  Event stream hash, virtual time, statistics and verdict have to agree.
"""
import copy
import hashlib
import json
import os
import subprocess
import sys

import boot
import runner

PROPS = ['C%02d' % i for i in range(1, 16)]


def digest(r):
    c = {k: v for k, v in r.items() if k not in ('wall', 'case')}
    c['stats'] = sorted(c['stats'].items())
    c['cover'] = sorted(c['cover'])
    return hashlib.sha256(json.dumps([c, r['case']], sort_keys=True, default=repr).encode()).hexdigest()[:16]


def table(prop, seed, n):
    mod = runner.load(prop)
    out, _ = runner.batch(mod, prop, seed, 'quick', n, extra={'trace': True})
    return {i: (digest(out[i]), out[i].get('trace'), out[i]['steps']) for i in sorted(out)}, out


def main(args):
    if args and args[0] == 'dump':
        t, _ = table(args[1], int(args[2]), int(args[3]))
        print(json.dumps(t))
        return 0
    props = args or PROPS
    n, seed, bad = 16, 7, 0
    for p in props:
        mod = runner.load(p)
        t, out = table(p, seed, n)
        diff = []
        for hs, nw in (('0', '1'), ('12345', '3')):
            env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_WORKERS=nw)
            o = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'main.py'), 'selftest', 'dump', p, str(seed), str(n)],
                               env=env, capture_output=True, text=True)
            u = json.loads(o.stdout.strip().splitlines()[-1])
            diff += [i for i in t if list(t[i]) != u[str(i)]]
        # the executed case carries explicit fault positions and switches:
        # running it again has to follow the same path
        rep = []
        for i in t:
            c = copy.deepcopy(out[i]['case'])
            r = runner.forked(mod, c)
            if (r.get('trace'), r['steps'], (r['v'] or {}).get('cls')) != (t[i][1], t[i][2], (out[i]['v'] or {}).get('cls')):
                rep.append((i, r['steps'], t[i][2], r.get('harness', '')[-200:]))
        print('%s: %d runs, %d differ in another process, %d differ when replayed %s' % (p, n, len(set(diff)), len(rep), rep[:3]), flush=True)
        bad += bool(diff or rep)
    return 1 if bad else 0
