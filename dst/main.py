import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'one', 'selftest', 'setup'])
    ap.add_argument('arg', nargs='*')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    a = ap.parse_args()
    try:
        boot.boot()
    except SyntaxError:
        raise
    import runner
    if a.cmd == 'check':
        return runner.check(a.arg[0], a.tier, int(a.seed), a.runs)
    if a.cmd == 'replay':
        return runner.replay(a.arg[0])
    if a.cmd == 'one':
        mod = runner.load(a.arg[0])
        c = runner.gen_case(mod, int(a.seed), a.arg[0], int(a.arg[1]), a.tier)
        import json
        print(json.dumps(c, default=str))
        r = runner.execute(mod, c)
        r['stats'] = dict(r['stats'])
        if r.get('harness'):
            print(r['harness'])
        print({k: r[k] for k in r if k not in ('case', 'cover', 'harness')})
        return 0
    if a.cmd == 'selftest':
        import selftest
        return selftest.main(a.arg)
    if a.cmd == 'setup':
        return 0


if __name__ == '__main__':
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
