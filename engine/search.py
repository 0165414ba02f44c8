"""Child process: contract-directed search on the real code.  python3-vt -m engine.search PID OUT.json ..."""
import argparse
import json
import os
import random
import sys
import tempfile
import time
import traceback
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('out')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=5)
    ap.add_argument('--cases', type=int, default=10 ** 9)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--step', type=int, default=1)
    ap.add_argument('--big', action='store_true')
    ap.add_argument('--samples', type=int, default=2)
    ap.add_argument('--case')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    from engine import concrete, gen
    from engine.cmp import to_json, from_json
    os.environ['TZ'] = os.environ.get('TZ', 'UTC')
    res = {'evaluations': 0, 'held': 0, 'skipped': 0, 'distinct': 0, 'samples': [], 'fail': None, 'harness': None}
    prog = a.out + '.progress'
    seen = set()
    with tempfile.TemporaryDirectory() as d:
        env = concrete.Env(d)
        if a.case:
            spec = json.load(open(a.case))
            cases = [(spec['i'] if 'i' in spec else -1, from_json(spec['case']))]
        else:
            cases = None
        mined = gen.mine(gen.repo_sources())
        t0 = time.time()
        i = a.first
        while True:
            if cases is not None:
                if not cases:
                    break
                k, c = cases.pop()
            else:
                if res['evaluations'] >= a.cases or time.time() - t0 > a.seconds:
                    break
                k = i
                i += a.step
                S = gen.ConcreteS(random.Random('%s-%d-%d' % (a.pid, a.seed, k)), mined, big=a.big and k % 7 == 0)
                try:
                    c = concrete.make_case(a.pid, S)
                except concrete.Skip:
                    res['evaluations'] += 1
                    res['skipped'] += 1
                    continue
            with open(prog, 'w') as f:
                f.write('%d %s' % (k, time.time()))
            try:
                j = to_json(c)
            except Exception:
                j = None
            if cases is None and len(seen) < 200000:
                seen.add(hash(json.dumps(j, default=repr)))
            res['evaluations'] += 1
            try:
                concrete.run_case(a.pid, c, env)
                res['held'] += 1
                if len(res['samples']) < a.samples:
                    s = json.dumps(j, default=repr)
                    if len(s) < 1500:
                        res['samples'].append(j)
            except concrete.Skip:
                res['skipped'] += 1
            except concrete.Fail as e:
                res['fail'] = {'i': k, 'message': str(e), 'case': j, 'first': a.first, 'step': a.step}
                break
            except Exception:
                res['harness'] = {'i': k, 'trace': traceback.format_exc(), 'case': j}
                break
        res['distinct'] = len(seen)
        res['wall'] = time.time() - t0
    with open(a.out, 'w') as f:
        json.dump(res, f, default=repr)


if __name__ == '__main__':
    main()
