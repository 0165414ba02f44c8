#!/usr/bin/env python3
"""Check one property.   python3-vt bin/check.py PID [--tier quick|thorough]   |   bin/check.py --replay FILE

1. engine.verify generates the obligations of the property's contracts from /repo's current source and discharges them.
2. engine.search runs the contracts on concrete data-sets against the real code: always briefly (a cross-check of the
   contracts and of the generator against CPython), and at length when an obligation is not discharged, to find the
   input that shows the failure.
"""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE]
HANG = 40.0
ENV = dict(os.environ, PYTHONPATH=HERE + ':' + REPO, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
    os.setsid()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Search:
    """one child process"""

    def __init__(self, pid, dir, tag, seconds, **kw):
        self.pid = pid
        self.out = os.path.join(dir, tag + '.json')
        self.seconds = seconds
        self.t0 = time.time()
        cmd = [sys.executable, '-m', 'engine.search', pid, self.out, '--seconds', str(seconds)]
        for k, v in kw.items():
            if v is True:
                cmd.append('--' + k)
            elif v is not None and v is not False:
                cmd += ['--' + k, str(v)]
        self.kw = kw
        self.scratch = tempfile.mkdtemp(dir=dir)
        self.p = subprocess.Popen(cmd, env=dict(ENV, TMPDIR=self.scratch), cwd=self.scratch, stdout=subprocess.DEVNULL,
                                  stderr=open(self.out + '.err', 'w'), preexec_fn=limit)
        self.result = None

    def progress(self):
        try:
            with open(self.out + '.progress') as f:
                a, b = f.read().split()
            return int(a), float(b)
        except (OSError, ValueError):
            return None

    def poll(self):
        if self.result is not None:
            return True
        if self.p.poll() is not None:
            try:
                with open(self.out) as f:
                    self.result = json.load(f)
            except (OSError, ValueError):
                pr = self.progress()
                err = open(self.out + '.err').read()[-2000:]
                if pr is None:
                    self.result = {'evaluations': 0, 'held': 0, 'skipped': 0, 'distinct': 0, 'samples': [], 'fail': None,
                                   'harness': {'i': -1, 'trace': 'child process ended (%s): %s' % (self.p.returncode, err)}}
                else:
                    self.result = {'evaluations': 1, 'held': 0, 'skipped': 0, 'distinct': 1, 'samples': [], 'harness': None,
                                   'fail': {'i': pr[0], 'case': None, 'message': 'the process ended abnormally (%s) on this '
                                            'instance: %s' % (self.p.returncode, err[-300:])}}
            return True
        pr = self.progress()
        if pr and time.time() - pr[1] > HANG:
            kill(self.p)
            self.result = {'evaluations': 1, 'held': 0, 'skipped': 0, 'distinct': 1, 'samples': [], 'harness': None,
                           'fail': {'i': pr[0], 'case': None,
                                    'message': 'no result within %d s on this instance (does not terminate)' % HANG}}
            return True
        if time.time() - self.t0 > self.seconds + 3 * HANG:
            kill(self.p)
            self.result = {'evaluations': 0, 'held': 0, 'skipped': 0, 'distinct': 0, 'samples': [], 'fail': None,
                           'harness': {'i': -1, 'trace': 'no result in time'}}
            return True
        return False


def merge(rs):
    out = {'evaluations': 0, 'held': 0, 'skipped': 0, 'distinct': 0, 'samples': [], 'fail': None, 'harness': None}
    for r in rs:
        for k in ('evaluations', 'held', 'skipped', 'distinct'):
            out[k] += r[k]
        out['samples'] += r['samples']
        out['fail'] = out['fail'] or r['fail']
        out['harness'] = out['harness'] or r['harness']
    out['samples'] = out['samples'][:2]
    return out


def wait(ss, stop=True):
    """until all are done, or one has a failing input"""
    while True:
        done = [s.poll() for s in ss]
        if stop and any(s.result and s.result['fail'] for s in ss):
            for s in ss:
                if s.result is None:
                    kill(s.p)
            break
        if all(done):
            break
        time.sleep(0.05)
    return merge([s.result for s in ss if s.result])


def confirm(pid, dir, fail, seed, big):
    """run the failing instance again, alone"""
    kw = {'seed': seed, 'cases': 1, 'big': big}
    if fail['i'] >= 0:
        s = Search(pid, dir, 'confirm%d' % time.time_ns(), 10, first=fail['i'], **kw)
    elif fail.get('case') is not None:
        f = os.path.join(dir, 'c%d.json' % time.time_ns())
        json.dump(fail, open(f, 'w'))
        s = Search(pid, dir, 'confirm%d' % time.time_ns(), 10, case=f, **kw)
    else:
        return None
    x = wait([s])['fail']
    if x is None and fail.get('history'):
        return after(pid, dir, fail['i'], fail['history'], seed, big)
    n = (fail['i'] - fail['first']) // fail['step'] if fail['i'] >= 0 and 'step' in fail else 0
    # alone it does not fail: after the instances before it, in the same process
    for k in sorted({min(n, k) for k in (2, 8, 50, 400, n)}):
        if x is not None or not k:
            break
        x = after(pid, dir, fail['i'], {'first': fail['i'] - k * fail['step'], 'step': fail['step'], 'cases': k + 1}, seed, big)
    return x


def after(pid, dir, i, history, seed, big):
    s = Search(pid, dir, 'confirm%d' % time.time_ns(), 100, seed=seed, big=big, **history)
    x = wait([s])['fail']
    return dict(x, history=history, message=x['message'] + ' [after the instances before it, in one process]') if x else None


def replay_file(pid, data):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    t = json.dumps(data, indent=1, default=repr)
    f = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(t.encode()).hexdigest()[:10]))
    with open(f, 'w') as h:
        h.write(t + '\n')
    return f


def known(pid):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):].strip())
    return out


def head(pid):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] == pid:
            return p
    raise SystemExit('no such property: %s' % pid)


def deduce(pid, dir, tier):
    """start the verifier"""
    out = os.path.join(dir, 'verify.json')
    from engine.handled import PIDS
    if pid not in PIDS:
        return None, out
    p = subprocess.Popen([sys.executable, '-m', 'engine.verify', pid, out, '--tier', tier], env=ENV, cwd=dir,
                         stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT, preexec_fn=os.setsid)
    return p, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    with tempfile.TemporaryDirectory() as dir:
        if a.replay:
            return replay(a.replay, dir)
        return check(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), dir)


def replay(f, dir):
    r = json.load(open(f))
    pid = r['property']
    if 'input' not in r:
        print('%s: no failing input; %s' % (pid, r.get('obligation')))
        print(r.get('verifier', ''))
        return 1
    inp = r['input']
    x = confirm(pid, dir, {'i': inp['i'], 'case': inp.get('case'), 'history': inp.get('history')}, inp['seed'], inp['big'])
    print('%s: %s' % (pid, x['message'] if x else 'holds on this input'))
    return 1 if x else 0


def check(pid, tier, seed, dir):
    t0 = time.time()
    prop = head(pid)
    thorough = tier == 'thorough'
    proc, vout = deduce(pid, dir, tier)
    short = 120 if thorough else 5
    ss = [Search(pid, dir, 's%d' % i, short, seed=seed, first=i, step=3, big=thorough) for i in range(3)]
    cross = wait(ss)
    ded = None
    vlimit = 3000 if thorough else 420
    if proc is not None:
        try:
            proc.wait(timeout=max(1, vlimit - (time.time() - t0)) if not cross['fail'] else 60)
        except subprocess.TimeoutExpired:
            kill(proc)
        try:
            ded = json.load(open(vout))
        except (OSError, ValueError):
            log = open(vout + '.log').read()[-3000:]
            ded = {'ok': False, 'obligations': [], 'failed': [{'name': 'verification-condition generation', 'why': log or
                                                               'no result in time'}], 'candidates': []}
    found = None
    big = thorough
    bad_harness = cross['harness']
    if cross['fail']:
        x = confirm(pid, dir, cross['fail'], seed, big)
        if x:
            found = dict(x, big=big)
    deep = None
    if not found and (bad_harness or (ded and not ded['ok'])):
        cands = (ded or {}).get('candidates', [])
        for c in cands[:40]:
            f = os.path.join(dir, 'cand.json')
            json.dump({'i': -1, 'case': c}, open(f, 'w'))
            r = wait([Search(pid, dir, 'cand%d' % time.time_ns(), 10, case=f)])
            if r['fail']:
                found = dict(r['fail'], big=False)
                break
        if not found:
            big = True
            ss = [Search(pid, dir, 'd%d' % i, 600 if thorough else 75, seed=seed + 1000, first=i, step=8, big=True,
                         samples=0) for i in range(8)]
            deep = wait(ss)
            if deep['fail']:
                x = confirm(pid, dir, deep['fail'], seed + 1000, True)
                if x:
                    found = dict(x, big=True)
                    seed_found = seed + 1000
    n_viol = 0
    line = None
    if found:
        n_viol = 1
        s = seed + 1000 if deep and deep['fail'] else seed
        f = replay_file(pid, {'property': pid, 'title': prop['title'], 'what': found['message'],
                              'input': {'i': found['i'], 'case': found.get('case'), 'seed': s, 'big': found['big'],
                                        **({'history': found['history']} if found.get('history') else {})},
                              'failed_obligations': (ded or {}).get('failed', [])[:20],
                              'replay_cmd': 'python3-vt bin/check.py --replay <this file>'})
        print('%s: %s' % (pid, found['message']))
        line = 'VIOLATION property=%s replay=%s' % (pid, f)
    elif (ded and not ded['ok']) or bad_harness:
        n_viol = 1
        fl = (ded or {}).get('failed', [])
        f = replay_file(pid, {'property': pid, 'title': prop['title'],
                              'obligation': [x['name'] for x in fl] or ['the contracts could not be run'],
                              'verifier': fl[:20], 'harness': bad_harness})
        for x in fl[:3]:
            print('%s: obligation not discharged: %s: %s' % (pid, x['name'], str(x.get('why', ''))[:400]))
        if bad_harness:
            print(bad_harness['trace'][-1500:])
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, f)
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    evidence(pid, tier, seed, ded, cross, deep, n_viol, time.time() - t0)
    if line:
        print(line)
        return 1
    n = len(ded['obligations']) if ded else 0
    print('%s holds: %d obligations discharged, cross-check of %d instances, %.1f s' % (pid, n, cross['held'], time.time() - t0))
    return 0


def evidence(pid, tier, seed, ded, cross, deep, n_viol, wall):
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    lev = next((c['level'] for c in man['checks'] if c['property'] == pid), 'other')
    cov = {'evaluations': cross['evaluations'] + (deep['evaluations'] if deep else 0),
           'distinct_nontrivial': cross['distinct'] + (deep['distinct'] if deep else 0) - 0,
           'rule': 'instances of the contract precondition: shapes, optional fields, sequence lengths and boundary/random '
                   'values drawn from the seed; distinct by their JSON form; instances outside the precondition are skipped',
           'held': cross['held'] + (deep['held'] if deep else 0),
           'outside_precondition': cross['skipped'] + (deep['skipped'] if deep else 0),
           'samples': cross['samples'] or ['none']}
    assume = ['CPython and numpy run the code as the generator models it (cross-checked on %d instances this run)' % cross['held']]
    if ded is not None:
        obs = ded['obligations']
        cov['obligations'] = len(obs) + len(ded['failed'])
        cov['discharged'] = len(obs)
        cov['checker_cmd'] = 'python3-vt -m engine.verify %s OUT.json' % pid
        cov['trusted_base'] = ded.get('trusted', [])
        cov.update(ded.get('coverage', {}))
        cov['failed_obligations'] = ded['failed'][:50]
        assume += ded.get('assumptions', [])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': lev, 'coverage': cov, 'assumptions': assume,
          'wall_s': round(wall, 3), 'violations': n_viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')


if __name__ == '__main__':
    sys.exit(main())
