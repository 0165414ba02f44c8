"""Compare the verifier with concrete search on random small mutants of the code of a property (a soundness test of the
verifier: a mutant that a concrete data-set refutes must not be accepted).

python3-vt tools/mutate.py PID N SEED   -> one line per mutant; 'UNSOUND' if the search refutes it and the verifier accepts"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
import contracts

EXTRA = {'F01': ['pyuff/pyuff.py'], 'F02': ['pyuff/pyuff.py'], 'F03': ['pyuff/pyuff.py'], 'F07': ['pyuff/pyuff.py'],
         'F09': ['pyuff/tools.py'], 'F08': ['pyuff/datasets/dataset_58.py'],
         'F04': ['pyuff/pyuff.py', 'pyuff/datasets/dataset_58.py', 'pyuff/datasets/dataset_2420.py']}


ONLY = {'F01': ('refresh', '__init__'), 'F02': ('write_sets', '_write'), 'F03': ('read_sets', '_read'), 'F05': ('_write', '_opt'),
        'F07': ('write_sets', '_write'), 'F06': ('prepare', 'check'), 'F08': ('fix',), 'F09': ('convert',),
        'F04': ('_extract', 'read_sets', '_read')}


def files(pid):
    if pid[0] == 'R':
        m = contracts.load(pid)
        return sorted({'/'.join(m.FUNCS[k].split('.')[:-1]) + '.py' for k in m.FUNCS} | {'pyuff/tools.py'})
    if pid in EXTRA and (pid != 'F07' or os.environ.get('MUTFILES') != 'datasets'):
        return EXTRA[pid]
    ds = sorted(x for x in os.listdir('/repo/pyuff/datasets') if x.startswith('dataset_'))
    return ['pyuff/datasets/' + x for x in ds]


def funcs(tree, pid):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name.startswith(('_write', '_extract', '_parse', '_opt', 'prepare', 'refresh',
                                                                 'read', 'write', 'fix', '_read', '__init__', 'check', 'convert')):
            if pid[0] == 'R' and n.name.startswith(('prepare', 'read', 'fix')):
                continue
            if pid in ONLY and not n.name.startswith(ONLY[pid]):
                continue
            yield n


def spots(tree, pid):
    out = []
    for f in funcs(tree, pid):
        for n in ast.walk(f):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, str)) and n.value != '':
                if isinstance(n.value, str) and ('\n    ' in n.value or len(n.value) > 300):
                    continue
                out.append((f.name, n, 'const'))
            elif isinstance(n, ast.Compare):
                out.append((f.name, n, 'cmp'))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
                out.append((f.name, n, 'op'))
            elif isinstance(n, ast.BoolOp):
                out.append((f.name, n, 'bool'))
            elif isinstance(n, (ast.If, ast.While)):
                out.append((f.name, n, 'neg'))
            for field in ('body', 'orelse'):
                b = getattr(n, field, None)
                if isinstance(b, list) and not isinstance(n, ast.Module):
                    for i, s in enumerate(b):
                        if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)) and not (
                                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            out.append((f.name, (n, field, i), 'del'))
    return out


def mutate(src, pid, rng):
    tree = ast.parse(src)
    sp = spots(tree, pid)
    name, n, k = rng.choice(sp)
    if k == 'const':
        v = n.value
        if isinstance(v, bool):
            n.value = not v
        elif isinstance(v, (int, float)):
            n.value = rng.choice([v + 1, v - 1, 0 if v else 1, v * 2 if v else 2])
        else:
            i = rng.randrange(len(v))
            c = v[i]
            if c.isdigit():
                v2 = v[:i] + str((int(c) + rng.choice([1, 9, 2])) % 10) + v[i + 1:]
            else:
                v2 = rng.choice([v[:i] + v[i + 1:], v[:i] + c + v[i:], v[:i] + rng.choice('xe id%s,-') + v[i + 1:]])
            n.value = v2
        d = 'const %r' % (v,) + ' -> %r' % (n.value,)
        line = n.lineno
    elif k == 'cmp':
        o = n.ops[0]
        n.ops[0] = rng.choice([x for x in (ast.Lt(), ast.LtE(), ast.Gt(), ast.GtE(), ast.Eq(), ast.NotEq())
                               if type(x) is not type(o)]) if not isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) else \
            {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(o)]()
        d, line = 'cmp', n.lineno
    elif k == 'op':
        n.op = rng.choice([x for x in (ast.Add(), ast.Sub(), ast.Mult(), ast.FloorDiv()) if type(x) is not type(n.op)])
        d, line = 'op ' + type(n.op).__name__, n.lineno
    elif k == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        d, line = 'bool', n.lineno
    elif k == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
        d, line = 'negated test', n.lineno
    else:
        p, field, i = n
        b = getattr(p, field)
        line = b[i].lineno
        d = 'deleted ' + ast.unparse(b[i])[:60]
        b[i] = ast.copy_location(ast.Pass(), b[i])
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), '%s:%d %s' % (name, line, d)


def one(a):
    pid, seed = a
    rng = random.Random(seed)
    w = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns('.git', 'data', 'docs', 'tests'))
        f = rng.choice(files(pid) + [x for x in files(pid) if 'tools' not in x] * 4)
        src = open(w + '/r/' + f).read()
        new, d = mutate(src, pid, rng)
        open(w + '/r/' + f, 'w').write(new)
        env = dict(os.environ, VERIF_REPO=w + '/r', PYTHONPATH=HERE + ':' + w + '/r', TMPDIR=w, PYTHONDONTWRITEBYTECODE='1',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

        def run(cmd, out, t):
            try:
                p = subprocess.run(cmd, env=env, cwd=w, capture_output=True, text=True, timeout=t)
                return json.load(open(out)), p
            except subprocess.TimeoutExpired:
                return 'timeout', None
            except (OSError, ValueError):
                return None, p
        s, p = run([sys.executable, '-m', 'engine.search', pid, w + '/s.json', '--seconds', '4', '--seed', '7'], w + '/s.json', 40)
        v, q = run([sys.executable, '-m', 'engine.verify', pid, w + '/v.json', '--jobs', '1', '--seconds', '250'], w + '/v.json', 300)
        con = 'hang' if s == 'timeout' else 'crash' if s is None else 'bad' if s['fail'] else 'harness' if s['harness'] else 'ok'
        ver = 'timeout' if v == 'timeout' else 'crash' if v is None else 'ok' if v['ok'] else 'bad'
        why = v['failed'][0]['name'] + ' | ' + str(v['failed'][0]['why'])[-200:].replace('\n', ' ') if ver == 'bad' else \
            q.stderr[-300:] if ver == 'crash' else ''
        tag = 'UNSOUND' if con != 'ok' and ver == 'ok' else 'INTERNAL' if ver == 'crash' or 'Traceback' in why else \
            'agree' if (con == 'ok') == (ver == 'ok') else 'verifier-only'
        msg = s['fail']['message'][:200].replace('\n', ' ') if con == 'bad' else ''
        return '%s %s seed=%d %s:%s | concrete %s %s | verifier %s %s' % (tag, pid, seed, os.path.basename(f), d, con, msg, ver, why)
    except Exception as e:
        return 'TOOL %s seed=%d %r' % (pid, seed, e)
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        for l in ex.map(one, [(pid, seed * 10000 + i) for i in range(n)]):
            print(l, flush=True)
