"""rvariants.py [NAME...]: whole functions of the data-set modules written differently (tools/variants/whole/PID-name.py holds the new
text of one or more functions; PID may be several joined by +); the verifier has to accept them for those properties, or,
when the name ends in -bug, to refuse them"""
import ast, concurrent.futures as cf, glob, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = {'R01': 15, 'R02': 18, 'R03': 55, 'R04': 58, 'R05': 58, 'R06': 82, 'R07': 151, 'R08': 164, 'R09': 1858, 'R10': 2400, 'R11': 2411,
       'R12': 2412, 'R13': 2414, 'R14': 2420, 'R15': 2429, 'R16': 2467}


def replaced(src, new):
    """src with the functions of new in place of those of the same name (others before the first of them)"""
    t, n = ast.parse(src), ast.parse(new)
    lines = src.split('\n')
    names = {f.name for f in t.body if isinstance(f, ast.FunctionDef)}
    mine = [f for f in n.body if isinstance(f, ast.FunctionDef) and f.name in names]
    put = {f.name: ast.get_source_segment(new, f) for f in mine}
    extra = '\n\n'.join(ast.get_source_segment(new, f) for f in n.body if f not in mine)
    assert put
    for f in sorted((f for f in t.body if isinstance(f, ast.FunctionDef) and f.name in put), key=lambda f: -f.lineno):
        lines[f.lineno - 1:f.end_lineno] = put[f.name].split('\n')
        first = f.lineno - 1
    lines[first:first] = (extra + '\n\n').split('\n')
    return '\n'.join(lines)


def go(a):
    p, f = a
    d = tempfile.mkdtemp(prefix='rv', dir='/tmp')
    try:
        shutil.copytree('/repo/pyuff', d + '/pyuff')
        q = d + '/pyuff/datasets/dataset_%d.py' % NUM.get(p, 58)
        with open(q) as h:
            s = h.read()
        with open(f) as h:
            s = replaced(s, h.read())
        with open(q, 'w') as h:
            h.write(s)
        r = subprocess.run(['timeout', '500', 'python3-vt', '-m', 'engine.verify', p, d + '/o.json', '--jobs', '2', '-v'], cwd=HERE,
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        out = r.stdout.strip().split('\n')
        ok = out[-1].startswith('True')
        want = not f.endswith('-bug.py')
        i = [k for k, x in enumerate(out) if x.startswith('FAILED')][:1]
        return '%s %s %s: %s %s' % ('ok   ' if ok == want else 'FALSE' if want else 'MISSED', p, os.path.basename(f), out[-1][:50],
                                    ' '.join(out[i[0]:i[0] + 2])[:500] if i else r.stderr[-300:])
    finally:
        shutil.rmtree(d)


jobs = []
for f in sorted(glob.glob(HERE + '/tools/variants/whole/*.py')):
    b = os.path.basename(f)
    if sys.argv[1:] and not any(b.startswith(x) for x in sys.argv[1:]):
        continue
    jobs += [(p, f) for p in b.split('-')[0].split('+')]
with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
    for r in ex.map(go, jobs):
        print(r, flush=True)
