"""Run the checks against the planted changes, on scratch clones of /repo.   python3 tools/runseeds.py [seed-prefix ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(s):
    d = os.path.join(HERE, 'seeded', s)
    pid = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        subprocess.run(['git', '-C', w + '/r', 'apply', d + '/patch.diff'], check=True)
        r = subprocess.run(['python3-vt', 'bin/check.py', pid], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=w + '/r', VERIF_SEED='1'))
        return s, pid, r.returncode, r.stdout.strip().split('\n')
    finally:
        shutil.rmtree(w)


names = sorted(os.listdir(os.path.join(HERE, 'seeded')))
if sys.argv[1:]:
    names = [n for n in names if any(n.startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(2) as ex:
    for s, pid, rc, out in ex.map(one, names):
        print(s, pid, 'exit', rc, '|', (out[0] if len(out) > 1 else '')[:110], '|', out[-1][:100], flush=True)
