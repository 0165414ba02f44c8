"""Write MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
LEVELS = {}
NOTES = {}
try:
    from tools.levels import LEVELS, NOTES
except ImportError:
    pass
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    checks.append({'property': i, 'quick_cmd': 'python3-vt bin/check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3-vt bin/check.py %s --tier thorough' % i,
                   'technique': 'contracts on the real functions, run on generated instances' if i not in LEVELS else LEVELS[i][1],
                   'level': LEVELS.get(i, ['exploration'])[0],
                   'level_note': NOTES.get(i, 'Bounded: the contract is checked on seeded instances of its precondition.')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import numpy, z3"', 'checks': checks, 'not_applicable': []}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
