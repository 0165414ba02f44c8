"""Levels and techniques of the checks (used by mkmanifest.py)."""
from engine.handled import PIDS
T = ('contract-based deductive verification: the real functions are executed symbolically from /repo\'s source against '
     'contracts (loops by checked invariants), every obligation discharged by z3')
LEVELS = {i: ['proof', T] for i in PIDS}
NOTES = {i: 'Every obligation is regenerated from the current source and discharged for all values and lengths of the precondition; '
            'floats as reals, texts abstract (see assumptions in the evidence).' +
            ' The same contracts also run on seeded instances against CPython.' for i in PIDS}
