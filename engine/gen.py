"""Concrete data-sets from the shapes of the contracts: random with boundary values, or from a solver model."""
import ast
import math
import os
import random
import numpy as np
from contracts.spec import BY_POSITION

REPO = os.environ.get('VERIF_REPO', '/repo')


def mine(paths):
    """integer, real and text literals of source files (special values are likely to be spelled there)."""
    ints, reals, strs = set(), set(), set()
    for p in paths:
        try:
            tree = ast.parse(open(p, encoding='utf-8').read())
        except (OSError, SyntaxError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and \
                    isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(n.body[0].value)
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and n not in docs:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.update((v, v + 1, v - 1, -v))
                elif isinstance(v, float) and math.isfinite(v):
                    reals.update((v, -v, v * 2, v / 2))
                elif isinstance(v, str) and len(v) <= 80:
                    strs.add(v)
    return sorted(ints), sorted(reals), sorted(strs)


def repo_sources():
    out = []
    for r, _, fs in sorted(os.walk(os.path.join(REPO, 'pyuff'))):
        out += [os.path.join(r, f) for f in sorted(fs) if f.endswith('.py')]
    return out


def int_range(w):
    """integers that leave a blank in w columns"""
    d = w - 1
    return -(10 ** (d - 1)) + 1, 10 ** d - 1


class ConcreteS:
    """the shape interface, generating random values"""
    symbolic = False

    def __init__(self, rng, mined, big=False, force=None):
        self.rng, self.big = rng, big
        self.ints_, self.reals_, self.strs_ = mined
        self.force = force or {}
        self.picks = {}
        self.mode = rng.choice(['plain', 'plain', 'edge', 'mixed', 'small', 'same'])
        self.p_opt = rng.choice([0.0, 0.5, 0.5, 1.0, 1.0, 0.85, 0.15])

    # -- structure
    def dict(self, *items):
        return dict(items)

    def set(self, d, k, v):
        d[k] = v

    def opt(self, d, k, v):
        if self.rng.random() < self.p_opt:
            d[k] = v

    def choose(self, name, options, spread=False):
        v = self.force.get(name, None)
        if v is None or v not in options:
            v = self.rng.choice(list(options))
        self.picks[name] = v
        return v

    def count(self, name, lo=0):
        r = self.rng
        if name in self.force:
            return max(lo, self.force[name])
        k = r.random()
        if k < 0.25:
            n = lo + r.randrange(0, 3)
        elif k < 0.85:
            n = r.randrange(lo, 14)
        elif k < 0.97 or not self.big:
            n = r.randrange(lo, 41)
        else:
            n = r.choice([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025])
        return max(lo, n)

    def unequal(self, names, fixed=()):
        """counts that are not all equal"""
        r = self.rng
        n = fixed[0] if fixed else self.count(names[0])
        ns = [n] * len(names)
        for i in r.sample(range(len(ns)), r.choice([1, 1, 1, 2])):
            ns[i] = max(0, n + r.choice([-1, 1, 1, 2, -n, n]))
        return ns if len(set(ns) | set(fixed)) > 1 else [n + 1] + ns[1:]

    # -- scalars
    def int(self, name, w, but=None, lo=None, hi=None):
        a, b = int_range(w)
        if lo is not None:
            a, b = lo, hi
        r = self.rng
        for _ in range(50):
            k = r.random()
            if self.mode == 'same':
                v = 1
            elif self.mode == 'small' or k < 0.35:
                v = r.randrange(max(a, -3), min(b, 12) + 1)
            elif k < 0.55:
                v = r.choice([a, b, a + 1, b - 1, 0, -1, 1, 10 ** r.randrange(0, 9), -(10 ** r.randrange(0, 8)),
                              10 ** r.randrange(1, 9) - 1])
            elif k < 0.75 and self.ints_:
                v = r.choice(self.ints_)
            else:
                v = r.randrange(a, b + 1)
            if a <= v <= b and v != but:
                return v
        return a if a != but else a + 1

    def real(self, name, w):
        r = self.rng
        k = r.random()
        if self.mode == 'same':
            v = 1.5
        elif k < 0.15:
            v = float(r.choice([0, 1, -1, 2, 10, 100]))
        elif k < 0.3:
            v = r.choice([1e-99, 9.9e99, -1e-99, -9.9e99, 9.999995, 0.9999995, 1.0000005, 123456.5, 1e-10, 1e10, -1e-5,
                          5e-324 if w == 25 else 1e-50, 1.7976931348623157e308 if w == 25 else 1e50,
                          math.pi, -math.e, 1 / 3, 0.1, 1e99, 99999.95, 999999.5])
        elif k < 0.45 and self.reals_:
            v = r.choice(self.reals_)
        elif k < 0.7:
            v = r.uniform(-1000, 1000)
        elif k < 0.85:
            v = round(r.uniform(-100, 100), 2)
        else:
            v = r.uniform(-9.9, 9.9) * 10.0 ** r.randrange(-98, 98)
        if w == BY_POSITION and k > 0.9:
            v = r.choice([1, -1]) * r.choice([1.5, 2.25, 9.999996]) * 10.0 ** r.choice([-300, -100, -99, 99, 100, 299])
        lim = (1e-300, 1e300) if w == BY_POSITION else (1e-99, 9.9e99)
        if w != 25 and v and not lim[0] <= abs(v) <= lim[1]:
            v = 1.25
        return float(v)

    def cplx(self, name, w):
        return complex(self.real(name, w), self.real(name, w))

    def str(self, name, w, lo=0):
        r = self.rng
        for _ in range(60):
            k = r.random()
            if k < 0.12:
                s = ''
            elif k < 0.3:
                s = r.choice(['NONE', 'a', '0', '-1', 'x y', 'Ω é ü', 'a  b', '%s', '%d %i', '1.5e3', "it's", 'D+E', 'n_e-d+',
                              '10-Jan-20', '12:00:01', 'X+', 'b', 'B', '#', '-', '58b', '    -1'.strip(), '{x}', '\\n',
                              'ß', 'İ', '中文', ',;', '"q"'])
            elif k < 0.45:
                al = 'abcXYZ019 .-+_eEdD' if r.random() < 0.6 else 'éüΩ中'
                s = ''.join(r.choice(al) for _ in range(w))
            elif k < 0.6 and self.strs_:
                s = r.choice(self.strs_)
            else:
                s = ''.join(r.choice('abcdefghijABCDEFGH 0123456789-_./') for _ in range(r.randrange(0, w + 1)))
            s = s.strip()[:w].strip()
            if len(s) >= lo and s.isprintable() and len(s.splitlines()) <= 1 and '\n' not in s:
                return s
        return 'name'

    # -- sequences
    def _cont(self, v, cont, dt):
        if cont == 'list':
            return v
        if cont == 'farr':
            return np.array(v, dtype=float)
        return np.array(v, dtype=dt)

    def ints(self, name, n, w, cont):
        r = self.rng
        k = r.random()
        if k < 0.2:
            s = r.randrange(0, 1000)
            v = [s + i for i in range(n)]
        elif k < 0.3:
            x = self.int(name, w)
            v = [x] * n
        elif k < 0.4:
            x = [self.int(name, w), 0, self.int(name, w)]
            v = [r.choice(x) for _ in range(n)]
        else:
            v = [self.int(name, w) for _ in range(n)]
        return self._cont(v, cont, int)

    def fixed_ints(self, name, n, lo, hi, cont):
        return self._cont([self.int(name, 3, lo=lo, hi=hi) for _ in range(n)], cont, int)

    def reals(self, name, n, w, cont):
        r = self.rng
        if r.random() < 0.3:
            a, s = r.choice([(0.0, 0.1), (1.0, 0.25), (-2.0, 1.0), (0.0, 1e-3), (10.0, 0.5), (5.0, 0.0), (3.0, -0.5)])
            v = [a + i * s for i in range(n)]
        else:
            v = [self.real(name, w) for _ in range(n)]
        return self._cont(v, cont, float)

    def cplxs(self, name, n, w, cont):
        return self._cont([self.cplx(name, w) for _ in range(n)], cont, complex)

    def strs(self, name, n, w):
        return [self.str(name, w) for _ in range(n)]

    def rows(self, name, n, m, w, cont):
        v = [[self.real(name, w) for _ in range(m)] for _ in range(n)]
        return v if cont == 'list' else np.array(v, dtype=float).reshape(n, m)

    def mats(self, name, n, a, b, w):
        return [np.array([[self.real(name, w) for _ in range(b)] for _ in range(a)]) for _ in range(n)]

    def seq(self, name, n, fn):
        return [fn(self) for _ in range(n)]

    def ragged(self, name, n, w):
        """n arrays of one value or more"""
        return [np.array([self.real(name, w) for _ in range(self.count(name + '#', lo=1))]) for _ in range(n)]

    def nodes_on_elements(self, d, n):
        """records 14 and 15 for data at nodes on elements: lines of up to six values"""
        r = self.rng
        iexp, nn, nv, data = [], [], [], []
        for _ in range(n):
            e, a, v = r.choice([1, 2]), r.randrange(1, 6), r.choice([1, 2, 3, 5, 6, 6, 7, 8, 12, 13])
            lines = []
            for _ in range(a if e == 1 else 1):
                k = v
                while k > 0:
                    lines.append(np.array([self.real('v', 13) for _ in range(min(6, k))]))
                    k -= 6
            iexp.append(e), nn.append(a), nv.append(v), data.append(lines)
        for k, v in (('IEXP', iexp), ('number_of_nodes', nn), ('number_of_values_per_node', nv)):
            d[k] = np.array(v, dtype=int)
        d['data_at_nodes_on_element'] = data

    def kinds(self, d, name, special, elements):
        """entries under distinct element kinds, in some order; the kinds"""
        r = self.rng
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
        pool = list(special) + [111, 112, 115, 94, 122, 5, 1, 42, 45, 12, 20, 25]
        ks = r.sample(pool, min(k, len(pool)))
        if r.random() < 0.5:
            ks = ks[::-1]
        for x in ks:
            d[x] = elements(self, x, '')
        return ks

    def among(self, v, options):
        return v in options

    def only_if(self, d, cond, k, v):
        if cond:
            d[k] = v

    def now(self):
        return {}


class ModelS(ConcreteS):
    """the shape interface, reading the values from a solver model (see engine.symb.SymS for the names)"""

    def __init__(self, rng, mined, val, picks, cap=60):
        super().__init__(rng, mined)
        self.val, self.path, self.cap = val, list(picks), cap
        self.pos = 0
        self.idx = []

    def choose(self, name, options, spread=False):
        if spread:
            i = self.val.scalar_int('ch_' + name, self.idx)
            options = list(options)
            v = i if i in options else options[0]
        else:
            i = self.path[self.pos] if self.pos < len(self.path) else 0
            self.pos += 1
            v = list(options)[i if i < len(options) else 0]
        self.picks[name] = v
        return v

    def opt(self, d, k, v):
        if self.val.bool('p_' + str(k), self.idx, default=False):
            d[k] = v

    def count(self, name, lo=0):
        n = self.val.count(name, self.idx)
        if n is None or n < lo:
            n = lo
        return min(n, self.cap)

    def unequal(self, names, fixed=()):
        return [self.count(x) for x in names]

    def int(self, name, w, but=None, lo=None, hi=None):
        a, b = int_range(w) if lo is None else (lo, hi)
        v = self.val.scalar_int(name, self.idx)
        v = 1 if v is None else v
        v = min(max(v, a), b)
        return v if v != but else v + 1

    def real(self, name, w):
        v = self.val.scalar_real(name, self.idx)
        if v is None:
            return 1.0
        lim = (1e-300, 1e300) if w == BY_POSITION else (1e-99, 9.9e99)
        if w != 25 and v and not lim[0] <= abs(v) <= lim[1]:
            return 1.0
        return float(v)

    def cplx(self, name, w):
        return complex(self.real(name + '_re', w), self.real(name + '_im', w))

    def str(self, name, w, lo=0):
        s = self.val.text(name, self.idx)
        return '' if s is None else s.strip()[:w].strip()

    def _each(self, n, f):
        out = []
        for i in range(n):
            self.idx.append(i)
            try:
                out.append(f(i))
            finally:
                self.idx.pop()
        return out

    def ints(self, name, n, w, cont):
        return self._cont(self._each(n, lambda i: self.int(name, w)), cont, int)

    def fixed_ints(self, name, n, lo, hi, cont):
        return self._cont([self.int('%s_%d' % (name, i), 3, lo=lo, hi=hi) for i in range(n)], cont, int)

    def reals(self, name, n, w, cont):
        return self._cont(self._each(n, lambda i: self.real(name, w)), cont, float)

    def cplxs(self, name, n, w, cont):
        return self._cont(self._each(n, lambda i: self.cplx(name, w)), cont, complex)

    def strs(self, name, n, w):
        return self._each(n, lambda i: self.str(name, w))

    def rows(self, name, n, m, w, cont):
        v = self._each(n, lambda i: [self.real('%s_%d' % (name, k), w) for k in range(m)])
        return v if cont == 'list' else np.array(v, dtype=float).reshape(n, m)

    def mats(self, name, n, a, b, w):
        return self._each(n, lambda i: np.array([[self.real('%s_%d_%d' % (name, p, q), w) for q in range(b)]
                                                 for p in range(a)]))

    def seq(self, name, n, fn):
        return self._each(n, lambda i: fn(self))

    def ragged(self, name, n, w):
        return self._each(n, lambda i: np.array(self._each(self.count(name + '#', lo=1),
                                                           lambda j: self.real(name, w)), dtype=float))

    def nodes_on_elements(self, d, n):
        ConcreteS.nodes_on_elements(self, d, n)

    def kinds(self, d, name, special, elements):
        out = []
        if self.val.picks is not None and name in self.val.picks:
            # (bounded)
            self.pos += 1
            for i, x in enumerate(self.val.picks[name]):
                d[x] = elements(self, x, 'k%d' % i)
                out.append(x)
            return out

        def one(i):
            x = self.int(name, 10)
            if x not in out:
                d[x] = elements(self, x, '')
                out.append(x)
        self._each(self.count(name), one)
        return out
