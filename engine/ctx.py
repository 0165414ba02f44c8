"""Solver context: assumptions in nested scopes, path exploration by decision replay, proof obligations."""
import time
import z3
from .vals import *

E2 = z3.Function('E2', z3.RealSort(), z3.BoolSort())        # prints with a two-digit exponent
F32 = z3.Function('F32', z3.RealSort(), z3.RealSort())      # rounding to 32-bit float
stripped = z3.Function('stripped', AtomSort, z3.BoolSort())  # no blank at either end
nolb = z3.Function('nolb', AtomSort, z3.BoolSort())          # contains no line-break character
imul = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())   # product of two unknown integers
_rnd = {}


def rnd_fun(p):
    if p not in _rnd:
        _rnd[p] = z3.Function('rnd%d' % p, z3.RealSort(), z3.RealSort())
    return _rnd[p]


def base_axioms():
    """Facts about printing that are trusted (listed in the evidence)."""
    x = z3.Real('ax!x')
    out = []
    ps = sorted(_rnd)
    for p in ps:
        f = _rnd[p]
        out.append(z3.ForAll([x], z3.Implies(E2(x), E2(f(x))), patterns=[E2(f(x))]))
        for q in ps:
            if q >= p:
                out.append(z3.ForAll([x], _rnd[q](f(x)) == f(x), patterns=[_rnd[q](f(x))]))
    out.append(z3.ForAll([x], F32(F32(x)) == F32(x), patterns=[F32(F32(x))]))
    i, j = z3.Ints('ax!i ax!j')
    m = imul(i, j)
    for c, d in ((z3.And(i >= 0, j >= 0), m >= 0), (z3.And(i >= 1, j >= 0), m >= j), (z3.And(j >= 1, i >= 0), m >= i),
                 (i == 0, m == 0), (j == 0, m == 0), (i == 1, m == j), (j == 1, m == i),
                 (z3.BoolVal(True), m == imul(j, i))):
        out.append(z3.ForAll([i, j], z3.Implies(c, d), patterns=[m]))
    a = z3.Const('ax!a', AtomSort)
    for f in (z3.Function('lower', AtomSort, AtomSort), z3.Function('upper', AtomSort, AtomSort)):
        out.append(z3.ForAll([a], f(f(a)) == f(a), patterns=[f(f(a))]))
    out.append(z3.ForAll([a], slen(a) >= 0, patterns=[slen(a)]))
    return out


for _p in (5, 7, 11):
    rnd_fun(_p)


class LoopDep(Unsupported):
    """A branch depends on the index of the loop being summarised."""

    def __init__(self, cond, scope):
        super().__init__('branch on the index of a map: %s' % (cond,))
        self.cond, self.scope = cond, scope


class NoMerge(Exception):
    pass


class Infeasible(Exception):
    pass


class Scope:
    def __init__(self, bound, kind):
        self.bound, self.kind, self.assm = set(bound), kind, []
        self.dec, self.pos, self.conds = [], 0, []


class Obligation:
    def __init__(self, name, ok, detail='', model=None, backend='z3', kind='prove'):
        self.name, self.ok, self.detail, self.model, self.backend, self.kind = name, ok, detail, model, backend, kind


class Ctx:
    def __init__(self, axioms=(), timeout_ms=4000, deadline=None):
        self.axioms = list(axioms)
        self.timeout = timeout_ms
        self.obl = []            # obligations of all paths
        self.hints = []          # models worth replaying
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.deadline = deadline
        self.decisions = []
        self.pos = 0
        self.lits_done = set()
        self.log = []
        self.cvc5 = None         # optional second prover, thorough tier
        self.reset()

    # ------------------------------------------------ scopes
    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', self.timeout)
        self.s.set('auto_config', False)
        self.s.set('mbqi', False)
        for a in base_axioms() + self.axioms:
            self.s.add(a)
        self.scopes = [Scope((), 'base')]
        self.assm_depth = []     # (formula, level it belongs to, depth it was added at)
        self.cache = {}
        self.lits_done = set()
        self.pos = 0
        self.offs_known, self.offs_same = [], []
        self.keyfuns = {}        # functions that give distinct keys -> their inverse
        self.ones = {}
        self.sums = []

    def add_axiom(self, a):
        """a fact about the input (shape): global."""
        self.axioms.append(a)
        self._add(a, 0)

    def _add(self, a, level):
        self.s.add(a)
        self.assm_depth.append([a, level, len(self.scopes) - 1])
        self.cache.clear()

    def assume(self, a, level=None):
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        self._add(a, len(self.scopes) - 1 if level is None else level)

    def push(self, bound=(), kind='map'):
        self.s.push()
        self.scopes.append(Scope((b.decl().name() for b in bound), kind))
        self.cache.clear()

    def pop(self):
        self.s.pop()
        self.scopes.pop()
        self.ones.clear()
        d = len(self.scopes) - 1
        keep = []
        for rec in self.assm_depth:
            a, level, dep = rec
            if dep <= d:
                keep.append(rec)
            elif level <= d:
                self.s.add(a)
                rec[2] = d
                keep.append(rec)
        self.assm_depth = keep
        self.cache.clear()

    def _lits(self):
        for s_, a in list(_lit_atoms_items()):
            if s_ not in self.lits_done:
                self.lits_done.add(s_)
                fs = [slen(a) == len(s_), stripped(a) == z3.BoolVal(s_ == s_.strip()),
                      nolb(a) == z3.BoolVal(len(s_.splitlines()) <= 1 and not s_.endswith(('\n', '\r')))]
                for o, b in _lit_atoms_items():
                    if o != s_:
                        fs.append(a != b)
                for f in fs:
                    self._add(f, 0)

    # ------------------------------------------------ queries
    def check_sat(self, *extra):
        self._lits()
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the verification run exhausted')
        t = time.time()
        self.queries += 1
        r = self.s.check(*extra)
        self.solver_s += time.time() - t
        return r

    def prove(self, phi):
        if isinstance(phi, bool):
            return phi
        if isinstance(phi, SBool):
            phi = phi.e
        phi = z3.simplify(phi)
        if z3.is_true(phi):
            return True
        if z3.is_false(phi):
            return self.check_sat() == z3.unsat
        key = phi.sexpr() if False else phi.get_id()
        hit = self.cache.get(key)
        if hit is not None and hit[0].eq(phi):
            return hit[1]
        r = self.check_sat(z3.Not(phi)) == z3.unsat
        self.cache[key] = (phi, r)
        return r

    def feasible(self):
        return self.check_sat() != z3.unsat

    def model(self, *extra):
        r = self.check_sat(*extra)
        if r == z3.unsat:
            return None
        try:
            return self.s.model()
        except z3.Z3Exception:
            return None

    def small_model(self, phi, sizes):
        """model of the path condition and phi, preferring small input sizes."""
        for bound in (1, 2, 3, 5, 9, 17, None):
            ex = [phi] + ([s <= bound for s in sizes] if bound is not None else [])
            m = self.model(*ex)
            if m is not None:
                return m
        return None

    # ------------------------------------------------ decisions
    def decide(self, cond):
        """truth value of a symbolic condition on this path (forks if both are possible)."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.e
        if self.prove(cond):
            return True
        if self.prove(z3.Not(cond)):
            return False
        names = free_consts(cond)
        lvl = 0
        for i in range(len(self.scopes) - 1, 0, -1):
            sc = self.scopes[i]
            if sc.kind == 'branch':
                raise NoMerge()
            if sc.kind == 'trial':
                d = self.check_sat(cond) != z3.unsat
                self.assume(cond if d else z3.Not(cond), level=i)
                return d
            if sc.kind == 'join' or sc.bound & names:
                if sc.kind not in ('loop', 'join'):
                    raise LoopDep(cond, sc)
                if sc.pos < len(sc.dec):
                    d = sc.dec[sc.pos]
                else:
                    d = True
                    sc.dec.append(True)
                sc.pos += 1
                c = cond if d else z3.Not(cond)
                sc.conds.append(c)
                self.assume(c, level=i)
                return d
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            d = True
            self.decisions.append([True, False])
        self.pos += 1
        self.assume(cond if d else z3.Not(cond), level=lvl)
        return d

    def choose(self, k, label=''):
        """free choice among k alternatives (shape enumeration)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            d = 0
            self.decisions.append([0, k - 1 <= 0, k])
        self.pos += 1
        return d

    def concretise(self, v, lo=0, hi=12):
        """value of a small integer expression, by forking."""
        if isinstance(v, int):
            return v
        e = zi(v)
        if e is None:
            raise Unsupported('concretise %r' % (v,))
        for k in range(lo, hi + 1):
            if self.prove(e == k):
                return k
        if not self.prove(z3.And(e >= lo, e <= hi)):
            return None
        for k in range(lo, hi + 1):
            if self.decide(mkbool(e == k)):
                return k
        raise Infeasible()

    def explore(self, fn, max_paths=4000):
        """run fn once per path; fn returns nothing, records obligations."""
        self.decisions = []
        while True:
            self.reset()
            self.paths += 1
            if self.paths > max_paths:
                raise Unsupported('too many paths')
            try:
                fn()
            except Infeasible:
                pass
            del self.decisions[self.pos:]
            while self.decisions:
                d = self.decisions[-1]
                if len(d) == 3:
                    if d[0] + 1 < d[2]:
                        d[0] += 1
                        break
                elif d[0] is True:
                    d[0] = False
                    break
                self.decisions.pop()
            else:
                return

    # ------------------------------------------------ obligations
    def oblige(self, name, phi, detail='', kind='prove'):
        if isinstance(phi, SBool):
            phi = phi.e
        ok = self.prove(phi)
        m = None
        if not ok:
            neg = z3.Not(phi) if not isinstance(phi, bool) else z3.BoolVal(not phi)
            m = self.small_model(neg, getattr(self, 'sizes', []))
        self.obl.append(Obligation(name, ok, detail if ok is False else '', m, kind=kind))
        return ok

    def fail(self, name, detail):
        m = self.small_model(z3.BoolVal(True), getattr(self, 'sizes', []))
        self.obl.append(Obligation(name, False, detail, m))

    def hint(self, phi):
        m = self.small_model(phi, getattr(self, 'sizes', []))
        if m is not None:
            self.hints.append((m, list(self.scalars) if hasattr(self, 'scalars') else None))


def _lit_atoms_items():
    from . import vals
    return list(vals._lit_atoms.items())
