"""Symbolic data-sets from the shapes of the contracts (the precondition of a property), and their instances in a model.

Every scalar is a z3 constant; a value inside a sequence is a function of the positions it is at."""
import itertools
import z3
from .vals import *
from .ctx import imul, E2, stripped, nolb
from contracts.spec import BY_POSITION
from .gen import int_range

MAXN = 10 ** 8


def lift(v):
    """a plain Python value (options of a contract) as a value of the verifier"""
    if isinstance(v, list):
        return HList(Seq([Items([lift(x) for x in v])]))
    if isinstance(v, tuple):
        return STuple(Seq([Items([lift(x) for x in v])]))
    if isinstance(v, dict):
        return HDict([(k, True, lift(x)) for k, x in v.items()])
    return v


def clone(v):
    """deep copy of the containers (the callee may change its argument)"""
    if isinstance(v, HList):
        return HList(clone_seq(v.seq))
    if isinstance(v, Arr):
        return Arr(clone_seq(v.seq), v.dt, v.nd)
    if isinstance(v, STuple):
        return STuple(clone_seq(v.seq))
    if isinstance(v, HDict):
        return HDict([(k, p, clone(x)) for k, p, x in v.entries])
    return v


def clone_seq(s):
    out = []
    for p in s.pieces:
        if isinstance(p, Items):
            out.append(Items([clone(x) for x in p.v]))
        elif isinstance(p, Gen):
            out.append(Gen(p.n, p.j, [Splice(clone_seq(x.seq)) if isinstance(x, Splice) else clone(x) for x in p.parts],
                           p.off))
        else:
            out.append(p)
    return Seq(out)


class SymS:
    """the shape interface, building symbolic values"""
    symbolic = True

    def __init__(self, ctx, prefix='', force=None):
        self.ctx, self.prefix = ctx, prefix
        self.idx, self.path, self.picks = [], [], {}
        self.force = force or {}
        self.scal = {}             # name -> (kind, z3 declaration or constant)
        self.sizes = []
        if not prefix:
            ctx.shape = self
            ctx.sizes = self.sizes

    # -- terms
    def term(self, name, sort, kind, facts):
        """constant or function of the current positions, with its facts for every position"""
        name = self.prefix + name
        if not self.idx:
            e = z3.Const(name, sort)
            self.scal[name] = (kind, e)
            f = facts(e)
            if f is not None:
                self.ctx.assume(f, 0)
            return e
        fn = z3.Function(name, *([z3.IntSort()] * len(self.idx) + [sort]))
        self.scal[name] = (kind, fn)
        vs = [z3.Int('q!%s!%d' % (name, i)) for i in range(len(self.idx))]
        f = facts(fn(*vs))
        if f is not None:
            self.ctx.assume(z3.ForAll(vs, f, patterns=[fn(*vs)]), 0)
        return fn(*self.idx)

    # -- structure
    def dict(self, *items):
        return HDict([(k, True, v) for k, v in items])

    def set(self, d, k, v):
        d.entries = tuple(x for x in d.entries if x[0] != k) + ((k, True, v),)

    def opt(self, d, k, v):
        p = self.term('p_' + str(k), z3.BoolSort(), 'bool', lambda e: None)
        d.entries = d.entries + ((k, p, v),)

    def choose(self, name, options, spread=False):
        options = list(options)
        if spread:
            e = self.term('ch_' + name, z3.IntSort(), 'int', lambda e: z3.Or([e == x for x in options]))
            return SInt(e)
        if name in self.force:
            i = options.index(self.force[name])
        else:
            i = self.ctx.choose(len(options), name)
        self.path.append(i)
        self.picks[name] = options[i]
        return options[i]

    def count(self, name, lo=0):
        nested = bool(self.idx)
        e = self.term('n_' + name, z3.IntSort(), 'count', lambda e: z3.And(e >= lo, e < MAXN))
        if not nested:
            self.sizes.append(e)
        return SInt(e)

    def unequal(self, names, fixed=()):
        """counts that are not all equal"""
        ns = [self.count(x) for x in names]
        self.ctx.assume(z3.Or([ns[0].e != (x if isinstance(x, int) else x.e) for x in ns[1:] + list(fixed)]), 0)
        return ns

    # -- scalars
    def int(self, name, w, but=None, lo=None, hi=None):
        a, b = int_range(w) if lo is None else (lo, hi)
        e = self.term(name, z3.IntSort(), 'int',
                      lambda e: z3.And(e >= a, e <= b, *([] if but is None else [e != but])))
        return SInt(e)

    def real_e(self, name, w):
        return self.term(name, z3.RealSort(), 'real', lambda e: E2(e) if w != 25 and w != BY_POSITION else None)

    def real(self, name, w):
        return SReal(self.real_e(name, w))

    def cplx(self, name, w):
        return SCplx(self.real(name + '_re', w), self.real(name + '_im', w))

    def str(self, name, w, lo=0):
        e = self.term(name, AtomSort, 'text', lambda e: z3.And(stripped(e), nolb(e), slen(e) <= w, slen(e) >= lo))
        return Text([FAtom(0, '<', e)])

    # -- sequences
    def gen(self, n, f):
        """n values, the one at position j being f()"""
        n = zi(n)
        j = fresh_int('i')
        self.idx.append(j)
        try:
            v = f()
        finally:
            self.idx.pop()
        return Seq([Gen(n, j, [v])])

    def _cont(self, s, cont, dt):
        return HList(s) if cont == 'list' else Arr(s, dt)

    def ints(self, name, n, w, cont):
        if cont == 'farr':
            return Arr(self.gen(n, lambda: SReal(z3.ToReal(self.int(name, w).e))), 'f')
        return self._cont(self.gen(n, lambda: self.int(name, w)), cont, 'i')

    def fixed_ints(self, name, n, lo, hi, cont):
        return self._cont(Seq([Items([self.int('%s_%d' % (name, i), 3, lo=lo, hi=hi) for i in range(n)])]), cont, 'i')

    def reals(self, name, n, w, cont):
        return self._cont(self.gen(n, lambda: self.real(name, w)), cont, 'f')

    def cplxs(self, name, n, w, cont):
        return self._cont(self.gen(n, lambda: self.cplx(name, w)), cont, 'c')

    def strs(self, name, n, w):
        return HList(self.gen(n, lambda: self.str(name, w)))

    def rows(self, name, n, m, w, cont):
        def row():
            v = Seq([Items([self.real('%s_%d' % (name, k), w) for k in range(m)])])
            return HList(v) if cont == 'list' else Arr(v, 'f')
        s = self.gen(n, row)
        return HList(s) if cont == 'list' else Arr(s, 'f', 2)

    def mats(self, name, n, a, b, w):
        def mat():
            return Arr(Seq([Items([Arr(Seq([Items([self.real('%s_%d_%d' % (name, p, q), w) for q in range(b)])]), 'f')
                                   for p in range(a)])]), 'f', 2)
        return HList(self.gen(n, mat))

    def seq(self, name, n, fn):
        return HList(self.gen(n, lambda: fn(self)))

    def ragged(self, name, n, w):
        return HList(self.gen(n, lambda: Arr(self.gen(self.count(name + '#', lo=1), lambda: self.real(name, w)), 'f')))

    def nodes_on_elements(self, d, n):
        """lines of one to six values, as many as the record 14 of the element says (more general than the full lines a
        program would write)"""
        for k, hi in (('IEXP', 2), ('number_of_nodes', MAXN), ('number_of_values_per_node', MAXN)):
            self.set(d, k, Arr(self.gen(n, lambda: self.int(k, 10, lo=1, hi=hi)), 'i'))

        def line(self=self):
            w = self.count('width', lo=1)
            return Arr(self.gen(w, lambda: self.real('value', 13)), 'f')
        self.set(d, 'data_at_nodes_on_element', HList(self.gen(n, lambda: HList(self.gen(self.count('lines'), line)))))
        e, a, v, c = (self.scal[k][1] for k in ('IEXP', 'number_of_nodes', 'number_of_values_per_node', 'n_lines'))
        i = z3.Int('q!lines')
        k = (v(i) + 5) / 6
        self.ctx.assume(z3.ForAll([i], c(i) == z3.If(e(i) == 1, imul(k, a(i)), k), patterns=[c(i)]), 0)

    def kinds(self, d, name, special, elements):
        """entries under any number of distinct integer keys; the keys, in order"""
        n = self.count(name)
        j = fresh_int('kd')
        self.idx.append(j)
        try:
            key = self.int(name, 10)
            v = elements(self, key, '')
        finally:
            self.idx.pop()
        f = key.e.decl()
        pos = z3.Function('pos!' + f.name(), z3.IntSort(), z3.IntSort())
        q = z3.Int('q!' + f.name())
        self.ctx.assume(z3.ForAll([q], pos(f(q)) == q, patterns=[f(q)]), 0)
        self.ctx.keyfuns[f.name()] = pos
        d.entries = d.entries + ((KeyGroup(n.e, j, f), True, v),)
        i = fresh_int('kd')
        return HList(Seq([Gen(n.e, i, [SInt(f(i))])]))

    def among(self, v, options):
        return v in options if isinstance(v, int) else mkbool(z3.Or([v.e == x for x in options]))

    def only_if(self, d, cond, k, v):
        """d[k] = v if the condition holds"""
        if cond is True or isinstance(cond, SBool):
            d.entries = d.entries + ((k, True if cond is True else cond.e, v),)

    def now(self):
        out = {}
        for k, f in (('date', '%d-%b-%y'), ('time', '%H:%M:%S')):
            e = z3.Const('now:' + f, AtomSort)
            self.ctx.assume(z3.And(stripped(e), nolb(e), slen(e) <= 9, slen(e) >= 1), 0)
            out[k] = Text([FAtom(0, '<', e)])
        return out


# ---------------------------------------------------------------- instances
class ModelVals:
    """values of the scalars of a shape in a model (see gen.ModelS)"""

    def __init__(self, model, shape):
        self.m, self.sh = model, shape
        self.picks = shape.picks
        self.texts = {}

    def ev(self, name, idx):
        k = self.sh.scal.get(name)
        if k is None:
            return None
        d = k[1]
        try:
            if isinstance(d, z3.FuncDeclRef):
                if d.arity() != len(idx):
                    return None
                e = d(*[z3.IntVal(i) for i in idx])
            else:
                e = d
            return self.m.eval(e, model_completion=True)
        except z3.Z3Exception:
            return None

    def scalar_int(self, name, idx):
        v = self.ev(name, idx)
        return v.as_long() if v is not None and z3.is_int_value(v) else None

    def count(self, name, idx):
        return self.scalar_int('n_' + name, idx)

    def scalar_real(self, name, idx):
        v = self.ev(name, idx)
        if v is None:
            return None
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if not z3.is_rational_value(v):
            return None
        try:
            return v.numerator_as_long() / v.denominator_as_long()
        except OverflowError:
            return None

    def bool(self, name, idx, default=False):
        v = self.ev(name, idx)
        return default if v is None else z3.is_true(v)

    def text(self, name, idx):
        v = self.ev(name, idx)
        if v is None:
            return None
        from . import vals
        for s, a in vals._lit_atoms.items():
            if self.m.eval(a, model_completion=True).eq(v):
                return s
        k = v.sexpr()
        if k not in self.texts:
            n = self.m.eval(slen(v), model_completion=True)
            n = n.as_long() if z3.is_int_value(n) else 3
            c = 'abcdefghijklmnopqrstuvwxyz'[len(self.texts) % 26]
            self.texts[k] = c * max(0, min(n, 200))
        return self.texts[k]
