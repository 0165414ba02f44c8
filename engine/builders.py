"""The functions that build data-sets (prepare_*, prepare_group): every argument is left out or is of any documented kind, of any
value and length; all combinations at once (F06)."""
import z3
from contracts import f06
from . import lib, same as SM
from .interp import Closure, PyExc
from .same import value_same
from .symb import SymS
from .vals import *

BIG = 2 ** 63


class Args:
    """arguments as values of several kinds; inside a sequence their kind, length and values depend on the position"""

    def __init__(self, S):
        self.S = S

    def alts(self, name, kind, absent):
        """the alternatives of an argument: [(label, value)]"""
        S = self.S

        def many(f, dt, scalar=True):
            n = S.count(name, lo=1)
            m = S.count(name + '_rows', lo=1)
            n0 = S.count(name + '_size')
            s = lambda: S.gen(n, f)
            out = [('one', f())] if scalar else []
            out += [('list', HList(s())), ('tuple', STuple(s())), ('array', Arr(S.gen(n0, f), dt))]
            if scalar:
                out.append(('rows', HList(S.gen(m, lambda: HList(S.gen(n, f))))))
                out.append(('matrix', Arr(S.gen(m, lambda: Arr(S.gen(n, f), dt)), dt, 2)))
            return out
        i = lambda: S.int(name, 0, lo=-BIG, hi=BIG - 1)
        x = lambda: S.real(name, 25)
        c = lambda: S.cplx(name, 25)
        t = lambda: self.text(name)
        if isinstance(kind, tuple):
            e = S.term(name, z3.IntSort(), 'int', lambda e: z3.Or([e == v for v in kind]))
            out = [('one', SInt(e))]
        elif kind in 'sw':
            out = [('text', t())]
            if kind == 'w':
                v = out[0][1].segs[0]
                S.term(name + '_there', z3.BoolSort(), 'bool', lambda e: None)
                S.ctx.assume(v.ln >= 1) if not S.idx else S.ctx.assume(z3.ForAll(list(S.idx), v.ln >= 1, patterns=[v.ln]), 0)
        elif kind == 'i':
            out = [('one', i())]
        elif kind == 'n':
            out = [('one', S.int(name, 0, lo=0, hi=BIG - 1))]
        elif kind == 'f':
            out = [('one', x())]
        elif kind == 'I':
            out = many(i, 'i')
        elif kind == 'A':
            out = many(i, 'i', False)
        elif kind == 'F':
            out = many(x, 'f')
        elif kind == 'X':
            def mats():
                return Arr(Seq([Items([Arr(Seq([Items([S.real('%s_%d_%d' % (name, p, q), 25) for q in range(3)])]), 'f')
                                       for p in range(4)])]), 'f', 2)
            out = many(x, 'f') + [('matrices', HList(S.gen(S.count(name, lo=1), mats)))]
        elif kind == 'Z':
            out = [('one', x()), ('complex', c())]
        elif kind == 'N':
            out = many(x, 'f') + [(k + ' complex', v) for k, v in many(c, 'c')]
        elif kind == 'L':
            n = S.count(name)
            out = [('list', HList(S.gen(n, t))), ('array', Arr(S.gen(n, t), 'U'))]
        elif kind == 'M':
            out = [('list', HList(Seq([Items([S.int('%s_%d' % (name, k), 0, lo=-BIG, hi=BIG - 1) for k in range(32)])])))]
        elif kind == 'T':
            one = lambda: SInt(S.term(name, z3.IntSort(), 'int', lambda e: z3.And(e >= 0, e <= 2)))
            out = many(one, 'i')[:-2]
        else:
            raise Unsupported('kind %r' % (kind,))
        return out

    def text(self, name):
        S = self.S
        a = S.term(name, AtomSort, 'text', lambda e: None)
        n = S.term(name + '_len', z3.IntSort(), 'int', lambda e: z3.And(e >= 0, e < 10 ** 12))
        return Text([Opq(a, n)])

    def arg(self, name, kind, absent=None):
        """(Alt or value, want: the same with what it stands for when it is left out).  absent: a pair (default, meaning)"""
        alts = self.alts(name, kind, absent)
        if absent is None and len(alts) == 1:
            return alts[0][1]
        tag = self.S.term('kind_' + name, z3.IntSort(), 'int',
                          lambda e: z3.And(e >= (0 if absent is not None else 1), e <= len(alts)))
        out = [(tag == k + 1, v) for k, (_, v) in enumerate(alts)]
        if absent is not None:
            out = [(tag == 0, absent[0])] + out
        return Alt(out)


def defaults(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
    d.update(f.kwdefaults)
    return d


def building(r):
    """F06"""
    cases = [('prepare', t) for t in sorted(f06.PREPARE)] + [('group', t) for t in sorted(f06.GROUP)]

    def build(S, case, full):
        what, typ = case
        ctx, I = r.ctx, r.I
        r.kind = None
        A = Args(S)
        name = 'prepare_group' if what == 'group' else 'prepare_%d' % typ
        f = I.func('pyuff.datasets.dataset_%d.%s' % (typ, name))
        label = '%s of dataset_%d' % (name, typ)
        if not isinstance(f, Closure):
            raise Unsupported('%s is no function' % name)
        dflt = defaults(f)
        args, want = {}, []
        for k, kind in f06.PREPARE[typ] if what == 'prepare' else f06.GROUP[typ]:
            if kind == 'G':
                v = HList(S.gen(S.count('groups'), lambda: HDict([(g, True, A.arg(g, gk)) for g, gk in f06.GROUP[typ]])))
                args[k] = v
                want.append((k, True, v))
            elif what == 'group' and k not in f06.ACTIVE:
                args[k] = A.arg(k, kind)
                want.append((k, True, args[k]))
            else:
                missing = None if what == 'prepare' else 0
                if k not in dflt:
                    r.oblige(label + ': every argument may be left out', lambda: SM.differ(ctx, '%r may not be left out' % k))
                    return
                v = A.arg(k, kind, (dflt[k], missing))
                args[k] = v
                want.append((k, True if full or what == 'group' else z3.Not(v.alts[0][0]),
                             Alt([(v.alts[0][0], missing)] + list(v.alts[1:]))))
        if what == 'prepare':
            want.append(('type', True, typ))
        kw = dict(args)
        if full:
            kw['return_full_dict'] = True
        frozen = [(v, v.seq if isinstance(v, (HList, Arr)) else None) for a in args.values()
                  for v in ([x for _, x in a.alts] if isinstance(a, Alt) else [a])]
        I.alts = True
        r.make_case = lambda m: {'f': what, 'typ': typ, 'full': full,
                                 'args': {k: v for k, a in args.items() for v in [conc(m, a, dflt.get(k))] if v is not OMIT}}
        got, ok = r.oblige(label + ': takes every documented kind of argument', lambda: I.call(f, [], kw))
        if not ok:
            return

        want = [(k, p, w) for k, p, w in want if p is True or not ctx.prove(z3.Not(p))]

        def keys():
            if not isinstance(got, HDict):
                SM.differ(ctx, 'the result is no dictionary: %r' % (got,))
            r.keys_same(got, HDict(want), False)

        def values():
            have = {k: (p, v) for k, p, v in got.entries}
            for k, p, w in want:
                if k not in have:
                    SM.differ(ctx, '%r is missing' % k)
                same_alt(r, have[k][1], w, p, '%r' % k)

        def args_same():
            for v, s in frozen:
                if s is not None and v.seq is not s:
                    value_same(ctx, v, type(v)(s) if isinstance(v, HList) else Arr(s, v.dt, v.nd), 'argument')
        if r.oblige(label + ': holds the given fields' + (' and None for the others' if full and what == 'prepare' else ' only'), keys)[1]:
            r.oblige(label + ': the values given', values)
        r.oblige(label + ': its arguments are not changed', args_same)
    r.cases(build, case=cases, full=[False, True])


def kind_of(v):
    return ('int' if isinstance(v, (int, SInt)) and not isinstance(v, bool) else 'bool' if isinstance(v, (bool, SBool)) else
            'float' if lib.is_real(v) else 'complex' if lib.is_cplx(v) else 'str' if is_text(v) else
            ('ndarray', v.dt, v.nd) if isinstance(v, Arr) else type(v).__name__)


def same_alt(r, a, b, p, what):
    """equal on every path, and of the same type"""
    ctx = r.ctx
    if a is b:
        return
    xs = b.alts if isinstance(b, Alt) else [(z3.BoolVal(True), b)]
    for c, w in xs:
        for d, v in a.alts if isinstance(a, Alt) else [(z3.BoolVal(True), a)]:
            if v is w:
                continue
            ctx.push([], 'join')
            try:
                ctx.assume(z3.And(c, d, p if not isinstance(p, bool) else z3.BoolVal(p)))
                if not ctx.feasible():
                    continue
                if v is None or w is None or kind_of(v) != kind_of(w):
                    SM.differ(ctx, '%s: %r, expected %r' % (what, v, w))
                if not isinstance(w, (HList, Arr, HDict)) or isinstance(v, type(w)):
                    value_same(ctx, v, w, what)
            finally:
                ctx.pop()


OMIT = object()


def conc(m, v, dflt=None, at=()):
    """an instance of an argument in a model"""
    import numpy as np
    ev = lambda e: m.eval(z3.substitute(e, *at) if at else e, model_completion=True)
    if isinstance(v, Alt):
        for k, (c, x) in enumerate(v.alts):
            if z3.is_true(ev(c)):
                return OMIT if x is dflt and not isinstance(x, (HList, Arr, STuple, Text)) and k == 0 else conc(m, x, None, at)
        return OMIT
    if isinstance(v, SInt):
        e = ev(v.e)
        return e.as_long() if z3.is_int_value(e) else 1
    if isinstance(v, SReal):
        return 1.5
    if isinstance(v, SCplx):
        return 1.5 - 2j
    if isinstance(v, Text):
        return 'text'
    if isinstance(v, HDict):
        return {k: conc(m, x, None, at) for k, p, x in v.entries}
    if isinstance(v, (HList, STuple, Arr)):
        out = []
        for p in v.seq.pieces:
            if isinstance(p, Items):
                out += [conc(m, x, None, at) for x in p.v]
            else:
                n = ev(p.n)
                n = max(0, min(n.as_long() if z3.is_int_value(n) else 2, 3))
                for i in range(n):
                    out += [conc(m, x, None, tuple(at) + ((p.j, z3.IntVal(i)),)) for x in p.parts]
        if isinstance(v, Arr):
            return np.array(out)
        return out if isinstance(v, HList) else tuple(out)
    return v
