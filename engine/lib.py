"""Meaning of the built-ins and library functions the code uses (trusted: listed in the evidence)."""
import string
import z3
from .vals import *
from .ctx import *
from . import raw, seqs, text as T
from .text import ProgErr, host
from .interp import (PyExc, Closure, Class, Builtin, TypeV, Bound, ModuleV, ModuleLazy, SetV, SliceV, Range, PYEXC,
                     raise_py, same)

CONC = (bool, int, float, str, bytes, complex)


def prog(f, *a):
    """a modelled operation: its program errors become exceptions of the program"""
    try:
        return f(*a)
    except ProgErr as e:
        raise PyExc(PYEXC.get(e.name, Exception), (e.msg,))
    except seqs.OutOfRange:
        raise PyExc(IndexError, ('index out of range',))


def conc(v):
    """certainly a concrete Python value"""
    return v is None or isinstance(v, CONC)


# ---------------------------------------------------------------- sequences
def seq_of(v):
    return v.seq


def iter_seq(I, v):
    if type(v) in (Alt, NpElt):
        v = I.force(v)
    if I.alts and isinstance(v, Arr) and v.nd == 1:
        return seqs.map_seq(I.ctx, v.seq, lambda x: x if type(x) is NpElt else NpElt(x))
    if isinstance(v, (HList, STuple, Arr)):
        return v.seq
    if isinstance(v, Seq):
        return v
    if isinstance(v, HDict):
        return dict_keys(I, v)
    if isinstance(v, SetV):
        return Seq([Items(set_order(I, v))])
    if isinstance(v, Range):
        return range_seq(I, v)
    if isinstance(v, str):
        return Seq([Items(list(v))])
    if isinstance(v, bytes):
        return Seq([Items(list(v))])
    if isinstance(v, Text):
        raise Unsupported('iteration over symbolic text')
    if isinstance(v, HObj) and v.cls == 'iter':
        s = v.attrs['seq']
        I.setattr_(v, 'seq', Seq([]))
        return s
    if conc(v) or is_num(v):
        raise_py('TypeError', 'not iterable')
    raise Unsupported('iteration over %r' % (v,))


def concrete_items(seq):
    out = []
    for p in seq.pieces:
        if isinstance(p, Items):
            out.extend(p.v)
        elif isinstance(p, Gen) and z3.is_int_value(z3.simplify(p.n)):
            for q in range(z3.simplify(p.n).as_long()):
                out.extend(concrete_items(seqs.parts_seq(seqs.group_at(p, q))))
        else:
            raise Unsupported('a list of known length is needed here')
    return out


def items(I, v):
    return concrete_items(iter_seq(I, v))


def make_set(xs):
    """(a set of symbolic values is only good for membership)"""
    if not all(conc(x) for x in xs):
        return SetV(xs)
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return SetV(out)


def set_order(I, v):
    """the elements of a set in any order"""
    if not all(conc(x) for x in v.items):
        raise Unsupported('set of symbolic values')
    rest, out = list(v.items), []
    if len(rest) > 3:
        raise Unsupported('order of a set')
    while rest:
        for k in range(len(rest)):
            if k == len(rest) - 1 or I.ctx.decide(mkbool(z3.Bool('order!%d' % fresh_int('o').get_id()))):
                out.append(rest.pop(k))
                break
    return out


def unordered(I, v):
    """for a consumer that gives the same for every order"""
    return HList(Seq([Items(v.items)])) if isinstance(v, SetV) and all(conc(x) for x in v.items) else v


def unpack(I, v, n):
    s = iter_seq(I, v)
    ln = seqs.seq_len(I.ctx, s)
    if not I.ctx.decide(mkbool(zi(ln) == n)):
        raise_py('ValueError', 'wrong number of values to unpack')
    return [prog(seqs.index, I.ctx, s, k) for k in range(n)]


def range_seq(I, r):
    ctx = I.ctx
    a, b, s = r.a, r.b, r.s
    if not isinstance(s, int):
        raise Unsupported('range with symbolic step')
    if s == 0:
        raise_py('ValueError', 'range() arg 3 must not be zero')
    if isinstance(a, int) and isinstance(b, int):
        x = range(a, b, s)
        if len(x) > 5000:
            raise Unsupported('long range')
        return Seq([Items(x)])
    span = zi(b) - zi(a) if s > 0 else zi(a) - zi(b)
    st = abs(s)
    span = z3.simplify(span)
    if st == 1:
        n = span
    else:
        q, rem = T.divmod_const(ctx, span, st)
        n = z3.simplify(q + (1 if rem else 0))
    if not ctx.prove(n >= 0):
        if not ctx.decide(mkbool(n >= 0)):
            return Seq([])
    j = fresh_int('r')
    return Seq([Gen(n, j, [mkint(zi(a) + s * j)])])


def range_len(I, r):
    return seqs.seq_len(I.ctx, range_seq(I, r))


def vlen(I, v):
    ctx = I.ctx
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, Raw):
        return mkint(v.hi - v.lo)
    if isinstance(v, Text):
        return nochars(v) or T.text_len(ctx, v)
    if isinstance(v, (HList, STuple, Arr)):
        return seqs.seq_len(ctx, v.seq)
    if isinstance(v, HDict):
        return seqs.seq_len(I.ctx, dict_keys(I, v))
    if isinstance(v, SetV):
        if not all(conc(x) for x in v.items):
            raise Unsupported('set of symbolic values')
        return len(v.items)
    if isinstance(v, Range):
        return range_len(I, v)
    if conc(v) or is_num(v):
        raise_py('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


def nochars(t):
    """lengths of encoded caller texts are not known"""
    if t.b and has_atom(t.segs):
        raise Unsupported('length of encoded text')
    return 0


def has_atom(segs):
    return any(isinstance(s, FAtom) or isinstance(s, RepS) and has_atom(s.segs) for s in segs)


# ---------------------------------------------------------------- numbers
def cparts(v):
    if isinstance(v, complex):
        return v.real, v.imag
    if isinstance(v, SCplx):
        return v.re, v.im
    return v, 0.0


def is_cplx(v):
    return isinstance(v, (complex, SCplx))


def mkcplx(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return complex(a, b)
    return SCplx(a, b)


def is_real(v):
    return isinstance(v, (float, SReal, Quot))


def product(x, y):
    """of integers; of two unknown ones by an uninterpreted function with the facts of base_axioms"""
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_int_value(x) or z3.is_int_value(y):
        return x * y
    return imul(x, y)


def num_op(I, op, a, b):
    ctx = I.ctx
    if isinstance(a, (bool, int, float, complex)) and isinstance(b, (bool, int, float, complex)):
        return conc_op(op, a, b)
    if is_cplx(a) or is_cplx(b):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        n = lambda o, x, y: num_op(I, o, x, y)
        if op in ('Add', 'Sub'):
            return mkcplx(n(op, ar, br), n(op, ai, bi))
        if op == 'Mult':
            return mkcplx(n('Sub', n('Mult', ar, br), n('Mult', ai, bi)), n('Add', n('Mult', ar, bi), n('Mult', ai, br)))
        raise Unsupported('complex %s' % op)
    if isinstance(a, Quot) or isinstance(b, Quot):
        if op == 'Div' and isinstance(a, Quot) and isinstance(b, int) and b > 0:
            return Quot(a.num, a.den * b)
        if op in ('Add', 'Sub') and isinstance(a, Quot) and isinstance(b, (int, SInt)) and not isinstance(b, bool):
            return Quot(num_op(I, op, a.num, num_op(I, 'Mult', b, a.den)), a.den)
        if op == 'Mult' and isinstance(a, Quot) and isinstance(b, int) and b % a.den == 0:
            return to_float(num_op(I, 'Mult', a.num, b // a.den))
        a2 = SReal(zr(a)) if isinstance(a, Quot) else a
        b2 = SReal(zr(b)) if isinstance(b, Quot) else b
        return num_op(I, op, a2, b2)
    fl = is_real(a) or is_real(b)
    if op in ('Add', 'Sub', 'Mult'):
        if op == 'Mult':
            # a truth value times a number
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SBool):
                    return mkreal(z3.If(x.e, zr(y), z3.RealVal(0))) if is_real(y) else mkint(z3.If(x.e, zi(y), z3.IntVal(0)))
        if fl:
            x, y = zr(a), zr(b)
            return mkreal(x + y if op == 'Add' else x - y if op == 'Sub' else x * y)
        x, y = zi(a), zi(b)
        return mkint(x + y if op == 'Add' else x - y if op == 'Sub' else product(x, y))
    if op == 'Div':
        if isinstance(b, (int, float)) and not isinstance(b, bool):
            if b == 0:
                raise_py('ZeroDivisionError', 'division by zero')
            if isinstance(a, (SInt, SBool)) and b > 0 and b == int(b):
                return Quot(a, int(b))
            return mkreal(zr(a) / zr(b))
        if not ctx.prove(zr(b) != 0) and not ctx.decide(mkbool(zr(b) != 0)):
            raise_py('ZeroDivisionError', 'division by zero')
        return mkreal(zr(a) / zr(b))
    if op in ('FloorDiv', 'Mod'):
        if isinstance(b, float) and b == int(b):
            b, fl2 = int(b), True
        else:
            fl2 = is_real(a)
        if is_real(a):
            e = T.int_like(a)
            if e is None:
                raise Unsupported('%s of a real number' % op)
            a = mkint(e)
        if not isinstance(b, int) or isinstance(b, bool):
            raise Unsupported('%s by a symbolic number' % op)
        if b == 0:
            raise_py('ZeroDivisionError', 'division by zero')
        if b < 0:
            raise Unsupported('%s by a negative number' % op)
        q, r = T.divmod_const(ctx, zi(a), b)
        v = mkint(q) if op == 'FloorDiv' else r
        return to_float(v) if fl2 else v
    if op == 'Pow' and isinstance(b, int) and 0 <= b <= 3:
        v = 1
        for _ in range(b):
            v = num_op(I, 'Mult', v, a)
        return v
    raise Unsupported('%s of %r and %r' % (op, a, b))


def conc_op(op, a, b):
    import operator as o
    f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod, 'Pow': o.pow,
         'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'LShift': o.lshift, 'RShift': o.rshift}.get(op)
    if f is None:
        raise Unsupported('operator ' + op)
    return prog(host, f, a, b)


def to_float(v):
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, Quot):
        return SReal(zr(v))
    return mkreal(zr(v))


def to_int(I, v):
    """int(v) of a number"""
    ctx = I.ctx
    if isinstance(v, (bool, int, float)):
        return prog(host, int, v)
    if isinstance(v, (SInt, SBool)):
        return mkint(zi(v))
    if isinstance(v, Quot):
        q, r = T.divmod_const(ctx, zi(v.num), v.den)
        if r and not ctx.prove(q >= 0) and not ctx.decide(mkbool(q >= 0)):
            return mkint(q + 1)
        return mkint(q)
    if isinstance(v, SReal):
        e = T.int_like(v)
        if e is not None:
            return mkint(e)
        raise Unsupported('int() of a real number')
    if is_cplx(v):
        raise_py('TypeError', 'int() of complex')
    raise Unsupported('int of %r' % (v,))


# ---------------------------------------------------------------- truth, comparison
def truth(I, v):
    if type(v) in (Alt, NpElt):
        v = I.force(v)
    if conc(v):
        return bool(v)
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(v.e != 0)
    if isinstance(v, (SReal, Quot)):
        return mkbool(zr(v) != 0)
    if isinstance(v, SCplx):
        return mkbool(z3.Or(zr(v.re) != 0, zr(v.im) != 0))
    if isinstance(v, Text):
        if any(isinstance(s, Lit) for s in v.segs) or any(isinstance(s, (FInt, FFlt, BinF)) for s in v.segs):
            return True
        return mkbool(z3.Not(zb(T.text_eq(I.ctx, v, ''))) if not v.b else zi(T.text_len(I.ctx, v)) > 0)
    if isinstance(v, Arr):
        n = seqs.seq_len(I.ctx, v.seq)
        if n == 1 and v.nd == 1:
            return truth(I, seqs.index(I.ctx, v.seq, 0))
        if isinstance(n, int):
            raise_py('ValueError', 'truth value of an array')
        raise Unsupported('truth of an array')
    if isinstance(v, (HList, STuple)):
        return mkbool(zi(seqs.seq_len(I.ctx, v.seq)) > 0)
    if isinstance(v, HDict):
        if any(p is True and type(k) is not KeyGroup for k, p, _ in v.entries):
            return True
        return mkbool(z3.Or([k.n > 0 if type(k) is KeyGroup else p for k, p, _ in v.entries]))
    if isinstance(v, SetV):
        return bool(v.items)
    if isinstance(v, Range):
        return mkbool(zi(range_len(I, v)) > 0)
    if isinstance(v, Raw):
        return mkbool(v.hi > v.lo)
    if isinstance(v, Undef):
        raise Unsupported('undetermined value')
    return True


def neg(b):
    return (not b) if isinstance(b, bool) else mkbool(z3.Not(b.e))


def eq(I, a, b):
    if type(a) in (Alt, NpElt) or type(b) in (Alt, NpElt):
        a, b = I.force(a), I.force(b)
    if a is b:
        return True
    if conc(a) and conc(b):
        return a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, HObj) and x.cls == 'dtype':
            return dtype_is(x, y)
    if isinstance(a, Raw) or isinstance(b, Raw):
        return raw.equal(I, a, b) if isinstance(a, Raw) else raw.equal(I, b, a)
    if is_text(a) and is_text(b):
        return T.text_eq(I.ctx, a, b)
    if is_num(a) and is_num(b):
        if is_real(a) or is_real(b):
            return mkbool(zr(a) == zr(b))
        return mkbool(zi(a) == zi(b))
    if (is_cplx(a) or is_num(a)) and (is_cplx(b) or is_num(b)):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        return mkbool(z3.And(zr(ar) == zr(br), zr(ai) == zr(bi)))
    if isinstance(a, TypeV) and isinstance(b, TypeV):
        for x, y in ((a, b), (b, a)):
            if x.__name__.startswith('~') and y.__name__ in x.__name__.split('~'):
                raise Unsupported('the type of a number: Python or numpy')
        return a.__name__ == b.__name__
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_op(I, a, b, lambda x, y: eq(I, x, y), 'b')
    if isinstance(a, (HList, STuple)) and isinstance(b, (HList, STuple)):
        if type(a) is not type(b):
            return False
        la, lb = seqs.seq_len(I.ctx, a.seq), seqs.seq_len(I.ctx, b.seq)
        if not I.ctx.prove(zi(la) == zi(lb)):
            if isinstance(la, int) and isinstance(lb, int):
                return False
            if not I.ctx.decide(mkbool(zi(la) == zi(lb))):
                return False
        r = []
        for x, y in zip(concrete_items(a.seq), concrete_items(b.seq)):
            r.append(zb(truth(I, eq(I, x, y))))
        return mkbool(z3.And(r)) if r else True
    kinds = [('n' if is_num(x) or is_cplx(x) else 't' if is_text(x) else 'N' if x is None else type(x).__name__) for x in (a, b)]
    if kinds[0] != kinds[1]:
        return False
    raise Unsupported('comparison of %r and %r' % (a, b))


def compare(I, op, a, b):
    ctx = I.ctx
    if op == 'Eq':
        return eq(I, a, b)
    if op == 'NotEq':
        r = eq(I, a, b)
        if isinstance(r, Arr):
            return Arr(seqs.map_seq(ctx, r.seq, neg), 'b')
        return neg(r)
    if op in ('Is', 'IsNot'):
        if b is None and type(a) is Alt:
            r = mkbool(z3.Or([c for c, v in a.alts if v is None]))
            return r if op == 'Is' else neg(r)
        a, b = I.force(a), I.force(b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            r = a is b if not (isinstance(a, SBool) or isinstance(b, SBool)) else None
            if r is None:
                raise Unsupported('is')
        elif isinstance(a, (HList, HDict, Arr)) and type(a) is type(b) and (a is not b or isinstance(a, Arr)):
            # two elements of a list, or two arguments, may be one object
            raise Unsupported('identity of values')
        elif isinstance(a, (TypeV, Class, type, HObj, HList, HDict, Arr)):
            r = eq(I, a, b) if isinstance(a, TypeV) and isinstance(b, TypeV) else a is b
        else:
            raise Unsupported('identity of values')
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        return r if op == 'In' else neg(r)
    if type(a) in (Alt, NpElt) or type(b) in (Alt, NpElt):
        a, b = I.force(a), I.force(b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_op(I, a, b, lambda x, y: compare(I, op, x, y), 'b')
    import operator as o
    f = {'Lt': o.lt, 'LtE': o.le, 'Gt': o.gt, 'GtE': o.ge}[op]
    if conc(a) and conc(b):
        return prog(host, f, a, b)
    if is_num(a) and is_num(b):
        if is_real(a) or is_real(b):
            return mkbool(f(zr(a), zr(b)))
        return mkbool(f(zi(a), zi(b)))
    if (is_num(a) or is_cplx(a)) and (is_text(b) or b is None or isinstance(b, (HList, STuple))) or \
            (is_num(b) or is_cplx(b)) and (is_text(a) or a is None or isinstance(a, (HList, STuple))):
        raise_py('TypeError', 'not supported between instances')
    raise Unsupported('%s of %r and %r' % (op, a, b))


def contains(I, c, x):
    if type(c) in (Alt, NpElt) or type(x) in (Alt, NpElt):
        c, x = I.force(c), I.force(x)
    ctx = I.ctx
    if isinstance(c, HDict):
        r = False
        for k, p, _ in c.entries:
            e = key_eq(I, k, x)
            if e is False:
                continue
            t = p if e is True else z3.And(zb(e), p if p is not True else z3.BoolVal(True))
            r = t if r is False else z3.Or(r if r is not True else z3.BoolVal(True), t if t is not True else z3.BoolVal(True))
        return r if isinstance(r, bool) else mkbool(r)
    if isinstance(c, (HList, STuple, SetV, Range)) or isinstance(c, Arr):
        rs = []
        s = Seq([Items(c.items)]) if isinstance(c, SetV) else iter_seq(I, c)
        if any(not isinstance(p, Items) for p in s.pieces):
            if not isinstance(c, Range):
                # an existential: a fresh truth value, true or false with what follows from it
                return exists(I, s, lambda y: eq(I, y, x))
            if c.s != 1:
                raise Unsupported('in range with step')
            return mkbool(z3.And(zi(x) >= zi(c.a), zi(x) < zi(c.b)))
        for y in concrete_items(s):
            e = eq(I, y, x)
            if isinstance(e, Arr):
                raise Unsupported('array in list')
            if e is True:
                return True
            if e is not False:
                rs.append(zb(e))
        return mkbool(z3.Or(rs)) if rs else False
    if isinstance(c, bytes) and isinstance(x, SInt):
        return mkbool(z3.Or([x.e == k for k in c])) if c else False
    if is_text(c):
        if not is_text(x):
            if conc(x) and isinstance(c, str):
                raise_py('TypeError', "'in <string>' requires string")
            raise Unsupported('in')
        if isinstance(c, CONC) and isinstance(x, CONC):
            return prog(host, lambda: x in c)
        ct, xt = T.to_text(c) if hasattr(T, 'to_text') else to_text(c), to_text(x)
        if all(isinstance(s, Lit) for s in xt.segs):
            lit = ''.join(s.s for s in xt.segs)
            if any(isinstance(s, Lit) and lit in s.s for s in ct.segs):
                return True
            if lit and not (set(lit) & set('0123456789+-.eEdD ')) and not has_atom(ct.segs) and not any(
                    isinstance(s, (BinF, Opq, Hole)) for s in ct.segs):
                if len(lit) == 1 and not lit_in(ct.segs, lit):
                    return False
            if len(lit) == 1 and lit in '\n\r' and all(isinstance(s, Lit) or isinstance(s, FAtom) and ctx.prove(nolb(s.e)) or
                                                     isinstance(s, (FInt, FFlt)) for s in ct.segs):
                return False
        raise Unsupported('search in symbolic text')
    raise Unsupported('in %r' % (c,))


def lit_in(segs, c):
    return any(isinstance(s, Lit) and c in s.s or isinstance(s, RepS) and lit_in(s.segs, c) for s in segs)


def exists(I, s, f):
    """is there an element with f: a fresh truth value b, with a witness when b, and none when not b"""
    ctx = I.ctx
    b = z3.Bool(fresh_name('ex'))
    wit, alls = [], []
    for p in s.pieces:
        if isinstance(p, Items):
            for y in p.v:
                e = zb(truth(I, f(y)))
                wit.append(e)
                alls.append(z3.Not(e))
        elif isinstance(p, Gen) and not any(isinstance(q, Splice) for q in p.parts):
            ctx.push([p.j])
            try:
                ctx.assume(z3.And(p.j >= 0, p.j < p.n))
                es = [zb(truth(I, f(y))) for y in p.parts]
            finally:
                ctx.pop()
            w = fresh_int('w')
            wit.append(z3.And(w >= 0, w < p.n, z3.Or([z3.substitute(e, (p.j, w)) for e in es])))
            q = fresh_int('q')
            alls.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < p.n),
                                                  z3.Not(z3.Or([z3.substitute(e, (p.j, q)) for e in es])))))
        else:
            raise Unsupported('search in a nested list')
    ctx.assume(z3.Implies(b, z3.Or(wit)))
    ctx.assume(z3.Implies(z3.Not(b), z3.And(alls)))
    return SBool(b)


# ---------------------------------------------------------------- operators
def binop(I, op, a, b, inplace=False):
    if type(a) in (Alt, NpElt) or type(b) in (Alt, NpElt):
        a, b = I.force(a), I.force(b)
    ctx = I.ctx
    if op == 'Mod' and is_text(a):
        return prog(pct, I, a, b)
    if op == 'Add' and is_text(a):
        if not is_text(b):
            if conc(b) or is_num(b) or isinstance(b, (HList, STuple, HDict)):
                raise_py('TypeError', 'can only concatenate str')
            raise Unsupported('text + %r' % (b,))
        if to_text(a).b != to_text(b).b:
            raise_py('TypeError', "can't concat str to bytes")
        return T.concat(a, b)
    if op == 'Add' and is_text(b) and (is_num(a) or a is None):
        raise_py('TypeError', 'unsupported operand')
    if op == 'Mult' and (is_text(a) or is_text(b)):
        t, n = (a, b) if is_text(a) else (b, a)
        if not isinstance(n, (int, SInt, SBool)):
            if is_real(n):
                raise_py('TypeError', "can't multiply sequence by non-int")
            raise Unsupported('text * %r' % (n,))
        return T.repeat(ctx, t, n)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if inplace and isinstance(a, Arr):
            new = arr_op(I, a, b, lambda x, y: num_op(I, op, x, y), None)
            store(I, a, 'seq', new.seq)
            return a
        return arr_op(I, a, b, lambda x, y: num_op(I, op, x, y), None)
    if isinstance(a, (HList, STuple)) or isinstance(b, (HList, STuple)):
        if op == 'Add' and (type(a) is type(b) or inplace and isinstance(a, HList)):
            if inplace and isinstance(a, HList):
                store(I, a, 'seq', Seq(a.seq.pieces + iter_seq(I, b).pieces))
                return a
            return type(a)(seqs.concat(a.seq, b.seq))
        if op == 'Mult':
            q, n = (a, b) if isinstance(a, (HList, STuple)) else (b, a)
            if isinstance(n, (int, SInt)):
                return type(q)(repeat_seq(I, q.seq, n))
        if op == 'Add':
            raise_py('TypeError', 'unsupported operand')
        raise Unsupported('%s of lists' % op)
    if (is_num(a) or is_cplx(a)) and (is_num(b) or is_cplx(b)):
        return num_op(I, op, a, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if not all(conc(x) for x in a.items + b.items) or op not in ('Sub', 'BitOr', 'BitAnd'):
            raise Unsupported('%s of sets' % op)
        return make_set([x for x in a.items if op == 'BitOr' or (x in b.items) == (op == 'BitAnd')] +
                        (list(b.items) if op == 'BitOr' else []))
    if isinstance(a, HDict) and isinstance(b, HDict) and op == 'BitOr':
        d = HDict(a.entries) if not inplace else a
        dict_update(I, d, b)
        return d
    if a is None or b is None or is_text(a) or is_text(b):
        raise_py('TypeError', 'unsupported operand')
    raise Unsupported('%s of %r and %r' % (op, a, b))


def repeat_seq(I, s, n):
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, int):
        out = []
        for _ in range(max(0, n)):
            out.extend(s.pieces)
        return Seq(out)
    if not I.ctx.prove(n.e >= 0) and not I.ctx.decide(mkbool(n.e >= 0)):
        return Seq([])
    parts = []
    for p in s.pieces:
        if isinstance(p, Items):
            parts.extend(p.v)
        else:
            parts.append(Splice(Seq([p])))
    return Seq([Gen(n.e, fresh_int('m'), parts)])


def unop(I, op, v):
    if type(v) in (Alt, NpElt):
        v = I.force(v)
    if op == 'USub':
        if isinstance(v, Arr):
            return Arr(seqs.map_seq(I.ctx, v.seq, lambda x: unop(I, op, x)), v.dt, v.nd)
        if conc(v):
            return prog(host, lambda: -v)
        if isinstance(v, SCplx):
            return SCplx(unop(I, op, v.re), unop(I, op, v.im))
        return num_op(I, 'Sub', 0, v)
    if op == 'UAdd':
        return v
    if op == 'Invert' and isinstance(v, Arr) and v.dt == 'b':
        return Arr(seqs.map_seq(I.ctx, v.seq, neg), 'b', v.nd)
    raise Unsupported(op)


def pct(I, f, args):
    if isinstance(args, STuple):
        s = args.seq
    elif isinstance(args, HDict):
        raise Unsupported('% with a dictionary')
    else:
        s = Seq([Items([args])])
    if isinstance(f, (str, bytes)):
        flat = None
        try:
            flat = concrete_items(s)
        except Unsupported:
            pass
        if flat is not None and all(conc(x) for x in flat):
            return host(lambda: f % (tuple(flat) if isinstance(args, STuple) else flat[0]))
    return T.percent(I.ctx, f, s, lambda v: to_str(I, v))


def to_str(I, v):
    if is_text(v):
        return v
    if conc(v):
        return str(v)
    if isinstance(v, SInt):
        return from_text(Text([FInt(0, '>', v.e)]))
    if isinstance(v, TypeV):
        return "<class '%s'>" % v.__name__
    if isinstance(v, PyExc):
        return to_str(I, v.eargs[0]) if v.eargs else ''
    raise Unsupported('str of %r' % (v,))


def fmt(I, v, spec):
    if isinstance(spec, Text):
        raise Unsupported('symbolic format')
    if spec == '':
        return to_str(I, v)
    if isinstance(v, Quot):
        v = SReal(zr(v))
    if v is None or isinstance(v, (HList, HDict, STuple, Arr)):
        raise_py('TypeError', 'unsupported format string')
    return prog(T.format_spec, I.ctx, v, spec, lambda x: to_str(I, x))


def str_format(I, f, args, kw):
    if not isinstance(f, str):
        raise Unsupported('format of symbolic text')
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec and '{' in spec:
            raise Unsupported('nested format')
        if field == '':
            v = args[auto] if auto < len(args) else raise_py('IndexError')
            auto += 1
        elif field.isdigit():
            v = args[int(field)] if int(field) < len(args) else raise_py('IndexError')
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field %s' % field)
        if conv == 's':
            v = to_str(I, v)
        elif conv:
            raise Unsupported('!' + conv)
        out.append(fmt(I, v, spec or ''))
    return T.concat(*out) if out else ''


# ---------------------------------------------------------------- arrays
def dt_of(v):
    if isinstance(v, (bool, SBool)):
        return 'b'
    if isinstance(v, (int, SInt)):
        return 'i'
    if is_real(v):
        return 'f'
    if is_cplx(v):
        return 'c'
    if is_text(v):
        return 'U'
    return 'O'


def seq_dts(s, acc=None):
    acc = set() if acc is None else acc
    for p in s.pieces:
        if isinstance(p, Items):
            acc.update(dt_of(x) for x in p.v)
        elif isinstance(p, Gen):
            for x in p.parts:
                if isinstance(x, Splice):
                    seq_dts(x.seq, acc)
                else:
                    acc.add(dt_of(x))
        else:
            acc.add('O')
    return acc


def common_dt(k):
    if not k:
        return 'f'
    if k <= {'b'}:
        return 'b'
    if k <= {'i', 'b'}:
        return 'i'
    if k <= {'i', 'f', 'b'}:
        return 'f'
    if k <= {'i', 'f', 'c', 'b'}:
        return 'c'
    if k == {'U'}:
        return 'U'
    return 'O'


def cast(I, v, dt):
    if type(v) in (Alt, NpElt):
        v = I.force(v)
    if dt == 'i':
        if isinstance(v, (bool, int, SInt, SBool)):
            return int(v) if isinstance(v, bool) else mkint(zi(v)) if isinstance(v, SBool) else v
        if is_cplx(v):
            raise Unsupported('complex to integer')
        if is_text(v):
            return prog(T.parse_num, I.ctx, v, 'int')
        return to_int(I, v)
    if dt == 'f':
        if is_text(v):
            return prog(T.parse_num, I.ctx, v, 'float')
        if is_cplx(v):
            raise Unsupported('complex to real')
        if not is_num(v):
            raise Unsupported('array of %r' % (v,))
        return to_float(v)
    if dt == 'c':
        if is_cplx(v):
            return v
        return mkcplx(to_float(v), 0.0)
    if dt == 'b':
        return truth(I, v)
    if dt == 'f4':
        return T.f32_val(to_float(v))
    return v


DTN = {'i': 'i', 'int': 'i', 'int64': 'i', 'i8': 'i', 'd': 'f', 'f8': 'f', 'float': 'f', 'float64': 'f',
       'double': 'f', 'complex': 'c', 'complex128': 'c', 'D': 'c', 'str': 'U', 'U': 'U', 'bool': 'b', 'object': 'O'}


def dtype(v):
    if v is None:
        return None
    if isinstance(v, HObj) and v.cls == 'dtype':
        v = {'i': 'int', 'f': 'float', 'c': 'complex', 'b': 'bool', 'O': 'object', 'U': 'U'}.get(v.attrs['kind'])
    n = v.__name__ if isinstance(v, TypeV) else v
    if n in ('<f8', '=f8', '<d', '=d'):
        return 'f'
    if n in DTN:
        return DTN[n]
    raise Unsupported('dtype %r' % (v,))


def arr_nd(I, s):
    """nesting of a sequence of values"""
    for p in s.pieces:
        vs = p.v if isinstance(p, Items) else p.parts if isinstance(p, Gen) else ()
        for x in vs:
            if isinstance(x, Splice):
                return arr_nd(I, x.seq)
            if isinstance(x, (HList, STuple, Arr)):
                return 1 + arr_nd(I, x.seq)
            return 1
    return 1


def mkarr(I, v, dt=None):
    """np.array(v)"""
    ctx = I.ctx
    if isinstance(v, (HObj, HDict)):
        raise Unsupported('array of %r' % (v,))
    if isinstance(v, (Range,)):
        s = range_seq(I, v)
    elif isinstance(v, (HList, STuple, Arr)):
        s = v.seq
    elif is_num(v) or is_cplx(v):
        return cast(I, v, dt) if dt else v
    else:
        raise Unsupported('array of %r' % (v,))
    nd = arr_nd(I, s)
    if not isinstance(v, Arr) and (nd > 1 or not dt and common_dt(seq_dts(s)) != 'f'):
        # an empty list gives an array of no floats
        n = seqs.seq_len_e(ctx, s)
        if not ctx.prove(n >= 1) and ctx.decide(mkbool(n == 0)):
            return Arr(Seq([]), dt or 'f')
    if nd == 1:
        d = dt or (v.dt if isinstance(v, Arr) else common_dt(seq_dts(s)))
        if d == 'O':
            raise Unsupported('array of objects')
        if isinstance(v, Arr) and v.dt == d:
            return Arr(s, d)
        return Arr(seqs.map_seq(ctx, s, lambda x: cast(I, x, d)), d)
    if nd == 2:
        width = [None]
        kinds = set()

        def look(x):
            if not isinstance(x, (HList, STuple, Arr)):
                raise Unsupported('ragged array')
            w = seqs.seq_len(ctx, x.seq)
            if width[0] is None:
                width[0] = w
            elif not ctx.prove(zi(w) == zi(width[0])):
                raise Unsupported('array of rows of different length')
            kinds.update(seq_dts(x.seq) if not isinstance(x, Arr) else {x.dt})
            return x
        seqs.map_seq(ctx, s, look)
        d = dt or common_dt(kinds)
        if d == 'O':
            raise Unsupported('array of objects')
        return Arr(seqs.map_seq(ctx, s, lambda x: Arr(seqs.map_seq(ctx, x.seq, lambda y: cast(I, y, d)), d)), d, 2)
    raise Unsupported('array of %d dimensions' % nd)


def arr_op(I, a, b, f, dt):
    ctx = I.ctx
    if isinstance(a, (HList, STuple)):
        a = mkarr(I, a)
    if isinstance(b, (HList, STuple)):
        b = mkarr(I, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.nd != b.nd:
            raise Unsupported('broadcasting')
        la, lb = seqs.seq_len(ctx, a.seq), seqs.seq_len(ctx, b.seq)
        if not ctx.prove(zi(la) == zi(lb)):
            if la == 1 or lb == 1:
                raise Unsupported('broadcasting')
            if not ctx.decide(mkbool(zi(la) == zi(lb))):
                if isinstance(la, int) and isinstance(lb, int):
                    raise_py('ValueError', 'operands could not be broadcast together')
                raise Unsupported('arrays of different length')
        if a.nd == 2:
            s = seqs.zip_seq(ctx, [a.seq, b.seq], lambda x, y: arr_op(I, x, y, f, dt))
        else:
            s = seqs.zip_seq(ctx, [a.seq, b.seq], f)
    elif isinstance(a, Arr):
        s = seqs.map_seq(ctx, a.seq, lambda x: arr_op(I, x, b, f, dt) if isinstance(x, Arr) else f(x, b))
    else:
        s = seqs.map_seq(ctx, b.seq, lambda x: arr_op(I, a, x, f, dt) if isinstance(x, Arr) else f(a, x))
    nd = a.nd if isinstance(a, Arr) else b.nd
    if dt is None:
        k = set()
        for x in (a, b):
            k.add(x.dt if isinstance(x, Arr) else dt_of(x))
        dt = common_dt(k | (seq_dts(s) if nd == 1 else set()))
    return Arr(s, dt, nd)


def transpose(I, a):
    ctx = I.ctx
    if a.nd == 1:
        return a
    rows = a.seq
    if len(rows.pieces) == 1 and isinstance(rows.pieces[0], Items):
        rs = list(rows.pieces[0].v)
        if not rs:
            raise Unsupported('transpose of an empty array')
        s = seqs.zip_seq(ctx, [r.seq for r in rs], lambda *xs: Arr(Seq([Items(xs)]), a.dt))
        return Arr(s, a.dt, 2)
    w = row_width(I, a)
    if not isinstance(w, int):
        raise Unsupported('transpose')
    return Arr(Seq([Items([column(I, a, k) for k in range(w)])]), a.dt, 2)


def row_width(I, a):
    if not a.seq.pieces:
        raise Unsupported('width of an empty array')
    w = []

    def look(x):
        w.append(seqs.seq_len(I.ctx, x.seq))
        return x
    seqs.map_seq(I.ctx, a.seq, look)
    return w[0]


def column(I, a, k):
    return Arr(seqs.map_seq(I.ctx, a.seq, lambda r: prog(seqs.index, I.ctx, r.seq, k)), a.dt)


def flatten(I, a):
    if a.nd == 1:
        return Arr(a.seq, a.dt)
    out = []
    for p in a.seq.pieces:
        if isinstance(p, Items):
            for r in p.v:
                out.extend(r.seq.pieces)
        elif isinstance(p, Gen):
            parts = []
            for r in p.parts:
                for q in r.seq.pieces:
                    if isinstance(q, Items):
                        parts.extend(q.v)
                    else:
                        parts.append(Splice(Seq([q])))
            out.append(Gen(p.n, p.j, parts))
        else:
            raise Unsupported('flatten')
    return Arr(Seq(out), a.dt)


def sum_seq(I, s):
    """sum of the elements"""
    ctx = I.ctx
    tot = 0
    for p in s.pieces:
        if isinstance(p, Items):
            for x in p.v:
                tot = num_op(I, 'Add', tot, x if not isinstance(x, bool) else int(x))
        elif isinstance(p, Gen) and not any(isinstance(x, Splice) for x in p.parts):
            if any(is_real(x) or is_cplx(x) for x in p.parts):
                raise Unsupported('sum of reals')
            body = z3.simplify(sum((zi(x) for x in p.parts), z3.IntVal(0)))
            tot = num_op(I, 'Add', tot, mkint(big_sum(ctx, p.n, p.j, body)))
        else:
            raise Unsupported('sum')
    return tot


def big_sum(ctx, n, j, body):
    """sum of body over 0 <= j < n, as an uninterpreted function of n (equal bodies give equal sums)"""
    b = z3.simplify(body)
    if j.decl().name() not in free_consts(b):
        if z3.is_int_value(b):
            return z3.simplify(n * b)
    for f, j2, b2, n2 in ctx.sums:
        ctx.push([j])
        try:
            ctx.assume(z3.And(j >= 0, j < n))
            ok = ctx.prove(b == z3.substitute(b2, (j2, j)))
        finally:
            ctx.pop()
        if ok:
            break
    else:
        f = z3.Function('sum!%d' % len(ctx.sums), z3.IntSort(), z3.IntSort())
        outer = set()
        for sc in ctx.scopes:
            outer |= sc.bound
        if outer & (free_consts(b) | free_consts(n)) - {j.decl().name()}:
            raise Unsupported('sum that depends on an outer loop')
        ctx.sums.append((f, j, b, n))
        zero = z3.IntVal(0)
        ctx.assume(f(zero) == 0, 0)
        for k in range(12):      # the definition, unfolded for small n
            bk = z3.substitute(b, (j, z3.IntVal(k)))
            ctx.assume(f(z3.IntVal(k + 1)) == f(z3.IntVal(k)) + bk, 0)
    lo, hi = None, None
    ctx.push([j])
    try:
        ctx.assume(z3.And(j >= 0, j < n))
        if ctx.prove(b >= 0):
            lo = 0
        if ctx.prove(b <= 1):
            hi = 1
    finally:
        ctx.pop()
    if lo is not None:
        ctx.assume(z3.Implies(n >= 0, f(n) >= 0), 0)
    if hi is not None:
        ctx.assume(z3.Implies(n >= 0, f(n) <= n), 0)
    ctx.assume(z3.Implies(n <= 0, f(n) == 0), 0)
    return f(n)


# ---------------------------------------------------------------- stores
def store(I, obj, field, val):
    if getattr(obj, 'viewed', False):
        raise Unsupported('change of an array of which there are views')
    I.setfield(obj, field, val)


def view(a, v):
    """a numpy slice shares its data: neither side may be changed any more"""
    a.viewed = True
    v.viewed = True
    return v


def getitem(I, o, i):
    if type(o) in (Alt, NpElt) or type(i) in (Alt, NpElt):
        o, i = I.force(o), I.force(i)
    ctx = I.ctx
    if isinstance(o, HDict):
        return dict_get(I, o, i)
    if isinstance(i, tuple):
        return getitem2(I, o, i)
    if isinstance(i, STuple):
        return getitem2(I, o, tuple(items(I, i)))
    if is_text(o):
        if isinstance(i, SliceV):
            st = i.s
            if st not in (None, 1):
                if isinstance(o, CONC) and all(conc(x) for x in (i.a, i.b, st)):
                    return prog(host, lambda: o[i.a:i.b:st])
                raise Unsupported('step slice of text')
            if isinstance(o, CONC) and conc(i.a) and conc(i.b):
                return prog(host, lambda: o[i.a:i.b])
            for x in (i.a, i.b):
                if is_real(x):
                    raise_py('TypeError', 'slice indices must be integers')
            if isinstance(o, Text):
                nochars_slice(o)
            return known_chunk(I, prog(T.slice_text, ctx, o, i.a, i.b))
        if isinstance(o, CONC) and isinstance(i, int):
            return prog(host, lambda: o[i])
        if is_real(i):
            raise_py('TypeError', 'string indices must be integers')
        if to_text(o).b and not all(isinstance(q, (Lit, Opq)) for q in to_text(o).segs):
            raise Unsupported('byte of symbolic data')
        return char_at(I, o, i)
    if isinstance(o, Raw):
        if isinstance(i, SliceV):
            if i.s not in (None, 1):
                raise Unsupported('step slice of unknown bytes')
            return raw.cut(I, o, i.a, i.b)
        if not isinstance(i, (int, SInt)):
            raise_py('TypeError', 'byte indices must be integers or slices')
        return raw.byte(I, o, i)
    if isinstance(o, (HList, STuple, Arr)):
        if isinstance(i, SliceV):
            for x in (i.a, i.b, i.s):
                if is_real(x):
                    raise_py('TypeError', 'slice indices must be integers')
            s = short_slice(I, o.seq, i) or prog(seqs.slice_seq, ctx, o.seq, i.a, i.b, i.s)
            if isinstance(o, Arr):
                return view(o, Arr(s, o.dt, o.nd))
            return type(o)(s)
        if isinstance(i, HList) and isinstance(o, Arr):
            i = mkarr(I, i)
        if isinstance(i, Arr):
            if i.dt != 'i' or i.nd != 1:
                raise Unsupported('mask index')
            return Arr(seqs.map_seq(ctx, i.seq, lambda k: prog(seqs.index, ctx, o.seq, k)), o.dt, o.nd)
        if isinstance(i, SBool):
            i = mkint(zi(i))
        if not isinstance(i, (int, SInt)):
            if is_real(i) or is_text(i) or i is None:
                raise_py('TypeError' if not isinstance(o, Arr) else 'IndexError', 'indices must be integers')
            raise Unsupported('index %r' % (i,))
        v = prog(seqs.index, ctx, o.seq, i)
        if isinstance(o, Arr) and isinstance(v, Arr):
            return view(o, v) if False else v
        return v
    if isinstance(o, HObj) and isinstance(o.cls, Class):
        m = I.class_attr(o.cls, '__getitem__')
        if m:
            return I.call_closure(m, [o, i], {})
    if isinstance(o, Range):
        return prog(seqs.index, ctx, range_seq(I, o), i)
    if conc(o) or is_num(o) or is_cplx(o):
        raise_py('TypeError', 'object is not subscriptable')
    raise Unsupported('index of %r' % (o,))


def nochars_slice(t):
    if t.b and has_atom(t.segs):
        raise Unsupported('position in encoded text')


def short_slice(I, s, i):
    """s[a:a + c] for a small number c, of groups of varying size"""
    if i.s not in (None, 1) or not isinstance(i.a, (int, SInt)) or not isinstance(i.b, (int, SInt)) or not any(
            isinstance(p, Gen) and any(isinstance(q, Splice) for q in p.parts) for p in s.pieces):
        return None
    a, b = zi(i.a), zi(i.b)
    c = z3.simplify(b - a)
    if not z3.is_int_value(c) or not 0 < c.as_long() <= 8 or not I.ctx.prove(z3.And(
            a >= 0, b <= seqs.seq_len_e(I.ctx, s))):
        return None
    return Seq([Items([prog(seqs.index, I.ctx, s, mkint(z3.simplify(a + k))) for k in range(c.as_long())])])


def char_at(I, o, i):
    ctx = I.ctx
    n = T.text_len(ctx, to_text(o))
    if isinstance(i, int) and i < 0:
        i = mkint(zi(n) + i)
    if not ctx.prove(z3.And(zi(i) >= 0, zi(i) < zi(n))):
        if not ctx.decide(mkbool(z3.And(zi(i) >= 0, zi(i) < zi(n)))):
            raise_py('IndexError', 'string index out of range')
    r = prog(T.slice_text, ctx, o, i, mkint(zi(i) + 1))
    if not to_text(o).b:
        return r
    # a byte is a number
    if isinstance(r, bytes):
        return r[0]
    s = to_text(r).segs
    if len(s) == 1 and isinstance(s[0], Opq):
        return SInt(T.byteval(s[0].e))
    raise Unsupported('byte of %r' % (r,))


def getitem2(I, o, idx):
    ctx = I.ctx
    if not isinstance(o, Arr):
        raise_py('TypeError', 'list indices must be integers or slices, not tuple')
    if len(idx) != 2 or o.nd != 2:
        if len(idx) == 1:
            return getitem(I, o, idx[0])
        raise_py('IndexError', 'too many indices for array') if len(idx) > o.nd else None
        raise Unsupported('index of %d dimensions' % len(idx))
    r, c = idx
    if isinstance(r, SliceV):
        rows = o
        if not (r.a is None and r.b is None and r.s is None):
            rows = Arr(prog(seqs.slice_seq, ctx, o.seq, r.a, r.b, r.s), o.dt, 2)
        if isinstance(c, SliceV):
            if c.a is None and c.b is None and c.s is None:
                return view(o, Arr(rows.seq, o.dt, 2))
            return view(o, Arr(seqs.map_seq(ctx, rows.seq, lambda x: Arr(prog(seqs.slice_seq, ctx, x.seq, c.a, c.b, c.s),
                                                                        o.dt)), o.dt, 2))
        return view(o, Arr(seqs.map_seq(ctx, rows.seq, lambda x: prog(seqs.index, ctx, x.seq, c)), o.dt))
    row = prog(seqs.index, ctx, o.seq, r)
    return getitem(I, row, c)


def setitem(I, o, i, v):
    ctx = I.ctx
    if isinstance(o, HDict):
        return dict_set(I, o, i, v)
    if isinstance(o, (HList, Arr)):
        if isinstance(o, Arr) and isinstance(i, SliceV):
            return arr_slice_store(I, o, i, v)
        if isinstance(o, HList) and isinstance(i, SliceV):
            if i.s not in (None, 1):
                raise Unsupported('step slice store')
            L = seqs.seq_len(ctx, o.seq)
            a = 0 if i.a is None else i.a
            left, rest = seqs.split_at(ctx, o.seq, a) if not (isinstance(a, int) and a == 0) else (Seq([]), o.seq)
            right = Seq([])
            if i.b is not None:
                right = prog(seqs.slice_seq, ctx, o.seq, i.b, None, None)
            return store(I, o, 'seq', seqs.concat(left, iter_seq(I, v), right))
        if isinstance(i, (tuple, STuple)):
            return store2(I, o, list(i) if isinstance(i, tuple) else items(I, i), v)
        if not isinstance(i, (int, SInt)):
            raise_py('TypeError', 'indices must be integers')
        if isinstance(o, Arr):
            if o.nd == 2:
                raise Unsupported('store of a row')
            v = cast(I, v, o.dt)
        return store(I, o, 'seq', put(I, o.seq, i, v))
    if isinstance(o, STuple) or is_text(o) or conc(o):
        raise_py('TypeError', 'object does not support item assignment')
    raise Unsupported('store into %r' % (o,))


def store2(I, o, idx, v):
    """o[:, k] = v and o[i, k] = v"""
    ctx = I.ctx
    if not isinstance(o, Arr) or o.nd != 2 or len(idx) != 2 or not isinstance(idx[1], (int, SInt)):
        raise Unsupported('two-dimensional store')
    r, k = idx
    n = seqs.seq_len(ctx, o.seq)
    if isinstance(r, SliceV):
        if not (r.a is None and r.b is None and r.s in (None, 1)):
            raise Unsupported('two-dimensional store')
        if isinstance(v, (HList, STuple)):
            v = mkarr(I, v)
        new = fill(I, o, v, n)
        return store(I, o, 'seq', seqs.zip_seq(ctx, [o.seq, new], lambda row, x: Arr(put(I, row.seq, k, x), o.dt)))
    row = prog(seqs.index, ctx, o.seq, r)
    return store(I, o, 'seq', put(I, o.seq, r, Arr(put(I, row.seq, k, cast(I, v, o.dt)), o.dt)))


def put(I, s, i, v):
    ctx = I.ctx
    if len(s.pieces) == 1 and isinstance(s.pieces[0], HoleArr):
        h = s.pieces[0]
        if not ctx.prove(z3.And(zi(i) >= 0, zi(i) < h.n)):
            raise Unsupported('store at an unknown position')
        return Seq([HoleArr(h.tag, h.n, h.w + ((zi(i), v),), h.init, h.j)])
    n = seqs.seq_len(ctx, s)
    if isinstance(i, int) and i < 0:
        i = mkint(zi(n) + i)
    if not ctx.prove(z3.And(zi(i) >= 0, zi(i) < zi(n))):
        if not ctx.decide(mkbool(z3.And(zi(i) >= 0, zi(i) < zi(n)))):
            raise_py('IndexError', 'assignment index out of range')
    left, rest = seqs.split_at(ctx, s, i)
    _, right = seqs.split_at(ctx, rest, 1)
    return Seq(left.pieces + (Items([v]),) + right.pieces)


def arr_slice_store(I, o, sl, v):
    """o[a:b:s] = v for constants a, s"""
    ctx = I.ctx
    L = seqs.seq_len(ctx, o.seq)
    if isinstance(v, (HList, STuple)):
        v = mkarr(I, v)
    a, b, s = sl.a, sl.b, sl.s or 1
    if o.nd != 1:
        raise Unsupported('slice store')
    if a is None and b is None and s == 1 or s == 1:
        sel = prog(seqs.slice_seq, ctx, o.seq, a, b, None)
        n = seqs.seq_len(ctx, sel)
        new = fill(I, o, v, n)
        left = prog(seqs.slice_seq, ctx, o.seq, 0, a, None) if a is not None else Seq([])
        right = prog(seqs.slice_seq, ctx, o.seq, b, None, None) if b is not None else Seq([])
        return store(I, o, 'seq', seqs.concat(left, new, right))
    if not isinstance(a, int) and a is not None or not isinstance(s, int) or s < 1:
        raise Unsupported('slice store')
    a = a or 0
    # the array as groups of s
    q, r = T.divmod_const(ctx, zi(L), s)
    if r:
        raise Unsupported('strided store into an array that is no multiple of the stride')
    if a >= s:
        raise Unsupported('strided store')
    sel = prog(seqs.slice_seq, ctx, o.seq, a, b, s)
    n = seqs.seq_len(ctx, sel)
    new = fill(I, o, v, n)
    q = mkint(q)
    if not ctx.prove(zi(n) == zi(q)):
        raise Unsupported('strided store of a part')
    cols = [prog(seqs.slice_seq, ctx, o.seq, k, None, s) if k != a else new for k in range(s)]
    store(I, o, 'seq', interleave(ctx, cols))


def fill(I, o, v, n):
    ctx = I.ctx
    if isinstance(v, Arr):
        m = seqs.seq_len(ctx, v.seq)
        if not ctx.prove(zi(m) == zi(n)):
            if m == 1 or not ctx.decide(mkbool(zi(m) == zi(n))):
                if isinstance(m, int) and isinstance(n, int):
                    raise_py('ValueError', 'could not broadcast input array')
                raise Unsupported('store of an array of another length')
        return seqs.map_seq(ctx, v.seq, lambda x: cast(I, x, o.dt))
    x = cast(I, v, o.dt)
    return repeat_seq(I, Seq([Items([x])]), n)


def interleave(ctx, ss):
    if len(ss) == 1:
        return ss[0]
    out = []
    for tup in seqs.align(ctx, *ss):
        if isinstance(tup[0], Items):
            for xs in zip(*[t.v for t in tup]):
                out.append(Items(xs))
        else:
            parts = []
            for xs in zip(*[t.parts for t in tup]):
                if any(isinstance(x, Splice) for x in xs):
                    raise Unsupported('interleaving nested sequences')
                parts.extend(xs)
            out.append(Gen(tup[0].n, tup[0].j, parts))
    return Seq(out)


def delitem(I, o, i):
    if isinstance(o, HDict):
        out, found = [], False
        at = find_entry(I, o, i)
        if at is not None:
            own_entry(I, o, at, i)
        for k, p, v in o.entries:
            e = key_eq(I, k, i)
            if e is True or e is not False and I.ctx.decide(e):
                if p is True or I.ctx.decide(p):
                    found = True
                    continue
                continue
            out.append((k, p, v))
        if not found:
            raise_py('KeyError', i)
        return I.setfield(o, 'entries', tuple(out))
    if isinstance(o, HList):
        if isinstance(i, SliceV):
            return setitem(I, o, i, HList(Seq([])))
        v = getitem(I, o, i)
        if isinstance(i, int) and i < 0:
            i = mkint(zi(seqs.seq_len(I.ctx, o.seq)) + i)
        l, r = seqs.split_at(I.ctx, o.seq, i)
        return store(I, o, 'seq', seqs.concat(l, seqs.split_at(I.ctx, r, 1)[1]))
    raise Unsupported('del')


# ---------------------------------------------------------------- dictionaries
def norm_key(k):
    if isinstance(k, (HList, HDict, Arr)):
        raise_py('TypeError', 'unhashable type')
    return k


def int_key(key):
    return isinstance(key, (int, SInt)) and not isinstance(key, bool)


def key_index(I, g, key):
    """(position of an integer key among the keys of a group, condition under which it is one of them)"""
    t = zi(key)
    if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(g.f):
        i = z3.simplify(t.arg(0) - g.off)
        return i, z3.And(i >= 0, i < g.n)
    q = I.ctx.keyfuns[g.f.name()](t)
    i = z3.simplify(q - g.off)
    return i, z3.And(i >= 0, i < g.n, g.f(q) == t)


def key_eq(I, k, key):
    """is the key that of an entry (one of those of a group of entries)?"""
    if type(k) is not KeyGroup:
        return eq(I, k, key)
    if type(key) is KeyGroup:
        raise Unsupported('a group of keys in a dictionary')
    if not int_key(key):
        if isinstance(key, (Alt, NpElt)) or is_num(key):
            raise Unsupported('key %r' % (key,))
        return False
    c = key_index(I, k, key)[1]
    if I.ctx.prove(c):
        return True
    if I.ctx.prove(z3.Not(c)):
        return False
    return mkbool(c)


def entry_value(I, entry, key):
    """the value under a key of an entry that has it"""
    k, p, v = entry
    if type(k) is not KeyGroup:
        return v
    if p is not True:
        raise Unsupported('optional group of keys')
    if isinstance(v, Undef):
        raise Unsupported('use of a value that is not determined (%s)' % v.why)
    return subst(v, [(k.j, key_index(I, k, key)[0])])


def find_entry(I, d, key):
    """index of the entry of a key (None: no such entry)"""
    key = norm_key(key)
    for i, (k, p, v) in enumerate(d.entries):
        e = key_eq(I, k, key)
        if e is True:
            return i
        if e is False:
            continue
        if I.ctx.decide(e):
            return i
    return None


def own_entry(I, d, i, key):
    """the index of an entry of its own for a key that is in entry i (a group of keys is divided there)"""
    k, p, v = d.entries[i]
    if type(k) is not KeyGroup:
        return i
    t = key_index(I, k, key)[0]
    new = [(KeyGroup(t, k.j, k.f, k.off), p, v), (k.at(t), True, entry_value(I, d.entries[i], key)),
           (KeyGroup(z3.simplify(k.n - t - 1), j2 := fresh_int('kg'), k.f, z3.simplify(k.off + t + 1)), p,
            subst(v, [(k.j, j2 + t + 1)]))]
    I.setfield(d, 'entries', d.entries[:i] + tuple(e for e in new if not (
        type(e[0]) is KeyGroup and I.ctx.prove(e[0].n == 0))) + d.entries[i + 1:])
    return [x[0] for x in d.entries].index(new[1][0])


def dict_get(I, d, key):
    i = find_entry(I, d, key)
    if i is None:
        raise_py('KeyError', key)
    k, p, v = d.entries[i]
    if type(k) is KeyGroup:
        return entry_value(I, d.entries[i], key)
    if p is not True and not I.ctx.decide(p):
        raise_py('KeyError', key)
    if isinstance(v, Undef):
        return I.resolve_undef(v, lambda x: dict_set(I, d, key, x))
    return v


def dict_set(I, d, key, v):
    i = find_entry(I, d, key)
    if i is None:
        I.setfield(d, 'entries', d.entries + ((key, True, v),))
        return
    i = own_entry(I, d, i, key)
    e = list(d.entries)
    e[i] = (e[i][0], True, v)
    I.setfield(d, 'entries', tuple(e))


def dict_update(I, d, o):
    if isinstance(o, (HList, STuple)):
        for t in items(I, o):
            k, v = unpack(I, t, 2)
            dict_set(I, d, k, v)
        return
    if not isinstance(o, HDict):
        raise Unsupported('update from %r' % (o,))
    for k, p, v in o.entries:
        if type(k) is KeyGroup:
            if any(type(x) is not str for x, _, _ in d.entries):
                raise Unsupported('update with a group of keys')
            I.setfield(d, 'entries', d.entries + ((k, p, v),))
            continue
        if p is True or I.ctx.prove(p):
            dict_set(I, d, k, v)
            continue
        i = find_entry(I, d, k)
        if i is None:
            I.setfield(d, 'entries', d.entries + ((k, p, v),))
        elif I.ctx.decide(p):
            dict_set(I, d, k, v)


def dict_seq(I, d, f):
    """f(key, value) for the entries of a dictionary, in order"""
    out = []
    for k, p, v in d.entries:
        if type(k) is KeyGroup:
            if isinstance(v, Undef):
                raise Unsupported('use of a value that is not determined (%s)' % v.why)
            out.append(Gen(k.n, k.j, [f(k.at(k.j), v)]))
        elif p is True or I.ctx.decide(p):
            x = f(KInt(k) if type(k) is int else k, v)
            if out and isinstance(out[-1], Items):
                out[-1] = Items(tuple(out[-1].v) + (x,))
            else:
                out.append(Items([x]))
    return Seq(out)


def dict_keys(I, d):
    return dict_seq(I, d, lambda k, v: k)


def d_get(I, d, a, kw):
    i = find_entry(I, d, a[0])
    dflt = a[1] if len(a) > 1 else kw.get('default')
    if i is None:
        return dflt
    k, p, v = d.entries[i]
    if type(k) is KeyGroup:
        return entry_value(I, d.entries[i], a[0])
    if p is True:
        return v
    return pick(I, p, v, dflt)


def pick(I, p, v, dflt):
    """v if p else dflt"""
    if I.ctx.prove(p):
        return v
    if I.ctx.prove(z3.Not(p)):
        return dflt
    try:
        return I.merge(p, v, dflt)
    except NoMerge:
        return v if I.ctx.decide(p) else dflt


def d_pop(I, d, a, kw):
    i = find_entry(I, d, a[0])
    if i is None or d.entries[i][1] is not True and not I.ctx.decide(d.entries[i][1]):
        if len(a) > 1:
            return a[1]
        raise_py('KeyError', a[0])
    i = own_entry(I, d, i, a[0])
    v = d.entries[i][2]
    I.setfield(d, 'entries', d.entries[:i] + d.entries[i + 1:])
    return v


def d_setdefault(I, d, a, kw):
    i = find_entry(I, d, a[0])
    dflt = a[1] if len(a) > 1 else None
    if i is None:
        dict_set(I, d, a[0], dflt)
        return dflt
    k, p, v = d.entries[i]
    if type(k) is KeyGroup:
        return entry_value(I, d.entries[i], a[0])
    if p is True:
        return v
    w = pick(I, p, v, dflt)
    dict_set(I, d, a[0], w)
    return w


def d_update(I, d, a, kw):
    for x in a:
        dict_update(I, d, x)
    for k, v in kw.items():
        dict_set(I, d, k, v)


def t2(*xs):
    return STuple(Seq([Items(xs)]))


DICT = {
    'update': d_update, 'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault,
    'keys': lambda I, d, a, kw: HList(dict_keys(I, d)) if all(p is True for _, p, _ in d.entries) else KeysV(d),
    'values': lambda I, d, a, kw: HList(dict_seq(I, d, lambda k, v: v)),
    'items': lambda I, d, a, kw: HList(dict_seq(I, d, t2)),
    'copy': lambda I, d, a, kw: HDict(d.entries),
    'clear': lambda I, d, a, kw: I.setfield(d, 'entries', ()),
}


def KeysV(d):
    v = HDict(d.entries)      # membership and iteration as for the dictionary
    return v


# ---------------------------------------------------------------- lists
def l_append(I, l, a, kw):
    store(I, l, 'seq', Seq(l.seq.pieces + (Items([a[0]]),)))


def l_extend(I, l, a, kw):
    store(I, l, 'seq', Seq(l.seq.pieces + iter_seq(I, a[0]).pieces))


def l_pop(I, l, a, kw):
    i = a[0] if a else -1
    v = getitem(I, l, i)
    delitem(I, l, i)
    return v


def l_insert(I, l, a, kw):
    i = a[0]
    if not isinstance(i, int) or i < 0:
        raise Unsupported('insert')
    le, r = (Seq([]), l.seq) if i == 0 else seqs.split_at(I.ctx, l.seq, i)
    store(I, l, 'seq', Seq(le.pieces + (Items([a[1]]),) + r.pieces))


def l_index(I, l, a, kw):
    for k, x in enumerate(items(I, l)):
        if I.truth(eq(I, x, a[0])):
            return k
    raise_py('ValueError', 'not in list')


def l_remove(I, l, a, kw):
    xs = items(I, l)
    for k, x in enumerate(xs):
        if I.truth(eq(I, x, a[0])):
            return store(I, l, 'seq', Seq([Items(xs[:k] + xs[k + 1:])]))
    raise_py('ValueError', 'not in list')


LIST = {
    'append': l_append, 'extend': l_extend, 'pop': l_pop, 'insert': l_insert, 'index': l_index, 'remove': l_remove,
    'copy': lambda I, l, a, kw: HList(l.seq),
    'clear': lambda I, l, a, kw: store(I, l, 'seq', Seq([])),
    'reverse': lambda I, l, a, kw: store(I, l, 'seq', seqs.reverse(I.ctx, l.seq)),
    'count': lambda I, l, a, kw: sum(1 for x in items(I, l) if I.truth(eq(I, x, a[0]))),
}


# ---------------------------------------------------------------- text methods
def s_splitlines(I, t, a, kw):
    keep = a[0] if a else kw.get('keepends', False)
    keep = I.truth(keep)
    return HList(prog(T.splitlines, I.ctx, t, keep))


def s_split(I, t, a, kw):
    sep = a[0] if a else kw.get('sep')
    mx = a[1] if len(a) > 1 else kw.get('maxsplit', -1)
    if isinstance(t, CONC) and conc(sep) and conc(mx):
        return HList(Seq([Items(prog(host, lambda: t.split(sep, mx)))]))
    if sep is None and mx == -1:
        return HList(prog(T.split_ws, I.ctx, t))
    raise Unsupported('split')


def s_join(I, t, a, kw):
    return prog(T.join, I.ctx, t, iter_seq(I, a[0]))


def s_strip(l, r):
    def f(I, t, a, kw):
        return prog(T.strip, I.ctx, t, l, r, a[0] if a else None)
    return f


def s_just(al):
    def f(I, t, a, kw):
        w = a[0]
        if len(a) > 1 and a[1] != ' ' or not isinstance(w, int):
            raise Unsupported('ljust')
        if isinstance(t, CONC):
            return t.ljust(w) if al == '<' else t.rjust(w)
        return from_text(Text(T.fmt_one(I.ctx, '-' if al == '<' else '', w, None, 's', t, None), t.b))
    return f


def s_case(f):
    return lambda I, t, a, kw: prog(T.change_case, I.ctx, t, f)


def s_starts(end):
    def f(I, t, a, kw):
        x = a[0]
        if isinstance(x, STuple):
            rs = [zb(f(I, t, [y], kw)) for y in items(I, x)]
            return mkbool(z3.Or(rs))
        if isinstance(t, CONC) and isinstance(x, CONC):
            return prog(host, lambda: t.endswith(x) if end else t.startswith(x))
        if not isinstance(x, (str, bytes)):
            raise Unsupported('startswith')
        n = len(x)
        tt = to_text(t)
        lit = x.decode('latin-1') if isinstance(x, bytes) else x
        if not tt.segs:
            return n == 0
        s = tt.segs[-1 if end else 0]
        if isinstance(s, Lit) and len(s.s) >= n:
            return s.s.endswith(lit) if end else s.s.startswith(lit)
        if isinstance(s, Lit):
            k = len(s.s)
            if end and not lit.endswith(s.s) or not end and not lit.startswith(s.s):
                return False
        if end and isinstance(s, (FInt, FFlt)) and (not s.w or s.al == '>') and lit[-1:] not in '0123456789':
            return False
        if end and isinstance(s, RepS) and I.ctx.prove(s.n >= 1):
            return f(I, from_text(Text([sub_seg(q, [(s.j, z3.simplify(s.n - 1))]) for q in s.segs], tt.b)), a, kw)
        L = T.text_len(I.ctx, tt)
        if not I.ctx.prove(zi(L) >= n):
            raise Unsupported('startswith')
        sub = T.slice_text(I.ctx, t, mkint(zi(L) - n), None) if end else T.slice_text(I.ctx, t, 0, n)
        return T.text_eq(I.ctx, sub, x)
    return f


def codec(t, a, kw):
    """texts are those that their utf-8 bytes stand for; other codecs agree on plain numbers and ASCII"""
    import codecs
    name = a[0] if a else kw.get('encoding', 'utf-8')
    if not isinstance(name, str):
        raise Unsupported('encoding %r' % (name,))
    try:
        name = codecs.lookup(name).name
    except LookupError:
        raise_py('LookupError', 'unknown encoding')

    def plain(segs):
        return all(isinstance(s, Lit) and s.s.isascii() or isinstance(s, (FInt, FFlt)) or isinstance(s, RepS) and plain(s.segs)
                   for s in segs)
    if name != 'utf-8' and not (name in ('ascii', 'iso8859-1', 'cp1252') and plain(t.segs)):
        raise Unsupported('encoding %s of a text that may be any' % name)


def s_encode(I, t, a, kw):
    t = to_text(t)
    if t.b:
        raise_py('AttributeError', 'encode')
    if isinstance(from_text(t), str):
        return prog(host, lambda: from_text(t).encode(*a, **kw))
    codec(t, a, kw)
    return Text(t.segs, True)


def s_decode(I, t, a, kw):
    t = to_text(t)
    if not t.b:
        raise_py('AttributeError', 'decode')
    if isinstance(from_text(t), bytes):
        return prog(host, lambda: from_text(t).decode(*a, **kw))
    if T._has_bin(t.segs):
        raise Unsupported('decoding binary data')
    codec(t, a, kw)
    return from_text(Text(t.segs, False))


def s_conc(name):
    def f(I, t, a, kw):
        if isinstance(t, CONC) and all(conc(x) for x in a):
            return prog(host, lambda: getattr(t, name)(*a, **kw))
        raise Unsupported('%s of symbolic text' % name)
    return f


def s_find(I, t, a, kw):
    if isinstance(t, CONC) and all(conc(x) for x in a):
        return prog(host, lambda: t.find(*a))
    raise Unsupported('find in symbolic text')


STR = {
    'splitlines': s_splitlines, 'split': s_split, 'join': s_join, 'strip': s_strip(True, True), 'lstrip': s_strip(True, False),
    'rstrip': s_strip(False, True), 'ljust': s_just('<'), 'rjust': s_just('>'), 'lower': s_case(str.lower), 'upper': s_case(str.upper),
    'startswith': s_starts(False), 'endswith': s_starts(True), 'encode': s_encode, 'decode': s_decode, 'find': s_find,
    'replace': lambda I, t, a, kw: prog(T.replace, I.ctx, t, a[0], a[1]),
    'format': lambda I, t, a, kw: str_format(I, t, a, kw),
}
for _n in ('zfill', 'center', 'count', 'isdigit', 'isspace', 'rfind', 'index', 'title', 'capitalize', 'partition', 'expandtabs'):
    STR[_n] = s_conc(_n)


# ---------------------------------------------------------------- array attributes
def a_astype(I, v, a, kw):
    r = raw_dtype(a[0] if a else kw.get('dtype'))
    if r:
        if v.nd != 1 or v.dt == 'c':
            raise Unsupported('astype')
        return raw_array(I, r, v.seq)
    d = dtype(a[0] if a else kw.get('dtype'))
    if v.nd == 2:
        return Arr(seqs.map_seq(I.ctx, v.seq, lambda r: a_astype(I, r, a, kw)), d, 2)
    return Arr(seqs.map_seq(I.ctx, v.seq, lambda x: cast(I, x, d)), d)


def a_copy(I, v, a=(), kw=None):
    if v.nd == 2:
        return Arr(seqs.map_seq(I.ctx, v.seq, lambda r: Arr(r.seq, r.dt)), v.dt, 2)
    return Arr(v.seq, v.dt)


def a_tolist(I, v, a=(), kw=None):
    if v.nd == 2:
        return HList(seqs.map_seq(I.ctx, v.seq, lambda r: HList(r.seq)))
    return HList(v.seq)


def a_part(which):
    def f(I, v):
        if isinstance(v, Arr):
            if v.dt != 'c':
                return v if which == 0 else Arr(seqs.map_seq(I.ctx, v.seq, lambda x: 0.0), 'f')
            g = lambda x: f(I, x) if isinstance(x, Arr) else cparts(x)[which]
            return Arr(seqs.map_seq(I.ctx, v.seq, g), 'f', v.nd)
        if isinstance(v, (HList, STuple)):
            return f(I, mkarr(I, v))
        if conc(v) and v is not None and not isinstance(v, (str, bytes)):
            return (complex(v).real, complex(v).imag)[which] if isinstance(v, complex) else (v if which == 0 else 0)
        if is_num(v) or is_cplx(v):
            r = cparts(v)[which]
            return r
        raise Unsupported('part of %r' % (v,))
    return f


np_real, np_imag = a_part(0), a_part(1)


def a_reshape(I, v, a, kw):
    """to rows of a constant width"""
    shape = items(I, a[0]) if len(a) == 1 and isinstance(a[0], (STuple, HList)) else list(a)
    f = flatten(I, v)
    n = seqs.seq_len(I.ctx, f.seq)
    if len(shape) == 1 and shape[0] == -1:
        return f
    if len(shape) == 2 and isinstance(shape[1], int) and shape[1] > 0:
        k = shape[1]
        q, r = T.divmod_const(I.ctx, zi(n), k)
        if r:
            raise_py('ValueError', 'cannot reshape array')
        if shape[0] != -1 and not I.ctx.prove(zi(shape[0]) == q):
            if not I.ctx.decide(mkbool(zi(shape[0]) == q)):
                raise_py('ValueError', 'cannot reshape array')
        return view(v, Arr(group(I, f.seq, k, mkint(q), lambda xs: Arr(Seq([Items(xs)]), v.dt)), v.dt, 2))
    raise Unsupported('reshape')


def group(I, s, k, q, f):
    """f of each k consecutive values, q times"""
    if isinstance(q, int):
        xs = concrete_items(s)
        return Seq([Items([f(xs[k * i:k * i + k]) for i in range(q)])])
    ctx = I.ctx

    def at(i):
        return f([prog(seqs.index, ctx, s, mkint(z3.simplify(i * k + t))) for t in range(k)])

    def many(n, m):
        j = fresh_int('gr')
        ctx.push([j])
        try:
            ctx.assume(z3.And(j >= 0, j < n))
            if not ctx.feasible():
                return []
            return [Gen(n, j, [at(m * j + i) for i in range(m)])]
        except T.NeedGroup as e:
            if not e.j.eq(j) or not 2 <= e.k * m <= 64:
                raise
            again = e.k * m
        finally:
            ctx.pop()
        n, r = T.divmod_const(ctx, z3.simplify(m * n), again)
        return many(n, again) + [Items([at(z3.simplify(again * n + i)) for i in range(r)])]
    r = by_pieces(I, s, k, f)
    return r if r is not None else Seq(many(q.e, 1))


def by_pieces(I, s, k, f):
    """f of each k consecutive values, going through the pieces (None: they are not made of groups that allow it)"""
    import math
    ctx = I.ctx
    out, carry = [], []
    try:
        for p in s.pieces:
            if isinstance(p, Items):
                carry += list(p.v)
            elif carry or not isinstance(p, Gen) or seqs.gconst(ctx, p) is None:
                return None
            else:
                c = seqs.gconst(ctx, p)
                c = c if isinstance(c, int) else c.as_long()
                m = math.lcm(c, k) // c
                if c == 0 or m > 32:
                    return None
                n, r = T.divmod_const(ctx, p.n, m)
                if not ctx.prove(n >= 0):
                    return None
                j = fresh_int('gr')
                ctx.push([j])
                try:
                    ctx.assume(z3.And(j >= 0, j < n))
                    if ctx.feasible():
                        xs = [x for i in range(m) for x in concrete_items(seqs.parts_seq(seqs.group_at(p, z3.simplify(m * j + i))))]
                        out.append(Gen(n, j, [f(xs[i:i + k]) for i in range(0, len(xs), k)]))
                finally:
                    ctx.pop()
                for i in range(r):
                    carry += concrete_items(seqs.parts_seq(seqs.group_at(p, z3.simplify(m * n + i))))
            full = len(carry) // k * k
            if full:
                out.append(Items([f(carry[i:i + k]) for i in range(0, full, k)]))
                carry = carry[full:]
    except Unsupported:
        return None
    return None if carry else Seq(out)


def minmax(I, xs, big):
    v = xs[0]
    for x in xs[1:]:
        c = compare(I, 'Gt' if big else 'Lt', x, v)
        if isinstance(c, SBool):
            v = I.merge(c.e, x, v)
        elif c:
            v = x
    return v


def seq_all(I, s, want_all=True):
    r = []
    for p in s.pieces:
        if isinstance(p, Items):
            r.extend(zb(truth(I, x)) for x in p.v)
        elif isinstance(p, Gen):
            e = exists(I, Seq([p]), (lambda x: neg(truth(I, x))) if want_all else (lambda x: truth(I, x)))
            r.append(z3.Not(zb(e)) if want_all else zb(e))
        else:
            raise Unsupported('all')
    if not r:
        return want_all
    return mkbool(z3.And(r) if want_all else z3.Or(r))


ARRM = {
    'tobytes': lambda I, v, a, kw: a_tobytes(I, v, a, kw), 'copy': a_copy, 'tolist': a_tolist, 'astype': a_astype, 'reshape': a_reshape,
    'flatten': lambda I, v, a, kw: a_copy(I, flatten(I, v)), 'ravel': lambda I, v, a, kw: view(v, flatten(I, v)),
    'transpose': lambda I, v, a, kw: transpose(I, v),
    'sum': lambda I, v, a, kw: sum_seq(I, flatten(I, v).seq),
    'all': lambda I, v, a, kw: seq_all(I, flatten(I, v).seq), 'any': lambda I, v, a, kw: seq_all(I, flatten(I, v).seq, False),
    'item': lambda I, v, a, kw: getitem(I, flatten(I, v), a[0] if a else 0),
    'max': lambda I, v, a, kw: minmax(I, items(I, v), True), 'min': lambda I, v, a, kw: minmax(I, items(I, v), False),
}


def arr_attr(I, v, name):
    if name == 'T':
        return transpose(I, v)
    if name == 'shape':
        n = seqs.seq_len(I.ctx, v.seq)
        return t2(n) if v.nd == 1 else t2(n, row_width(I, v))
    if name == 'size':
        return seqs.seq_len(I.ctx, flatten(I, v).seq)
    if name == 'ndim':
        return v.nd
    if name == 'real':
        return np_real(I, v)
    if name == 'imag':
        return np_imag(I, v)
    if name == 'dtype':
        return dtype_obj(v.dt)
    return None


# ---------------------------------------------------------------- files
def f_write(I, f, a, kw):
    if f.attrs['closed'] is True:
        raise_py('ValueError', 'I/O operation on closed file.')
    t = a[0]
    if not is_text(t):
        if conc(t) or is_num(t) or isinstance(t, (HList, HDict, STuple)):
            raise_py('TypeError', 'write() argument must be str')
        raise Unsupported('write of %r' % (t,))
    tt = to_text(t)
    if tt.b != f.attrs['binary']:
        raise_py('TypeError', 'write() argument must be str or bytes')
    if f.attrs['mode'][0] not in 'aw':
        raise Unsupported('write in mode %s' % f.attrs['mode'])
    c = f.attrs['content']
    cur = c.attrs['t']
    I.setattr_(c, 't', Text(list(to_text(cur).segs) + list(tt.segs), True))
    return None


def f_close(I, f, a, kw):
    I.setattr_(f, 'closed', True)


def f_read(I, f, a, kw):
    if f.attrs['closed'] is True:
        raise_py('ValueError', 'I/O operation on closed file.')
    if f.attrs['mode'][0] != 'r' and '+' not in f.attrs['mode']:
        raise_py('ValueError', 'not readable')
    c = f.attrs['content']
    k = a[0] if a else kw.get('size')
    pos = f.attrs.get('pos', 0)
    if isinstance(c.attrs['t'], Raw):
        if not f.attrs['binary']:
            raise Unsupported('unknown bytes read as text')
        t = c.attrs['t']
        end = None if k is None or isinstance(k, int) and k < 0 else mkint(zi(pos) + zi(k))
        if end is not None and not I.ctx.prove(zi(k) >= 0):
            raise Unsupported('read(%r)' % (k,))
        r = raw.cut(I, t, pos, end)
        I.setattr_(f, 'pos', mkint(zi(pos) + r.hi - r.lo))
        return r
    t = to_text(c.attrs['t'])
    if not f.attrs['binary'] and (k is not None or not conc(pos) or pos):
        raise Unsupported('partial read of a text file')
    if (k is None or isinstance(k, int) and k < 0) and isinstance(pos, int) and pos == 0:
        try:
            end = mkint(file_len(I, c))
        except Unsupported:
            end = SInt(fresh_int('eof'))
        I.setattr_(f, 'pos', end)
        return from_text(Text(t.segs, f.attrs['binary']))
    ctx = I.ctx
    total = file_len(I, c)
    p0 = zi(pos)
    p1 = total if k is None else p0 + zi(k)
    if k is not None and not ctx.prove(zi(k) >= 0):
        if ctx.decide(mkbool(zi(k) < 0)):
            p1 = total
    if not ctx.prove(p1 <= total):
        if ctx.decide(mkbool(p1 > total)):
            p1 = total
    r = cut(I, c, p0, p1)
    I.setattr_(f, 'pos', mkint(z3.simplify(p1)))
    return from_text(Text(r.segs, True))


def file_len(I, c):
    """length of a file in bytes"""
    if isinstance(c.attrs['t'], Raw):
        return c.attrs['t'].hi
    if 'chunks' in c.attrs:
        return z3.Sum([z3.IntVal(0)] + [l for _, l in c.attrs['chunks']])
    t = to_text(c.attrs['t'])
    for s in t.segs:
        if not isinstance(s, (Lit, Opq)):
            raise Unsupported('length of a file with symbolic texts')
    return zi(T.text_len(I.ctx, t))


def cut(I, c, p0, p1):
    """the bytes p0 to p1 of a file, at known boundaries"""
    ctx = I.ctx
    if 'chunks' not in c.attrs:
        return to_text(T.slice_text(ctx, to_text(c.attrs['t']), mkint(p0), mkint(p1)))
    at, out, on = z3.IntVal(0), [], False
    for t, l in c.attrs['chunks']:
        if on and ctx.prove(at == p1):
            return Text(norm_segs(out), True)
        if not on and ctx.prove(at == p0):
            on = True
            if ctx.prove(p0 == p1):
                return Text([], True)
        if on:
            out += list(t.segs)
        at = z3.simplify(at + l)
    if on and ctx.prove(at == p1):
        return Text(norm_segs(out), True)
    raise Unsupported('read of a part of a file: %s to %s' % (z3.simplify(p0), z3.simplify(p1)))


def known_chunk(I, t):
    """a part of a file that is exactly one piece of known content"""
    if isinstance(t, Text) and t.b and len(t.segs) == 1 and isinstance(t.segs[0], Opq):
        for c in (I.files or {}).values():
            if isinstance(c, HObj) and 'chunks' in c.attrs and len(to_text(c.attrs['t']).segs) == len(c.attrs['chunks']):
                for q, (known, ln) in zip(to_text(c.attrs['t']).segs, c.attrs['chunks']):
                    if isinstance(q, Opq) and q.e.eq(t.segs[0].e):
                        return known
    return t


def f_seek(I, f, a, kw):
    if f.attrs['closed'] is True:
        raise_py('ValueError', 'I/O operation on closed file.')
    wh = a[1] if len(a) > 1 else kw.get('whence', 0)
    if f.attrs['mode'][0] in 'aw' or not isinstance(wh, int) or wh not in (0, 2) or not is_num(a[0]):
        raise Unsupported('seek')
    p = zi(a[0]) if wh == 0 else file_len(I, f.attrs['content']) + zi(a[0])
    if p is None:
        raise Unsupported('seek')
    if not I.ctx.prove(p >= 0):
        if I.ctx.decide(mkbool(p < 0)):
            raise_py('OSError', 'Invalid argument')
    I.setattr_(f, 'pos', mkint(p))
    return mkint(p)


def f_tell(I, f, a, kw):
    if f.attrs['mode'][0] == 'r':
        return f.attrs.get('pos', 0)
    return mkint(file_len(I, f.attrs['content']))


def f_truncate(I, f, a, kw):
    if f.attrs['closed'] is True:
        raise_py('ValueError', 'I/O operation on closed file.')
    if f.attrs['mode'] not in ('r+b', 'rb+', 'ab', 'wb') or not a:
        raise Unsupported('truncate')
    c = f.attrs['content']
    if 'chunks' in c.attrs:
        raise Unsupported('truncate')
    t = to_text(c.attrs['t'])
    I.setattr_(c, 't', from_text(Text(to_text(T.slice_text(I.ctx, t, 0, a[0])).segs, True)))
    return a[0]


def f_flush(I, f, a, kw):
    return None


FILE = {'write': f_write, 'close': f_close, 'read': f_read, 'flush': f_flush, 'seek': f_seek, 'tell': f_tell,
        'truncate': f_truncate,
        'writelines': lambda I, f, a, kw: f_write(I, f, [T.join(I.ctx, b'' if f.attrs['binary'] else '', iter_seq(I, a[0]))], kw)}


def open_file(I, a, kw):
    name = a[0]
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if not isinstance(mode, str):
        raise Unsupported('open mode')
    if len(set(mode)) != len(mode) or not set(mode) <= set('rwaxbt+') or len(set(mode) & set('rwax')) != 1 or \
            'b' in mode and 't' in mode or 'b' in mode and kw.get('encoding') is not None:
        raise_py('ValueError', 'invalid mode: %r' % mode)
    mode = mode.replace('t', '')
    h = getattr(I, 'open_hook', None)
    if h is not None:
        return h(I, name, mode, kw)
    c = file_of(I, name)
    if 'w' in mode or 'a' in mode or 'x' in mode:
        if 'x' in mode:
            raise Unsupported('open mode x')
        if c is None:
            raise Unsupported('creation of another file: %r' % (name,))
        I.setattr_(c, 'exists', True)
        if 'w' in mode:
            I.setattr_(c, 't', b'')
    elif c is None or c.attrs.get('exists', True) is not True:
        if c is None:
            raise Unsupported('open of %r' % (name,))
        raise_py('FileNotFoundError', 'No such file or directory')
    enc = kw.get('encoding')
    if 'b' not in mode and enc not in ('utf-8', 'utf8', 'UTF-8'):
        raise Unsupported('text file without the utf-8 encoding')
    if 'b' not in mode and kw.get('newline') not in ((None,) if 'r' in mode else (None, '', '\n')) or len(a) > 2 or \
            set(kw) - {'file', 'mode', 'encoding', 'errors', 'newline', 'buffering'}:
        raise Unsupported('open with %r' % (kw,))
    if '+' in mode and mode not in ('r+b', 'rb+'):
        raise Unsupported('open mode %s' % mode)
    return mkfile(c, mode)


def file_of(I, name):
    for k, c in I.files.items():
        if k is name or conc(k) and conc(name) and k == name or same(k, name):
            return c
    return None


def file_size(I, a, kw):
    c = file_of(I, a[0])
    if c is None:
        raise Unsupported('size of %r' % (a[0],))
    if c.attrs.get('exists', True) is not True:
        raise_py('FileNotFoundError', 'No such file or directory')
    return mkint(file_len(I, c))


def splitext(I, a, kw):
    if conc(a[0]):
        return t2(*host(lambda: __import__('os').path.splitext(a[0])))
    e = to_text(a[0]).segs
    if len(e) != 1 or not isinstance(e[0], FAtom) or e[0].w:
        raise Unsupported('splitext')
    return t2(*[Text([FAtom(0, '<', z3.Function(f, AtomSort, AtomSort)(e[0].e))]) for f in ('path_root', 'path_ext')])


def os_truncate(I, a, kw):
    c = file_of(I, a[0]) if not hasattr(I, 'open_hook') else None
    if c is None or len(a) != 2:
        raise Unsupported('truncation of %r' % (a[0],))
    if c.attrs.get('exists', True) is not True:
        raise_py('FileNotFoundError', 'No such file or directory')
    f_truncate(I, mkfile(c, 'r+b'), [a[1]], {})


def os_stat(I, a, kw):
    return HObj('stat_result', {'st_size': file_size(I, a, kw)})


def file_exists(I, a, kw):
    if hasattr(I, 'exists_hook'):
        return I.exists_hook(I, a[0])
    c = file_of(I, a[0])
    if c is None:
        raise Unsupported('existence of %r' % (a[0],))
    return c.attrs.get('exists', True)


def mkfile(content, mode):
    return HObj('file', {'content': content, 'mode': mode, 'binary': 'b' in mode, 'closed': False})


# ---------------------------------------------------------------- attributes
def method(tab, name):
    return tab.get(name)


def attr(I, o, name):
    if type(o) in (Alt, NpElt):
        o = I.force(o)
    if is_text(o):
        if name in STR:
            if isinstance(o, bytes) and name in ('format', 'encode'):
                raise_py('AttributeError', name)
            return Bound(o, name, STR[name])
        raise_attr(str, o, name)
    if isinstance(o, Raw):
        if name in raw.METHODS:
            return Bound(o, name, raw.METHODS[name])
        raise_attr(bytes, o, name)
    if isinstance(o, HList):
        if name in LIST:
            return Bound(o, name, LIST[name])
        raise_attr(list, o, name)
    if isinstance(o, HDict):
        if name in DICT:
            return Bound(o, name, DICT[name])
        raise_attr(dict, o, name)
    if isinstance(o, STuple):
        if name in ('index', 'count'):
            return Bound(o, name, LIST[name])
        raise_attr(tuple, o, name)
    if isinstance(o, Arr):
        if name in ARRM:
            return Bound(o, name, ARRM[name])
        v = arr_attr(I, o, name)
        if v is not None:
            return v
        raise Unsupported('array attribute %s' % name)
    if isinstance(o, HObj):
        if o.cls == 'file':
            if name in FILE:
                return Bound(o, name, FILE[name])
            if name == 'closed':
                return o.attrs['closed']
        h = o.attrs.get('.' + name)
        if h is not None:
            return Bound(o, name, h)
        if name in o.attrs:
            return o.attrs[name]
        raise Unsupported('%s of %r' % (name, o))
    if isinstance(o, TypeV) or isinstance(o, type):
        if name == '__name__':
            return o.__name__.strip('~').split('~')[0]
        if isinstance(o, TypeV) and o.__name__ == 'dict' and name == 'fromkeys':
            return Builtin('fromkeys', lambda I, a, kw: HDict([(k, True, a[1] if len(a) > 1 else None) for k in items(I, a[0])]))
        if isinstance(o, TypeV) and o.__name__ == 'str' and name in STR:
            return Builtin(name, lambda I, a, kw: STR[name](I, a[0], a[1:], kw))
        raise Unsupported('type attribute %s' % name)
    if isinstance(o, PyExc):
        if name in o.attrs:
            return o.attrs[name]
        if name == 'args':
            return STuple(Seq([Items(o.eargs)]))
        raise_py('AttributeError', name)
    if is_num(o) or is_cplx(o):
        if name == 'real':
            return np_real(I, o)
        if name == 'imag':
            return np_imag(I, o)
        if name == 'conjugate':
            return Bound(o, name, lambda I, v, a, kw: mkcplx(cparts(v)[0], unop(I, 'USub', cparts(v)[1])))
        if name == 'copy' and not isinstance(o, CONC):
            raise Unsupported('copy of a number')
        raise Unsupported('attribute %s of a number' % name)
    if o is None:
        raise_py('AttributeError', name)
    if isinstance(o, Closure) and name in ('__name__', '__doc__'):
        return o.name
    raise Unsupported('attribute %s of %r' % (name, o))


def raise_attr(t, o, name):
    if hasattr(t, name):
        raise Unsupported('%s.%s' % (t.__name__, name))
    raise_py('AttributeError', name)


def atom_of(v):
    if isinstance(v, str):
        return lit_atom(v)
    if isinstance(v, Text) and not v.b and len(v.segs) == 1 and isinstance(v.segs[0], FAtom) and v.segs[0].w == 0:
        return v.segs[0].e
    return None


# ---------------------------------------------------------------- built-in functions
class KInt(int):
    """an int object that is known to be of Python's type"""


def b_type(I, a, kw):
    v = a[0]
    if len(a) != 1:
        raise Unsupported('type()')
    if type(v) is NpElt:
        v = v.v
        if is_text(v):
            return TypeV('str_')
    elif I.alts and type(v) in (int, SInt, SReal, float, SCplx, complex):
        # (only Python's own numbers are given, see builders.py)
        return TYPES['int' if type(v) in (int, SInt) else 'float' if is_real(v) else 'complex']
    if isinstance(v, (HList,)):
        return TYPES['list']
    if isinstance(v, STuple):
        return TYPES['tuple']
    if isinstance(v, HDict):
        return TYPES['dict']
    if isinstance(v, Arr):
        return TYPES['ndarray']
    if isinstance(v, (bytes, Raw)) or isinstance(v, Text) and v.b:
        return TYPES['bytes']
    if is_text(v):
        return TYPES['str']
    if v is None:
        return TYPES['NoneType']
    if isinstance(v, SetV):
        return TYPES['set']
    if isinstance(v, (bool, SBool)):
        return TypeV('~bool~int~')
    if isinstance(v, KInt) or type(v) is SInt and z3.is_app(v.e) and v.e.decl().name() in I.ctx.keyfuns:
        return TYPES['int']
    if isinstance(v, (int, SInt)):
        return TypeV('~int~')
    if is_real(v):
        return TypeV('~float~')
    if is_cplx(v):
        return TypeV('~complex~')
    if isinstance(v, HObj) and isinstance(v.cls, Class):
        return v.cls
    if isinstance(v, PyExc):
        return v.cls
    raise Unsupported('type of %r' % (v,))


def b_isinstance(I, a, kw):
    v, t = a
    if isinstance(t, STuple):
        return any(b_isinstance(I, [v, x], kw) for x in items(I, t))
    if isinstance(t, Class):
        c = v.cls if isinstance(v, HObj) else None
        while isinstance(c, Class):
            if c is t:
                return True
            c = c.bases[0] if c.bases else None
        return False
    if isinstance(t, type):
        return isinstance(v, PyExc) and isinstance(v.cls, type) and issubclass(v.cls, t)
    if not isinstance(t, TypeV):
        raise Unsupported('isinstance')
    n = t.__name__
    if n == 'object':
        return True
    x = b_type(I, [v], {})
    if isinstance(x, TypeV) and x.__name__ in ('int', 'float', 'complex') and n in ('Number', 'Complex', 'Real', 'Rational', 'Integral'):
        return n in ('Number', 'Complex') or n == 'Real' and x.__name__ != 'complex' or x.__name__ == 'int'
    if isinstance(x, TypeV) and x.__name__ == 'str_':
        return n in ('str', 'str_', 'generic', 'character', 'flexible')
    if isinstance(x, TypeV) and x.__name__.startswith('~'):
        ks = x.__name__.strip('~').split('~')
        if n in ('float', 'complex') and n == ks[0]:
            return True
        if n in ('number', 'Number'):
            return True
        if n in ks or n in ('integer', 'floating', 'generic', 'complexfloating', 'int64', 'float64'):
            raise Unsupported('the type of a number: Python or numpy')
        return False
    return isinstance(x, TypeV) and x.__name__ == n


def b_int(I, a, kw):
    if not a:
        return 0
    v = a[0]
    if len(a) > 1:
        raise Unsupported('int with base')
    if is_text(v):
        return prog(T.parse_num, I.ctx, v, 'int')
    if isinstance(v, Raw):
        return raw.to_int(I, v)
    if isinstance(v, Arr):
        v = one(I, v)
    if v is None or isinstance(v, (HList, HDict, STuple)):
        raise_py('TypeError', 'int() argument')
    return to_int(I, v)


def one(I, v):
    n = seqs.seq_len(I.ctx, v.seq)
    if n != 1 or v.nd != 1:
        raise Unsupported('an array as a number')
    return seqs.index(I.ctx, v.seq, 0)


def b_float(I, a, kw):
    if not a:
        return 0.0
    v = a[0]
    if is_text(v):
        return prog(T.parse_num, I.ctx, v, 'float')
    if isinstance(v, Arr):
        v = one(I, v)
    if v is None or isinstance(v, (HList, HDict, STuple)) or is_cplx(v):
        raise_py('TypeError', 'float() argument')
    return to_float(v)


def b_complex(I, a, kw):
    if len(a) == 1:
        if is_cplx(a[0]):
            return a[0]
        if is_num(a[0]):
            return mkcplx(to_float(a[0]), 0.0)
        raise Unsupported('complex of %r' % (a[0],))
    if len(a) == 2 and is_num(a[0]) and is_num(a[1]):
        return mkcplx(to_float(a[0]), to_float(a[1]))
    raise Unsupported('complex()')


def b_range(I, a, kw):
    a = list(a)
    for k, x in enumerate(a):
        if isinstance(x, SBool):
            a[k] = mkint(zi(x))
        if not isinstance(a[k], (int, SInt)):
            raise_py('TypeError', 'object cannot be interpreted as an integer')
    if len(a) == 1:
        return Range(0, a[0], 1)
    return Range(a[0], a[1], a[2] if len(a) > 2 else 1)


def b_zip(I, a, kw):
    ctx = I.ctx
    ss = [iter_seq(I, x) for x in a]
    if not ss:
        return HList(Seq([]))
    ls = [seqs.seq_len(ctx, s) for s in ss]
    for k in range(1, len(ls)):
        if ctx.prove(zi(ls[0]) == zi(ls[k])):
            continue
        # the shortest counts
        if ctx.decide(mkbool(zi(ls[0]) <= zi(ls[k]))):
            ss[k] = seqs.split_at(ctx, ss[k], ls[0])[0]
            ls[k] = ls[0]
        else:
            for q in range(k):
                ss[q] = seqs.split_at(ctx, ss[q], ls[k])[0]
                ls[q] = ls[k]
    if len(ss) == 1:
        return HList(seqs.map_seq(ctx, ss[0], lambda x: t2(x)))
    return HList(zipit(ctx, ss, t2))


def zipit(ctx, ss, f):
    try:
        return seqs.zip_seq(ctx, ss, f)
    except seqs.Misaligned as e:
        raise Unsupported('zip of lists grouped differently (%s)' % e)


def b_enumerate(I, a, kw):
    s = iter_seq(I, a[0])
    st = a[1] if len(a) > 1 else kw.get('start', 0)
    out, pos = [], zi(st)
    for p in s.pieces:
        if isinstance(p, Items):
            out.append(Items([t2(mkint(pos + k), x) for k, x in enumerate(p.v)]))
            pos = pos + len(p.v)
        elif isinstance(p, Gen):
            c = seqs.gconst(I.ctx, p)
            if c is None or any(isinstance(x, Splice) for x in p.parts):
                raise Unsupported('enumerate over a nested list')
            out.append(Gen(p.n, p.j, [t2(mkint(pos + c * p.j + k), x) for k, x in enumerate(p.parts)]))
            pos = z3.simplify(pos + c * p.n)
        else:
            raise Unsupported('enumerate')
    return HList(Seq(out))


def b_map(I, a, kw):
    f = a[0]
    if len(a) == 2:
        return HList(seqs.map_seq(I.ctx, iter_seq(I, a[1]), lambda x: I.call(f, [x])))
    z = b_zip(I, a[1:], {})
    return HList(seqs.map_seq(I.ctx, z.seq, lambda t: I.call(f, items(I, t))))


def b_list(I, a, kw):
    return HList(iter_seq(I, a[0])) if a else HList(Seq([]))


def b_tuple(I, a, kw):
    return STuple(iter_seq(I, a[0])) if a else STuple(Seq([]))


def b_dict(I, a, kw):
    d = HDict()
    for x in a:
        dict_update(I, d, x)
    for k, v in kw.items():
        dict_set(I, d, k, v)
    return d


def b_set(I, a, kw):
    if not a:
        return SetV(())
    out = items(I, unordered(I, a[0]))
    if not all(conc(x) for x in out):
        raise Unsupported('set of symbolic values')
    return make_set(out)


def b_sum(I, a, kw):
    s = iter_seq(I, a[0])
    t = sum_seq(I, s)
    return num_op(I, 'Add', a[1], t) if len(a) > 1 else t


def b_minmax(big):
    def f(I, a, kw):
        xs = items(I, unordered(I, a[0])) if len(a) == 1 else list(a)
        if not xs:
            raise_py('ValueError', 'empty sequence')
        if kw:
            raise Unsupported('key')
        return minmax(I, xs, big)
    return f


def b_abs(I, a, kw):
    v = a[0]
    if conc(v):
        return prog(host, abs, v)
    if is_real(v):
        return mkreal(z3.If(zr(v) >= 0, zr(v), -zr(v)))
    return mkint(z3.If(zi(v) >= 0, zi(v), -zi(v)))


def b_sorted(I, a, kw):
    xs = items(I, unordered(I, a[0]))
    if not all(conc(x) for x in xs) or 'key' in kw:
        raise Unsupported('sorted')
    return HList(Seq([Items(prog(host, lambda: sorted(xs, reverse=bool(kw.get('reverse', False)))))]))


def b_hasattr(I, a, kw):
    if a[1] in ('__len__', '__iter__', '__getitem__'):
        v = I.force(a[0])
        if isinstance(v, (HList, STuple, HDict, Arr, SetV)) or is_text(v):
            return True
        if v is None or is_num(v) or is_cplx(v):
            return False
    try:
        I.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if e.cls is AttributeError:
            return False
        raise


def b_getattr(I, a, kw):
    try:
        return I.getattr(a[0], a[1])
    except PyExc as e:
        if e.cls is AttributeError and len(a) > 2:
            return a[2]
        raise


def b_round(I, a, kw):
    v = a[0]
    if all(conc(x) for x in a):
        return prog(host, round, *a)
    if isinstance(v, SInt) and len(a) == 1:
        return v
    if isinstance(v, SReal) and T.int_like(v) is not None:
        return mkint(T.int_like(v)) if len(a) == 1 else v
    raise Unsupported('round')


def b_iter(I, a, kw):
    return HObj('iter', {'seq': iter_seq(I, a[0])})


def b_next(I, a, kw):
    o = a[0]
    if not isinstance(o, HObj) or o.cls != 'iter':
        raise Unsupported('next')
    s = o.attrs['seq']
    n = seqs.seq_len(I.ctx, s)
    if not I.ctx.decide(mkbool(zi(n) >= 1)):
        if len(a) > 1:
            return a[1]
        raise_py('StopIteration')
    vs, rest = seqs.take_front(I.ctx, s, 1)
    I.setattr_(o, 'seq', rest)
    return vs[0]


TYPES = {n: TypeV(n) for n in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'bool', 'complex', 'bytes', 'object',
                               'NoneType', 'ndarray', 'slice', 'frozenset')}
TYPES['int'].f, TYPES['float'].f, TYPES['complex'].f = b_int, b_float, b_complex
TYPES['str'].f = lambda I, a, kw: to_str(I, a[0]) if len(a) == 1 else '' if not a else s_decode(I, a[0], a[1:], kw)
TYPES['list'].f, TYPES['tuple'].f, TYPES['dict'].f, TYPES['set'].f = b_list, b_tuple, b_dict, b_set
TYPES['bool'].f = lambda I, a, kw: truth(I, a[0]) if a else False
TYPES['bytes'].f = lambda I, a, kw: s_encode(I, a[0], a[1:], kw) if a and is_text(a[0]) and not to_text(a[0]).b else a[0] if a else b''
TYPES['slice'].f = lambda I, a, kw: SliceV(*( [None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3]))


def make_builtins(I):
    B = {k: v for k, v in TYPES.items() if k not in ('NoneType', 'ndarray')}
    for n, f in {
        'len': lambda I, a, kw: vlen(I, a[0]), 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map,
        'type': b_type, 'isinstance': b_isinstance, 'sum': b_sum, 'min': b_minmax(False), 'max': b_minmax(True), 'abs': b_abs,
        'print': lambda I, a, kw: None, 'sorted': b_sorted, 'hasattr': b_hasattr, 'getattr': b_getattr, 'round': b_round,
        'reversed': lambda I, a, kw: HList(seqs.reverse(I.ctx, iter_seq(I, a[0]))),
        'all': lambda I, a, kw: seq_all(I, iter_seq(I, unordered(I, a[0]))), 'any': lambda I, a, kw: seq_all(I, iter_seq(I, unordered(I, a[0])), False),
        'open': open_file, 'iter': b_iter, 'next': b_next, 'format': lambda I, a, kw: fmt(I, a[0], a[1] if len(a) > 1 else ''),
        'callable': lambda I, a, kw: isinstance(a[0], (Closure, Builtin, Bound, Class, TypeV)),
        'divmod': lambda I, a, kw: t2(binop(I, 'FloorDiv', a[0], a[1]), binop(I, 'Mod', a[0], a[1])),
        'setattr': lambda I, a, kw: I.set_attr(a[0], a[1], a[2]),
        'filter': lambda I, a, kw: HList(Seq([Items([x for x in items(I, a[1]) if I.truth(I.call(a[0], [x]) if a[0] is not None else x)])])),
        'chr': lambda I, a, kw: prog(host, chr, a[0]) if conc(a[0]) else raise_unsup('chr'),
        'ord': lambda I, a, kw: prog(host, ord, a[0]) if conc(a[0]) else raise_unsup('ord'),
    }.items():
        B[n] = Builtin(n, f)
    B['True'], B['False'], B['None'] = True, False, None
    B['NotImplemented'] = TypeV('NotImplemented')
    return B


def raise_unsup(m):
    raise Unsupported(m)


# ---------------------------------------------------------------- modules
def B(name, f):
    return Builtin(name, f)


def np_full(val):
    def f(I, a, kw):
        n = a[0] if a else kw['shape']
        d = dtype(kw.get('dtype', a[1] if len(a) > 1 else None)) or 'f'
        x = cast(I, val, d) if d != 'U' else ''
        if isinstance(n, (STuple, HList)):
            sh = items(I, n)
            if len(sh) == 1:
                n = sh[0]
            elif len(sh) == 2:
                row = repeat_seq(I, Seq([Items([x])]), sh[1])
                if isinstance(sh[0], int):
                    return Arr(Seq([Items([Arr(row, d) for _ in range(sh[0])])]), d, 2)
                return Arr(Seq([Gen(zi(sh[0]), fresh_int('z'), [Arr(row, d)])]), d, 2)
            else:
                raise Unsupported('array of %d dimensions' % len(sh))
        if not isinstance(n, (int, SInt)):
            raise Unsupported('array of shape %r' % (n,))
        return Arr(repeat_seq(I, Seq([Items([x])]), n), d)
    return f


def np_array(copy):
    def f(I, a, kw):
        d = kw.get('dtype', a[1] if len(a) > 1 else None)
        v = a[0]
        if raw_dtype(d) or isinstance(v, HObj) and v.cls == 'rawarr':
            if isinstance(v, HObj) and v.cls == 'rawarr':
                return v.attrs['.astype'](I, v, [d], {}) if d is not None else v
            q = mkarr(I, v) if not isinstance(v, Arr) else v
            return a_astype(I, q, [d], {})
        d = dtype(d)
        if isinstance(v, Arr) and not copy and d in (None, v.dt):
            return v
        if I.alts and d is None and (v is None or is_text(v) or is_num(v) or is_cplx(v) or isinstance(v, HDict)):
            # an array without dimensions, of which only the type is asked
            k = dt_of(v) if not isinstance(v, (Text, HDict)) and v is not None else 'O' if not isinstance(v, Text) else 'U'
            return HObj('array', {'dtype': dtype_obj(k), 'ndim': 0, 'shape': STuple(Seq([])), 'size': 1})
        if I.alts and d is None and isinstance(v, (HList, STuple, Arr)) and any(x is None for x in seq_flat(v.seq)):
            return HObj('array', {'dtype': dtype_obj('O')})
        if I.alts and d is None and isinstance(v, (HList, STuple)) and arr_nd(I, v.seq) == 3:
            return HObj('array', {'dtype': dtype_obj(common_dt({x.dt for x in seq_flat(v.seq)}))})
        return mkarr(I, v, d)
    return f


def seq_flat(s):
    for p in s.pieces:
        for x in p.v if isinstance(p, Items) else p.parts if isinstance(p, Gen) else ():
            if isinstance(x, Splice):
                yield from seq_flat(x.seq)
            else:
                yield x


def dtype_obj(k):
    return HObj('dtype', {'kind': k, 'name': {'i': 'int64', 'f': 'float64', 'c': 'complex128'}.get(k, k)})


def dtype_is(d, t):
    """numpy's comparison of a dtype"""
    k = d.attrs['kind']
    if isinstance(t, HObj) and t.cls == 'dtype':
        return k == t.attrs['kind']
    n = t if isinstance(t, str) else t.__name__.strip('~').split('~')[0] if isinstance(t, TypeV) else None
    if t is None or n in ('float', 'float64', 'd', 'f8', 'double'):
        return k == 'f'
    if n in ('int', 'int64', 'i8', 'l'):
        return k == 'i'
    if n in ('complex', 'complex128', 'D'):
        return k == 'c'
    if n in ('bool', 'bool_'):
        return k == 'b'
    if n in ('object', 'O'):
        return k == 'O'
    if n in ('int32', 'float32', 'i4', 'f4', 'complex64'):
        return False
    raise Unsupported('type of array elements compared with %r' % (t,))


def np_issubdtype(I, a, kw):
    d, t = a
    if isinstance(d, HObj) and d.cls == 'dtype' and isinstance(t, TypeV):
        ks = {'number': 'ifc', 'integer': 'i', 'signedinteger': 'i', 'inexact': 'fc', 'floating': 'f', 'complexfloating': 'c',
              'int': 'i', 'int64': 'i', 'float': 'f', 'float64': 'f', 'complex': 'c', 'complex128': 'c', 'generic': 'ifcUObS',
              'bool': 'b', 'bool_': 'b'}.get(t.__name__)
        if ks:
            return d.attrs['kind'] in ks
    raise Unsupported('issubdtype')


def np_arange(I, a, kw):
    a = list(a)
    if len(a) == 1:
        st, en, s = 0, a[0], 1
    else:
        st, en, s = a[0], a[1], a[2] if len(a) > 2 else 1
    fl = any(is_real(x) for x in (st, en, s))
    if is_real(en):
        e = T.int_like(en) if not isinstance(en, Quot) else None
        if isinstance(en, Quot):
            q, r = T.divmod_const(I.ctx, zi(en.num), en.den)
            e = z3.simplify(q + (1 if r else 0))
        if e is None:
            raise Unsupported('arange to a real')
        en = mkint(e)
    if not isinstance(st, (int, SInt)) or not isinstance(s, int):
        raise Unsupported('arange')
    q = range_seq(I, Range(st, en, s))
    if fl:
        q = seqs.map_seq(I.ctx, q, to_float)
    return Arr(q, 'f' if fl else 'i')


def np_stack(I, a, kw, rows=True):
    vs = items(I, a[0])
    vs = [mkarr(I, v) if not isinstance(v, Arr) else v for v in vs]
    d = common_dt({v.dt for v in vs})
    if all(v.nd == 1 for v in vs):
        ls = [seqs.seq_len(I.ctx, v.seq) for v in vs]
        for l in ls[1:]:
            if not I.ctx.prove(zi(l) == zi(ls[0])):
                if not I.ctx.decide(mkbool(zi(l) == zi(ls[0]))):
                    raise_py('ValueError', 'all the input array dimensions must match')
        r = Arr(Seq([Items([Arr(v.seq, d) for v in vs])]), d, 2)
        return r if rows else transpose(I, r)
    if all(v.nd == 2 for v in vs) and rows:
        return Arr(seqs.concat(*[v.seq for v in vs]), d, 2)
    raise Unsupported('stack')


def np_concat(I, a, kw):
    vs = [mkarr(I, v) if not isinstance(v, Arr) else v for v in items(I, a[0])]
    if kw.get('axis', 0) != 0 or any(v.nd != vs[0].nd for v in vs):
        raise Unsupported('concatenate')
    d = common_dt({v.dt for v in vs})
    s = seqs.concat(*[v.seq for v in vs])
    if vs[0].nd == 1:
        s = seqs.map_seq(I.ctx, s, lambda x: cast(I, x, d))
    return Arr(s, d, vs[0].nd)


def np_iscomplexobj(I, a, kw):
    v = a[0]
    if isinstance(v, Arr):
        return v.dt == 'c'
    if isinstance(v, (HList, STuple)):
        return mkarr(I, v).dt == 'c'
    return is_cplx(v)


def np_nan_to_num(I, a, kw):
    """the numbers of the model are finite"""
    v = a[0]
    if isinstance(v, Arr):
        return a_copy(I, v)
    if isinstance(v, (HList, STuple)):
        return mkarr(I, v)
    return v


def np_round(name):
    def f(I, a, kw):
        v = a[0]
        if isinstance(v, (int, float)):
            import math
            return float(getattr(math, name)(v))
        if isinstance(v, SInt):
            return to_float(v)
        if isinstance(v, Quot):
            q, r = T.divmod_const(I.ctx, zi(v.num), v.den)
            return to_float(mkint(q + (1 if r and name == 'ceil' else 0)))
        if isinstance(v, SReal) and T.int_like(v) is not None:
            return v
        raise Unsupported(name)
    return f


def m_round(name):
    g = np_round(name)

    def f(I, a, kw):
        v = a[0]
        if isinstance(v, SInt):
            return v
        if isinstance(v, Quot):
            q, r = T.divmod_const(I.ctx, zi(v.num), v.den)
            return mkint(q + (1 if r and name == 'ceil' else 0))
        return b_int(I, [g(I, a, kw)], {})
    return f


def np_abs(I, a, kw):
    if isinstance(a[0], Arr):
        return Arr(seqs.map_seq(I.ctx, a[0].seq, lambda x: b_abs(I, [x], {})), a[0].dt, a[0].nd)
    return b_abs(I, a, kw)


def np_diff(I, a, kw):
    v = a[0] if isinstance(a[0], Arr) else mkarr(I, a[0])
    return binop(I, 'Sub', getitem(I, v, SliceV(1, None, None)), getitem(I, v, SliceV(None, -1, None)))


def np_count_nonzero(I, a, kw):
    v = a[0] if isinstance(a[0], Arr) else mkarr(I, a[0])
    return sum_seq(I, seqs.map_seq(I.ctx, flatten(I, v).seq, lambda x: truth(I, x)))


def struct_format(f):
    """(byte order, count, type) of a format for numbers of one type"""
    ft = to_text(f)
    segs = list(ft.segs)
    en = '='
    if segs and isinstance(segs[0], Lit) and segs[0].s[:1] in '<>=!@':
        en = segs[0].s[0]
        segs[0:1] = [Lit(segs[0].s[1:])] if segs[0].s[1:] else []
    cnt = z3.IntVal(1)
    if segs and isinstance(segs[0], FInt):
        cnt = segs.pop(0).e
    elif segs and isinstance(segs[0], Lit) and len(segs[0].s) > 1:
        cnt = z3.IntVal(int(segs[0].s[:-1]))
        segs[0] = Lit(segs[0].s[-1])
    if len(segs) != 1 or not isinstance(segs[0], Lit) or segs[0].s not in ('d', 'f'):
        raise Unsupported('struct format %r' % (f,))
    if en in '=@':
        en = '<'
    if en == '!':
        en = '>'
    return en, cnt, segs[0].s


def unpack_struct(I, a, kw):
    f, data = a
    ctx = I.ctx
    if isinstance(f, CONC) and isinstance(data, CONC):
        import struct
        return STuple(Seq([Items(prog(host, struct.unpack, f, data))]))
    dt = to_text(data)
    en, cnt, c = struct_format(f)
    s = bin_seq(ctx, dt.segs, en, c)
    n = seqs.seq_len(ctx, s)
    if not ctx.prove(cnt == zi(n)):
        if not ctx.decide(mkbool(cnt == zi(n))):
            raise_py('error', 'unpack requires a buffer of another size') if 'error' in PYEXC else raise_py('ValueError', 'unpack')
    return STuple(s)


def bin_seq(ctx, segs, en, c):
    out = []
    for s in segs:
        if isinstance(s, BinF):
            if s.fmt != c or s.en != en:
                raise Unsupported('binary data read in another format than it is written in')
            out.append(Items([T.f32_val(mkreal(s.e)) if c == 'f' else mkreal(s.e)]))
        elif isinstance(s, RepS):
            ctx.push([s.j])
            try:
                ctx.assume(z3.And(s.j >= 0, s.j < s.n))
                q = bin_seq(ctx, s.segs, en, c)
            finally:
                ctx.pop()
            parts = []
            for p in q.pieces:
                if isinstance(p, Items):
                    parts.extend(p.v)
                else:
                    parts.append(Splice(Seq([p])))
            out.append(Gen(s.n, s.j, parts))
        else:
            raise Unsupported('unpack of %r' % (s,))
    return Seq(out)


class Star:
    """a starred argument"""
    def __init__(self, seq):
        self.seq = seq


def iter_unpack(I, a, kw):
    en, cnt, c = struct_format(a[0])
    if not z3.is_int_value(cnt) or cnt.as_long() != 1:
        raise Unsupported('struct format %r' % (a[0],))
    return HList(seqs.map_seq(I.ctx, bin_seq(I.ctx, to_text(a[1]).segs, en, c), lambda x: STuple(Seq([Items([x])]))))


def pack_bytes(I, en, c, s):
    return prog(T.join, I.ctx, b'', seqs.map_seq(I.ctx, s, lambda x: pack_struct(I, [en + c, to_float(x)], {})))


def raw_dtype(v):
    """(byte order, type) of the element types that are not native doubles"""
    if isinstance(v, HObj) and v.cls == 'rawtype':
        return v.attrs['en'], v.attrs['c']
    n = v.__name__.strip('~').split('~')[0] if isinstance(v, TypeV) else v
    if not isinstance(n, str):
        return None
    en = '<'
    if n[:1] in ('<', '>', '='):
        en, n = ('<' if n[0] == '=' else n[0]), n[1:]
    if n in ('f', 'f4', 'float32', 'single'):
        return en, 'f'
    return ('>', 'd') if en == '>' and n in ('d', 'f8', 'float64') else None


def raw_array(I, raw, seq):
    """an array of floats that are not native doubles: it can be put into bytes and converted"""
    en, c = raw
    seq = seqs.map_seq(I.ctx, seq, lambda x: cast(I, cast(I, x, 'f'), 'f4') if c == 'f' else cast(I, x, 'f'))

    def astype(I, o, a, kw):
        r = raw_dtype(a[0] if a else kw.get('dtype'))
        if r:
            return raw_array(I, r, seq)
        return a_astype(I, Arr(seq, 'f'), a or [kw.get('dtype')], {})
    return HObj('rawarr', {'seq': seq, 'ndim': 1, 'dtype': HObj('rawtype', {'en': en, 'c': c, 'itemsize': 8 if c == 'd' else 4}),
                           '.tobytes': lambda I, o, a, kw: pack_bytes(I, en, c, seq), '.astype': astype,
                           '.tolist': lambda I, o, a, kw: HList(seq)})


def np_frombuffer(I, a, kw):
    d = kw.get('dtype', a[1] if len(a) > 1 else None)
    raw = raw_dtype(d) or (('<', 'd') if dtype(d) in ('f', None) else None)
    if raw is None or set(kw) - {'dtype', 'count'} or len(a) > 3 or not is_text(a[0]) or not to_text(a[0]).b:
        raise Unsupported('numpy.frombuffer')
    s = bin_seq(I.ctx, to_text(a[0]).segs, *raw)
    n = kw.get('count', a[2] if len(a) > 2 else -1)
    if not (isinstance(n, int) and n == -1) and not I.ctx.prove(zi(n) == zi(seqs.seq_len(I.ctx, s))):
        raise Unsupported('numpy.frombuffer of a part')
    if raw != ('<', 'd'):
        return raw_array(I, raw, s)
    r = Arr(s, 'f')
    r.frozen = True
    return r


def np_dtype(I, a, kw):
    r = raw_dtype(a[0])
    return HObj('rawtype', {'en': r[0], 'c': r[1], 'itemsize': 8 if r[1] == 'd' else 4}) if r else dtype_obj(dtype(a[0]))


def a_tobytes(I, v, a, kw):
    if a or kw or v.dt != 'f':
        raise Unsupported('tobytes')
    return pack_bytes(I, '<', 'd', flatten(I, v).seq)


def pack_struct(I, a, kw):
    f = a[0]
    if any(isinstance(x, Star) for x in a):
        try:
            known = [y for x in a for y in (concrete_items(x.seq) if isinstance(x, Star) else [x])]
        except Unsupported:
            if len(a) != 2:
                raise
            en, cnt, c = struct_format(f)
            n = seqs.seq_len_e(I.ctx, a[1].seq)
            if not I.ctx.prove(cnt == n):
                raise Unsupported('pack of another number of values')
            return pack_bytes(I, en, c, a[1].seq)
        a = known
    if isinstance(f, Text):
        try:
            en, cnt, c = struct_format(f)
        except Unsupported:
            en = None
        if en and len(a) > 1 and I.ctx.prove(cnt == len(a) - 1):
            f = a[0] = en + c * (len(a) - 1)
    if not isinstance(f, str):
        raise Unsupported('pack with a symbolic format')
    if all(conc(x) for x in a):
        import struct
        try:
            return struct.pack(*a)
        except struct.error as e:
            raise PyExc(Exception, (str(e),))
    en = '<'
    if f[:1] in '<>=!@':
        en = {'=': '<', '@': '<', '!': '>'}.get(f[0], f[0])
        f = f[1:]
    vals = list(a[1:])
    if len(f) == len(vals) and set(f) <= {'d', 'f'}:
        out = []
        for c, v in zip(f, vals):
            if not is_num(v):
                raise Unsupported('pack of %r' % (v,))
            out.append(BinF(c, en, z3.simplify(zr(v))))
        return Text(out, True)
    raise Unsupported('pack %r' % f)


# the primitives of the contracts
def p_rnd(I, a, kw):
    p, x = a
    return T.rnd_val(p, x if not isinstance(x, (bool, SBool)) else to_float(x))


def p_chunks(I, a, kw):
    ctx = I.ctx
    s, k = iter_seq(I, a[0]), a[1]
    q, r = T.divmod_const(ctx, seqs.seq_len_e(ctx, s), k)
    q = mkint(q)
    body = group(I, s, k, q, lambda xs: HList(Seq([Items(xs)]))) if not isinstance(q, int) else None
    if isinstance(q, int):
        return HList(Seq([Items([HList(prog(seqs.slice_seq, ctx, s, k * i, k * i + k, None)) for i in range(q + (1 if r else 0))])]))
    if not r:
        return HList(body)
    last = [prog(seqs.index, ctx, s, mkint(k * q.e + i)) for i in range(r)]
    return HList(Seq(body.pieces + (Items([HList(Seq([Items(last)]))]),)))


def p_opt(I, a, kw):
    d, k, v = a
    return d_get(I, d, [k, v], {})


def p_interleave(I, a, kw):
    return HList(interleave(I.ctx, [iter_seq(I, x) for x in a]))


def p_bin(I, a, kw):
    en, f, s = a
    return prog(T.join, I.ctx, b'', seqs.map_seq(I.ctx, iter_seq(I, s), lambda x: pack_struct(I, [en + f, to_float(x)], {})))


def p_count(I, a, kw):
    return sum_seq(I, iter_seq(I, a[0]))


def native_module(I, name):
    if name in ('numpy', 'np'):
        A = {
            'array': B('array', np_array(True)), 'asarray': B('asarray', np_array(False)), 'zeros': B('zeros', np_full(0)),
            'asfarray': B('asfarray', np_array(False)), 'ones': B('ones', np_full(1)), 'arange': B('arange', np_arange), 'empty': B('empty', np_full(0)),
            'vstack': B('vstack', np_stack), 'column_stack': B('column_stack', lambda I, a, kw: np_stack(I, a, kw, False)),
            'stack': B('stack', lambda I, a, kw: np_stack(I, a, {}, kw.get('axis', 0) == 0)),
            'concatenate': B('concatenate', np_concat), 'hstack': B('hstack', np_concat), 'iscomplexobj': B('iscomplexobj', np_iscomplexobj),
            'isrealobj': B('isrealobj', lambda I, a, kw: not np_iscomplexobj(I, a, kw)),
            'nan_to_num': B('nan_to_num', np_nan_to_num), 'real': B('real', lambda I, a, kw: np_real(I, a[0])),
            'imag': B('imag', lambda I, a, kw: np_imag(I, a[0])), 'sum': B('sum', lambda I, a, kw: sum_seq(I, flatten(I, a[0]).seq if isinstance(a[0], Arr) else iter_seq(I, a[0]))),
            'transpose': B('transpose', lambda I, a, kw: transpose(I, a[0] if isinstance(a[0], Arr) else mkarr(I, a[0]))),
            'ravel': B('ravel', lambda I, a, kw: flatten(I, a[0] if isinstance(a[0], Arr) else mkarr(I, a[0]))),
            'floor': B('floor', np_round('floor')), 'ceil': B('ceil', np_round('ceil')), 'abs': B('abs', np_abs), 'diff': B('diff', np_diff),
            'count_nonzero': B('count_nonzero', np_count_nonzero), 'size': B('size', lambda I, a, kw: vlen(I, a[0])),
            'frombuffer': B('frombuffer', np_frombuffer), 'dtype': B('dtype', np_dtype), 'ndarray': TYPES['ndarray'], 'copy': B('copy', lambda I, a, kw: a_copy(I, a[0] if isinstance(a[0], Arr) else mkarr(I, a[0]))),
            'reshape': B('reshape', lambda I, a, kw: a_reshape(I, a[0], a[1:], kw)),
            'float64': TypeV('float64', b_float), 'int64': TypeV('int64', b_int), 'float32': TypeV('float32'), 'int32': TypeV('int32'),
            'complex128': TypeV('complex128', b_complex), 'integer': TypeV('integer'), 'str_': TypeV('str_'), 'issubdtype': B('issubdtype', np_issubdtype), 'complexfloating': TypeV('complexfloating'), 'inexact': TypeV('inexact'), 'generic': TypeV('generic'), 'bool_': TypeV('bool_'), 'floating': TypeV('floating'), 'number': TypeV('number'),
            'array_equal': B('array_equal', lambda I, a, kw: raise_unsup('array_equal')),
        }
        return ModuleV('numpy', A)
    if name == 'math':
        import math
        return ModuleV(name, {'ceil': B('ceil', m_round('ceil')), 'floor': B('floor', m_round('floor')), 'pi': math.pi, 'inf': math.inf,
                              'nan': math.nan})
    if name == 'struct':
        return ModuleV(name, {'pack': B('pack', pack_struct), 'unpack': B('unpack', unpack_struct), 'iter_unpack': B('iter_unpack', iter_unpack), 'error': Exception,
                              'calcsize': B('calcsize', lambda I, a, kw: prog(host, __import__('struct').calcsize, a[0]))})
    if name == 'sys':
        return ModuleV(name, {'byteorder': 'little', 'version_info': t2(3, 12), 'maxsize': 2 ** 63 - 1})
    if name == 'time':
        return ModuleV(name, {'strftime': B('strftime', strftime), 'localtime': B('localtime', lambda I, a, kw: HObj('now')),
                              'time': B('time', lambda I, a, kw: raise_unsup('time'))})
    if name == 'os':
        return ModuleV(name, {'path': native_module(I, 'os.path'), 'write': B('write', lambda I, a, kw: raise_unsup('os.write')),
                              'truncate': B('truncate', os_truncate), 'stat': B('stat', os_stat),
                              'fspath': B('fspath', lambda I, a, kw: a[0] if is_text(a[0]) else raise_unsup('fspath')),
                              'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2, 'linesep': '\n', 'sep': '/'})
    if name == 'os.path':
        return ModuleV(name, {'exists': B('exists', file_exists), 'isfile': B('isfile', file_exists),
                              'getsize': B('getsize', file_size),
                              'splitext': B('splitext', splitext)})
    if name == 'warnings':
        return ModuleV(name, {'warn': B('warn', lambda I, a, kw: None), 'simplefilter': B('simplefilter', lambda I, a, kw: None),
                              'filterwarnings': B('filterwarnings', lambda I, a, kw: None)})
    if name == 'itertools':
        return ModuleV(name, {'chain': B('chain', lambda I, a, kw: HList(seqs.concat(*[iter_seq(I, x) for x in a])))})
    if name == 'contracts.spec':
        P = {'rnd': p_rnd, 'f32': lambda I, a, kw: T.f32_val(to_float(a[0])), 'chunks': p_chunks, 'opt': p_opt,
             're': lambda I, a, kw: np_real(I, a[0]), 'im': lambda I, a, kw: np_imag(I, a[0]),
             'cplx': lambda I, a, kw: mkcplx(to_float(a[0]), to_float(a[1])), 'interleave': p_interleave, 'bin_values': p_bin,
             'utf8': lambda I, a, kw: s_encode(I, a[0], ['utf-8'], {})}
        return ModuleV(name, {k: B(k, f) for k, f in P.items()})
    return None


def strftime(I, a, kw):
    """the clock: the same text for the same format within one call"""
    f = a[0]
    if not isinstance(f, str):
        raise Unsupported('strftime')
    e = z3.Const('now:' + f, AtomSort)
    I.ctx.assume(z3.And(stripped(e), nolb(e), slen(e) <= {'%d-%b-%y': 9, '%H:%M:%S': 8}.get(f, 80), slen(e) >= 1), 0)
    return Text([FAtom(0, '<', e)])
