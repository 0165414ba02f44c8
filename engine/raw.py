"""Bytes of a file of which nothing is known: positions, slices and searches, and the loop that lists the positions of the
delimiter lines (F01)."""
import ast
import os
import z3
from . import seqs
from .vals import *

ISINT = z3.Function('is_int', z3.IntSort(), z3.IntSort(), z3.BoolSort())      # int() takes these bytes
INT = z3.Function('int_of', z3.IntSort(), z3.IntSort(), z3.IntSort())
NL = z3.Function('n_lines', z3.IntSort(), z3.IntSort(), z3.IntSort())          # bytes.splitlines
LS = z3.Function('line_start', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
LE = z3.Function('line_end', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
CNT = z3.Function('tags_before', z3.IntSort(), z3.IntSort())                   # delimiters that start before a position
POS = z3.Function('tag_at', z3.IntSort(), z3.IntSort())                        # the positions of the delimiters, in order
BYTE = z3.Function('byte', z3.IntSort(), z3.IntSort())
TAG = b'    -1'


def setup(I, L):
    """a file of L arbitrary bytes"""
    a, b, c = z3.Ints('raw!a raw!b raw!c')
    I.raw = {'L': L, 'occ': {}}
    ax = [z3.And(L >= 0, L < 10 ** 12),
          z3.ForAll([a, b], NL(a, b) >= 0, patterns=[NL(a, b)]),
          z3.ForAll([a, b, c], z3.And(LS(a, b, c) >= a, LS(a, b, c) <= LE(a, b, c), LE(a, b, c) <= b),
                    patterns=[LS(a, b, c)]),
          z3.ForAll([a, b, c], LE(a, b, c) >= LS(a, b, c), patterns=[LE(a, b, c)]),
          CNT(0) == 0, CNT(L) >= 0, CNT(L) <= L,
          z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < CNT(L)), z3.And(POS(a) >= 0, POS(a) + 6 <= L)), patterns=[POS(a)]),
          z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < CNT(L)), POS(a) < POS(b)),
                    patterns=[z3.MultiPattern(POS(a), POS(b))])]
    for x in ax:
        I.ctx.assume(x, 0)
    return Raw(z3.IntVal(0), L, None)


def tag(I, k):
    """a delimiter starts at k: four blanks and -1, then the end of the file, a line end, or blanks up to column 80"""
    L = I.raw['L']
    return z3.And(k >= 0, k + 6 <= L, occ(I, TAG, k),
                  z3.Or(k + 6 == L, BYTE(k + 6) == 10, BYTE(k + 6) == 13,
                        z3.And(k + 80 <= L, *[BYTE(k + 6 + i) == 32 for i in range(74)])))


def occ(I, lit, k):
    """the bytes lit are at k"""
    r = I.raw['occ']
    if lit not in r:
        f = z3.Function('occurs!%s' % lit.hex(), z3.IntSort(), z3.BoolSort())
        x = z3.Int('raw!x')
        I.ctx.assume(z3.ForAll([x], f(x) == z3.And([BYTE(x + i) == c for i, c in enumerate(lit)]), patterns=[f(x)]), 0)
        r[lit] = f
    return r[lit](k)


def simp(ctx, e):
    return z3.simplify(e)


def clamp(ctx, r, x, dflt):
    """a slice bound as an absolute position"""
    if x is None:
        return dflt
    e = zi(x)
    if e is None:
        raise Unsupported('slice bound %r' % (x,))
    n = r.hi - r.lo
    if not ctx.prove(e >= 0):
        e = z3.If(e < 0, z3.If(e + n < 0, z3.IntVal(0), e + n), e)
    if not ctx.prove(e <= n):
        e = z3.If(e <= n, e, n)
    return z3.simplify(r.lo + e)


def cut(I, r, a, b):
    ctx = I.ctx
    lo, hi = clamp(ctx, r, a, r.lo), clamp(ctx, r, b, r.hi)
    if not ctx.prove(lo <= hi):
        hi = z3.If(lo <= hi, hi, lo)
    return Raw(lo, z3.simplify(hi), r.case)


def byte(I, r, i):
    ctx = I.ctx
    e = zi(i)
    n = r.hi - r.lo
    if not ctx.prove(e >= 0):
        if ctx.decide(mkbool(e < 0)):
            e = z3.simplify(n + e)
    ok = z3.And(e >= 0, e < n)
    if not ctx.prove(ok) and not ctx.decide(mkbool(ok)):
        I.lib.raise_py('IndexError', 'index out of range')
    return SInt(cased(r, r.lo + e))


def cased(r, p):
    b = BYTE(z3.simplify(p))
    if r.case == 'lower':
        return z3.If(z3.And(b >= 65, b <= 90), b + 32, b)
    if r.case == 'upper':
        return z3.If(z3.And(b >= 97, b <= 122), b - 32, b)
    return b


def equal(I, r, x):
    if isinstance(x, bytes):
        if not x:
            return mkbool(r.hi == r.lo)
        if r.case is None and len(x) > 1:
            return mkbool(z3.And(r.hi - r.lo == len(x), occ(I, x, r.lo) if len(x) < 20 else
                                 z3.And([BYTE(r.lo + i) == c for i, c in enumerate(x)])))
        return mkbool(z3.And(r.hi - r.lo == len(x), *[cased(r, r.lo + i) == c for i, c in enumerate(x)]))
    if isinstance(x, str) or x is None or is_num(x):
        return False
    raise Unsupported('comparison of unknown bytes')


def find(I, r, a, kw):
    ctx = I.ctx
    lit = a[0]
    if not isinstance(lit, bytes) or not lit or r.case:
        raise Unsupported('search for %r' % (lit,))
    lo = clamp(ctx, r, a[1] if len(a) > 1 else None, r.lo)
    hi = clamp(ctx, r, a[2] if len(a) > 2 else None, r.hi)
    # (a start beyond the end finds nothing)
    p = fresh_int('found')
    bind(ctx, p)
    k = z3.Int('raw!k')
    f = occ(I, lit, k)
    ctx.assume(z3.Or(p == -1, z3.And(p >= lo - r.lo, r.lo + p + len(lit) <= hi, occ(I, lit, r.lo + p))))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k + len(lit) <= hi, z3.Or(p == -1, k < r.lo + p)), z3.Not(f)),
                         patterns=[f]))
    return SInt(p)


def bind(ctx, v):
    """a value found in a loop belongs to the loop"""
    for sc in reversed(ctx.scopes):
        if sc.bound:
            sc.bound.add(v.decl().name())
            return


def lines(I, r, a, kw):
    if a and a[0] is not False or kw.get('keepends', False) is not False or r.case:
        raise Unsupported('lines of unknown bytes with their ends')
    j = fresh_int('ln')
    return HList(Seq([Gen(NL(r.lo, r.hi), j, [Raw(LS(r.lo, r.hi, j), LE(r.lo, r.hi, j), None)])]))


def to_int(I, r):
    if r.case:
        raise Unsupported('int of unknown bytes')
    ok = ISINT(r.lo, r.hi)
    if not I.ctx.prove(ok) and not I.ctx.decide(SBool(ok)):
        I.lib.raise_py('ValueError', 'invalid literal for int()')
    return SInt(INT(r.lo, r.hi))


def starts(end):
    def f(I, r, a, kw):
        x = a[0]
        if isinstance(x, STuple):
            return mkbool(z3.Or([zb(f(I, r, [y] + list(a[1:]), kw)) for y in I.lib.items(I, x)]))
        if not isinstance(x, bytes):
            raise Unsupported('startswith')
        if len(a) > 1:
            r = cut(I, r, a[1], a[2] if len(a) > 2 else None)
        n = len(x)
        ok = r.hi - r.lo >= n
        part = Raw(r.hi - n, r.hi, r.case) if end else Raw(r.lo, r.lo + n, r.case)
        return mkbool(z3.And(ok, zb(equal(I, part, x))))
    return f


def case(c):
    return lambda I, r, a, kw: Raw(r.lo, r.hi, c)


METHODS = {'find': find, 'splitlines': lines, 'startswith': starts(False), 'endswith': starts(True), 'lower': case('lower'),
           'upper': case('upper')}


# ---------------------------------------------------------------- loops over the delimiters
def absent(I, a, b):
    """no delimiter starts at a..b-1 (then there are as many before b as before a)"""
    ctx = I.ctx
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b):
        return True
    if not ctx.prove(a <= b):
        return False
    k = fresh_int('sk')
    ctx.push([k])
    try:
        ctx.assume(z3.And(k >= a, k < b))
        for lit in list(I.raw['occ']):
            ctx.assume(z3.Bool(fresh_name('at')) == occ(I, lit, k))
        ok = ctx.prove(z3.Not(tag(I, k)))
    finally:
        ctx.pop()
    if ok:
        ctx.assume(CNT(a) == CNT(b))
    return ok


def listed(I, s, b):
    """is s the list of the delimiters that start before b?"""
    ctx = I.ctx
    cur = z3.IntVal(0)
    for n, p in enumerate(s.pieces):
        if isinstance(p, Gen):
            if n or len(p.parts) != 1 or not isinstance(p.parts[0], SInt) or not p.parts[0].e.eq(POS(p.j)) or \
                    not p.n.decl().eq(CNT(0).decl()):
                return False
            cur = p.n.arg(0)
        elif isinstance(p, Items):
            for x in p.v:
                e = zi(x) if isinstance(x, (int, SInt)) and not isinstance(x, bool) else None
                if e is None or not absent(I, cur, e) or not ctx.prove(tag(I, e)):
                    return False
                # the next delimiter
                ctx.assume(z3.And(CNT(e + 1) == CNT(e) + 1, POS(CNT(e)) == e, CNT(cur) == CNT(e)))
                cur = z3.simplify(e + 1)
        else:
            return False
    return absent(I, cur, b)


def tags(b):
    """the delimiters that start before b"""
    j = fresh_int('tg')
    return Seq([Gen(CNT(z3.simplify(b)), j, [SInt(POS(j))])])


def assigned(st):
    return {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def visible(I, fr):
    """variables of the function, and the attributes of its objects"""
    f = fr
    out = []
    while f is not None and f.parent is not None:
        for k, v in f.vars.items():
            out.append(((f, 'v', k), v))
            if isinstance(v, HObj):
                out += [((v, 'a', a), w) for a, w in v.attrs.items()]
        f = f.parent
    return out


def scan(I, st, fr):
    """a while loop that lists the delimiters of the file; True if it was summarised"""
    if not getattr(I, 'raw', None):
        return False
    vs = visible(I, fr)
    if not any(isinstance(v, Raw) for _, v in vs):
        return False
    names = assigned(st)
    poss = [(l, v) for l, v in vs if l[1] == 'v' and l[2] in names and isinstance(v, (int, SInt)) and
            not isinstance(v, bool)]
    lists = []
    for l, v in vs:
        if isinstance(v, HList) and not v.seq.pieces and not any(v is x for x in lists):
            lists.append(v)
    for l, v in poss:
        for x in lists:
            for kind in ('last', 'next', 'found'):
                mark = len(I.trail)
                try:
                    if attempt(I, st, fr, l, v, x, kind):
                        return True
                except (Unsupported, I.NoMerge, I.PyExc) as e:
                    if os.environ.get('VDEBUG'):
                        print('SCAN', st.lineno, l[2], kind, type(e).__name__, e)
                I.rollback(mark)
    # (a loop over the delimiters listed)
    if I.while_summary(st, fr):
        return False
    raise Unsupported('loop at line %d over unknown bytes: no invariant found' % st.lineno)


def attempt(I, st, fr, l, v0, x, kind):
    """invariant: x lists the delimiters before b, where b is
    last: one after the position l; next: the position l; found: the position l, or all of them when l is -1"""
    ctx, L = I.ctx, I.raw['L']
    e0 = zi(v0)
    if kind == 'found':
        ok = ctx.prove(e0 == -1) and absent(I, z3.IntVal(0), L) or ctx.prove(e0 >= 0) and absent(I, z3.IntVal(0), e0)
        if not ok and not ctx.prove(e0 == -1) and not ctx.prove(e0 >= 0):
            d = ctx.decide(mkbool(e0 == -1))
            ok = absent(I, z3.IntVal(0), L if d else e0)
        starts_ = [True, False]
        # the literals known to be at the position
        at = [lit for lit in I.raw['occ'] if ctx.prove(z3.Or(e0 == -1, z3.And(e0 + len(lit) <= L, occ(I, lit, e0))))]
    else:
        b0 = e0 + (1 if kind == 'last' else 0)
        ok = ctx.prove(z3.And(b0 >= 0, b0 <= L)) and absent(I, z3.IntVal(0), b0)
        starts_ = [True]
    if not ok:
        return False
    exits = []
    touched = {}
    for none in starts_:
        dec = []
        while True:
            pv = fresh_int('at')
            ctx.push([pv], 'loop')
            sc = ctx.scopes[-1]
            sc.dec, sc.pos, sc.conds = dec, 0, []
            m2 = len(I.trail)
            try:
                if kind == 'found':
                    b = L if none else pv
                    ctx.assume(pv == -1 if none else z3.And(pv >= 0, pv < L,
                                                            *[z3.And(pv + len(t) <= L, occ(I, t, pv)) for t in at]))
                else:
                    b = pv + 1 if kind == 'last' else pv
                    ctx.assume(z3.And(b >= 0, b <= L))
                I.set_loc(l, SInt(pv))
                I.setfield(x, 'seq', tags(b))
                for t in touched.values():
                    if t[1] == 'v':
                        I.set_loc(t, Undef('value of an earlier iteration'))
                m3 = len(I.trail)
                out = one(I, st, fr)
                if ctx.feasible():
                    for t in I.touched(m3, 10 ** 12):
                        if (id(t[0]), t[1], t[2]) != (id(l[0]), l[1], l[2]) and t[0] is not x:
                            if t[1] != 'v':
                                return False
                            if (id(t[0]), t[2]) not in touched:
                                touched[id(t[0]), t[2]] = t
                                starts_.append(none)       # (once more, with it unknown)
                    now = zi(I.get_loc(l))
                    if now is None:
                        return False
                    if out == 'exit':
                        if not listed(I, x.seq, L):
                            return fails('not all delimiters are listed at the end')
                        exits.append(ctx.prove(now == -1))
                    else:
                        if kind == 'found':
                            if ctx.prove(now == -1):
                                nb = L
                            elif ctx.prove(now >= 0):
                                nb = now
                            else:
                                nb = L if ctx.decide(mkbool(now == -1)) else now
                            if nb is now and not ctx.prove(z3.And(now >= 0, now < L, *[
                                    z3.And(now + len(t) <= L, occ(I, t, now)) for t in at])):
                                return fails('position')
                        else:
                            nb = now + 1 if kind == 'last' else now
                        if not ctx.prove(nb > b):
                            return fails('the loop may not end %s %s %s' % (kind, nb, b))
                        if kind != 'found' and not ctx.prove(nb <= L):
                            return fails('the position leaves the file')
                        if not listed(I, x.seq, nb):
                            return fails('the list is not that of the delimiters before the position')
                dec = list(sc.dec[:sc.pos])
            finally:
                ctx.pop()
                I.rollback(m2)
            while dec and dec[-1] is False:
                dec.pop()
            if not dec:
                break
            dec[-1] = False
    if not exits:
        return False
    for t in touched.values():
        I.set_loc(t, Undef('after a loop'))
    I.set_loc(l, -1 if all(exits) else Undef('after a loop'))
    I.setfield(x, 'seq', tags(L))
    I.loops.append((I.cur[-1] if I.cur else '', st.lineno, ['delimiters listed up to the position ' + l[2]]))
    return True


def fails(why):
    if os.environ.get('VDEBUG'):
        print('SCAN', why)
    return False


def one(I, st, fr):
    """one turn of the loop"""
    if not I.truth(I.eval(st.test, fr)):
        return 'exit'
    try:
        I.block(st.body, fr)
    except I.ContinueX:
        pass
    except I.BreakX:
        return 'exit'
    return 'next'


def filtered(I, paths, n, j):
    """the pieces appended by `for 0 <= j < n` list the delimiters of the file: their list, or None"""
    if not getattr(I, 'raw', None):
        return None
    ctx = I.ctx
    c = None
    for conds, pieces in paths:
        if pieces:
            if len(pieces) != 1 or not isinstance(pieces[0], Items) or len(pieces[0].v) != 1 or \
                    not isinstance(pieces[0].v[0], SInt):
                return None
            d = z3.simplify(pieces[0].v[0].e - j)
            if not z3.is_int_value(d) or c is not None and d.as_long() != c:
                return None
            c = d.as_long()
    if c is None:
        return None
    for conds, pieces in paths:
        ctx.push([j])
        try:
            ctx.assume(z3.And(j >= 0, j < n, *conds))
            for lit in list(I.raw['occ']):
                ctx.assume(z3.Bool(fresh_name('at')) == occ(I, lit, j + c))
            t = tag(I, j + c)
            if not ctx.prove(t if pieces else z3.Not(t)):
                return None
        finally:
            ctx.pop()
    L = I.raw['L']
    if not absent(I, z3.IntVal(0), z3.IntVal(c)) or not absent(I, z3.If(n > 0, n, z3.IntVal(0)) + c, L) and \
            not ctx.prove(n + c >= L):
        return None
    return tags(L)
