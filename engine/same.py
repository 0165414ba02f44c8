"""Equality of symbolic texts and values, as proof obligations: what is not proved equal is reported with the formula
that would have to be refuted."""
import z3
from .vals import *
from .ctx import LoopDep, rnd_fun, F32
from . import seqs, text as T


class Differ(Exception):
    def __init__(self, msg, neg=None):
        super().__init__(msg)
        self.msg, self.neg = msg, neg


def differ(ctx, msg, neg=None):
    """neg: a formula of which a model shows the difference"""
    m = ctx.small_model(neg if neg is not None else z3.BoolVal(True), getattr(ctx, 'sizes', []))
    e = Differ(msg)
    e.model = m
    raise e


def cases(ctx, cond, f):
    """f() in both cases of a condition (conditions on loop indices included)"""
    if isinstance(cond, bool):
        return f()
    for c in (cond, z3.Not(cond)):
        ctx.push([], 'map')
        try:
            ctx.assume(c)
            if ctx.feasible():
                f()
        finally:
            ctx.pop()


# ---------------------------------------------------------------- texts
def text_same(ctx, a, b, where=''):
    """prove that two texts are equal, or raise Differ"""
    a, b = to_text(a), to_text(b)
    if a.b != b.b:
        differ(ctx, '%s: bytes and text' % where)
    _segs(ctx, list(a.segs), list(b.segs), where, 0)


def show(segs):
    s = repr(segs[:3])
    return s if len(s) < 300 else s[:300] + '...'


def empty(ctx, s):
    if isinstance(s, RepS):
        return ctx.prove(s.n <= 0)
    if isinstance(s, FAtom) and s.w == 0:
        return ctx.prove(slen(s.e) == 0)
    if isinstance(s, Opq):
        return ctx.prove(s.ln == 0)
    return False


def _segs(ctx, a, b, where, depth):
    if depth > 60:
        raise Unsupported('comparison of texts: too deep at %s' % where)
    while True:
        for x in (a, b):
            while x and (isinstance(x[0], Lit) and not x[0].s or not isinstance(x[0], Lit) and empty(ctx, x[0])):
                x.pop(0)
        if not a and not b:
            return
        if not a or not b:
            r = (a or b)
            if isinstance(r[0], RepS):
                differ(ctx, '%s: one text ends, the other goes on with %s' % (where, show(r)), r[0].n >= 1)
            if isinstance(r[0], FAtom) and r[0].w == 0:
                differ(ctx, '%s: one text ends, the other goes on with %s' % (where, show(r)), slen(r[0].e) >= 1)
            differ(ctx, '%s: one text ends, the other goes on with %s' % (where, show(r)))
        x, y = a[0], b[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            k = min(len(x.s), len(y.s))
            if x.s[:k] != y.s[:k]:
                differ(ctx, '%s: %r where %r is specified' % (where, x.s[:60], y.s[:60]))
            a[0:1] = [Lit(x.s[k:])] if x.s[k:] else []
            b[0:1] = [Lit(y.s[k:])] if y.s[k:] else []
            continue
        if isinstance(x, RepS) and isinstance(y, RepS):
            if ctx.prove(x.n == y.n):
                j = fresh_int('eq')
                ok = _rep(ctx, x, y, j, where, depth)
                if ok:
                    a.pop(0), b.pop(0)
                    continue
                # different division into groups: take the first group of each
            elif ctx.prove(x.n <= y.n) or ctx.prove(y.n <= x.n):
                le = ctx.prove(x.n <= y.n)
                s, l, side = (x, y, b) if le else (y, x, a)
                j1 = fresh_int('rp')
                try:
                    _rep(ctx, x, y, fresh_int('eq'), where, depth, s.n, True)
                    side[0:1] = [RepS(s.n, l.j, l.segs),
                                 RepS(z3.simplify(l.n - s.n), j1, [sub_seg(q, [(l.j, j1 + s.n)]) for q in l.segs])]
                    continue
                except Differ:
                    pass
            return _peel(ctx, a, b, where, depth)
        if isinstance(x, RepS) or isinstance(y, RepS):
            return _peel(ctx, a, b, where, depth)
        if isinstance(x, Lit) or isinstance(y, Lit):
            if isinstance(x, Lit):
                k = _lit_field(ctx, x.s, y, where)
                b.pop(0)
                a[0:1] = [Lit(x.s[k:])]
            else:
                k = _lit_field(ctx, y.s, x, where)
                a.pop(0)
                b[0:1] = [Lit(y.s[k:])]
            continue
        _field(ctx, x, y, where)
        a.pop(0), b.pop(0)


def _rep(ctx, x, y, j, where, depth, n=None, must=False):
    sx = [sub_seg(s, [(x.j, j)]) for s in x.segs]
    sy = [sub_seg(s, [(y.j, j)]) for s in y.segs]
    ctx.push([j])
    try:
        ctx.assume(z3.And(j >= 0, j < (x.n if n is None else n)))
        _segs(ctx, list(norm_segs(sx)), list(norm_segs(sy)), where + ' [repeated part]', depth + 1)
        return True
    except Differ:
        # a difference of whole groups is a difference only if the groups have the same length
        if must:
            raise
        try:
            lx, ly = T.text_len(ctx, Text(sx)), T.text_len(ctx, Text(sy))
            if ctx.prove(zi(lx) == zi(ly)):
                raise
        except Unsupported:
            pass
        return False
    finally:
        ctx.pop()


def _peel(ctx, a, b, where, depth):
    """the first iteration of a repetition by itself"""
    c = None
    for s in (a, b):
        if isinstance(s[0], RepS) and not ctx.prove(s[0].n >= 1):
            c = s[0].n >= 1
            break
    if c is not None:
        cases(ctx, c, lambda: _segs(ctx, list(a), list(b), where, depth + 1))
        return
    a, b = list(a), list(b)
    for s in (a, b):
        r = s[0]
        if isinstance(r, RepS):
            j1 = fresh_int('pl')
            s[0:1] = list(norm_segs([sub_seg(q, [(r.j, z3.IntVal(0))]) for q in r.segs] +
                                    [RepS(z3.simplify(r.n - 1), j1, [sub_seg(q, [(r.j, j1 + 1)]) for q in r.segs])]))
    _segs(ctx, list(norm_segs(a)), list(norm_segs(b)), where, depth + 1)


def _lit_field(ctx, s, f, where):
    """the field prints as the beginning of s: number of characters"""
    if isinstance(f, FInt):
        if f.w:
            t = s[:f.w]
            if len(t) == f.w:
                try:
                    v = int(t)
                    if str(v).rjust(f.w) == t and f.al == '>' or str(v).ljust(f.w) == t and f.al == '<':
                        if ctx.prove(f.e == v):
                            return f.w
                        differ(ctx, '%s: the field %s where %r is specified' % (where, f.e, t), f.e != v)
                except ValueError:
                    pass
        differ(ctx, '%s: the field %r against %r' % (where, f, s[:40]))
    if isinstance(f, FFlt):
        t = s[:f.w]
        if f.w and len(t) == f.w:
            try:
                v = float(t.replace(f.ep, 'e').replace(f.en, 'e'))
                u = ('%' + ('-' if f.al == '<' else '') + '%d.%de' % (f.w, f.p)) % v
                if u.replace('e+', f.ep + '+').replace('e-', f.en + '-') == t and ctx.prove(f.e == zr(v)):
                    return f.w
            except ValueError:
                pass
        differ(ctx, '%s: the field %r against %r' % (where, f, s[:40]))
    if isinstance(f, FAtom):
        if f.w:
            t = s[:f.w]
            if len(t) == f.w:
                v = t.strip(' ')
                if (v.ljust(f.w) if f.al == '<' else v.rjust(f.w)) == t and ctx.prove(f.e == lit_atom(v)):
                    return f.w
        else:
            from . import vals
            for v in sorted(vals._lit_atoms, key=len, reverse=True):
                if s.startswith(v) and ctx.prove(f.e == lit_atom(v)):
                    return len(v)
        differ(ctx, '%s: the text %r against %r' % (where, f, s[:40]))
    raise Unsupported('comparison of %r with %r' % (s[:30], f))


def _field(ctx, x, y, where):
    if type(x) is not type(y):
        differ(ctx, '%s: %r where %r is specified' % (where, x, y))
    if isinstance(x, (FInt, FFlt, FAtom)):
        if x.w != y.w or (x.al != y.al and x.w):
            differ(ctx, '%s: %r where %r is specified' % (where, x, y))
        if isinstance(x, FFlt) and (x.p, x.ep, x.en) != (y.p, y.ep, y.en):
            differ(ctx, '%s: %r where %r is specified' % (where, x, y))
    elif isinstance(x, BinF):
        if (x.fmt, x.en) != (y.fmt, y.en):
            differ(ctx, '%s: %r where %r is specified' % (where, x, y))
    elif isinstance(x, Opq):
        pass
    else:
        raise Unsupported('comparison of %r and %r' % (x, y))
    if isinstance(x, FFlt):
        # a number printed with p decimals shows its value rounded to p decimals
        f = rnd_fun(x.p)
        if x.e.eq(y.e) or ctx.prove(f(x.e) == f(y.e)):
            return
    if isinstance(x, BinF) and x.fmt == 'f' and ctx.prove(F32(x.e) == F32(y.e)):
        return
    if not ctx.prove(x.e == y.e):
        differ(ctx, '%s: %r where %r is specified' % (where, x, y), x.e != y.e)


# ---------------------------------------------------------------- values
def groups_same(ctx, k, h, where):
    if type(k) is KeyGroup and not ctx.prove(k.n == h.n):
        differ(ctx, '%s: %s entries, expected %s' % (where, h.n, k.n), k.n != h.n)


def value_same(ctx, got, exp, where='', extra=False):
    """prove that a result equals the expected value, or raise Differ"""
    if isinstance(exp, HDict):
        if not isinstance(got, HDict):
            differ(ctx, '%s: %r is not a dictionary' % (where, got))
        ge = {k: (p, v) for k, p, v in got.entries}
        ee = {k: (p, v) for k, p, v in exp.entries}
        for k, (p, v) in ge.items():
            if k not in ee and p is not False:
                if p is not True and ctx.prove(z3.Not(p)):
                    continue
                if extra and blank(ctx, v):
                    continue
                differ(ctx, '%s[%r] is not expected' % (where, k), p if p is not True else None)
        for k, (p, v) in ee.items():
            w = '%s[%r]' % (where, k)
            if type(k) is KeyGroup and k in ge:
                # the values under the same of the keys
                h = [x for x, _, _ in got.entries if x == k][0]
                groups_same(ctx, k, h, where)
                ctx.push([k.j])
                try:
                    ctx.assume(z3.And(k.j >= 0, k.j < k.n))
                    if ctx.feasible():
                        value_same(ctx, ge[k][1] if h.j.eq(k.j) else subst(ge[k][1], [(h.j, k.j)]), v, w)
                finally:
                    ctx.pop()
                continue
            if k not in ge:
                if p is True or not ctx.prove(z3.Not(p)):
                    differ(ctx, '%s is missing' % w, p if p is not True else None)
                continue
            q, g = ge[k]
            pz = z3.BoolVal(True) if p is True else p
            qz = z3.BoolVal(True) if q is True else z3.BoolVal(False) if q is False else q
            if not ctx.prove(pz == qz):
                differ(ctx, '%s is there when %s, expected when %s' % (w, q, p), pz != qz)
            if p is True:
                value_same(ctx, g, v, w)
            else:
                ctx.push([], 'map')
                try:
                    ctx.assume(p)
                    if ctx.feasible():
                        value_same(ctx, g, v, w)
                finally:
                    ctx.pop()
        return
    if isinstance(exp, (HList, STuple, Arr)):
        if not isinstance(got, (HList, STuple, Arr)):
            differ(ctx, '%s: %r is not a sequence' % (where, got))
        try:
            la, lb = seqs.seq_len_e(ctx, got.seq), seqs.seq_len_e(ctx, exp.seq)
        except Unsupported:
            la = lb = None
        if la is not None and not ctx.prove(la == lb) and not (seqs.off_lemma(ctx) and ctx.prove(la == lb)):
            differ(ctx, '%s: %s values, expected %s' % (where, la, lb), la != lb)

        def one(x, y):
            value_same(ctx, x, y, where + '[i]')
            return None
        try:
            seq_same(ctx, got.seq, exp.seq, one)
        except seqs.Misaligned as e:
            raise Unsupported('%s: %s' % (where, e))
        return
    if isinstance(exp, (str, bytes, Text)):
        if not is_text(got):
            differ(ctx, '%s: %r is not a text' % (where, got))
        text_same(ctx, got, exp, where)
        return
    if exp is None:
        if got is not None:
            differ(ctx, '%s: %r where None is expected' % (where, got))
        return
    if isinstance(exp, (complex, SCplx)) or isinstance(got, (complex, SCplx)):
        from . import lib
        if not isinstance(got, (complex, SCplx)) and not is_num(got):
            differ(ctx, '%s: %r is not a number' % (where, got))
        ga, gb = lib.cparts(got)
        ea, eb = lib.cparts(exp)
        num_same(ctx, ga, ea, where + '.real')
        num_same(ctx, gb, eb, where + '.imag')
        return
    if is_num(exp):
        num_same(ctx, got, exp, where)
        return
    raise Unsupported('comparison with %r' % (exp,))


def seq_same(ctx, a, b, one):
    """one(x, y) for the values at every position of two sequences of equal length"""
    for p, q in seqs.align(ctx, a, b):
        if isinstance(p, Items):
            for x, y in zip(p.v, q.v):
                one(x, y)
            continue
        ctx.push([p.j])
        try:
            ctx.assume(z3.And(p.j >= 0, p.j < p.n))
            group_same(ctx, list(p.parts), list(q.parts), one)
        finally:
            ctx.pop()


def group_same(ctx, ps, qs, one):
    if len(ps) == len(qs) and not any(isinstance(x, Splice) for x in ps + qs):
        for x, y in zip(ps, qs):
            one(x, y)
        return
    for k, xs in enumerate((ps, qs)):
        for i, x in enumerate(xs):
            if isinstance(x, Splice) and len(x.seq.pieces) == 1:
                c = seqs.guard(x.seq.pieces[0])
                if c is not None:
                    g = x.seq.pieces[0]

                    def rest(there):
                        ys = list(xs)
                        ys[i:i + 1] = seqs.group_at(g, 0) if there else []
                        group_same(ctx, *((ys, qs) if k == 0 else (ps, ys)), one)
                    for there in (True, False):
                        ctx.push([], 'map')
                        try:
                            ctx.assume(c if there else z3.Not(c))
                            if ctx.feasible():
                                rest(there)
                        finally:
                            ctx.pop()
                    return
    if len(ps) == len(qs) and all(isinstance(x, Splice) == isinstance(y, Splice) for x, y in zip(ps, qs)):
        for x, y in zip(ps, qs):
            if isinstance(x, Splice):
                seq_same(ctx, x.seq, y.seq, one)
            else:
                one(x, y)
        return
    seq_same(ctx, seqs.parts_seq(ps), seqs.parts_seq(qs), one)


def num_same(ctx, got, exp, where):
    if not is_num(got):
        differ(ctx, '%s: %r is not a number' % (where, got))
    if isinstance(got, float) and got != got or isinstance(exp, float) and exp != exp:
        if isinstance(got, float) and isinstance(exp, float) and got != got and exp != exp:
            return
        differ(ctx, '%s: %r, expected %r' % (where, got, exp))
    a, b = zr(got), zr(exp)
    if not ctx.prove(a == b):
        differ(ctx, '%s: %s, expected %s' % (where, z3.simplify(a), z3.simplify(b)), a != b)


def blank(ctx, v):
    if v is None or isinstance(v, str) and v == '':
        return True
    if isinstance(v, HDict):
        return not v.entries
    if isinstance(v, (HList, STuple, Arr)):
        try:
            return ctx.prove(seqs.seq_len_e(ctx, v.seq) == 0)
        except Unsupported:
            return False
    return False
