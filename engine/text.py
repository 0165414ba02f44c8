"""Operations on symbolic text."""
import re
import z3
from .vals import *
LOWER = z3.Function('lower', AtomSort, AtomSort)
UPPER = z3.Function('upper', AtomSort, AtomSort)
byteval = z3.Function('byteval', AtomSort, z3.IntSort())       # the byte of a text of length one

from .ctx import E2, F32, rnd_fun, stripped, nolb


class ProgErr(Exception):
    """an exception of the interpreted program"""

    def __init__(self, name, msg=''):
        super().__init__(name, msg)
        self.name, self.msg = name, msg


def host(f, *a):
    """a concrete operation, its exceptions being those of the program"""
    try:
        return f(*a)
    except (Unsupported, ProgErr):
        raise
    except (ValueError, TypeError, IndexError, KeyError, OverflowError, ZeroDivisionError, AttributeError, UnicodeError) as e:
        raise ProgErr(type(e).__name__, str(e))


class NeedGroup(Unsupported):
    """the loop over j has to be taken k iterations at a time."""

    def __init__(self, j, k):
        super().__init__('loop over %s: %d iterations at a time' % (j, k))
        self.j, self.k = j, k


class Unfit(Unsupported):
    """a value is not provably within its column."""


WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


def nat_bounds(ctx, s):
    """(min, max) natural length of the content of a formatted segment; max None if unknown."""
    if isinstance(s, FInt):
        for w in sorted({s.w, s.w - 1, 1, 4, 9, 10, 19, 20}):
            if w >= 1 and ctx.prove(z3.And(s.e < 10 ** w, s.e > -(10 ** (w - 1)) if w > 1 else s.e >= 0)):
                return 1, w
        return 1, None
    if isinstance(s, FFlt):
        k = 2 if ctx.prove(E2(s.e)) else 3
        return s.p + 6, s.p + 5 + k
    if isinstance(s, FAtom):
        if s.w and ctx.prove(slen(s.e) <= s.w):
            return 0, s.w
        return 0, None
    raise Unsupported('length of %r' % (s,))


def fits(ctx, s, strict=False):
    """the content of a padded field is at most w (strict: at most w-1) characters."""
    w = s.w - (1 if strict else 0)
    if isinstance(s, FInt):
        if w <= 0:
            return False
        phi = z3.And(s.e < 10 ** w, s.e > -(10 ** (w - 1)) if w > 1 else s.e >= 0)
    elif isinstance(s, FFlt):
        if s.p + 8 <= w:
            return True
        if s.p + 7 == w:
            phi = E2(s.e)
        else:
            return False
    elif isinstance(s, FAtom):
        phi = slen(s.e) <= w
    else:
        raise Unsupported('fits %r' % (s,))
    if ctx.prove(phi):
        return True
    ctx.hint(z3.Not(phi))
    return False


def seg_len(ctx, s):
    """length as int or z3 expression."""
    if isinstance(s, Lit):
        return len(s.s)
    if isinstance(s, (FInt, FFlt)):
        if s.w and fits(ctx, s):
            return s.w
        raise Unfit('content of %r may be wider than its column' % (s,))
    if isinstance(s, FAtom):
        if s.w == 0:
            return slen(s.e)
        if fits(ctx, s):
            return s.w
        raise Unfit('text %r may be wider than its column' % (s,))
    if isinstance(s, BinF):
        return 8 if s.fmt == 'd' else 4
    if isinstance(s, RepS):
        b = 0
        ctx.push([s.j])
        try:
            ctx.assume(z3.And(s.j >= 0, s.j < s.n))
            for x in s.segs:
                b = b + seg_len(ctx, x)
        finally:
            ctx.pop()
        if not isinstance(b, int):
            b = z3.simplify(b)
            if s.j.decl().name() in free_consts(b):
                raise Unsupported('length of a repetition with varying parts')
        return z3.simplify(s.n * b)
    if isinstance(s, Opq):
        return s.ln
    raise Unsupported('length of %r' % (s,))


def text_len(ctx, t):
    n = 0
    for s in t.segs:
        n = n + seg_len(ctx, s)
    return n if isinstance(n, int) else mkint(n)


def tail_lit(seg_or_none):
    return seg_or_none


def concat(*ts):
    b = any((isinstance(t, bytes) or isinstance(t, Text) and t.b) for t in ts)
    segs = []
    for t in ts:
        segs.extend(to_text(t).segs)
    return from_text(Text(segs, b))


def repeat(ctx, t, n):
    """t * n"""
    t = to_text(t)
    k = zi(n)
    if z3.is_int_value(z3.simplify(k)):
        n = z3.simplify(k).as_long()
        return from_text(Text(list(t.segs) * max(0, n), t.b))
    if not ctx.prove(k >= 0):
        if ctx.decide(mkbool(k >= 0)) is False:
            return b'' if t.b else ''
    j = fresh_int('rep')
    return Text([RepS(k, j, t.segs)], t.b)


# ---------------------------------------------------------------- slicing
def lin(e):
    """linear normal form: ({id: (term, coef)}, const) or None"""
    e = z3.simplify(e, som=True)
    terms = {}
    const = 0

    def add(x, c):
        nonlocal const
        if z3.is_int_value(x):
            const += c * x.as_long()
            return
        if z3.is_add(x):
            for y in x.children():
                add(y, c)
            return
        if z3.is_sub(x):
            ch = x.children()
            add(ch[0], c)
            for y in ch[1:]:
                add(y, -c)
            return
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            add(x.arg(0), -c)
            return
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            add(x.arg(1), c * x.arg(0).as_long())
            return
        k = x.sexpr()
        if k in terms:
            terms[k] = (x, terms[k][1] + c)
        else:
            terms[k] = (x, c)
    add(e, 1)
    return {k: v for k, v in terms.items() if v[1] != 0}, const


def from_lin(terms, const):
    out = None
    for x, c in terms.values():
        y = x if c == 1 else c * x
        out = y if out is None else out + y
    if out is None:
        return z3.IntVal(const)
    return z3.simplify(out + const) if const else z3.simplify(out)


def divmod_const(ctx, e, m):
    """(q, r) with e == m*q + r, 0 <= r < m, r a constant (by cases)."""
    if isinstance(e, int):
        return z3.IntVal(e // m), e % m
    terms, const = lin(e)
    bad = [(x, c) for x, c in terms.values() if c % m]
    if not bad:
        q = {k: (x, c // m) for k, (x, c) in terms.items()}
        return from_lin(q, const // m), const % m
    ee = z3.simplify(e)
    for r in range(min(m, 64)):
        if ctx.prove(ee % m == r):
            return z3.simplify((ee - r) / m), r
    bound = set()
    for sc in ctx.scopes:
        bound |= sc.bound
    loop = [(x, c) for x, c in bad if z3.is_const(x) and x.decl().name() in bound]
    if loop and len(bad) == 1:
        import math
        raise NeedGroup(loop[0][0], m // math.gcd(loop[0][1], m))
    if m <= 16:
        for r in range(m):
            if r == m - 1 or ctx.decide(ee % m == r):
                return z3.simplify((ee - r) / m), r
    raise Unsupported('position %s modulo %d' % (ee, m))


def slice_text(ctx, t, a, b):
    """t[a:b] with step 1."""
    t = to_text(t)
    total = None
    if len(t.segs) == 1 and isinstance(t.segs[0], Lit) and (a is None or isinstance(a, int)) and \
            (b is None or isinstance(b, int)):
        return from_text(Text([Lit(t.segs[0].s[a:b])], t.b))

    def tot():
        nonlocal total
        if total is None:
            total = text_len(ctx, t)
        return total
    if a is None:
        a = 0
    if isinstance(a, int) and a < 0:
        L = tot()
        if isinstance(L, int):
            a = max(0, L + a)
        else:
            a = mkint(zi(L) + a) if ctx.prove(zi(L) + a >= 0) or ctx.decide(mkbool(zi(L) + a >= 0)) else 0
    if isinstance(b, int) and b < 0:
        L = tot()
        if isinstance(L, int):
            b = max(0, L + b)
        else:
            b = mkint(zi(L) + b) if ctx.prove(zi(L) + b >= 0) or ctx.decide(mkbool(zi(L) + b >= 0)) else 0
    left, rest = split_text(ctx, t.segs, a, t.b)
    if b is None:
        return from_text(Text(rest, t.b))
    ln = mkint(zi(b) - zi(a)) if not (isinstance(a, int) and isinstance(b, int)) else b - a
    if isinstance(ln, int) and ln <= 0:
        return b'' if t.b else ''
    if not isinstance(ln, int) and not ctx.prove(ln.e >= 0):
        raise Unsupported('slice of unknown sign')
    mid, _ = split_text(ctx, rest, ln, t.b)
    return from_text(Text(mid, t.b))


def split_text(ctx, segs, pos, b):
    """cut a segment list at a position (clipped to the end)."""
    segs = list(segs)
    left = []
    while segs:
        if isinstance(pos, int) and pos <= 0:
            return left, segs
        s = segs[0]
        if isinstance(s, Lit):
            n = len(s.s)
            if isinstance(pos, int):
                if pos >= n:
                    left.append(s)
                    pos -= n
                    segs.pop(0)
                    continue
                left.append(Lit(s.s[:pos]))
                segs[0] = Lit(s.s[pos:])
                return left, segs
            if ctx.prove(pos.e >= n):
                left.append(s)
                pos = mkint(pos.e - n)
                segs.pop(0)
                continue
            if ctx.prove(pos.e == 0):
                return left, segs
            k = ctx.concretise(pos, 0, 40)
            if k is None:
                raise Unsupported('slice at symbolic position of literal')
            pos = k
            continue
        if isinstance(s, RepS):
            L = seg_len(ctx, s)
            ctx.push([s.j])
            try:
                ctx.assume(z3.And(s.j >= 0, s.j < s.n))
                body = sum(seg_len(ctx, x) for x in s.segs)
            finally:
                ctx.pop()
            if not isinstance(body, int):
                raise Unsupported('slice through a repetition with varying length')
            if body == 0:
                segs.pop(0)
                continue
            pe = zi(pos)
            if ctx.prove(pe >= L):
                left.append(s)
                pos = mkint(pe - L)
                segs.pop(0)
                continue
            if ctx.prove(pe == 0):
                return left, segs
            q, r = divmod_const(ctx, pe, body)
            if not ctx.prove(z3.And(q >= 0, q <= s.n)):
                raise Unsupported('slice position %s not provably inside' % pe)
            if r == 0:
                if ctx.prove(q == 0):
                    return left, segs
                if ctx.prove(q == s.n):
                    left.append(s)
                    segs.pop(0)
                    return left, segs
                j1 = fresh_int('rep')
                left.append(RepS(q, s.j, s.segs))
                right = RepS(z3.simplify(s.n - q), j1, [sub_seg(x, [(s.j, j1 + q)]) for x in s.segs])
                segs[0] = right
                return left, segs
            if not ctx.prove(q < s.n):
                raise Unsupported('slice position %s not provably inside' % pe)
            # position inside iteration q
            if not ctx.prove(q == 0):
                left.append(RepS(q, s.j, s.segs))
            it = [sub_seg(x, [(s.j, q)]) for x in s.segs]
            l2, r2 = split_text(ctx, norm_segs(it), r, b)
            left.extend(l2)
            j1 = fresh_int('rep')
            right = RepS(z3.simplify(s.n - q - 1), j1, [sub_seg(x, [(s.j, j1 + q + 1)]) for x in s.segs])
            segs[0:1] = list(r2) + [right]
            return left, segs
        n = seg_len(ctx, s)
        if isinstance(n, int):
            if isinstance(pos, int):
                if pos >= n:
                    left.append(s)
                    pos -= n
                    segs.pop(0)
                    continue
            elif ctx.prove(pos.e >= n):
                left.append(s)
                pos = mkint(pos.e - n)
                segs.pop(0)
                continue
            elif ctx.prove(pos.e == 0):
                return left, segs
            if isinstance(pos, int) and isinstance(s, (FInt, FFlt, FAtom)) and s.w:
                # inside the padding?
                if s.al == '>':
                    _, mx = nat_bounds(ctx, s)
                    if mx is not None and pos <= s.w - mx:
                        left.append(Lit(' ' * pos))
                        segs[0] = type(s)(s.w - pos, s.al, *[getattr(s, k) for k in s.__slots__[2:]])
                        return left, segs
                else:
                    _, mx = nat_bounds(ctx, s)
                    if mx is not None and pos >= mx:
                        left.append(type(s)(pos, s.al, *[getattr(s, k) for k in s.__slots__[2:]]))
                        segs[0] = Lit(' ' * (s.w - pos))
                        return left, segs
            raise Unsupported('slice cuts through the field %r' % (s,))
        # symbolic length
        pe = zi(pos)
        if ctx.prove(pe >= n):
            left.append(s)
            pos = mkint(pe - n)
            segs.pop(0)
            continue
        if ctx.prove(pe == 0):
            return left, segs
        raise Unsupported('slice inside %r' % (s,))
    return left, []


# ---------------------------------------------------------------- strip
def _unpad(s):
    if isinstance(s, (FInt, FFlt, FAtom)) and s.w:
        return type(s)(0, s.al, *[getattr(s, k) for k in s.__slots__[2:]])
    return s


def strip(ctx, t, left=True, right=True, chars=None):
    t = to_text(t)
    cs = None if chars is None else (to_text(chars).segs[0].s if to_text(chars).segs else '')

    def st(x, l, r):
        if t.b and cs is None:
            x = x.encode('latin-1')
            x = x.strip() if l and r else x.lstrip() if l else x.rstrip()
            return x.decode('latin-1')
        return x.strip(cs) if l and r else x.lstrip(cs) if l else x.rstrip(cs)
    if len(t.segs) <= 1 and all(isinstance(s, Lit) for s in t.segs):
        return from_text(Text([Lit(st(s.s, left, right)) for s in t.segs], t.b))
    segs = list(t.segs)

    def blank(s):
        return isinstance(s, Lit) and st(s.s, True, True) == ''

    def edge(i, l):
        """process the outermost segment; True when finished at this side."""
        s = segs[i]
        if isinstance(s, Lit):
            x = st(s.s, l, not l)
            if x:
                segs[i] = Lit(x)
                return True
            segs.pop(i)
            return False
        if isinstance(s, (FInt, FFlt)):
            if cs is not None:
                if any(c in '0123456789+-.eEdD' for c in cs):
                    raise Unsupported('strip of digits')
                if ' ' not in cs and s.w:
                    if (s.al == '>') == l:
                        raise Unsupported('strip at padded field')
                    return True
            if len(segs) == 1 and left and right:
                segs[i] = _unpad(s)
            elif s.w and (s.al == '>') == l:
                segs[i] = _unpad(s) if True else s
                if len(segs) > 1 or not (left and right):
                    pass
            elif s.w:
                pass      # padding on the other side stays
            return True
        if isinstance(s, FAtom):
            if cs is not None and not set(cs) <= set(WS):
                raise Unsupported('strip(%r) of a caller string' % cs)
            if cs is not None and ' ' not in cs:
                if s.w and (s.al == '<') != l:
                    raise Unsupported('strip at padded field')
                if not s.w and not ctx.prove(slen(s.e) >= 1):
                    raise Unsupported('strip of a possibly empty string')
                if not ctx.prove(z3.And(nolb(s.e))):
                    raise Unfit('string may end with a line break')
                return True
            if not ctx.prove(stripped(s.e)):
                ctx.hint(z3.Not(stripped(s.e)))
                raise Unfit('the string %s may have blanks at its ends' % s.e)
            others = [x for k, x in enumerate(segs) if k != (i % len(segs))]
            if all(blank(x) for x in others) and left and right:
                segs[:] = [_unpad(s)]
                return True
            if all(blank(x) for x in others):
                # one-sided: the padding at this side goes, an empty atom would expose the blanks: they are blank anyway
                if not others:
                    if s.w and (s.al == '>') == l:
                        segs[i] = _unpad(s)
                        return True
                    if s.w:      # padding at the other side stays, unless the string is empty
                        if ctx.prove(slen(s.e) >= 1):
                            return True
                        raise Unsupported('one-sided strip of a possibly empty padded string')
                    return True
                if s.w and (s.al == '>') == l:
                    segs[i] = _unpad(s)
                    s = segs[i]
                if ctx.prove(slen(s.e) >= 1):
                    return True
                raise Unsupported('one-sided strip of a possibly empty string')
            if not ctx.prove(slen(s.e) >= 1):
                raise Unsupported('strip of several fields, the outer one possibly empty')
            if s.w and (s.al == '>') == l:
                segs[i] = _unpad(s)
            return True
        if line_kind(s) and not l and (cs is None or set(cs) == set('\r\n')):
            f = RSTRIP['nl' if cs else None](s.e)
            segs[i] = Opq(f, RLEN(f))
            return True
        raise Unsupported('strip of %r' % (s,))
    # rstrip of '<' padded single field: padding on that side goes
    def one_sided_pad(i, l):
        s = segs[i]
        if isinstance(s, (FInt, FFlt, FAtom)) and s.w and (s.al == '<') == (not l) and (cs is None or ' ' in cs):
            if cs is not None and (not set(cs) <= set(WS) if isinstance(s, FAtom) else
                                   any(c in '0123456789+-.eEdD' for c in cs)):
                raise Unsupported('strip(%r) of a field' % cs)
            if isinstance(s, FAtom):
                if not ctx.prove(stripped(s.e)):
                    raise Unfit('the string %s may have blanks at its ends' % s.e)
                if len(segs) > 1 and not ctx.prove(slen(s.e) >= 1) and \
                        not all(blank(x) for k, x in enumerate(segs) if k != (i % len(segs))):
                    raise Unsupported('strip of a possibly empty string')
            segs[i] = _unpad(s)
            return True
        return False
    if left:
        while segs:
            if one_sided_pad(0, True):
                break
            if edge(0, True):
                break
    if right:
        while segs:
            if one_sided_pad(-1, False):
                break
            if edge(-1, False):
                break
    return from_text(Text(segs, t.b))


# ---------------------------------------------------------------- split into tokens / lines
def split_ws(ctx, t):
    """t.split() as a Seq of texts."""
    t = to_text(t)
    st, parts, en = _toks(ctx, t.segs, t.b)
    return Seq(_pieces(parts))


def _pieces(parts):
    out = []
    for p in parts:
        if isinstance(p, (Gen, RawLines)):
            out.append(p)
        else:
            out.append(Items([p]))
    return out


def _toks(ctx, segs, b):
    parts = []
    cur = []
    starts = True       # text starts with a separator (or is empty)
    first = True
    open_rep = False

    def flush():
        nonlocal cur, open_rep
        if cur:
            parts.append(from_text(Text(cur, b)))
        cur = []
        open_rep = False

    def need_sep(s):
        nonlocal starts
        if first:
            starts = False
        if open_rep:
            raise Unfit('a number of a repeated line may run into the next field %r' % (s,))
    for s in segs:
        if isinstance(s, Lit):
            for c in re.split('([' + re.escape(WS) + ']+)', s.s):
                if c == '':
                    continue
                if c[0] in WS:
                    flush()
                    if open_rep:
                        open_rep = False
                else:
                    need_sep(s)
                    cur.append(Lit(c))
                first = False
            continue
        if isinstance(s, (FInt, FFlt)):
            if s.w and s.al == '>' and fits(ctx, s, True):
                flush()
                open_rep = False
                cur = [_unpad(s)]
            elif s.w and s.al == '<':
                if not fits(ctx, s, True):
                    raise Unfit('field %r may touch the next one' % (s,))
                need_sep(s)
                if cur:
                    raise Unfit('field %r touches the previous one' % (s,))
                cur = [_unpad(s)]
                flush()
            else:
                need_sep(s)
                if cur:
                    raise Unfit('field %r may touch the previous one' % (s,))
                cur = [_unpad(s)]
            first = False
            continue
        if isinstance(s, RepS):
            ctx.push([s.j])
            try:
                ctx.assume(z3.And(s.j >= 0, s.j < s.n))
                st2, p2, en2 = _toks(ctx, s.segs, b)
            finally:
                ctx.pop()
            if not st2 and not en2:
                raise Unfit('repeated fields may touch each other')
            if not st2:
                need_sep(s)
                if cur:
                    raise Unfit('repeated fields may touch the previous one')
            flush()
            if p2:
                parts.append(Gen(s.n, s.j, [Splice(Seq([p])) if isinstance(p, Gen) else p for p in p2]))
            open_rep = not en2
            first = False
            continue
        raise Unsupported('split of %r' % (s,))
    ends = not cur and not open_rep
    flush_open = bool(cur)
    if flush_open:
        flush()
    return starts, parts, ends


def splitlines(ctx, t, keep):
    t = to_text(t)
    parts, cur = _lines(ctx, t.segs, t.b, keep)
    if isinstance(cur, RawLines):
        parts.append(cur)
    elif cur:
        parts.append(from_text(Text(cur, t.b)))
    return Seq(_pieces(parts))


# lines of unknown bytes: a whole line with its line end, and the part of a line before a known line end
LINE = z3.Function('line', z3.IntSort(), z3.IntSort(), AtomSort)
LLEN = z3.Function('line_len', z3.IntSort(), z3.IntSort(), z3.IntSort())
PART = z3.Function('line_part', z3.IntSort(), AtomSort)
PLEN = z3.Function('part_len', z3.IntSort(), z3.IntSort())
RSTRIP = {None: z3.Function('rstrip', AtomSort, AtomSort), 'nl': z3.Function('rstrip_nl', AtomSort, AtomSort)}
RLEN = z3.Function('rstrip_len', AtomSort, z3.IntSort())


def line_kind(s):
    if isinstance(s, Opq) and z3.is_app(s.e):
        return {'line': 'line', 'line_part': 'part'}.get(s.e.decl().name())
    return None


def _has_bin(segs):
    return any(isinstance(s, BinF) or isinstance(s, Opq) and not line_kind(s) or isinstance(s, RepS) and _has_bin(s.segs) for s in segs)


def _may_break(segs):
    for s in segs:
        if isinstance(s, Lit) and len((s.s + 'x').splitlines()) > 1:
            return True
        if isinstance(s, RepS) and _may_break(s.segs) or line_kind(s):
            return True
    return False


def _lines(ctx, segs, b, keep):
    parts, cur = [], []
    for idx, s in enumerate(segs):
        if isinstance(s, Lit):
            src = s.s.encode('latin-1') if b else s.s
            for ln in src.splitlines(True):
                raw = ln.decode('latin-1') if b else ln
                body = (ln.splitlines()[0] if ln.splitlines() else ln)
                body = body.decode('latin-1') if b else body
                if body != raw or raw in ('\n', '\r', '\r\n'):
                    cur.append(Lit(raw if keep else body))
                    parts.append(from_text(Text(cur, b)))
                    cur = []
                else:
                    cur.append(Lit(raw))
            continue
        if isinstance(s, (FInt, FFlt)):
            cur.append(s)
            continue
        if isinstance(s, FAtom):
            if not ctx.prove(nolb(s.e)):
                ctx.hint(z3.Not(nolb(s.e)))
                raise Unfit('the string %s may contain a line break' % s.e)
            cur.append(s)
            continue
        k = line_kind(s)
        if k and b and keep:
            cur.append(s)
            if k == 'line':
                if len(cur) > 1:
                    raise Unsupported('a line in the middle of a line')
                parts.append(from_text(Text(cur, b)))
                cur = []
            continue
        if isinstance(s, (BinF, Opq)) or isinstance(s, RepS) and _has_bin([s]):
            if not b:
                raise Unsupported('splitting binary data as text')
            if cur:
                raise Unsupported('binary data in the middle of a line')
            if not keep:
                raise Unsupported('lines of binary data without their line breaks')
            rest = Text(segs[idx:], b)
            return parts, RawLines(rest)
        if isinstance(s, RepS):
            if not _may_break(s.segs):
                # check that the strings in it have no line breaks
                ctx.push([s.j])
                try:
                    ctx.assume(z3.And(s.j >= 0, s.j < s.n))
                    _lines(ctx, s.segs, b, keep)
                finally:
                    ctx.pop()
                cur.append(s)
                continue
            if cur:
                raise Unsupported('repeated lines start in the middle of a line')
            ctx.push([s.j])
            try:
                ctx.assume(z3.And(s.j >= 0, s.j < s.n))
                p2, c2 = _lines(ctx, s.segs, b, keep)
            finally:
                ctx.pop()
            if c2:
                raise Unsupported('repeated text does not end with a line break')
            parts.append(Gen(s.n, s.j, [Splice(Seq([p])) if isinstance(p, (Gen, RawLines)) else p for p in p2]))
            continue
        raise Unsupported('splitlines of %r' % (s,))
    return parts, cur


def join(ctx, sep, seq):
    sept = to_text(sep)
    b = sept.b
    segs = []
    started = False
    for p in seq.pieces:
        if isinstance(p, Items):
            for v in p.v:
                if not is_text(v):
                    raise Unsupported('join of %r' % (v,))
                if started:
                    segs.extend(sept.segs)
                segs.extend(to_text(v).segs)
                started = True
        elif isinstance(p, RawLines):
            if sept.segs:
                raise Unsupported('join of raw lines with a separator')
            segs.extend(p.text.segs)
            started = True
        elif isinstance(p, Gen):
            if sept.segs and not started:
                if not ctx.decide(mkbool(p.n >= 1)):
                    continue
                g0 = [subst(x, [(p.j, z3.IntVal(0))]) for x in p.parts]
                t0 = to_text(join(ctx, sep, _group_seq(g0)))
                j1 = fresh_int('jn')
                rest = Gen(z3.simplify(p.n - 1), j1, [subst(x, [(p.j, j1 + 1)]) for x in p.parts])
                segs.extend(t0.segs)
                started = True
                p = rest
            body = []
            for part in p.parts:
                if isinstance(part, Splice):
                    if sept.segs:
                        raise Unsupported('join with separator over nested sequences')
                    body.extend(to_text(join(ctx, sep, part.seq)).segs)
                else:
                    if not is_text(part):
                        raise Unsupported('join of %r' % (part,))
                    body.extend(sept.segs)
                    body.extend(to_text(part).segs)
            segs.append(RepS(p.n, p.j, norm_segs(body)))
            started = True
        else:
            raise Unsupported('join of %r' % (p,))
    return from_text(Text(segs, b))


def _group_seq(vals):
    out = []
    for v in vals:
        if isinstance(v, Splice):
            out.extend(v.seq.pieces)
        else:
            out.append(Items([v]))
    return Seq(out)


# ---------------------------------------------------------------- numbers
def parse_num(ctx, t, what):
    """int(t) / float(t) for text: returns a value, or raises ValueError_ (a Python ValueError of the program)."""
    t = to_text(t)
    segs = [s for s in t.segs]
    while segs and isinstance(segs[0], Lit) and segs[0].s.strip() == '':
        segs.pop(0)
    while segs and isinstance(segs[-1], Lit) and segs[-1].s.strip() == '':
        segs.pop()
    if all(isinstance(s, Lit) for s in segs):
        s = segs[0].s if segs else ''
        return host(int if what == 'int' else float, s)
    if len(segs) == 1:
        s = segs[0]
        if isinstance(s, FInt):
            return mkint(s.e) if what == 'int' else SReal(z3.ToReal(s.e))
        if isinstance(s, FFlt):
            if what == 'int':
                raise ProgErr('ValueError', 'int of a real text')
            if {s.ep, s.en} - {'e', 'E'}:
                raise ProgErr('ValueError', 'exponent letter')
            return rnd_val(s.p, SReal(s.e))
        if isinstance(s, FAtom):
            raise Unsupported('number parsed from a caller string')
    if any(isinstance(s, (FAtom, RepS, Opq, Hole, BinF)) for s in segs):
        raise Unsupported('number parsed from %r' % (t,))
    # several numeric fields in one token
    raise Unfit('several fields parsed as one number: %r' % (t,))


def rnd_val(p, v):
    """value of a number printed with p decimals in exponent form and read back."""
    if isinstance(v, (int, float)):
        return float('%.*e' % (p, v)) if p < 16 else float(v)
    e = zr(v)
    if z3.is_rational_value(z3.simplify(e)):
        x = mkreal(e)
        if isinstance(x, float):
            return float('%.*e' % (p, x))
    if p >= 16:
        return mkreal(e)
    if z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith('rnd') and e.decl().name()[3:].isdigit() \
            and int(e.decl().name()[3:]) <= p:
        return SReal(e)
    return SReal(rnd_fun(p)(e))


def f32_val(v):
    if isinstance(v, (int, float)):
        import struct
        return struct.unpack('<f', struct.pack('<f', v))[0]
    e = zr(v)
    if z3.is_app(e) and e.decl().name() == 'F32':
        return SReal(e)
    return SReal(F32(e))


# ---------------------------------------------------------------- formatting
PCT = re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')
FSP = re.compile(r'^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$')


def int_like(v):
    """integer expression of a number whose value is certainly integral, else None."""
    if isinstance(v, (bool, int, SInt, SBool)):
        return zi(v)
    if isinstance(v, float):
        return zi(v)
    if isinstance(v, SReal):
        e = z3.simplify(v.e)
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            return e.arg(0)
        return None
    return None


def fmt_one(ctx, flags, width, prec, conv, v, fmtstr, b=False):
    """segments of one conversion; fmtstr: equivalent concrete formatter."""
    w = int(width or 0)
    al = '<' if '-' in flags else '>'
    if isinstance(v, (bool, int, float, str, bytes, complex)) or v is None:
        return [Lit(host(fmtstr, v))]
    if conv in 'di':
        if isinstance(v, SReal):
            e = int_like(v)
            if e is None:
                raise Unsupported('%%i of a real %s' % v.e)
        elif isinstance(v, (SInt, SBool)):
            e = zi(v)
        elif isinstance(v, Text):
            raise ProgErr('TypeError', '%d format: a real number is required, not str')
        else:
            raise Unsupported('%%i of %r' % (v,))
        if set(flags) - {'-'}:
            raise Unsupported('flags %r' % flags)
        return [sub_seg(FInt(w, al, e), [])]
    if conv in 'eE':
        if isinstance(v, Text):
            raise ProgErr('TypeError', 'must be real number, not str')
        if set(flags) - {'-'}:
            raise Unsupported('flags %r' % flags)
        e = zr(v)
        if e is None:
            raise Unsupported('%%e of %r' % (v,))
        return [FFlt(w, al, 6 if prec is None else int(prec), z3.simplify(e), conv, conv)]
    if conv in 'fF':
        e = int_like(v) if not isinstance(v, Text) else None
        if e is not None and prec is not None and int(prec) == 0:
            return [sub_seg(FInt(w, al, e), [])]
        raise Unsupported('%%f of %r' % (v,))
    if conv in 's':
        if isinstance(v, (SInt,)):
            return [FInt(w, al, v.e)]
        if isinstance(v, SReal):
            raise Unsupported('%%s of a real')
        if isinstance(v, Text):
            if prec is not None:
                raise Unsupported('%.s')
            if len(v.segs) == 1 and isinstance(v.segs[0], FAtom) and v.segs[0].w == 0:
                return [FAtom(w, al, v.segs[0].e)]
            if len(v.segs) == 1 and isinstance(v.segs[0], (FInt, FFlt)) and v.segs[0].w == 0:
                return [type(v.segs[0])(w, al, *[getattr(v.segs[0], k) for k in v.segs[0].__slots__[2:]])]
            if w == 0:
                return list(v.segs)
            n = text_len(ctx, v)
            if isinstance(n, int):
                pad = Lit(' ' * max(0, w - n))
                return [pad] + list(v.segs) if al == '>' else list(v.segs) + [pad]
            if ctx.prove(zi(n) >= w):
                return list(v.segs)
        raise Unsupported('%%s of %r' % (v,))
    if conv == 'c':
        if isinstance(v, Text):
            return list(v.segs)
    raise Unsupported('conversion %%%s of %r' % (conv, v))


def percent(ctx, f, args, get_str):
    """f % args; args: Seq of values (flattened tuple)."""
    from .seqs import take_front
    f = to_text(f)
    out = []
    seq = args
    for s in f.segs:
        if isinstance(s, Lit):
            segs, k = _pct_lit(s.s)
            vals, seq = take_front(ctx, seq, k)
            out.extend(_apply_pct(ctx, segs, vals, f.b, get_str))
        elif isinstance(s, RepS):
            from .seqs import split_at, groups_of
            if not all(isinstance(x, Lit) for x in s.segs):
                raise Unsupported('repeated format with fields')
            lit = ''.join(x.s for x in s.segs)
            segs, k = _pct_lit(lit)
            if k == 0:
                out.append(RepS(s.n, s.j, [Lit(lit.replace('%%', '%'))]))
                continue
            a, seq = split_at(ctx, seq, mkint(s.n * k))
            for cnt, j, grp in groups_of(ctx, a, k, s.n):
                if j is None:
                    out.extend(_apply_pct(ctx, segs, grp, f.b, get_str))
                    continue
                ctx.push([j])
                try:
                    ctx.assume(z3.And(j >= 0, j < cnt))
                    body = _apply_pct(ctx, segs, grp, f.b, get_str)
                finally:
                    ctx.pop()
                out.append(RepS(cnt, j, norm_segs(body)))
        else:
            raise Unsupported('format string %r' % (f,))
    from .seqs import seq_len
    n = seq_len(ctx, seq)
    if not ctx.prove(zi(n) == 0):
        if ctx.prove(zi(n) > 0):
            raise ProgErr('TypeError', 'not all arguments converted during string formatting')
        raise Unsupported('number of format arguments')
    return from_text(Text(out, f.b))


def _pct_lit(s):
    """list of str | match, number of values taken."""
    out, pos, k = [], 0, 0
    while True:
        i = s.find('%', pos)
        if i < 0:
            out.append(s[pos:])
            break
        out.append(s[pos:i])
        m = PCT.match(s, i)
        if not m:
            raise ProgErr('ValueError', 'unsupported format character')
        if m.group(1) or m.group(3) == '*' or m.group(4) == '*':
            raise Unsupported('format %s' % m.group(0))
        if m.group(5) == '%':
            out.append('%')
        else:
            out.append(m)
            k += 1
        pos = m.end()
    return out, k


def _apply_pct(ctx, segs, vals, b, get_str):
    vals = list(vals)
    out = []
    for s in segs:
        if isinstance(s, str):
            out.append(Lit(s))
            continue
        v = vals.pop(0)
        conv = s.group(5)
        if conv in 'sr' and not isinstance(v, (bool, int, float, str, SInt, SReal, Text)):
            v = get_str(v)
        f = s.group(0)
        out.extend(fmt_one(ctx, s.group(2), s.group(3), s.group(4), conv, v,
                           lambda x, f=f: f % ((x,) if not isinstance(x, bytes) else (x.decode('latin-1'),))))
    return out


def format_spec(ctx, v, spec, get_str):
    """format(v, spec) -> text."""
    if isinstance(v, (bool, int, float, str, complex)) or v is None:
        return host(format, v, spec)
    m = FSP.match(spec)
    if not m:
        raise ProgErr('ValueError', 'Invalid format specifier')
    fill, al, sign, alt, zero, width, comma, prec, conv = m.groups()
    if fill not in (None, ' ') or sign in ('+', ' ') or alt or zero or comma or al in ('=', '^'):
        raise Unsupported('format spec %r' % spec)
    if not isinstance(v, (SInt, SReal, Text, SBool)):
        v = get_str(v)
    if conv is None:
        conv = 's' if isinstance(v, Text) else 'd' if isinstance(v, SInt) else None
        if conv is None:
            raise Unsupported('format spec %r of %r' % (spec, v))
    if conv == 'n':
        raise Unsupported('format n')
    if al is None:
        al = '<' if isinstance(v, Text) else '>'
    if conv == 's' and not isinstance(v, Text):
        raise ProgErr('ValueError', 'Unknown format code')
    if conv == 'd' and isinstance(v, SReal):
        raise ProgErr('ValueError', "Unknown format code 'd' for object of type 'float'")
    return from_text(Text(fmt_one(ctx, '-' if al == '<' else '', width, prec, conv, v, None)))


# ---------------------------------------------------------------- replace, case
def replace(ctx, t, old, new):
    t = to_text(t)
    old, new = to_text(old), to_text(new)
    if len(old.segs) != 1 or not isinstance(old.segs[0], Lit) or any(not isinstance(s, Lit) for s in new.segs):
        raise Unsupported('replace with symbolic pattern')
    o = old.segs[0].s
    n = new.segs[0].s if new.segs else ''
    return from_text(Text(_repl(ctx, t.segs, o, n), t.b))


def _repl(ctx, segs, o, n):
    out = []
    numeric = set('0123456789+-.eEdD ')
    if any(not isinstance(s, Lit) for s in segs) and len(o) > 1 and not re.match(r'^[eEdD][+-]$', o):
        # a match across segment boundaries must be impossible
        if not (set(o) - numeric and not (set(o) & numeric)):
            raise Unsupported('replace(%r) in formatted text' % o)
    for s in segs:
        if isinstance(s, Lit):
            out.append(Lit(s.s.replace(o, n)))
        elif isinstance(s, FInt):
            if set(o) <= set('0123456789- '):
                raise Unsupported('replace(%r) in a number' % o)
            out.append(s)
        elif isinstance(s, FFlt):
            ep, en = s.ep, s.en
            if re.match(r'^[eEdD][+-]$', o):
                if len(n) != 2 or n[1] != o[1]:
                    raise Unsupported('replace(%r,%r)' % (o, n))
                if o[1] == '+' and ep == o[0]:
                    ep = n[0]
                if o[1] == '-' and en == o[0]:
                    en = n[0]
            elif o in ('e', 'E', 'd', 'D'):
                if len(n) != 1:
                    raise Unsupported('replace(%r,%r)' % (o, n))
                ep = n if ep == o else ep
                en = n if en == o else en
            elif set(o) & numeric:
                raise Unsupported('replace(%r) in a number' % o)
            out.append(FFlt(s.w, s.al, s.p, s.e, ep, en))
        elif isinstance(s, RepS):
            out.append(RepS(s.n, s.j, _repl(ctx, s.segs, o, n)))
        elif isinstance(s, FAtom):
            if o in ('\n', '\r', '\r\n') and ctx.prove(nolb(s.e)):
                out.append(s)
                continue
            raise Unsupported('replace in a caller string')
        else:
            raise Unsupported('replace in %r' % (s,))
    return out


def change_case(ctx, t, f):
    t = to_text(t)

    def go(segs):
        out = []
        for s in segs:
            if isinstance(s, Lit):
                out.append(Lit(f(s.s)))
            elif isinstance(s, FInt):
                out.append(s)
            elif isinstance(s, FFlt):
                out.append(FFlt(s.w, s.al, s.p, s.e, f(s.ep), f(s.en)))
            elif isinstance(s, RepS):
                out.append(RepS(s.n, s.j, go(s.segs)))
            elif isinstance(s, FAtom):
                out.append(FAtom(s.w, s.al, LOWER(s.e) if f is str.lower else UPPER(s.e)))
            else:
                raise Unsupported('case change of %r' % (s,))
        return out
    return from_text(Text(go(t.segs), t.b))


def first_char(t):
    """the text has a non-blank formatted number in it."""
    return any(isinstance(s, (FInt, FFlt)) for s in t.segs)


def text_eq(ctx, a, b):
    """a == b as bool / SBool."""
    a, b = to_text(a), to_text(b)
    if a.b != b.b:
        return False
    if all(isinstance(s, Lit) for s in a.segs) and all(isinstance(s, Lit) for s in b.segs):
        return ''.join(s.s for s in a.segs) == ''.join(s.s for s in b.segs)
    if a.segs and b.segs and isinstance(a.segs[0], Lit) and isinstance(b.segs[0], Lit):
        # the same literal beginning
        p, q = a.segs[0].s, b.segs[0].s
        k = min(len(p), len(q))
        if p[:k] != q[:k]:
            return False
        return text_eq(ctx, Text([Lit(p[k:])] + list(a.segs[1:]), a.b), Text([Lit(q[k:])] + list(b.segs[1:]), b.b))
    for x, y in ((a, b), (b, a)):
        if all(isinstance(s, Lit) for s in y.segs):
            lit = ''.join(s.s for s in y.segs)
            if len(x.segs) == 1 and isinstance(x.segs[0], FAtom) and x.segs[0].w == 0:
                e = x.segs[0].e
                if lit == '':
                    return mkbool(slen(e) == 0)
                return mkbool(e == lit_atom(lit))
            if first_char(x) and lit.strip() == '':
                return False
            if len(x.segs) == 1 and isinstance(x.segs[0], FInt) and x.segs[0].w == 0:
                # a plain decimal number is this text only if the text is the number's own spelling
                try:
                    own = str(int(lit)) == lit
                except ValueError:
                    own = False
                return mkbool(x.segs[0].e == int(lit)) if own else False
            if all(isinstance(s, Lit) for s in x.segs[:1]) and x.segs and isinstance(x.segs[0], Lit):
                p = x.segs[0].s
                if not lit.startswith(p[:len(lit)]) or len(p) > len(lit):
                    return False
    if len(a.segs) == 1 and len(b.segs) == 1 and isinstance(a.segs[0], FAtom) and isinstance(b.segs[0], FAtom) \
            and a.segs[0].w == b.segs[0].w and a.segs[0].al == b.segs[0].al:
        return mkbool(a.segs[0].e == b.segs[0].e)
    for x, y in ((a, b), (b, a)):
        if len(x.segs) == 1 and isinstance(x.segs[0], Opq) and all(isinstance(q, Lit) for q in y.segs):
            lit = ''.join(q.s for q in y.segs)
            if not ctx.prove(x.segs[0].ln == len(lit)):
                if ctx.prove(x.segs[0].ln != len(lit)):
                    return False
                return mkbool(z3.And(x.segs[0].ln == len(lit), x.segs[0].e == lit_atom(lit)))
            return mkbool(x.segs[0].e == lit_atom(lit))
        if len(x.segs) == 2 and isinstance(x.segs[0], Opq) and isinstance(x.segs[1], Lit) and all(
                isinstance(q, Lit) for q in y.segs):
            lit, end = ''.join(q.s for q in y.segs), x.segs[1].s
            if not lit.endswith(end):
                return False
            return text_eq(ctx, Text(x.segs[:1], x.b), Text([Lit(lit[:-len(end)])], x.b))
    raise Unsupported('comparison of texts %r == %r' % (a, b))
