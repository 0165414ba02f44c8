"""Operations on symbolic sequences."""
import z3
from .vals import *
from .text import lin, from_lin, divmod_const, split_text, text_len, ProgErr

_offs = {}


def part_size(ctx, p):
    if isinstance(p, Splice):
        return seq_len_e(ctx, p.seq)
    return z3.IntVal(1)


def gsize(ctx, g):
    """size of one group, as z3 expression of g.j (or int value)."""
    n = z3.IntVal(0)
    for p in g.parts:
        n = n + part_size(ctx, p)
    return z3.simplify(n)


def gconst(ctx, g):
    """constant group size as int, or None."""
    e = gsize(ctx, g)
    if z3.is_int_value(e):
        return e.as_long()
    if len(g.parts) > 1 and all(isinstance(x, Splice) and len(x.seq.pieces) == 1 and guard(x.seq.pieces[0]) is not None
                                for x in g.parts):
        # alternatives of which exactly one is there?
        key = z3.substitute(e, (g.j, z3.Int('off!v'))).sexpr() + str(g.n)
        if key not in ctx.ones:
            ctx.push([g.j])
            try:
                ctx.assume(z3.And(g.j >= 0, g.j < g.n))
                one = ctx.prove(e == 1)
            finally:
                ctx.pop()
            ctx.ones[key] = one
        if ctx.ones[key]:
            return 1
    return None


def gen_len(ctx, g):
    c = gconst(ctx, g)
    if c is not None:
        return z3.simplify(g.n * c)
    e = gsize(ctx, g)
    if g.j.decl().name() not in free_consts(e):
        c = guard(g)
        if c is None:
            raise Unsupported('product of two symbolic sizes')
        return z3.simplify(z3.If(c, e, z3.IntVal(0)))
    return off(ctx, g, g.n)


def guard(p):
    """the condition of a group that is there or not"""
    if isinstance(p, Gen) and z3.is_app_of(p.n, z3.Z3_OP_ITE):
        c, a, b = p.n.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if (a.as_long(), b.as_long()) == (1, 0):
                return c
            if (a.as_long(), b.as_long()) == (0, 1):
                return z3.simplify(z3.Not(c))
    return None


def resolve(ctx, pieces):
    """decide whether the group at the front is there"""
    while pieces:
        c = guard(pieces[0])
        if c is None:
            return
        pieces[0:1] = list(parts_seq(group_at(pieces[0], 0)).pieces) if ctx.decide(c) else []


def valid(phi):
    """is the formula true by itself?"""
    s = z3.Solver()
    s.set('timeout', 1000)
    return s.check(z3.Not(phi)) == z3.unsat


def off(ctx, g, k):
    """number of elements in the first k groups."""
    c = gconst(ctx, g)
    if c is not None:
        return z3.simplify(c * k)
    e = gsize(ctx, g)
    canon = z3.Int('off!v')
    ce = z3.substitute(e, (g.j, canon))
    key = ce.sexpr()
    bound = set()
    for sc in ctx.scopes:
        bound |= sc.bound
    if bound & free_consts(ce) - {g.j.decl().name()}:
        return shifted_off(ctx, g, ce, canon, k)
    if key not in _offs:
        for f, known, ca in list(_offs.values()):
            # the same size, written differently
            if free_consts(known) | {str(canon)} == free_consts(ce) | {str(ca)} and valid(z3.substitute(known, (ca, canon)) == ce):
                _offs[key] = (f, known, ca)
                break
    if key not in _offs:
        _offs[key] = (z3.Function('off!%d' % len(_offs), z3.IntSort(), z3.IntSort()), ce, canon)
    f = _offs[key][0]
    if not any(r[0] is f for r in ctx.offs_known):
        # lemma: off is monotone (induction over the groups; step: size >= 0, or >= 1 strictly)
        j = fresh_int('of')
        ctx.push([j])
        try:
            ctx.assume(z3.And(j >= 0, j < g.n))
            sz = z3.substitute(ce, (canon, j))
            pos1 = ctx.prove(sz >= 1)
            if not pos1 and not ctx.prove(sz >= 0):
                raise Unsupported('group of possibly negative size')
        finally:
            ctx.pop()
        a, b = z3.Ints('off!a off!b')
        ctx.assume(f(0) == 0, 0)
        concl = f(a) < f(b) if pos1 else f(a) <= f(b)
        ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b <= g.n), concl),
                             patterns=[z3.MultiPattern(f(a), f(b))]), 0)
        ctx.offs_known.append((f, ce, canon, g.n))
    k = z3.simplify(k) if not isinstance(k, int) else z3.IntVal(k)
    if z3.is_int_value(k) and k.as_long() == 0:
        return z3.IntVal(0)
    return f(k)


def shifted_off(ctx, g, ce, canon, k):
    """groups q, q + 1, ... of a sequence of groups: off(q + k) - off(q) of that sequence"""
    acc, todo, qs = [], [ce], {}
    while todo:
        e = todo.pop()
        if str(canon) in free_consts(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                acc += [c for c in e.children() if str(canon) in free_consts(c)]
            else:
                todo += e.children()
    for t in acc:
        q = z3.simplify(t - canon)
        if str(canon) in free_consts(q):
            break
        qs[q.sexpr()] = q
    else:
        if len(qs) == 1:
            q = next(iter(qs.values()))
            base = z3.substitute(ce, *[(t, canon) for t in acc])
            for f, known, ca, n in ctx.offs_known:
                at = z3.substitute(known, (ca, canon))
                if (z3.simplify(at).eq(z3.simplify(base)) or valid(at == base)) and ctx.prove(z3.And(
                        q >= 0, q + g.n <= n)):
                    return z3.simplify(f(z3.simplify(q + k)) - f(q))
    raise Unsupported('cumulative size that depends on an outer loop')


def off_lemma(ctx):
    """cumulative sizes of groups of the same sizes are the same (induction over the groups); whether one was found"""
    found = False
    for i, (f, a, ca, n) in enumerate(ctx.offs_known):
        for h, b, cb, m in ctx.offs_known[:i]:
            if (f, h) in ctx.offs_same or not ctx.prove(n == m):
                continue
            j = fresh_int('of')
            ctx.push([j])
            try:
                ctx.assume(z3.And(j >= 0, j < n))
                same = ctx.prove(z3.substitute(a, (ca, j)) == z3.substitute(b, (cb, j)))
            finally:
                ctx.pop()
            if same:
                k = z3.Int('off!k')
                for x, y in ((f, h), (h, f)):
                    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), x(k) == y(k)), patterns=[x(k)]))
                found = True
                if len(ctx.scopes) == 1:
                    ctx.offs_same.append((f, h))
    return found


def off_step(ctx, g, k):
    """definition of the cumulative size at k: off(k+1) == off(k) + size(k)."""
    if gconst(ctx, g) is not None:
        return
    e = gsize(ctx, g)
    f = off(ctx, g, k + 1)
    lvl = 0
    names = free_consts(k) if not isinstance(k, int) else set()
    for i in range(len(ctx.scopes) - 1, 0, -1):
        if ctx.scopes[i].bound & names:
            lvl = i
            break
    ctx.assume(f == off(ctx, g, k) + z3.substitute(e, (g.j, k if not isinstance(k, int) else z3.IntVal(k))), lvl)


def piece_len(ctx, p):
    if isinstance(p, Items):
        return z3.IntVal(len(p.v))
    if isinstance(p, Gen):
        return gen_len(ctx, p)
    if isinstance(p, HoleArr):
        return p.n
    if isinstance(p, HolePiece):
        return p.len
    raise Unsupported('length of %r' % (p,))


def seq_len_e(ctx, s):
    n = z3.IntVal(0)
    for p in s.pieces:
        n = n + piece_len(ctx, p)
    return z3.simplify(n)


def seq_len(ctx, s):
    return mkint(seq_len_e(ctx, s))


def group_at(g, k):
    """parts of group number k."""
    k = z3.IntVal(k) if isinstance(k, int) else k
    return [subst(p, [(g.j, k)]) for p in g.parts]


def parts_seq(parts):
    out = []
    for p in parts:
        if isinstance(p, Splice):
            out.extend(p.seq.pieces)
        else:
            out.append(Items([p]))
    return Seq(out)


def shift(g, q, n):
    j = fresh_int('sh')
    return Gen(z3.simplify(n), j, [subst(p, [(g.j, j + q)]) for p in g.parts])


def concat(*ss):
    out = []
    for s in ss:
        out.extend(s.pieces)
    return Seq(out)


def locate(ctx, g, rel):
    """(group number q, remainder r) of relative position rel in Gen g; r int or expr."""
    c = gconst(ctx, g)
    if c is not None:
        q, r = divmod_const(ctx, rel, c)
        return q, z3.IntVal(r)
    f = off(ctx, g, g.n).decl()
    terms, const = lin(rel)
    k = z3.IntVal(0)
    for key, (x, co) in terms.items():
        if co == 1 and z3.is_app(x) and x.decl().eq(f):
            rel = from_lin({kk: vv for kk, vv in terms.items() if kk != key}, const)
            k = x.arg(0)
            break
    if not ctx.prove(rel >= 0):
        raise Unsupported('position %s in a list of groups of varying size' % rel)
    for _ in range(3):
        if ctx.prove(k >= g.n):
            return k, rel
        size = z3.simplify(z3.substitute(gsize(ctx, g), (g.j, k)))
        if ctx.prove(rel < size):
            return k, rel
        if not ctx.prove(rel >= size) and ctx.decide(mkbool(rel < size)):
            return k, rel
        off_step(ctx, g, k)
        k, rel = z3.simplify(k + 1), z3.simplify(rel - size)
    raise Unsupported('position %s in a list of groups of varying size' % rel)


def split_at(ctx, s, pos, clip=True):
    """(s[:pos], s[pos:]) for 0 <= pos (clipped at the end)."""
    pieces = list(s.pieces)
    left = []
    while pieces:
        pe = zi(pos)
        if isinstance(pos, int) and pos <= 0:
            break
        if not isinstance(pos, int) and ctx.prove(pe == 0):
            break
        resolve(ctx, pieces)
        if not pieces:
            break
        p = pieces[0]
        if isinstance(p, Items):
            n = len(p.v)
            if isinstance(pos, int):
                if pos >= n:
                    left.append(p)
                    pieces.pop(0)
                    pos -= n
                    continue
                left.append(Items(p.v[:pos]))
                pieces[0] = Items(p.v[pos:])
                break
            if ctx.prove(pe >= n):
                left.append(p)
                pieces.pop(0)
                pos = mkint(pe - n)
                continue
            # position depends on data: decide
            for k in range(n + 1):
                if ctx.decide(mkbool(pe <= k) if k < n else True):
                    break
            if k < n:
                pos = k
            else:
                left.append(p)
                pieces.pop(0)
                pos = mkint(pe - n)
            continue
        if isinstance(p, RawLines):
            raise Unsupported('position inside the lines of binary data')
        if isinstance(p, (HolePiece, HoleArr)):
            raise Unsupported('position inside accumulated content')
        L = gen_len(ctx, p)
        if ctx.prove(pe >= L):
            left.append(p)
            pieces.pop(0)
            pos = mkint(pe - L)
            continue
        if isinstance(pos, int):
            # small constant into a symbolic count
            if not ctx.decide(mkbool(L > pos)):
                left.append(p)
                pieces.pop(0)
                pos = mkint(pe - L)
                continue
        q, r = locate(ctx, p, pe)
        if not ctx.prove(z3.And(q >= 0, q <= p.n)):
            if ctx.decide(mkbool(pe >= L)):
                left.append(p)
                pieces.pop(0)
                pos = mkint(pe - L)
                continue
            if not ctx.prove(z3.And(q >= 0, q <= p.n)):
                raise Unsupported('position %s not provably inside the list' % pe)
        if ctx.prove(r == 0):
            if not ctx.prove(q == 0):
                left.append(Gen(z3.simplify(q), p.j, p.parts))
            pieces[0] = shift(p, q, p.n - q)
            break
        if not ctx.prove(q == 0):
            left.append(Gen(z3.simplify(q), p.j, p.parts))
        if not ctx.prove(q < p.n):
            raise Unsupported('position %s not provably inside the list' % pe)
        g = parts_seq(group_at(p, q))
        l2, r2 = split_at(ctx, g, mkint(r))
        left.extend(l2.pieces)
        pieces[0:1] = list(r2.pieces) + [shift(p, q + 1, p.n - q - 1)]
        break
    return Seq(left), Seq(pieces)


def take_front(ctx, s, k):
    """first k values as a list, and the rest; raises TypeError/IndexError_ when shorter."""
    out = []
    s2 = s
    while len(out) < k:
        if not s2.pieces:
            raise ProgErr('TypeError', 'not enough arguments for format string')
        p = s2.pieces[0]
        if isinstance(p, Items):
            t = k - len(out)
            out.extend(p.v[:t])
            s2 = Seq((Items(p.v[t:]),) + s2.pieces[1:])
            continue
        if isinstance(p, Gen):
            if not ctx.decide(mkbool(p.n >= 1)):
                s2 = Seq(s2.pieces[1:])
                continue
            g = parts_seq(group_at(p, 0))
            s2 = Seq(tuple(g.pieces) + (shift(p, 1, p.n - 1),) + s2.pieces[1:])
            continue
        raise Unsupported('take from %r' % (p,))
    return out, s2


class OutOfRange(Exception):
    pass


def index(ctx, s, i):
    """s[i]"""
    n = None
    if isinstance(i, int) and i < 0:
        # from the end
        rest = -i
        pcs = list(s.pieces)
        while pcs:
            p = pcs[-1]
            if isinstance(p, Items):
                if rest <= len(p.v):
                    return p.v[len(p.v) - rest]
                rest -= len(p.v)
                pcs.pop()
                continue
            break
        n = seq_len(ctx, s)
        i = mkint(zi(n) + i)
        if not ctx.decide(mkbool(zi(i) >= 0)):
            raise OutOfRange()
    elif not isinstance(i, int):
        if not ctx.prove(zi(i) >= 0):
            if ctx.decide(mkbool(zi(i) >= 0)) is False:
                n = seq_len(ctx, s)
                i = mkint(zi(n) + zi(i))
                if not ctx.decide(mkbool(zi(i) >= 0)):
                    raise OutOfRange()
    pos = i
    pieces = list(s.pieces)
    while pieces:
        resolve(ctx, pieces)
        if not pieces:
            break
        p = pieces.pop(0)
        pe = zi(pos)
        if isinstance(p, Items):
            m = len(p.v)
            if isinstance(pos, int):
                if pos < m:
                    return p.v[pos]
                pos -= m
                continue
            if ctx.prove(pe >= m):
                pos = mkint(pe - m)
                continue
            for k in range(m):
                if ctx.decide(mkbool(pe == k)):
                    return p.v[k]
            pos = mkint(pe - m)
            continue
        if isinstance(p, RawLines):
            raise Unsupported('line of binary data')
        if isinstance(p, HoleArr):
            for k, v in reversed(p.w):
                if ctx.prove(k == pe):
                    return v
                if not ctx.prove(k != pe):
                    raise Unsupported('element stored by an earlier iteration')
            if not ctx.prove(pe >= p.j):
                raise Unsupported('element stored by an earlier iteration')
            return index(ctx, p.init, mkint(pe))
        if isinstance(p, HolePiece):
            if ctx.prove(pe >= p.len):
                pos = mkint(pe - p.len)
                continue
            raise Unsupported('element of accumulated content')
        L = gen_len(ctx, p)
        if ctx.prove(pe < L):
            inside = True
        elif ctx.prove(pe >= L):
            pos = mkint(pe - L)
            continue
        elif ctx.decide(mkbool(pe < L)):
            inside = True
        else:
            pos = mkint(pe - L)
            continue
        q, r = locate(ctx, p, pe)
        if any(isinstance(x, Splice) for x in p.parts):
            return index(ctx, parts_seq(group_at(p, q)), mkint(r))
        # part of the group
        start = z3.IntVal(0)
        for part in p.parts:
            size = z3.substitute(part_size(ctx, part), (p.j, q))
            if ctx.prove(z3.And(r >= start, r < start + size)):
                v = subst(part, [(p.j, q)])
                if isinstance(part, Splice):
                    return index(ctx, v.seq, mkint(r - start))
                return v
            start = z3.simplify(start + size)
        raise Unsupported('position %s within a group' % r)
    raise OutOfRange()


def index_terms(e, j, acc):
    """the maximal integer subterms of e that mention j"""
    if str(j) not in free_consts(e):
        return
    if z3.is_int(e) and (e.eq(j) or z3.is_add(e) or z3.is_mul(e)):
        acc.append(e)
        return
    for c in e.children():
        index_terms(c, j, acc)


def flat(ctx, g):
    """Gen(k*n, i, [f(i)]) for a group sequence whose values are f(k*j), ..., f(k*j+k-1); None if they are not"""
    if not all(type(x) in (SInt, SReal) for x in g.parts):
        return None
    k = len(g.parts)
    if k == 1:
        return g
    i = fresh_int('fl')
    e = g.parts[0].e
    acc = []
    index_terms(e, g.j, acc)
    m = []
    for t in acc:
        terms, const = lin(t)
        c = terms.pop(g.j.sexpr(), (None, None))[1]
        if c is None or c % k:
            return None
        m.append((t, from_lin({**terms, i.sexpr(): (i, c // k)}, const)))
    if not m:
        return None
    f = z3.simplify(z3.substitute(e, *m))
    ctx.push([g.j], 'map')
    try:
        ctx.assume(z3.And(g.j >= 0, g.j < g.n))
        if not all(ctx.prove(z3.substitute(f, (i, k * g.j + r)) == x.e) for r, x in enumerate(g.parts)):
            return None
    finally:
        ctx.pop()
    return Gen(z3.simplify(k * g.n), i, [type(g.parts[0])(f)])


def coalesce(ctx, s):
    """the same sequence as one piece, where its pieces are f(0), f(1), ..."""
    ps = list(s.pieces)
    if not ps or not isinstance(ps[0], Gen) or len(ps) == 1 and len(ps[0].parts) == 1:
        return s
    g = flat(ctx, ps[0])
    if g is None:
        return s
    f, n = g.parts[0], g.n
    for p in ps[1:]:
        if isinstance(p, Items):
            if not all(type(x) is type(f) and ctx.prove(x.e == z3.substitute(f.e, (g.j, n + r)))
                       for r, x in enumerate(p.v)):
                return s
            n = z3.simplify(n + len(p.v))
            continue
        q = flat(ctx, p) if isinstance(p, Gen) else None
        if q is None or type(q.parts[0]) is not type(f):
            return s
        ctx.push([q.j], 'map')
        try:
            ctx.assume(z3.And(q.j >= 0, q.j < q.n))
            if not ctx.prove(q.parts[0].e == z3.substitute(f.e, (g.j, n + q.j))):
                return s
        finally:
            ctx.pop()
        n = z3.simplify(n + q.n)
    return Seq([Gen(n, g.j, [f])])


def slice_seq(ctx, s, a, b, st):
    """s[a:b:st]"""
    if s.pieces and isinstance(s.pieces[0], Gen) and len(s.pieces[0].parts) > 1 and (
            type(a) is int and a % len(s.pieces[0].parts) or type(b) is int and b < 0):
        s = coalesce(ctx, s)
    if st is None:
        st = 1
    if isinstance(st, SInt) or st <= 0 and st != -1:
        raise Unsupported('slice step %r' % (st,))
    if st == -1:
        if a is None and b is None:
            return reverse(ctx, s)
        raise Unsupported('negative step slice')
    if a is None:
        a = 0
    L = None

    def norm(x):
        nonlocal L
        if isinstance(x, int) and x < 0:
            if L is None:
                L = seq_len(ctx, s)
            y = mkint(zi(L) + x)
            if isinstance(y, int):
                return max(0, y)
            if ctx.prove(y.e >= 0):
                return y
            if ctx.decide(mkbool(y.e >= 0)):
                return y
            return 0
        if isinstance(x, SInt) and not ctx.prove(x.e >= 0):
            if not ctx.decide(mkbool(x.e >= 0)):
                if L is None:
                    L = seq_len(ctx, s)
                y = mkint(zi(L) + x.e)
                if ctx.decide(mkbool(zi(y) >= 0)):
                    return y
                return 0
        return x
    if st == 1:
        a = norm(a)
        if b is None:
            return split_at(ctx, s, a)[1]
        b = norm(b)
        if isinstance(a, int) and isinstance(b, int):
            if b <= a:
                return Seq([])
            return split_at(ctx, split_at(ctx, s, b)[0], a)[1] if a else split_at(ctx, s, b)[0]
        if ctx.prove(zi(b) <= zi(a)):
            return Seq([])
        ln = mkint(zi(b) - zi(a))
        rest = split_at(ctx, s, a)[1]
        if isinstance(ln, int) or ctx.prove(zi(ln) >= 0):
            return split_at(ctx, rest, ln)[0]
        if ctx.decide(mkbool(zi(ln) >= 0)):
            return split_at(ctx, rest, ln)[0]
        return Seq([])
    # step > 1
    a = norm(a)
    limit = None
    if b is not None:
        limit = norm(b)
    if not isinstance(a, int):
        rest = split_at(ctx, s, a)[1]
        if limit is not None:
            limit = mkint(zi(limit) - zi(a))
        a = 0
        s = rest
    out = []
    # next position wanted (relative to current piece start)
    want = a
    pos = z3.IntVal(0)      # absolute position of piece start
    lim = None if limit is None else zi(limit)
    for p in s.pieces:
        if isinstance(p, Items):
            vals = []
            for k, v in enumerate(p.v):
                if k == want:
                    if lim is not None:
                        here = z3.simplify(pos + k)
                        if ctx.prove(here >= lim):
                            return Seq(out + [Items(vals)])
                        if not ctx.prove(here < lim) and not ctx.decide(mkbool(here < lim)):
                            return Seq(out + [Items(vals)])
                    vals.append(v)
                    want += st
            want -= len(p.v)
            pos = pos + len(p.v)
            out.append(Items(vals))
            continue
        if not isinstance(p, Gen):
            raise Unsupported('step slice of %r' % (p,))
        g = gconst(ctx, p)
        if g is None:
            raise Unsupported('step slice over groups of varying size')
        flat = parts_seq(p.parts)
        if any(not isinstance(x, Items) for x in flat.pieces):
            raise Unsupported('step slice over nested sequences')
        vals = flat.pieces[0].v if flat.pieces else ()
        total = z3.simplify(p.n * g)
        # skip groups entirely before `want`
        if g % st == 0 or st == g:
            if want >= g:
                k = want // g
                if ctx.decide(mkbool(p.n <= k)):
                    # the list ends before: want relative to the end unknown -> need constant n
                    kk = ctx.concretise(mkint(p.n), 0, k)
                    out_items = Items([x for q in range(kk) for x in [subst(v, [(p.j, z3.IntVal(q))]) for v in vals]])
                    rest = Seq([out_items] + list(s.pieces[s.pieces.index(p) + 1:]))
                    return concat(Seq(out), slice_seq(ctx, rest, want, None if lim is None else mkint(lim - pos), st))
                p2 = shift(p, k, p.n - k)
                want -= k * g
                pos = pos + k * g
                p = p2
                flat = parts_seq(p.parts)
                vals = flat.pieces[0].v
                total = z3.simplify(p.n * g)
            sel = list(range(want, g, st))
            cnt = p.n
            tail = []
            if lim is not None:
                # all selected positions of all groups below the limit?
                last = pos + g * (p.n - 1) + (sel[-1] if sel else 0)
                if ctx.prove(z3.Implies(p.n >= 1, last < lim)):
                    pass
                elif ctx.prove(pos >= lim):
                    return Seq(out)
                else:
                    left = split_at(ctx, Seq([p]), mkint(lim - pos))[0]
                    out.extend(slice_seq(ctx, left, want, None, st).pieces)
                    return Seq(out)
            out.append(Gen(cnt, p.j, [vals[k] for k in sel]))
            # phase after the piece: g % st == 0 keeps it
            pos = pos + total
            continue
        if st % g == 0:
            k = st // g
            w, r = divmod(want, g)
            j = fresh_int('st')
            avail = p.n - w
            cnt = z3.If(avail > 0, (avail + (k - 1)) / k, z3.IntVal(0))
            if lim is not None:
                if not ctx.prove(lim >= pos + total):
                    left = split_at(ctx, Seq([p]), mkint(lim - pos))[0]
                    out.extend(slice_seq(ctx, left, want, None, st).pieces)
                    return Seq(out)
            cnt = z3.simplify(cnt)
            for kk in range(k):
                if ctx.prove(avail % k == kk) and ctx.prove(avail >= 0):
                    cnt = z3.simplify((avail - kk) / k + (1 if kk else 0))
                    terms, const = lin(avail)
                    if all(c % k == 0 for _, c in terms.values()):
                        cnt = from_lin({q: (x, c // k) for q, (x, c) in terms.items()}, -((-const) // k))
                    break
            out.append(Gen(cnt, j, [subst(vals[r], [(p.j, j * k + w)])]))
            if p is not s.pieces[-1]:
                # phase after it
                nw = z3.simplify((w * g + r + cnt * st) - total)
                if z3.is_int_value(nw):
                    want = nw.as_long()
                else:
                    kk = ctx.concretise(mkint(nw), 0, st - 1)
                    if kk is None:
                        raise Unsupported('step slice phase')
                    want = kk
                pos = pos + total
            continue
        raise Unsupported('step %d over groups of %d' % (st, g))
    return Seq(out)


def reverse(ctx, s):
    out = []
    for p in reversed(s.pieces):
        if isinstance(p, Items):
            out.append(Items(reversed(p.v)))
        elif isinstance(p, Gen) and not any(isinstance(x, Splice) for x in p.parts):
            j = fresh_int('rv')
            out.append(Gen(p.n, j, [subst(x, [(p.j, p.n - 1 - j)]) for x in reversed(p.parts)]))
        else:
            raise Unsupported('reverse')
    return Seq(out)


def regroup(ctx, s, k, n, j):
    """the k values of group j of a sequence of length k*n (0 <= j < n)."""
    if len(s.pieces) == 1 and isinstance(s.pieces[0], Gen):
        p = s.pieces[0]
        if gconst(ctx, p) == k and ctx.prove(p.n == n) and not any(isinstance(x, Splice) for x in p.parts):
            return [subst(x, [(p.j, j)]) for x in p.parts]
    ctx.push([j])
    try:
        ctx.assume(z3.And(j >= 0, j < n))
        return [index(ctx, s, mkint(k * j + i)) for i in range(k)]
    finally:
        ctx.pop()


def groups_of(ctx, s, k, n):
    """a sequence of length k*n as groups of k: list of (count, index, values), (1, None, values) for a single group"""
    out = []
    ps = list(s.pieces)
    while len(ps) > 1:
        p = ps[0]
        if isinstance(p, Items) and len(p.v) >= k:
            out.append((1, None, list(p.v[:k])))
            ps[0:1] = [Items(p.v[k:])] if len(p.v) > k else []
            n = z3.simplify(n - 1)
        elif isinstance(p, Gen) and not any(isinstance(x, Splice) for x in p.parts) and gconst(ctx, p) == k:
            out.append((p.n, p.j, list(p.parts)))
            ps.pop(0)
            n = z3.simplify(n - p.n)
        else:
            break
    if ps and len(ps) == 1 and isinstance(ps[0], Items) and len(ps[0].v) % k == 0:
        v = list(ps[0].v)
        return out + [(1, None, v[i:i + k]) for i in range(0, len(v), k)]
    if ps or not out:
        j = fresh_int('fm')
        out.append((n, j, regroup(ctx, Seq(ps), k, n, j)))
    return out


def map_seq(ctx, s, f):
    """elementwise map; f runs under 0 <= j < n."""
    out = []
    for p in s.pieces:
        if isinstance(p, Items):
            out.append(Items([f(x) for x in p.v]))
        elif isinstance(p, Gen):
            ctx.push([p.j])
            try:
                ctx.assume(z3.And(p.j >= 0, p.j < p.n))
                parts = [Splice(map_seq(ctx, x.seq, f)) if isinstance(x, Splice) else f(x) for x in p.parts]
            finally:
                ctx.pop()
            out.append(Gen(p.n, p.j, parts))
        else:
            raise Unsupported('map over %r' % (p,))
    return Seq(out)


def align(ctx, *ss):
    """cut sequences of equal length into pieces of equal shape; yields tuples of pieces."""
    ss = [list(s.pieces) for s in ss]
    while any(ss):
        for s in ss:
            while s and isinstance(s[0], Gen) and ctx.prove(s[0].n == 0):
                s.pop(0)
        if not any(ss):
            return
        if not all(ss):
            rest = [mkint(seq_len_e(ctx, Seq(s))) for s in ss]
            if all(ctx.prove(zi(r) == 0) for r in rest):
                return
            raise Misaligned('sequences of different length', ss)
        hs = [s[0] for s in ss]
        if any(isinstance(h, (RawLines, HolePiece, HoleArr)) for h in hs):
            raise Unsupported('alignment with %r' % (hs,))
        if any(isinstance(h, Items) for h in hs):
            k = min(len(h.v) for h in hs if isinstance(h, Items))
            for s in ss:
                h = s[0]
                if isinstance(h, Gen):
                    if not ctx.prove(h.n >= 1):
                        if not ctx.decide(mkbool(h.n >= 1)):
                            break
                    g = parts_seq(group_at(h, 0))
                    s[0:1] = list(g.pieces) + [shift(h, 1, h.n - 1)]
                    s[:] = list(Seq(s).pieces)
                    break
            else:
                yield tuple(Items(s[0].v[:k]) for s in ss)
                for s in ss:
                    r = s[0].v[k:]
                    if r:
                        s[0] = Items(r)
                    else:
                        s.pop(0)
            continue
        # all Gen
        cs = [gconst(ctx, h) for h in hs]
        if any(c is None for c in cs):
            if all(ctx.prove(h.n == hs[0].n) for h in hs[1:]) and \
                    len({len(h.parts) for h in hs}) == 1:
                j = fresh_int('al')
                yield tuple(Gen(hs[0].n, j, [subst(x, [(h.j, j)]) for x in h.parts]) for h in hs)
                for s in ss:
                    s.pop(0)
                continue
            raise Misaligned('groups of varying size', ss)
        lens = [z3.simplify(h.n * c) for h, c in zip(hs, cs)]
        # shortest provably
        m = None
        for i, L in enumerate(lens):
            if all(ctx.prove(L <= L2) for L2 in lens):
                m = i
                break
        if m is None:
            c = mkbool(lens[0] <= lens[1])
            ctx.decide(c)
            continue
        L = lens[m]
        for k, s in enumerate(ss):
            if not ctx.prove(lens[k] == L):
                a, b = split_at(ctx, Seq([s[0]]), mkint(L))
                s[0:1] = list(a.pieces) + list(b.pieces)
        hs = [s[0] for s in ss]
        if any(isinstance(h, Items) for h in hs):
            continue
        cs = [gconst(ctx, h) for h in hs]
        lens = [z3.simplify(h.n * c) for h, c in zip(hs, cs)]
        if not all(ctx.prove(x == lens[m]) for x in lens):
            continue
        G = 1
        import math
        for c in cs:
            G = G * c // math.gcd(G, c)
        if any(c == G for c in cs):
            n = hs[cs.index(G)].n
        else:
            raise Misaligned('groups of %r' % cs, ss)
        j = fresh_int('al')
        yield tuple(Gen(n, j, regroup(ctx, Seq([h]), G, n, j) if c != G or any(isinstance(x, Splice) for x in h.parts)
                        and False else [subst(x, [(h.j, j)]) for x in h.parts]) for h, c in zip(hs, cs))
        for s in ss:
            s.pop(0)


class Misaligned(Exception):
    def __init__(self, msg, ss=None):
        super().__init__(msg)
        self.ss = ss


def zip_seq(ctx, ss, f):
    """combine equally long sequences elementwise; f(values) under the index assumption."""
    if len(ss) == 1:
        return map_seq(ctx, ss[0], lambda x: f(x))
    out = []
    for tup in align(ctx, *ss):
        h = tup[0]
        if isinstance(h, Items):
            out.append(Items([f(*xs) for xs in zip(*[t.v for t in tup])]))
        else:
            ctx.push([h.j])
            try:
                ctx.assume(z3.And(h.j >= 0, h.j < h.n))
                parts = []
                for xs in zip(*[t.parts for t in tup]):
                    if any(isinstance(x, Splice) for x in xs):
                        if not all(isinstance(x, Splice) for x in xs):
                            raise Unsupported('zip of differently nested sequences')
                        parts.append(Splice(zip_seq(ctx, [x.seq for x in xs], f)))
                    else:
                        parts.append(f(*xs))
            finally:
                ctx.pop()
            out.append(Gen(h.n, h.j, parts))
    return Seq(out)
