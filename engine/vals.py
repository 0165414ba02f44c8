"""Symbolic values of the verifier.

Concrete Python values (int, float, str, bytes, bool, None, tuple, complex) stand for themselves.
"""
import z3
from fractions import Fraction

AtomSort = z3.DeclareSort('Atom')          # an uninterpreted text (a string supplied by the caller)
slen = z3.Function('slen', AtomSort, z3.IntSort())
_lit_atoms = {}


class Unsupported(Exception):
    """The verifier cannot interpret this construct: the obligation stays undischarged."""


_fresh = [0]


def fresh_int(name='k'):
    _fresh[0] += 1
    return z3.Int('%s!%d' % (name, _fresh[0]))


def fresh_name(name):
    _fresh[0] += 1
    return '%s!%d' % (name, _fresh[0])


class SInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SInt(%s)' % self.e


class SReal:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SReal(%s)' % self.e


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SBool(%s)' % self.e


class SCplx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'SCplx(%r,%r)' % (self.re, self.im)


class Quot:
    """a / d for integers, d a positive constant (kept exact until int(), ceil() or floor() is applied)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __repr__(self):
        return 'Quot(%s/%s)' % (self.num, self.den)


# ---------------------------------------------------------------- text
class Seg:
    __slots__ = ()


class Lit(Seg):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Lit(%r)' % self.s


class FInt(Seg):
    """decimal integer, padded with blanks to width (0: none); align '>' or '<'."""
    __slots__ = ('w', 'al', 'e')

    def __init__(self, w, al, e):
        self.w, self.al, self.e = w, al, e

    def __repr__(self):
        return 'I%s%d(%s)' % (self.al, self.w, self.e)


class FFlt(Seg):
    """real printed with exponent and p decimals; ep/en: exponent letter before + and before -."""
    __slots__ = ('w', 'al', 'p', 'e', 'ep', 'en')

    def __init__(self, w, al, p, e, ep='e', en='e'):
        self.w, self.al, self.p, self.e, self.ep, self.en = w, al, p, e, ep, en

    def __repr__(self):
        return 'E%s%d.%d%s%s(%s)' % (self.al, self.w, self.p, self.ep, self.en, self.e)


class FAtom(Seg):
    __slots__ = ('w', 'al', 'e')

    def __init__(self, w, al, e):
        self.w, self.al, self.e = w, al, e

    def __repr__(self):
        return 'A%s%d(%s)' % (self.al, self.w, self.e)


class BinF(Seg):
    __slots__ = ('fmt', 'en', 'e')

    def __init__(self, fmt, en, e):
        self.fmt, self.en, self.e = fmt, en, e

    def __repr__(self):
        return 'Bin%s%s(%s)' % (self.en, self.fmt, self.e)


class Opq(Seg):
    """opaque text with a known symbolic length and a name (earlier file content, for instance)."""
    __slots__ = ('e', 'ln')

    def __init__(self, e, ln):
        self.e, self.ln = e, ln

    def __repr__(self):
        return 'Opq(%s)' % (self.e,)


class Hole(Seg):
    """content accumulated by earlier iterations of a loop under summary (may not be inspected)."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Hole(%s)' % self.tag


class RepS(Seg):
    __slots__ = ('n', 'j', 'segs')

    def __init__(self, n, j, segs):
        self.n, self.j, self.segs = n, j, tuple(segs)

    def __repr__(self):
        return 'Rep(%s,%s,%r)' % (self.n, self.j, list(self.segs))


class Text:
    __slots__ = ('segs', 'b')

    def __init__(self, segs, b=False):
        self.segs, self.b = norm_segs(segs), b

    def __repr__(self):
        return 'Text%s%r' % ('b' if self.b else '', list(self.segs))


def norm_segs(segs):
    out = []
    for s in segs:
        if isinstance(s, Lit):
            if not s.s:
                continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].s + s.s)
                continue
        elif isinstance(s, RepS):
            if z3.is_int_value(s.n) and s.n.as_long() <= 0 or not s.segs:
                continue
        out.append(s)
    return tuple(out)


# ---------------------------------------------------------------- sequences
class Items:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return 'Items%r' % (list(self.v),)


class Gen:
    """n repetitions of the group `parts` (values and nested Splice), over index variable j."""
    __slots__ = ('n', 'j', 'parts', 'off')

    def __init__(self, n, j, parts, off=None):
        self.n, self.j, self.parts, self.off = n, j, tuple(parts), off

    def __repr__(self):
        return 'Gen(%s,%s,%r)' % (self.n, self.j, list(self.parts))


class Splice:
    """a sequence spliced into a group."""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'Splice(%r)' % (self.seq,)


class RawLines:
    """the lines of an opaque binary text, kept together."""
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return 'RawLines(%r)' % (self.text,)


class HolePiece:
    __slots__ = ('tag', 'len')

    def __init__(self, tag, ln):
        self.tag, self.len = tag, ln

    def __repr__(self):
        return 'HolePiece(%s)' % self.tag


class HoleArr:
    """the n elements of a sequence in iteration j of a loop that stores element j: those before j are not determined;
    w: the stores of this iteration"""
    __slots__ = ('tag', 'n', 'w', 'init', 'j')

    def __init__(self, tag, n, w, init, j):
        self.tag, self.n, self.w, self.init, self.j = tag, n, w, init, j

    def __repr__(self):
        return 'HoleArr(%s,%r)' % (self.tag, self.w)


class Seq:
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, Items):
                if not p.v:
                    continue
                if out and isinstance(out[-1], Items):
                    out[-1] = Items(out[-1].v + p.v)
                    continue
            elif isinstance(p, Gen):
                if z3.is_int_value(p.n) and p.n.as_long() <= 0 or not p.parts:
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __repr__(self):
        return 'Seq%r' % (list(self.pieces),)


# ---------------------------------------------------------------- heap objects
_serial = [0]


def serial():
    _serial[0] += 1
    return _serial[0]


class HList:
    kind = 'list'
    frozen = False

    def __init__(self, seq):
        self.seq = seq
        self.id = serial()

    def __repr__(self):
        return 'HList(%r)' % (self.seq,)


class STuple:
    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'STuple(%r)' % (self.seq,)


class Arr:
    """numpy array; elements of a 2-D array are Arr rows.  dt: 'i' 'f' 'c' 'U' 'b' 'O'."""

    frozen = False

    def __init__(self, seq, dt, nd=1):
        self.seq, self.dt, self.nd = seq, dt, nd
        self.id = serial()

    def __repr__(self):
        return 'Arr%s(%r)' % (self.dt, self.seq)


class KeyGroup:
    """keys f(off), ..., f(off+n-1) of a dictionary, distinct integers; the value of the entry is that of key f(off+j)"""

    def __init__(self, n, j, f, off=0):
        self.n, self.j, self.f, self.off = n, j, f, z3.simplify(z3.IntVal(off) if isinstance(off, int) else off)
        self.tag = (f.name(), self.off.sexpr())

    def at(self, k):
        return mkint(self.f(z3.simplify(k + self.off)))

    def __eq__(self, o):
        return isinstance(o, KeyGroup) and self.tag == o.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return '%s(%s..)*%s' % (self.tag + (self.n,))


class HDict:
    """ordered dictionary; entries: list of [key, present (True or z3 Bool), value]."""

    frozen = False

    def __init__(self, entries=()):
        self.entries = tuple(tuple(e) for e in entries)
        self.id = serial()

    def __repr__(self):
        return 'HDict{%s}' % ', '.join('%r%s: %r' % (k, '' if p is True else '?', v) for k, p, v in self.entries)


class HObj:
    """instance of an interpreted class, or a modelled library object."""

    frozen = False
    open = False        # of a precondition: it may have attributes of which nothing is known

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.id = serial()

    def __repr__(self):
        return '<%s>' % (getattr(self.cls, 'name', self.cls),)


class Raw:
    """the bytes lo..hi of a file of which nothing is known (see raw.py); case: None, 'lower' or 'upper'"""
    __slots__ = ('lo', 'hi', 'case')

    def __init__(self, lo, hi, case):
        self.lo, self.hi, self.case = lo, hi, case

    def __repr__(self):
        return 'Raw(%s,%s)' % (self.lo, self.hi)


class Alt:
    """one of several values, each under a condition (mutually exclusive; one of them holds)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        out = []
        for c, v in alts:
            if isinstance(v, Alt):
                out += [(z3.And(c, d), w) for d, w in v.alts]
            else:
                out.append((c, v))
        self.alts = tuple(out)

    def __repr__(self):
        return 'Alt%r' % (self.alts,)


class NpElt:
    """an element taken out of a numpy array (its type is one of numpy)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'NpElt(%r)' % (self.v,)


class Undef:
    """a local that may be unbound or is not determined after a summarised loop."""

    def __init__(self, why, n=None, value=None, init=None):
        self.why, self.n, self.value, self.init = why, n, value, init

    def __repr__(self):
        return 'Undef(%s)' % self.why


HEAP = (HList, Arr, HDict, HObj)


# ---------------------------------------------------------------- helpers
def is_num(v):
    return isinstance(v, (bool, int, float, SInt, SReal, Quot, SBool))


def mkint(e):
    if isinstance(e, int):
        return int(e)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
        try:
            f = float(fr)
            if Fraction(f) == fr:
                return f
        except OverflowError:
            pass
    return SReal(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def zi(v):
    """z3 Int of an integer value (None if it is not one)."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, float) and v == v and abs(v) != float('inf') and v == int(v):
        return z3.IntVal(int(v))
    return None


def zr(v):
    if isinstance(v, (bool, int)):
        return z3.RealVal(int(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        return z3.RealVal(str(Fraction(v)))
    if isinstance(v, SInt):
        return z3.ToReal(v.e)
    if isinstance(v, SReal):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, Quot):
        return z3.ToReal(zi(v.num)) / z3.RealVal(v.den)
    return None


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    raise Unsupported('not a boolean: %r' % (v,))


def is_text(v):
    return isinstance(v, (str, bytes, Text))


def to_text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text([Lit(v)], False)
    if isinstance(v, bytes):
        return Text([Lit(v.decode('latin-1'))], True)
    raise Unsupported('not text: %r' % (v,))


def from_text(t):
    """back to a concrete str/bytes if there is nothing symbolic in it."""
    if not t.segs:
        return b'' if t.b else ''
    if len(t.segs) == 1 and isinstance(t.segs[0], Lit):
        s = t.segs[0].s
        return s.encode('latin-1') if t.b else s
    return t


def lit_atom(s):
    if s not in _lit_atoms:
        _lit_atoms[s] = z3.Const('lit:%s' % s.replace('|', '_'), AtomSort)
    return _lit_atoms[s]


def atom_lit(e):
    for s, a in _lit_atoms.items():
        if a.eq(e):
            return s
    return None


# ---------------------------------------------------------------- substitution
def sub_e(e, m):
    return z3.substitute(e, *m)


def subst(v, m):
    """substitute z3 constants by terms in a value; heap objects are copied when they change."""
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return v
    t = type(v)
    if t is SInt:
        return mkint(sub_e(v.e, m))
    if t is SReal:
        return SReal(sub_e(v.e, m))
    if t is SBool:
        return mkbool(sub_e(v.e, m))
    if t is SCplx:
        return SCplx(subst(v.re, m), subst(v.im, m))
    if t is Quot:
        return Quot(subst(v.num, m), v.den)
    if t is Text:
        return from_text(Text([sub_seg(s, m) for s in v.segs], v.b))
    if t is tuple:
        return tuple(subst(x, m) for x in v)
    if t is Seq:
        return sub_seq(v, m)
    if t is Splice:
        return Splice(sub_seq(v.seq, m))
    if t is HList:
        return froz(HList(sub_seq(v.seq, m)), v)
    if t is STuple:
        return STuple(sub_seq(v.seq, m))
    if t is Arr:
        return froz(Arr(sub_seq(v.seq, m), v.dt, v.nd), v)
    if t is Alt:
        return Alt([(sub_e(c, m), subst(x, m)) for c, x in v.alts])
    if t is NpElt:
        return NpElt(subst(v.v, m))
    if t is KeyGroup:
        return KeyGroup(z3.simplify(sub_e(v.n, m)), v.j, v.f, sub_e(v.off, m))
    if t is Raw:
        return Raw(sub_e(v.lo, m), sub_e(v.hi, m), v.case)
    if t is HDict:
        return froz(HDict([(subst(k, m), p if p is True else sub_e(p, m), subst(x, m)) for k, p, x in v.entries]), v)
    return v


def froz(copy, orig):
    """an instance of a generic object: neither may be changed any more (they are one object to the program)."""
    copy.frozen = True
    orig.frozen = True
    return copy


def sub_seg(s, m):
    t = type(s)
    if t is Lit or t is Hole:
        return s
    if t is FInt:
        e = z3.simplify(sub_e(s.e, m))
        if z3.is_int_value(e):
            x = str(e.as_long())
            return Lit(x.rjust(s.w) if s.al == '>' else x.ljust(s.w))
        return FInt(s.w, s.al, e)
    if t is FFlt:
        return FFlt(s.w, s.al, s.p, sub_e(s.e, m), s.ep, s.en)
    if t is FAtom:
        return FAtom(s.w, s.al, sub_e(s.e, m))
    if t is BinF:
        return BinF(s.fmt, s.en, sub_e(s.e, m))
    if t is Opq:
        return Opq(sub_e(s.e, m), sub_e(s.ln, m))
    if t is RepS:
        return RepS(z3.simplify(sub_e(s.n, m)), s.j, [sub_seg(x, m) for x in s.segs])
    raise Unsupported('subst %r' % s)


def sub_seq(q, m):
    out = []
    for p in q.pieces:
        if isinstance(p, Items):
            out.append(Items(subst(x, m) for x in p.v))
        elif isinstance(p, Gen):
            off = p.off
            if off is not None:
                off = (off[0], tuple(sub_e(a, m) for a in off[1]))
            out.append(Gen(z3.simplify(sub_e(p.n, m)), p.j, [subst(x, m) for x in p.parts], off))
        elif isinstance(p, RawLines):
            out.append(RawLines(to_text(subst(p.text, m))))
        else:
            out.append(p)
    return Seq(out)


def free_consts(e, acc=None, seen=None):
    """names of the uninterpreted constants of a z3 term."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(x.decl().name())
            else:
                st.extend(x.children())
    return acc


def mentions(v, j):
    """does the value mention the z3 constant j?"""
    nm = j.decl().name()
    return nm in value_consts(v)


def value_consts(v, acc=None):
    acc = set() if acc is None else acc
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return acc
    t = type(v)
    if t in (SInt, SReal, SBool):
        free_consts(v.e, acc)
    elif t is SCplx:
        value_consts(v.re, acc), value_consts(v.im, acc)
    elif t is Quot:
        value_consts(v.num, acc)
    elif t is Text:
        for s in v.segs:
            seg_consts(s, acc)
    elif t is tuple:
        for x in v:
            value_consts(x, acc)
    elif t in (HList, STuple, Arr, Splice):
        seq_consts(v.seq, acc)
    elif t is Seq:
        seq_consts(v, acc)
    elif t is Alt:
        for c, x in v.alts:
            free_consts(c, acc), value_consts(x, acc)
    elif t is NpElt:
        value_consts(v.v, acc)
    elif t is KeyGroup:
        free_consts(v.n, acc), free_consts(v.off, acc)
    elif t is Raw:
        free_consts(v.lo, acc), free_consts(v.hi, acc)
    elif t is HDict:
        for k, p, x in v.entries:
            value_consts(k, acc)
            value_consts(x, acc)
            if p is not True:
                free_consts(p, acc)
    return acc


def seg_consts(s, acc):
    if isinstance(s, RepS):
        free_consts(s.n, acc)
        for x in s.segs:
            seg_consts(x, acc)
    elif isinstance(s, (FInt, FFlt, FAtom, BinF)):
        free_consts(s.e, acc)
    elif isinstance(s, Opq):
        free_consts(s.e, acc)
        free_consts(s.ln, acc)


def seq_consts(q, acc):
    for p in q.pieces:
        if isinstance(p, Items):
            for x in p.v:
                value_consts(x, acc)
        elif isinstance(p, Gen):
            free_consts(p.n, acc)
            for x in p.parts:
                value_consts(x, acc)
        elif isinstance(p, RawLines):
            value_consts(p.text, acc)
