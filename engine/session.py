"""The UFF methods that read and write lists of data-sets, each verified against the contracts of the functions it calls
(used by verify.py for F02, F03 and F07)."""
import z3
import contracts
from . import lib, raw, same as SM, seqs, text as T
from .interp import PyExc
from .same import text_same, value_same
from .vals import *

TYPES = [15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467]
BLOCK = z3.Function('block', z3.IntSort(), z3.BoolSort(), AtomSort)
BLEN = z3.Function('block_len', z3.IntSort(), z3.BoolSort(), z3.IntSort())


def writer_name(t):
    return '_write%d' % t


def file_arg(a, kw):
    for x in list(a) + list(kw.values()):
        if isinstance(x, HObj) and x.cls == 'file':
            return x
    raise Unsupported('writer without a file')


def given(a, kw):
    for x in list(a) + list(kw.values()):
        if isinstance(x, HDict):
            return x
    raise Unsupported('writer without a data-set')


def append(I, f, text, closes=False):
    """what a writer does to a file: it appends text to its content (through the given file or by opening it again)"""
    if f.attrs['closed'] is True:
        lib.raise_py('ValueError', 'I/O operation on closed file.')
    c = f.attrs['content']
    if f.attrs['mode'][0] not in 'aw':
        raise Unsupported('writer on a file opened with %s' % f.attrs['mode'])
    I.setattr_(c, 't', Text(list(to_text(c.attrs['t']).segs) + list(text.segs), True))
    if closes:
        I.setattr_(f, 'closed', True)


def refusals(r):
    """_write_set and write_sets when a writer raises (F07)"""
    def partial(S, kind, content, file):
        part = r.opaque('partial')

        def stub(I, f, a, kw):
            append(I, file_arg(a, kw), Text([part], True), file == 'closed')
            raise PyExc(Exception, ('refused',))
        r.I.contracts[writer_name(kind)] = stub
        d = HDict([('type', True, kind)])
        r.refused('UFF._write_set: a data-set refused by _write%d' % kind, content,
                  lambda u: r.method(u, 'write_sets', d, 'add'))
    r.cases(partial, kind=TYPES, content=r.CONTENTS, file=['open', 'closed'])

    def typeless(S, content, single):
        d = HDict([('name', True, S.str('name', 20)), ('data', S.choose('data', [True, False]), 7)])
        r.refused('UFF._write_set: a data-set without type', content, lambda u: r.method(
            u, 'write_sets', d if single else HList(Seq([Items([d])])), 'add'))
    r.cases(typeless, content=r.CONTENTS, single=[True, False])

    def listed(S, content):
        """the data-sets before the refused one stay"""
        stub_writers(r)
        part = r.opaque('partial')

        def stub(I, f, a, kw):
            append(I, file_arg(a, kw), Text([part], True))
            raise PyExc(Exception, ('refused',))
        r.I.contracts[writer_name(18)] = stub
        c = r.content_of(content)
        before = r.content_of(content)
        r.I.files = {'F': c}
        u = r.uff()
        d1, d2 = data_set(S, 15, z3.Int('first')), data_set(S, 18, z3.Int('second'))
        name = 'UFF.write_sets: a list with a refused data-set'

        def go():
            try:
                r.method(u, 'write_sets', HList(Seq([Items([d1, d2])])), 'add')
            except PyExc:
                return
            SM.differ(r.ctx, 'no exception')
        if r.oblige(name + ': raises', go)[1]:
            want = Text(list(to_text(before.attrs['t']).segs) + sep(content) + [block_of(z3.Int('first'), True), Lit('\n')], True)
            r.oblige(name + ': the data-sets before it are added, nothing else changes',
                     lambda: text_same(r.ctx, c.attrs['t'], want, 'file content'))
    r.cases(listed, content=r.CONTENTS)

    def modes(S, content, what):
        stub_writers(r)
        m = mode(r, S)
        ds = [data_set(S, 15, z3.Int('first')), data_set(S, 82, z3.Int('second'))]
        dsets = {'one': ds[0], 'list of one': HList(Seq([Items(ds[:1])])), 'list of two': HList(Seq([Items(ds)])),
                 'empty list': HList(Seq([]))}[what]
        if what != 'empty list':
            for x in ('add', 'overwrite'):
                r.ctx.assume(z3.And(T.LOWER(m.segs[0].e) != lit_atom(x), T.UPPER(m.segs[0].e) != lit_atom(x.upper()),
                                    m.segs[0].e != lit_atom(x)), 0)
        r.refused('UFF.write_sets: ' + ('an empty list' if what == 'empty list' else 'an unknown mode'), content,
                  lambda u: r.method(u, 'write_sets', dsets, m))
    r.cases(modes, content=r.CONTENTS, what=['one', 'list of one', 'list of two', 'empty list'])


def mode(r, S):
    """any text; upper and lower case of the two modes correspond"""
    m = S.str('mode', 20)
    e = m.segs[0].e
    for x in ('add', 'overwrite'):
        r.ctx.assume(z3.And((T.LOWER(e) == lit_atom(x)) == (T.UPPER(e) == lit_atom(x.upper())),
                            z3.Implies(e == lit_atom(x), T.LOWER(e) == lit_atom(x)),
                            T.LOWER(T.LOWER(e)) == T.LOWER(e)), 0)
    return m


def sep(content):
    return [Lit('\n')] if content == 'ends in another byte' else []


def block_of(ident, fd):
    fd = z3.BoolVal(fd) if isinstance(fd, bool) else fd
    return Opq(BLOCK(ident, fd), BLEN(ident, fd))


def data_set(S, t, ident):
    return HDict([('type', True, t if isinstance(t, int) else SInt(t)), ('ident', True, SInt(ident))])


def stub_writers(r, check=None, closes=False):
    """contracts of the writers: they append the block of the data-set, which ends in a line feed, to the file"""
    i, b = z3.Int('q!id'), z3.Bool('q!fd')
    r.ctx.assume(z3.ForAll([i, b], z3.And(BLEN(i, b) >= 1, BLEN(i, b) < 10 ** 12), patterns=[BLEN(i, b)]), 0)
    for t in TYPES:
        def stub(I, f, a, kw, t=t):
            d = given(a, kw)
            fd = True
            if t == 58:
                fd = kw['force_double'] if 'force_double' in kw else a[4] if len(a) > 4 else True
            if check:
                check(t, d)
            append(I, file_arg(a, kw), Text([block_of(zi(lib.dict_get(I, d, 'ident')), zb(fd)), Lit('\n')], True),
                   closes and t == 58)
        r.I.contracts[writer_name(t)] = stub


def writing(r):
    """F02"""
    def one(S, kind, content, md, file, data):
        """_write_set: the content is kept (add) or replaced (overwrite), and the block starts on a line of its own"""
        if (file == 'closed' or data != 'without data') and kind != 58:
            return
        r.ctx.assume(z3.And(z3.Int('n_v') >= 0, z3.Int('n_v') < 10 ** 8), 0)

        def check(t, d):
            if data != 'without data':
                value_same(r.ctx, lib.dict_get(r.I, d, 'data'), values(), 'data given to the writer')
        stub_writers(r, check, file == 'closed')

        def values():
            return S.cplxs('v', SInt(z3.Int('n_v')), 25, 'arr') if data == 'complex' else S.reals('v', SInt(z3.Int('n_v')), 25, data)
        ident = z3.Int('ident')
        t = kind
        how = md
        if md.startswith('any '):
            md = md[4:]
            if kind not in (15, 58, 'unsupported'):
                return
            how = mode(r, S)
            r.ctx.assume(T.LOWER(how.segs[0].e) == lit_atom(md), 0)
        if kind == 'unsupported':
            e = z3.Int('other_type')
            r.ctx.assume(z3.And(*[e != x for x in TYPES]), 0)
            t = SInt(e)
        d = HDict([('type', True, t), ('ident', True, SInt(ident))])
        if data != 'without data':
            d.entries = d.entries + (('data', True, values()),)
        c, before = r.content_of(content), r.content_of(content)
        r.I.files = {'F': c}
        u = r.uff(_refreshed=S.choose('refreshed', [True, False]))
        fd = SBool(z3.Bool('force_double'))
        name = 'UFF._write_set [%s]' % ('unsupported type' if kind == 'unsupported' else kind)
        if not r.oblige(name + ': no exception', lambda: r.method(u, '_write_set', d, how, force_double=fd))[1]:
            return
        old = list(to_text(before.attrs['t']).segs) if md == 'add' else []
        s = sep(content) if md == 'add' else []

        def same():
            if kind == 'unsupported':
                # nothing is added (a line end may be)
                try:
                    return text_same(r.ctx, c.attrs['t'], Text(old, True), 'file content')
                except SM.Differ:
                    return text_same(r.ctx, c.attrs['t'], Text(old + s, True), 'file content')
            blk = [block_of(ident, fd.e if kind == 58 else True), Lit('\n')]
            text_same(r.ctx, c.attrs['t'], Text(old + s + blk, True), 'file content')
        r.oblige('%s: %s' % (name, 'the earlier content, then the block on a line of its own' if md == 'add' else
                             'the file holds the block'), same)
        described(r, name, u, c)
    r.cases(one, kind=TYPES + ['unsupported'], content=r.CONTENTS, md=['add', 'overwrite', 'any add', 'any overwrite'],
            file=['open', 'closed'], data=['without data', 'list', 'arr', 'complex'])

    def many(S, what, md):
        """write_sets: the data-sets one after the other, in the order of the list"""
        n = z3.Int('n_sets')
        r.ctx.assume(z3.And(n >= 1, n < 10 ** 8), 0)
        r.ctx.sizes.append(n)
        ident = z3.Function('ident', z3.IntSort(), z3.IntSort())
        j = fresh_int('i')
        d0 = HDict([('type', True, SInt(z3.Int('t0'))), ('ident', True, SInt(ident(0)))])
        if what == 'one':
            dsets, blocks = d0, [block(ident(0))]
        else:
            dsets = HList(Seq([Gen(n, j, [HDict([('type', True, SInt(z3.Function('ty', z3.IntSort(), z3.IntSort())(j))),
                                                 ('ident', True, SInt(ident(j)))])])]))
            k = fresh_int('b')
            blocks = [RepS(n, k, [block(ident(k))])]
        old = r.opaque('old')
        c = HObj('content', {'t': Text([old], True)})
        r.I.files = {'F': c}
        fd = SBool(z3.Bool('force_double'))

        def write_set(I, f, a, kw):
            # contract of _write_set, discharged above (its blocks with the line end that may come before them)
            p = dict(zip(('self', 'dset', 'mode', 'force_double'), a), **kw)
            w = block(zi(lib.dict_get(I, p['dset'], 'ident')))
            b = p.get('force_double', True)
            if not r.ctx.prove(zb(b) == fd.e):
                SM.differ(r.ctx, 'force_double is not passed on')
            md_ = p.get('mode', 'add')
            if isinstance(md_, Text):
                # a mode in any case
                e = md_.segs[0].e if len(md_.segs) == 1 and isinstance(md_.segs[0], FAtom) else None
                md_ = next((x for x in ('add', 'overwrite') if e is not None and r.ctx.prove(z3.Or(
                    e == lit_atom(x), T.LOWER(e) == lit_atom(x)))), md_)
            elif isinstance(md_, str):
                md_ = md_.lower()
            if md_ == 'add':
                I.setattr_(c, 't', Text(list(to_text(c.attrs['t']).segs) + [w], True))
            elif md_ == 'overwrite':
                I.setattr_(c, 't', Text([w], True))
            else:
                raise Unsupported('_write_set with mode %r' % (md_,))
            # (the object is refreshed after every data-set)
            I.setattr_(p['self'], '.current', True)
        u = r.uff(_refreshed=S.choose('refreshed', [True, False]), **{'.current': True})
        r.I.contracts['UFF._write_set'] = write_set
        args = []
        if md in ('add', 'overwrite'):
            args = [md]
        elif md != 'default':
            m = mode(r, S)
            r.ctx.assume(T.LOWER(m.segs[0].e) == lit_atom(md[4:]), 0)
            args = [m]
        name = 'UFF.write_sets [%s, %s]' % (what, md)
        if not r.oblige(name + ': no exception', lambda: r.method(u, 'write_sets', dsets, *args, force_double=fd))[1]:
            return
        want = ([] if md.endswith('overwrite') else [old]) + blocks
        r.oblige(name + ': the blocks of the data-sets in order',
                 lambda: text_same(r.ctx, c.attrs['t'], Text(want, True), 'file content'))

        def current():
            if u.attrs['.current'] is not True:
                SM.differ(r.ctx, 'the object was not refreshed')
        r.oblige(name + ': the object reports the new content', current)
    r.cases(many, what=['one', 'list'], md=['add', 'overwrite', 'default', 'any add', 'any overwrite'])

    def default(S):
        """force_double is on unless switched off"""
        seen = []
        r.files(HObj('content', {'t': Text([r.opaque('old')], True)}))

        def write_set(I, f, a, kw):
            p = dict(zip(('self', 'dset', 'mode', 'force_double'), a), **kw)
            seen.append(p.get('force_double', True))
        u = r.uff()
        r.I.contracts['UFF._write_set'] = write_set

        def go():
            r.method(u, 'write_sets', HDict([('type', True, 58)]))
            if not seen or any(x is not True for x in seen):
                SM.differ(r.ctx, 'force_double is %r by default' % (seen,))
        r.oblige('UFF.write_sets: double precision by default', go)
    r.cases(default)


def block(ident):
    return Opq(z3.Function('framed', z3.IntSort(), AtomSort)(ident), z3.Function('framed_len', z3.IntSort(), z3.IntSort())(ident))


def described(r, name, u, c):
    def f():
        for g, k in (('get_n_sets', '_n_sets'), ('get_set_types', '_set_types'), ('get_set_formats', '_set_formats')):
            if k not in u.attrs:
                # (known from before the write)
                r.I.setattr_(u, k, HObj('report', {'of': Text([r.opaque('indexed before')], True), 'what': k}))
        for g, k in (('get_n_sets', '_n_sets'), ('get_set_types', '_set_types'), ('get_set_formats', '_set_formats')):
            v = r.method(u, g)
            if not (isinstance(v, HObj) and v.cls == 'report' and v.attrs['what'] == k):
                SM.differ(r.ctx, '%s gives %r' % (g, v))
            text_same(r.ctx, v.attrs['of'], c.attrs['t'], 'indexed content')
    r.oblige(name + ': the object reports the new content', f)


# ---------------------------------------------------------------- F03
def reading(r):
    START, END, TYPE = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('start', 'end', 'set_type'))
    N = z3.Int('n_sets')

    def index_object(S, exists, refreshed):
        """an object whose index is what refresh leaves behind (F01)"""
        r.ctx.assume(z3.And(N >= 0, N < 10 ** 8), 0)
        r.ctx.sizes.append(N)
        i = fresh_int('i')

        def ints(*fs):
            return [SInt(f(i)) for f in fs]
        index = {'_n_sets': SInt(N), '_set_types': Arr(Seq([Gen(N, i, ints(TYPE))]), 'i'),
                 '_set_formats': Arr(Seq([Gen(N, i, ints(z3.Function('fmt', z3.IntSort(), z3.IntSort())))]), 'i'),
                 '_block_ind': Arr(Seq([Gen(N, i, [Arr(Seq([Items(ints(START, END))]), 'i')])]), 'i', 2)}

        def refresh(I, f, a, kw):
            if not exists:
                return False
            for k, v in index.items():
                I.setattr_(a[0], k, v)
            I.setattr_(a[0], '_refreshed', True)
            return True
        stale = {'_n_sets': SInt(z3.Int('old_n')), '_set_types': Arr(Seq([]), 'i'), '_set_formats': Arr(Seq([]), 'i'),
                 '_block_ind': HList(Seq([]))}
        u = r.uff(**(index if refreshed else stale), _refreshed=refreshed)
        r.I.contracts['UFF.refresh'] = refresh
        return u

    def absent(S, what, refreshed, header):
        """a file that does not exist"""
        u = index_object(S, False, refreshed)
        r.I.files = {'F': HObj('content', {'t': b'', 'exists': False})}
        name = 'UFF.%s of a file that does not exist' % ('_read_set' if what == 'one' else 'read_sets')
        arg = {'all': [], 'one': [SInt(z3.Int('n'))], 'number': [SInt(z3.Int('n'))],
               'list': [HList(Seq([Gen(z3.Int('m'), fresh_int('i'), [0])]))], 'none': [None]}[what]
        if what == 'list':
            r.ctx.assume(z3.And(z3.Int('m') >= 0, z3.Int('m') < 10 ** 8), 0)
        raises(r, name, lambda: r.method(u, '_read_set' if what == 'one' else 'read_sets', *arg, header_only=header))
    r.cases(absent, what=['all', 'none', 'number', 'list', 'one'], refreshed=[True, False], header=[True, False])

    def several(S, what, refreshed):
        """read_sets on top of the contract of _read_set"""
        u = index_object(S, True, refreshed)
        r.I.files = {'F': HObj('content', {'t': Text([r.opaque('file')], True)})}
        h = SBool(z3.Bool('header_only'))
        PICK = z3.Function('pick', z3.IntSort(), z3.IntSort())

        def dset(n, hd=True):
            return HDict([('number', True, mkint(zi(n))), ('header_only', True, mkint(z3.If(zb(hd), 1, 0)))])

        def read_set(I, f, a, kw):
            p = dict(zip(('self', 'n', 'header_only'), a), **kw)
            n = p['n']
            if isinstance(n, bool) or not isinstance(n, (int, SInt)):
                raise Unsupported('_read_set(%r)' % (n,))
            if not r.ctx.prove(z3.And(zi(n) >= 0, zi(n) < N)):
                if not r.ctx.decide(mkbool(z3.And(zi(n) >= 0, zi(n) < N))):
                    raise PyExc(Exception, ('Cannot read data-set',))
            return dset(n, p.get('header_only', False))
        r.I.contracts['UFF._read_set'] = read_set
        name = 'UFF.read_sets [%s]' % what
        j = fresh_int('i')
        m = z3.Int('m')
        fails = what.endswith('out of range')
        if what in ('all', 'None'):
            args, k, at = [] if what == 'all' else [None], N, lambda i: i
        elif what.startswith('number'):
            n = z3.Int('n')
            r.ctx.assume(z3.And(n >= 0, n < N) if not fails else z3.Or(n < 0, n >= N), 0)
            args, k, at = [SInt(n)], z3.IntVal(1), lambda i: n
        else:
            q = z3.Int('q!pick')
            r.ctx.assume(z3.And(m >= 0, m < 10 ** 8), 0)
            r.ctx.sizes.append(m)
            r.ctx.assume(z3.ForAll([q], z3.And(PICK(q) >= 0, PICK(q) < N), patterns=[PICK(q)]), 0)
            ps = [Gen(m, j, [SInt(PICK(j))])]
            if fails:
                b = z3.Int('bad')
                r.ctx.assume(z3.Or(b < 0, b >= N), 0)
                m2, j2 = z3.Int('m2'), fresh_int('i')
                r.ctx.assume(z3.And(m2 >= 0, m2 < 10 ** 8), 0)
                ps += [Items([SInt(b)]), Gen(m2, j2, [SInt(z3.Function('pick2', z3.IntSort(), z3.IntSort())(j2))])]
            args, k, at = [HList(Seq(ps))], m, PICK
        if not S.choose('header argument', [True, False]):
            h = SBool(z3.BoolVal(False))
            kw = {}
        else:
            kw = {'header_only': h}
        if fails:
            raises(r, name, lambda: r.method(u, 'read_sets', *args, **kw))
            return
        got, ok = r.oblige(name + ': no exception', lambda: r.method(u, 'read_sets', *args, **kw))
        if not ok:
            return
        single = r.ctx.decide(mkbool(k == 1))

        def same():
            if single:
                value_same(r.ctx, got, dset(mkint(z3.simplify(at(z3.IntVal(0)))), h), 'result')
            else:
                i = fresh_int('e')
                if not isinstance(got, HList):
                    SM.differ(r.ctx, 'the result is %r' % (got,))
                value_same(r.ctx, got, HList(Seq([Gen(k, i, [dset(SInt(at(i)), h)])])), 'result')
        r.oblige(name + (': a single data-set by itself' if single else ': the list of the data-sets asked for, in order'), same)
    r.cases(several, what=['all', 'None', 'number', 'number out of range', 'list', 'list with one out of range'],
            refreshed=[True, False])

    def one(S, kind, refreshed):
        """_read_set on top of the contracts of the readers"""
        u = index_object(S, True, refreshed)
        n = z3.Int('n')
        before, after = r.opaque('before'), r.opaque('after')
        blk = FAtom(0, '<', z3.Const('block', AtomSort))
        ln = z3.Int('len_block')
        r.ctx.assume(z3.And(ln >= 1, ln < 10 ** 12), 0)
        r.I.files = {'F': HObj('content', {'t': Text([before, Opq(z3.Const('raw_block', AtomSort), ln), after], True), 'chunks': (
            (Text([before], True), before.ln), (Text([blk], True), ln), (Text([after], True), after.ln))})}
        h = SBool(z3.Bool('header_only'))
        calls = []
        for t in TYPES:
            def stub(I, f, a, kw, t=t):
                b = a[0] if a else kw['block_data']
                if to_text(b).b != (t == 58):
                    SM.differ(r.ctx, '_extract%d is given %s' % (t, 'text' if t == 58 else 'bytes'))
                text_same(r.ctx, Text(to_text(b).segs, False), Text([blk], False), 'block given to _extract%d' % t)
                if t == 58:
                    q = dict(zip(('block_data', 'header_only', 'data_only'), a), **kw)
                    if not r.ctx.prove(zb(q.get('header_only', False)) == h.e):
                        SM.differ(r.ctx, 'header_only is not passed on')
                    if q.get('data_only', False) is not False:
                        SM.differ(r.ctx, 'data_only is %r' % (q['data_only'],))
                return HDict([('read by', True, t)])
            r.I.contracts['_extract%d' % t] = stub
        name = 'UFF._read_set [%s]' % kind
        if kind == 'out of range':
            r.ctx.assume(z3.Or(n < 0, n >= N), 0)
            raises(r, name, lambda: r.method(u, '_read_set', SInt(n), header_only=h))
            return
        r.ctx.assume(z3.And(n >= 0, n < N, START(n) == before.ln, END(n) == before.ln + ln - 1), 0)
        if kind == 'unsupported type':
            r.ctx.assume(z3.And(*[TYPE(n) != t for t in TYPES]), 0)
            want = HDict([('type', True, SInt(TYPE(n)))])
        else:
            r.ctx.assume(TYPE(n) == kind, 0)
            want = HDict([('read by', True, kind)])
        got, ok = r.oblige(name + ': no exception', lambda: r.method(u, '_read_set', SInt(n), header_only=h))
        if ok:
            r.oblige(name + (': its type only' if kind == 'unsupported type' else ': what the reader of this type finds'),
                     lambda: value_same(r.ctx, got, want, 'result'))
    r.cases(one, kind=TYPES + ['unsupported type', 'out of range'], refreshed=[True, False])


def raises(r, name, f):
    def go():
        try:
            f()
        except PyExc:
            return
        SM.differ(r.ctx, 'no exception')
    r.oblige(name + ': raises', go)


# ---------------------------------------------------------------- F01
def scanning(r):
    STALE = {'_n_sets': lambda: SInt(z3.Int('old_n')), '_refreshed': lambda: SBool(z3.Bool('old_refreshed')),
             '_block_ind': lambda: Arr(Seq([Gen(z3.Int('old_n'), fresh_int('o'), [Arr(Seq([Items([SInt(z3.Int('s')), SInt(z3.Int('e'))])]), 'i')])]), 'i', 2),
             '_set_types': lambda: Arr(Seq([Gen(z3.Int('old_n'), fresh_int('o'), [SInt(z3.Int('old_type'))])]), 'i'),
             '_set_formats': lambda: Arr(Seq([Gen(z3.Int('old_n'), fresh_int('o'), [SReal(z3.Real('old_fmt'))])]), 'f')}

    def numbers(v):
        """the elements of an array or list, as a sequence of numbers"""
        if not isinstance(v, (Arr, HList)):
            SM.differ(r.ctx, 'an array is expected: %r' % (v,))
        return v.seq

    def empty(u, what):
        n = seqs.seq_len_e(r.ctx, numbers(u.attrs[what]))
        if not r.ctx.prove(n == 0):
            SM.differ(r.ctx, '%s has elements' % what, n != 0)

    def index_is(name, u, k, start, end, typ, fmt):
        """the index of the object lists k data-sets"""
        ctx = r.ctx

        def count():
            value_same(ctx, u.attrs['_n_sets'], mkint(k), 'number of data-sets')
        r.oblige(name + ': the number of data-sets is that of the pairs of delimiters', count)
        for what, f in (('_set_types', typ), ('_set_formats', fmt), ('_block_ind', None)):
            def elements():
                s = numbers(u.attrs[what])
                n = seqs.seq_len_e(ctx, s)
                if not ctx.prove(n == k):
                    SM.differ(ctx, '%s has not one element for each data-set' % what, n != k)
                i = fresh_int('set')
                ctx.assume(z3.And(i >= 0, i < k))
                if not ctx.feasible():
                    return
                v = seqs.index(ctx, s, mkint(i))
                if f is not None:
                    v = zr(v)
                    phi = f(i, v)
                else:
                    w = numbers(v)
                    if not ctx.prove(seqs.seq_len_e(ctx, w) == 2):
                        SM.differ(ctx, 'a pair of positions is expected')
                    phi = z3.And(zi(seqs.index(ctx, w, 0)) == start(i), zi(seqs.index(ctx, w, 1)) == end(i))
                if not ctx.prove(phi):
                    SM.differ(ctx, '%s of some data-set' % what, z3.Not(phi))
            r.oblige(name + {'_set_types': ': the type of each is the number in columns 1-6 of its second line',
                             '_set_formats': ': each is binary when column 7 of its second line is b or B',
                             '_block_ind': ': each extends from its first delimiter up to its second'}[what], elements)

    def made(how, u):
        u2 = r.I.call(r.I.func('pyuff.pyuff.UFF'), *((['F'], {}) if how == 'position' else ([], {how: 'F'})))
        u.attrs, u.open = u2.attrs, False

    def absent(S, how):
        r.I.files = {'F': HObj('content', {'t': b'', 'exists': False})}
        u = HObj(r.I.func('pyuff.pyuff.UFF'))
        u.open = True
        if how == 'refresh':
            u.attrs.update({k: v() for k, v in STALE.items()}, _filename='F')
            got, ok = r.oblige('UFF.refresh [no file]: no exception', lambda: r.method(u, 'refresh'))
        else:
            got, ok = r.oblige('UFF.__init__ [no file]: no exception', lambda: made(how, u))
        if not ok:
            return
        name = 'UFF.%s [no file]' % ('refresh' if how == 'refresh' else '__init__')
        if how == 'refresh':
            r.oblige(name + ': gives False', lambda: value_same(r.ctx, got, False, 'result'))
        r.oblige(name + ': not refreshed', lambda: value_same(r.ctx, r.method(u, 'get_status'), False, 'status'))
        r.oblige(name + ': no data-sets', lambda: value_same(r.ctx, u.attrs['_n_sets'], 0, 'number of data-sets'))
        for w in ('_set_types', '_set_formats', '_block_ind'):
            r.oblige(name + ': %s is empty' % w, lambda: empty(u, w))
    r.cases(absent, how=['refresh', 'filename', 'fileName', 'position'])

    def scan(S, how):
        """refresh (or a new object) on a file of any bytes"""
        ctx = r.ctx
        L = z3.Int('file_len')
        data = raw.setup(r.I, L)
        c = HObj('content', {'t': data})
        r.I.files = {'F': c}
        u = HObj(r.I.func('pyuff.pyuff.UFF'))
        u.open = True
        name = 'UFF.%s' % ('refresh' if how == 'refresh' else '__init__')
        if how == 'refresh':
            ctx.assume(z3.Int('old_n') >= 0, 0)
            u.attrs.update({k: v() for k, v in STALE.items()}, _filename='F')
            got, ok = r.oblige(name + ': no exception', lambda: r.method(u, 'refresh'))
            if ok:
                r.oblige(name + ': gives True', lambda: value_same(ctx, got, True, 'result'))
        else:
            ok = r.oblige(name + ': no exception', lambda: made(how, u))[1]
        if not ok:
            return
        r.oblige(name + ': refreshed', lambda: value_same(ctx, r.method(u, 'get_status'), True, 'status'))

        def untouched():
            if c.attrs['t'] is not data:
                SM.differ(ctx, 'the file was changed')
        r.oblige(name + ': the file is not changed', untouched)
        raw.absent(r.I, z3.IntVal(0), L)          # (a file without delimiters)
        k = raw.CNT(L) / 2

        def line(i):
            lo, hi = raw.POS(2 * i), raw.POS(2 * i + 1)
            return raw.NL(lo, hi) >= 2, raw.LS(lo, hi, 1), raw.LE(lo, hi, 1)

        def typ(i, v):
            there, a, b = line(i)
            e = z3.If(a + 6 <= b, a + 6, b)
            return z3.Implies(z3.And(there, raw.ISINT(a, e)), v == z3.ToReal(raw.INT(a, e)))

        def fmt(i, v):
            there, a, b = line(i)
            e = z3.If(a + 6 <= b, a + 6, b)
            bin_ = z3.And(a + 6 < b, z3.Or(raw.BYTE(a + 6) == 98, raw.BYTE(a + 6) == 66))
            return z3.Implies(z3.And(there, raw.ISINT(a, e)), v == z3.If(bin_, z3.RealVal(1), z3.RealVal(0)))
        ctx.assume(z3.And(k >= 0, 2 * k <= raw.CNT(L)))
        index_is(name, u, k, lambda i: raw.POS(2 * i), lambda i: raw.POS(2 * i + 1) - 1, typ, fmt)
    r.cases(scan, how=['refresh', 'filename', 'fileName', 'position'])

    def getters(S, what, refreshed):
        """what the object reports is its index, refreshed when needed"""
        fresh = {'_n_sets': SInt(z3.Int('new_n')), '_set_types': Arr(Seq([Items([SInt(z3.Int('new_type'))])]), 'i'),
                 '_set_formats': Arr(Seq([Items([SReal(z3.Real('new_fmt'))])]), 'f')}
        u = HObj(r.I.func('pyuff.pyuff.UFF'))
        u.open = True
        u.attrs.update({k: v() for k, v in STALE.items()}, _filename='F')
        u.attrs['_refreshed'] = refreshed
        field = {'get_n_sets': '_n_sets', 'get_set_types': '_set_types', 'get_set_formats': '_set_formats'}[what]
        if refreshed:
            u.attrs.update(fresh)

        def refresh(I, f, a, kw):
            for k, v in fresh.items():
                I.setattr_(a[0], k, v)
            I.setattr_(a[0], '_refreshed', True)
            return True
        r.I.contracts['UFF.refresh'] = refresh
        got, ok = r.oblige('UFF.%s: no exception' % what, lambda: r.method(u, what))
        if ok:
            r.oblige('UFF.%s: reports the index' % what, lambda: value_same(r.ctx, got, fresh[field], what))
    r.cases(getters, what=['get_n_sets', 'get_set_types', 'get_set_formats'], refreshed=[True, False])
