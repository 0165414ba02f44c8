"""fix_58b, for files of any number of binary data-sets with any number of lines each (used by verify.py for F08)."""
import z3
from . import text as T
from .interp import PyExc
from .same import text_same
from .vals import *

M = z3.Function('n_lines_of', z3.IntSort(), z3.IntSort())
TAG = '    -1'


def parts(k, n, eol, fixed, after):
    """a data-set after its opening tag: its lines, the last of them up to its line end, and the closing tag"""
    j = fresh_int('ln')
    return [RepS(M(k), j, [Opq(T.LINE(k, j), T.LLEN(k, j))]), Opq(T.PART(k), T.PLEN(k)), Lit(('' if fixed else eol) + TAG + after)]


def content(n, eol, last, fixed):
    k = fresh_int('b')
    return Text([Lit(TAG + eol), RepS(z3.simplify(n - 1), k, parts(k, n, eol, fixed, eol + TAG + eol))] + parts(
        z3.simplify(n - 1), n, eol, fixed, eol if last else ''), True)


def facts(r, n):
    """the domain: no line of a data-set but its tags reads '    -1' without the white space at its end"""
    k, j, a = z3.Int('q!k'), z3.Int('q!j'), z3.Const('q!a', AtomSort)
    c = r.ctx
    c.assume(z3.And(n >= 1, n < 10 ** 6), 0)
    c.assume(z3.ForAll([k], z3.And(M(k) >= 2, M(k) < 10 ** 8), patterns=[M(k)]), 0)
    tags = [lit_atom(TAG + x) for x in ('', '\n', '\r', '\r\n')]
    for e, ln, vs in ((T.LINE(k, j), T.LLEN(k, j), [k, j]), (T.PART(k), T.PLEN(k), [k])):
        c.assume(z3.ForAll(vs, z3.And(ln >= (1 if len(vs) == 2 else 0), ln < 10 ** 9), patterns=[ln]), 0)
        c.assume(z3.ForAll(vs, z3.And(*[e != t for t in tags]), patterns=[e]), 0)
        for f in T.RSTRIP.values():
            c.assume(z3.ForAll(vs, z3.And(*[f(e) != t for t in tags]), patterns=[f(e)]), 0)
    c.assume(z3.ForAll([a], T.RLEN(a) >= 0, patterns=[T.RLEN(a)]), 0)


def repairing(r):
    def one(S, blocks, eol, last, name):
        eol = {'LF': '\n', 'CR LF': '\r\n'}[eol]
        if blocks == 'none' and not (last and eol == '\n'):
            return
        n = z3.Int('n_blocks')
        facts(r, n)
        path = S.str('path', 200)
        e = path.segs[0].e
        dflt = Text([FAtom(0, '<', z3.Function(f, AtomSort, AtomSort)(e)) if f else Lit('_fixed') for f in (
            'path_root', '', 'path_ext')])
        given = S.str('target', 200)
        bad = b'' if blocks == 'none' else content(n, eol, last, False)
        src, dst = HObj('content', {'t': bad}), HObj('content', {'t': b'', 'exists': False})
        if blocks == 'missing':
            src = HObj('content', {'t': b'', 'exists': False})
        r.I.files = {path: src, (dflt if name == 'default' else given): dst}
        f = r.I.func('pyuff.datasets.dataset_58.fix_58b')
        args, kw = [path], {}
        if name == 'by position':
            args.append(given)
        elif name == 'by keyword':
            kw['fixed_filename'] = given
        if blocks == 'missing':
            nm = 'fix_58b: a missing input file'
            raised = False
            try:
                r.I.call(f, args, kw)
            except PyExc:
                raised = True

            def rz():
                if not raised:
                    from . import same as SM
                    SM.differ(r.ctx, 'no exception')
                for c in (src, dst):
                    if c.attrs.get('exists', True) is True:
                        from . import same as SM
                        SM.differ(r.ctx, 'a file was created')
            r.oblige(nm + ': raises and creates nothing', rz)
            return
        nm = 'fix_58b [%s]' % ('no data-set' if blocks == 'none' else 'LF' if eol == '\n' else 'CR LF')
        if not r.oblige(nm + ': no exception', lambda: r.I.call(f, args, kw))[1]:
            return
        r.oblige(nm + ': the original file stays', lambda: text_same(r.ctx, src.attrs['t'], bad, 'original file'))
        good = b'' if blocks == 'none' else content(n, eol, last, True)
        r.oblige(nm + ': the same bytes without the line ends before the closing tags, under the %s name' % (
            'default' if name == 'default' else 'given'), lambda: text_same(r.ctx, dst.attrs['t'], good, 'repaired file'))
    r.cases(one, blocks=['some', 'none', 'missing'], eol=['LF', 'CR LF'], last=[True, False],
            name=['default', 'by position', 'by keyword'])
