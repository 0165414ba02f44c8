"""Conversion of quadrilaterals to trace lines (F09): any number of data-sets of any type, any number of quadrilaterals."""
import z3
from contracts import f09
from . import same as SM
from .builders import Args, conc
from .same import value_same
from .symb import clone
from .vals import *


def converting(r):
    """F09"""
    def build(S, rows, more):
        ctx, I = r.ctx, r.I
        r.kind = None
        f = I.func('pyuff.tools.convert_dataset_2412_to_82')
        q = lambda k: S.int('node_%d' % k, 0, lo=-2 ** 63, hi=2 ** 63 - 1)

        def quads(name):
            n = S.count('quads')
            row = lambda: Seq([Items([q(k) for k in range(4)])])
            v = Arr(S.gen(n, lambda: Arr(row(), 'i')), 'i', 2) if rows == 'matrix' else \
                HList(S.gen(n, lambda: (STuple if rows == 'tuples' else Arr if rows == 'arrays' else HList)(
                    row(), *(['i'] if rows == 'arrays' else []))))
            es = [('nodes_nums', True, v)]
            if more:
                es.append(('element_nums', True, HList(S.gen(n, lambda: S.int('label', 0)))))
            return HDict(es)

        def one():
            t = S.term('type', z3.IntSort(), 'int', lambda e: None)
            p = S.term('has_quad', z3.BoolSort(), 'bool', lambda e: None)
            es = [('type', True, SInt(t)), ('quad', p, quads('quad'))]
            if more:
                x = S.term('has_triangle', z3.BoolSort(), 'bool', lambda e: None)
                es.append(('triangle', x, HDict([('nodes_nums', True, HList(Seq([])))])))
            return HDict(es)
        sets = HList(S.gen(S.count('datasets'), one))
        given, before = clone(sets), clone(sets)
        r.make_case = lambda m: {'sets': conc(m, before)}
        I.alts = True
        got, ok = r.oblige('converts every list of data-sets', lambda: I.call(f, [given], {}))
        if not ok:
            return
        want = I.call(I.func(f09.__name__ + '.convert'), [clone(sets)], {})
        r.oblige('one data-set 82 for each data-set 2412 with quadrilaterals, holding their closed lines',
                 lambda: value_same(ctx, got, want, 'result'))
        r.oblige('the converted data-sets stay as they are', lambda: value_same(ctx, given, before, 'argument'))
    r.cases(build, rows=['lists', 'matrix', 'tuples', 'arrays'], more=[False, True])
