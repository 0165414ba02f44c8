"""18: coordinate systems."""
from contracts.spec import *

TYPE = 18
FUNCS = {'writer': 'pyuff.datasets.dataset_18._write18', 'reader': 'pyuff.datasets.dataset_18._extract18'}


def shape(S):
    c = S.choose('container', ['list', 'arr', 'farr'])
    n = S.count('n', lo=1)
    d = S.dict(('type', 18))
    S.set(d, 'cs_num', S.ints('cs_num', n, 10, c))
    for k in ('cs_type', 'color', 'method'):
        S.opt(d, k, S.ints(k, n, 10, c))
    S.set(d, 'ref_cs_num', S.ints('ref_cs_num', n, 10, c))
    S.opt(d, 'cs_name', S.strs('cs_name', n, 40))
    for k in ('ref_o', 'x_point', 'xz_point'):
        S.set(d, k, S.rows(k, n, 3, BY_POSITION, 'list' if c == 'list' else 'arr'))
    return d, {}


def head(n):
    return '    -1\n%6i%74s\n' % (n, ' ')


def layout(d, o):
    n = len(d['cs_num'])
    t = head(18)
    cs_type = opt(d, 'cs_type', [0] * n)
    color = opt(d, 'color', [0] * n)
    method = opt(d, 'method', [1] * n)
    name = opt(d, 'cs_name', [''] * n)
    for i in range(n):
        a = d['ref_o'][i]
        b = d['x_point'][i]
        c = d['xz_point'][i]
        t += '%10i%10i%10i%10i%10i\n' % (d['cs_num'][i], cs_type[i], d['ref_cs_num'][i], color[i], method[i])
        t += '%-40s\n' % name[i]
        t += '%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (a[0], a[1], a[2], b[0], b[1], b[2])
        t += '%13.5e%13.5e%13.5e\n' % (c[0], c[1], c[2])
    return t + '    -1\n'


def expect(d, o):
    n = len(d['cs_num'])
    return {'type': 18,
            'cs_num': d['cs_num'],
            'cs_type': opt(d, 'cs_type', [0] * n),
            'ref_cs_num': d['ref_cs_num'],
            'color': opt(d, 'color', [0] * n),
            'method': opt(d, 'method', [1] * n),
            'cs_name': opt(d, 'cs_name', [''] * n),
            'ref_o': [[rnd(5, p[0]), rnd(5, p[1]), rnd(5, p[2])] for p in d['ref_o']],
            'x_point': [[rnd(5, p[0]), rnd(5, p[1]), rnd(5, p[2])] for p in d['x_point']],
            'xz_point': [[rnd(5, p[0]), rnd(5, p[1]), rnd(5, p[2])] for p in d['xz_point']]}
