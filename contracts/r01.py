"""15: nodes."""
from contracts.spec import *

TYPE = 15
FUNCS = {'writer': 'pyuff.datasets.dataset_15._write15', 'reader': 'pyuff.datasets.dataset_15._extract15'}


def shape(S):
    c = S.choose('container', ['list', 'arr', 'farr'])
    n = S.count('n')
    d = S.dict(('type', 15))
    S.set(d, 'node_nums', S.ints('node_nums', n, 10, c))
    for k in ('def_cs', 'disp_cs', 'color'):
        S.opt(d, k, S.ints(k, n, 10, c))
    for k in ('x', 'y', 'z'):
        S.set(d, k, S.reals(k, n, 13, 'list' if c == 'list' else 'arr'))
    return d, {}


def layout(d, o):
    n = len(d['node_nums'])
    t = '    -1\n    15\n'
    def_cs = opt(d, 'def_cs', [0] * n)
    disp_cs = opt(d, 'disp_cs', [0] * n)
    color = opt(d, 'color', [0] * n)
    for i in range(n):
        t += '%10i%10i%10i%10i%13.5E%13.5E%13.5E\n' % (d['node_nums'][i], def_cs[i], disp_cs[i], color[i],
                                                     d['x'][i], d['y'][i], d['z'][i])
    return t + '    -1\n'


def expect(d, o):
    n = len(d['node_nums'])
    return {'type': 15,
            'node_nums': d['node_nums'],
            'def_cs': opt(d, 'def_cs', [0] * n),
            'disp_cs': opt(d, 'disp_cs', [0] * n),
            'color': opt(d, 'color', [0] * n),
            'x': [rnd(5, v) for v in d['x']],
            'y': [rnd(5, v) for v in d['y']],
            'z': [rnd(5, v) for v in d['z']]}
