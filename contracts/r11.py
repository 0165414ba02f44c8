"""2411: nodes, double precision."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 2411
FUNCS = {'writer': 'pyuff.datasets.dataset_2411._write2411', 'reader': 'pyuff.datasets.dataset_2411._extract2411'}


def shape(S):
    c = S.choose('container', ['list', 'arr', 'farr'])
    n = S.count('n')
    d = S.dict(('type', 2411))
    for k in ('node_nums', 'def_cs', 'disp_cs', 'color'):
        S.set(d, k, S.ints(k, n, 10, c))
    for k in ('x', 'y', 'z'):
        S.set(d, k, S.reals(k, n, 25, 'list' if c == 'list' else 'arr'))
    return d, {}


def layout(d, o):
    t = head(2411)
    for i in range(len(d['node_nums'])):
        t += '%10i%10i%10i%10i\n' % (d['node_nums'][i], d['def_cs'][i], d['disp_cs'][i], d['color'][i])
        t += '%25.16e%25.16e%25.16e\n' % (d['x'][i], d['y'][i], d['z'][i])
    return t + '    -1\n'


def expect(d, o):
    e = {'type': 2411}
    for k in ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'):
        e[k] = d[k]
    return e
