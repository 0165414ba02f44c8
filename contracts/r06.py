"""82: trace lines."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 82
FUNCS = {'writer': 'pyuff.datasets.dataset_82._write82', 'reader': 'pyuff.datasets.dataset_82._extract82'}


def shape(S):
    c = S.choose('container', ['arr', 'farr'])
    n = S.count('n')
    d = S.dict(('type', 82))
    S.set(d, 'trace_num', S.int('trace_num', 10))
    S.opt(d, 'n_nodes', S.int('n_nodes', 10))
    S.opt(d, 'color', S.int('color', 10))
    S.opt(d, 'id', S.str('id', 80))
    S.set(d, 'nodes', S.ints('nodes', n, 10, c))
    return d, {}


def n_changes(nodes):
    """the number announced by the library: runs of equal nodes"""
    k = 1
    for i in range(len(nodes) - 1):
        if nodes[i + 1] - nodes[i] != 0:
            k += 1
    return k


def layout(d, o):
    t = head(82)
    t += '%10i%10i%10i\n' % (d['trace_num'], n_changes(d['nodes']), opt(d, 'color', 0))
    t += '%-80s\n' % opt(d, 'id', 'NONE')
    for line in chunks(d['nodes'], 8):
        for v in line:
            t += '%10i' % v
        t += '\n'
    return t + '    -1\n'


def expect(d, o):
    return {'type': 82, 'trace_num': d['trace_num'], 'n_nodes': n_changes(d['nodes']), 'color': opt(d, 'color', 0),
            'id': opt(d, 'id', 'NONE'), 'nodes': d['nodes']}
