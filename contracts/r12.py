"""2412: elements."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 2412
FUNCS = {'writer': 'pyuff.datasets.dataset_2412._write2412', 'reader': 'pyuff.datasets.dataset_2412._extract2412'}

RODS = (11, 21, 22, 23, 24)
REC1 = ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes')
BEAM = ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')


def shape(S):
    d = S.dict(('type', 2412))

    def elements(S, kind, name):
        n = S.count('n' + name, lo=1)

        def elem(S):
            e = S.dict(('type', 2412), ('fe_descriptor', kind))
            for k in REC1:
                if k != 'fe_descriptor':
                    S.set(e, k, S.int(name + k, 10))
            for k in BEAM:
                S.only_if(e, S.among(kind, RODS), k, S.int(name + k, 10))
            m = S.count(name + 'm', lo=1)
            S.set(e, 'nodes_nums', S.ints(name + 'nodes', m, 10, 'list'))
            return e
        return S.seq(name, n, elem)
    return d, {'kinds': S.kinds(d, 'kind', (41, 44) + RODS, elements)}


def layout(d, o):
    t = head(2412)
    for kind in o['kinds']:
        for e in d[kind]:
            t += '%10i%10i%10i%10i%10i%10i\n' % (e['element_nums'], e['fe_descriptor'], e['phys_table'],
                                                e['mat_table'], e['color'], e['num_nodes'])
            if kind in RODS:
                t += '%10i%10i%10i\n' % (e['beam_orientation'], e['beam_foreend_cross'], e['beam_aftend_cross'])
            for v in e['nodes_nums']:
                t += '%10i' % v
            t += '\n'
    return t + '    -1\n'


def element(e, rod):
    out = {'element_nums': e['element_nums'], 'fe_descriptor': e['fe_descriptor'], 'phys_table': e['phys_table'],
           'mat_table': e['mat_table'], 'color': e['color'], 'num_nodes': e['num_nodes'],
           'nodes_nums': e['nodes_nums']}
    if rod:
        for k in BEAM:
            out[k] = e[k]
    return out


def expect(d, o):
    r = {'type': 2412}
    for kind in o['kinds']:
        r[kind] = [element(e, kind in RODS) for e in d[kind]]
    for kind, name in ((41, 'triangle'), (44, 'quad')):
        if kind in d:
            r[name] = columns(d[kind])
    return r


def columns(elems):
    out = {'nodes_nums': [e['nodes_nums'] for e in elems]}
    for k in REC1:
        out[k] = [e[k] for e in elems]
    return out
