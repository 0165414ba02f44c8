"""2420: coordinate systems."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 2420
FUNCS = {'writer': 'pyuff.datasets.dataset_2420._write2420', 'reader': 'pyuff.datasets.dataset_2420._extract2420'}


def shape(S):
    one = S.choose('defaults', ['given', 'left out'])
    c = S.choose('container', ['list', 'arr'])
    n = S.count('n') if one == 'given' else 1
    d = S.dict(('type', 2420))
    S.opt(d, 'Part_UID', S.int('Part_UID', 10))
    S.opt(d, 'Part_Name', S.str('Part_Name', 80))
    S.set(d, 'CS_sys_labels', S.ints('CS_sys_labels', n, 10, c))
    for k in ('CS_types', 'CS_colors'):
        (S.set if one == 'given' else S.opt)(d, k, S.ints(k, n, 10, c))
    S.set(d, 'CS_names', S.strs('CS_names', n, 40))
    S.set(d, 'CS_matrices', S.mats('CS_matrices', n, 4, 3, 25))
    return d, {}


def refused(S):
    """lists of different lengths"""
    one = S.choose('defaults', ['given', 'left out'])
    c = S.choose('container', ['list', 'arr'])
    n = S.unequal(['n', 'nn', 'nm'] + (['nt', 'nc'] if one == 'given' else []), [] if one == 'given' else [1])
    d = S.dict(('type', 2420), ('Part_UID', S.int('Part_UID', 10)), ('Part_Name', S.str('Part_Name', 80)))
    S.set(d, 'CS_sys_labels', S.ints('CS_sys_labels', n[0], 10, c))
    if one == 'given':
        S.set(d, 'CS_types', S.ints('CS_types', n[3], 10, c))
        S.set(d, 'CS_colors', S.ints('CS_colors', n[4], 10, c))
    S.set(d, 'CS_names', S.strs('CS_names', n[1], 40))
    S.set(d, 'CS_matrices', S.mats('CS_matrices', n[2], 4, 3, 25))
    return d


def layout(d, o):
    t = head(2420)
    t += '%10i\n' % opt(d, 'Part_UID', 1)
    t += '%-80s\n' % opt(d, 'Part_Name', 'None')
    types = opt(d, 'CS_types', [0])
    colors = opt(d, 'CS_colors', [8])
    for i in range(len(d['CS_sys_labels'])):
        m = d['CS_matrices'][i]
        t += '%10i%10i%10i\n' % (d['CS_sys_labels'][i], types[i], colors[i])
        t += '%s\n' % d['CS_names'][i]
        for r in range(4):
            t += '%25.16e%25.16e%25.16e\n' % (m[r][0], m[r][1], m[r][2])
    return t + '    -1\n'


def expect(d, o):
    return {'type': 2420, 'Part_UID': opt(d, 'Part_UID', 1), 'Part_Name': opt(d, 'Part_Name', 'None'),
            'CS_sys_labels': d['CS_sys_labels'], 'CS_types': opt(d, 'CS_types', [0]),
            'CS_colors': opt(d, 'CS_colors', [8]), 'CS_names': d['CS_names'], 'CS_matrices': d['CS_matrices']}
