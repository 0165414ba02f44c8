"""58: functions, text form (and the parts shared with 58b)."""
from contracts.spec import *

TYPE = 58
FUNCS = {'writer': 'pyuff.datasets.dataset_58._write58', 'reader': 'pyuff.datasets.dataset_58._extract58'}

UNITS = ('abscissa', 'ordinate', 'orddenom', 'z_axis')


def lab(q):
    return q + '_axis_lab'


def ulab(q):
    return q + '_axis_units_lab'


def shape(S):
    return shape58(S, False)


def shape58(S, binary):
    cplx_ = S.choose('complex', [False, True])
    even = S.choose('even', [1, 0])
    prec = S.choose('precision', ['forced', 'double', 'single'])
    c = S.choose('container', ['arr', 'list'])
    n = S.count('n', lo=2)
    w = 13 if binary else BY_POSITION
    d = S.dict(('type', 58))
    if binary:
        S.set(d, 'binary', 1)
    else:
        S.opt(d, 'binary', 0)
    S.set(d, 'func_type', S.choose('func_type', [1, 0, 2, 3, 4, 6, 9], spread=True))
    S.opt(d, 'func_id', S.int('func_id', 10))
    S.opt(d, 'ver_num', S.int('ver_num', 5))
    S.opt(d, 'load_case_id', S.int('load_case_id', 10))
    for k in ('id1', 'id2', 'id3', 'id4', 'id5'):
        S.opt(d, k, S.str(k, 80))
    S.opt(d, 'rsp_ent_name', S.str('rsp_ent_name', 10))
    S.opt(d, 'ref_ent_name', S.str('ref_ent_name', 10))
    S.set(d, 'rsp_node', S.int('rsp_node', 10))
    S.set(d, 'ref_node', S.int('ref_node', 10))
    S.set(d, 'rsp_dir', S.int('rsp_dir', 4))
    S.set(d, 'ref_dir', S.int('ref_dir', 4))
    S.opt(d, 'z_axis_value', S.real('z_axis_value', BY_POSITION))
    for q in UNITS:
        if q == 'orddenom':
            # has no default
            S.set(d, q + '_spec_data_type', S.int(q + '_spec_data_type', 10))
        else:
            S.opt(d, q + '_spec_data_type', S.int(q + '_spec_data_type', 10))
        for u in ('len', 'force', 'temp'):
            S.opt(d, q + '_' + u + '_unit_exp', S.int(q + u, 5))
        S.opt(d, lab(q), S.str(lab(q), 20))
        S.opt(d, ulab(q), S.str(ulab(q), 20))
    if even:
        S.set(d, 'abscissa_spacing', 1)
    else:
        S.opt(d, 'abscissa_spacing', 0)
    if prec != 'forced':
        S.set(d, 'ord_data_type', (6 if prec == 'double' else 5) if cplx_ else (4 if prec == 'double' else 2))
    else:
        S.opt(d, 'ord_data_type', 5 if cplx_ else 2)
    if binary:
        S.opt(d, 'n_bytes', S.int('n_bytes', 12))
    S.set(d, 'x', S.reals('x', n, w, c))
    S.set(d, 'data', (S.cplxs if cplx_ else S.reals)('data', n, w, c))
    return d, {'cplx': cplx_, 'even': even, 'single': prec == 'single', 'force_double': prec == 'forced',
               'binary': binary}


def code(o):
    if o['single']:
        return 5 if o['cplx'] else 2
    return 6 if o['cplx'] else 4


def header(d, o):
    """records 1 to 11"""
    t = ''
    for k in ('id1', 'id2', 'id3', 'id4', 'id5'):
        t += '%-80s\n' % opt(d, k, 'NONE')
    t += '%5i%10i%5i%10i %10s%10i%4i %10s%10i%4i\n' % (
        d['func_type'], opt(d, 'func_id', 0), opt(d, 'ver_num', 0), opt(d, 'load_case_id', 0),
        opt(d, 'rsp_ent_name', 'NONE'), d['rsp_node'], d['rsp_dir'],
        opt(d, 'ref_ent_name', 'NONE'), d['ref_node'], d['ref_dir'])
    t += '%10i%10i%10i%13.5e%13.5e%13.5e\n' % (
        code(o), len(d['x']), o['even'], d['x'][0] if o['even'] else 0,
        d['x'][1] - d['x'][0] if o['even'] else 0, opt(d, 'z_axis_value', 0))
    for q in UNITS:
        t += '%10i%5i%5i%5i %-20s %-20s\n' % (
            opt(d, q + '_spec_data_type', 0), opt(d, q + '_len_unit_exp', 0), opt(d, q + '_force_unit_exp', 0),
            opt(d, q + '_temp_unit_exp', 0), opt(d, lab(q), 'NONE'), opt(d, ulab(q), 'NONE'))
    return t


def values(d, o):
    """the values of the data records in the order in which they are stored"""
    if o['cplx']:
        a = [re(v) for v in d['data']]
        b = [im(v) for v in d['data']]
        return interleave(a, b) if o['even'] else interleave(d['x'], a, b)
    return d['data'] if o['even'] else interleave(d['x'], d['data'])


def layout(d, o):
    t = '    -1\n    58%74s\n' % ' ' + header(d, o)
    if o['single']:
        for line in chunks(values(d, o), 6):
            for v in line:
                t += '%13.5e' % v
            t += '\n'
    elif o['even']:
        for line in chunks(values(d, o), 4):
            for v in line:
                t += '%20.11e' % v
            t += '\n'
    elif o['cplx']:
        for i in range(len(d['x'])):
            t += '%13.5e%20.11e%20.11e\n' % (d['x'][i], re(d['data'][i]), im(d['data'][i]))
    else:
        # two points to a line
        for line in chunks(values(d, o), 4):
            for p in chunks(line, 2):
                t += '%13.5e%20.11e' % (p[0], p[1])
            t += '\n'
    return t + '    -1\n'


def expect_header(d, o):
    e = {'type': 58, 'binary': 1 if o['binary'] else 0}
    for k in ('id1', 'id2', 'id3', 'id4', 'id5', 'rsp_ent_name', 'ref_ent_name'):
        e[k] = opt(d, k, 'NONE')
    for k in ('func_id', 'ver_num', 'load_case_id'):
        e[k] = opt(d, k, 0)
    for k in ('func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir'):
        e[k] = d[k]
    e['ord_data_type'] = code(o)
    e['num_pts'] = len(d['x'])
    e['abscissa_spacing'] = o['even']
    e['abscissa_min'] = rnd(5, d['x'][0]) if o['even'] else 0
    e['abscissa_inc'] = rnd(5, d['x'][1] - d['x'][0]) if o['even'] else 0
    e['z_axis_value'] = rnd(5, opt(d, 'z_axis_value', 0))
    for q in UNITS:
        e[q + '_spec_data_type'] = opt(d, q + '_spec_data_type', 0)
        for u in ('len', 'force', 'temp'):
            e[q + '_' + u + '_unit_exp'] = opt(d, q + '_' + u + '_unit_exp', 0)
        e[lab(q)] = opt(d, lab(q), 'NONE')
        e[ulab(q)] = opt(d, ulab(q), 'NONE')
    return e


def expect(d, o):
    e = expect_header(d, o)
    p = 5 if o['single'] else 11
    if o['even']:
        e['x'] = [e['abscissa_min'] + i * e['abscissa_inc'] for i in range(len(d['x']))]
    else:
        e['x'] = [rnd(5, v) for v in d['x']]
    if o['cplx']:
        e['data'] = [cplx(rnd(p, re(v)), rnd(p, im(v))) for v in d['data']]
    else:
        e['data'] = [rnd(p, v) for v in d['data']]
    return e
