"""58b: functions, binary form."""
from contracts.spec import *
from contracts.r04 import shape58, header, values, expect_header, FUNCS, TYPE


def shape(S):
    return shape58(S, True)


def n_bytes(d, o):
    n = len(d['x'])
    if o['cplx']:
        n = 2 * n
    if not o['even']:
        n = n + len(d['x'])
    return n * (4 if o['single'] else 8)


def layout(d, o):
    return layout_en(d, o, '<', 1)


def layout_en(d, o, en, bo):
    """with the values in the given byte order"""
    t = '    -1\n    58b%6i%6i%12i%12i%6i%6i%12i%12i\n' % (bo, 2, 11, n_bytes(d, o), 0, 0, 0, 0)
    return utf8(t + header(d, o)) + bin_values(en, 'f' if o['single'] else 'd', values(d, o)) + utf8('    -1\n')


def layout_big(d, o):
    return layout_en(d, o, '>', 2)


def expect(d, o):
    return expect_en(d, o, 1)


def expect_big(d, o):
    return expect_en(d, o, 2)


def expect_en(d, o, bo):
    e = expect_header(d, o)
    e['byte_ordering'] = bo
    e['fp_format'] = 2
    e['n_ascii_lines'] = 11
    e['n_bytes'] = n_bytes(d, o)
    if o['even']:
        e['x'] = [e['abscissa_min'] + i * e['abscissa_inc'] for i in range(len(d['x']))]
    elif o['single']:
        e['x'] = [f32(v) for v in d['x']]
    else:
        e['x'] = d['x']
    if o['single']:
        e['data'] = [cplx(f32(re(v)), f32(im(v))) for v in d['data']] if o['cplx'] else [f32(v) for v in d['data']]
    else:
        e['data'] = d['data']
    return e
