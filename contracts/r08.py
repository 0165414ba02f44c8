"""164: units."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 164
FUNCS = {'writer': 'pyuff.datasets.dataset_164._write164', 'reader': 'pyuff.datasets.dataset_164._extract164'}
FACTORS = ('length', 'force', 'temp', 'temp_offset')


def shape(S):
    d = S.dict(('type', 164))
    S.set(d, 'units_code', S.int('units_code', 10))
    S.opt(d, 'units_description', S.str('units_description', 20))
    S.opt(d, 'temp_mode', S.int('temp_mode', 10))
    for k in FACTORS:
        S.set(d, k, S.real(k, 25))
    return d, {}


def dexp(x):
    """25 columns, 17 significant digits, D exponent"""
    return ('%25.16e' % x).replace('e', 'D')


def layout(d, o):
    t = head(164)
    t += '%10i%20s%10i\n' % (d['units_code'], opt(d, 'units_description', 'User unit system'), opt(d, 'temp_mode', 1))
    t += dexp(d['length']) + dexp(d['force']) + dexp(d['temp']) + '\n' + dexp(d['temp_offset']) + '\n'
    return t + '    -1\n'


def expect(d, o):
    e = {'type': 164, 'units_code': d['units_code'], 'temp_mode': opt(d, 'temp_mode', 1),
         'units_description': opt(d, 'units_description', 'User unit system')}
    for k in FACTORS:
        e[k] = d[k]
    return e
