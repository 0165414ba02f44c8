"""1858: qualifiers of functions."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 1858
FUNCS = {'writer': 'pyuff.datasets.dataset_1858._write1858', 'reader': 'pyuff.datasets.dataset_1858._extract1858'}

REC1 = ('record_num', 'octave_format', 'measurement_run')
REC2 = ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
        'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier',
        'z_axis_data_type_qualifier', 'sampling_type')
REC3 = ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples')
REC4 = ('user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')


def shape(S):
    d = S.dict(('type', 1858))
    for k in REC1:
        S.set(d, k, S.int(k, 12))
    for k in REC2:
        S.set(d, k, S.int(k, 6))
    for k in REC3 + REC4:
        S.set(d, k, S.real(k, BY_POSITION))
    for k in ('response_direction', 'reference_direction'):
        S.set(d, k, S.str(k, 4))
    return d, {}


def layout(d, o):
    t = head(1858)
    for k in REC1:
        t += '%12i' % d[k]
    t += '%12i%12i%12i\n' % (0, 0, 0)
    for k in REC2:
        t += '%6i' % d[k]
    t += '%6i%6i%6i\n' % (0, 0, 0)
    for k in REC3:
        t += '%15.7e' % d[k]
    t += '%15.7e\n' % 0
    for k in REC4:
        t += '%15.7e' % d[k]
    t += '\n' + '%15.7e' % 0 * 5 + '\n'
    t += '%-4s  %-4s\n' % (d['response_direction'], d['reference_direction'])
    t += '%-80s\n' % 'NONE'
    return t + '    -1\n'


def expect(d, o):
    e = {'type': 1858}
    for k in REC1 + REC2 + ('response_direction', 'reference_direction'):
        e[k] = d[k]
    for k in REC3 + REC4:
        e[k] = rnd(7, d[k])
    return e
