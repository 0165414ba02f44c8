"""55: data at nodes."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 55
FUNCS = {'writer': 'pyuff.datasets.dataset_55._write55', 'reader': 'pyuff.datasets.dataset_55._extract55'}


def shape(S):
    at = S.choose('analysis_type', [2, 3, 7, 5])
    form = S.choose('values', ['r3', 'r6', 'c3'])
    c = S.choose('container', ['list', 'arr'])
    n = S.count('n', lo=1)
    d = S.dict(('type', 55), ('analysis_type', at))
    for k in ('id1', 'id2', 'id3', 'id4', 'id5'):
        S.opt(d, k, S.str(k, 80))
    S.opt(d, 'units_description', S.str('units_description', 80))
    S.opt(d, 'model_type', S.int('model_type', 10))
    for k in ('data_ch', 'spec_data_type', 'load_case'):
        S.set(d, k, S.int(k, 10))
    if at == 2:
        S.set(d, 'mode_n', S.int('mode_n', 10))
        S.set(d, 'freq', S.real('freq', BY_POSITION))
        for k in ('modal_m', 'modal_damp_vis', 'modal_damp_his'):
            S.opt(d, k, S.real(k, BY_POSITION))
    elif at == 5:
        S.set(d, 'freq_step_n', S.int('freq_step_n', 10))
        S.set(d, 'freq', S.real('freq', BY_POSITION))
    else:
        S.set(d, 'mode_n', S.int('mode_n', 10))
        S.set(d, 'eig', S.cplx('eig', BY_POSITION))
        S.opt(d, 'modal_a', S.cplx('modal_a', BY_POSITION))
        if S.choose('modal_b', ['complex', 'real']) == 'real':
            S.opt(d, 'modal_b', S.real('modal_b', BY_POSITION))
        else:
            S.opt(d, 'modal_b', S.cplx('modal_b', BY_POSITION))
    S.set(d, 'node_nums', S.ints('node_nums', n, 10, c))
    for k in ('r1', 'r2', 'r3'):
        S.set(d, k, S.cplxs(k, n, BY_POSITION, c) if form == 'c3' else S.reals(k, n, BY_POSITION, c))
    if form == 'r6':
        for k in ('r4', 'r5', 'r6'):
            S.set(d, k, S.reals(k, n, BY_POSITION, c))
    return d, {'form': form, 'at': at}


def layout(d, o):
    t = head(55)
    for k in ('id1', 'id2', 'id3', 'id4', 'id5'):
        t += '%-80s\n' % opt(d, k, 'NONE')
    t += '%10i%10i%10i%10i%10i%10i\n' % (opt(d, 'model_type', 1), d['analysis_type'], d['data_ch'],
                                        d['spec_data_type'], 5 if o['form'] == 'c3' else 2,
                                        6 if o['form'] == 'r6' else 3)
    if o['at'] == 2:
        t += '%10i%10i%10i%10i\n' % (2, 4, d['load_case'], d['mode_n'])
        t += '%13.5e%13.5e%13.5e%13.5e\n' % (d['freq'], opt(d, 'modal_m', 0), opt(d, 'modal_damp_vis', 0),
                                            opt(d, 'modal_damp_his', 0))
    elif o['at'] == 5:
        t += '%10i%10i%10i%10i\n' % (2, 1, d['load_case'], d['freq_step_n'])
        t += '%13.5e\n' % d['freq']
    else:
        a = opt(d, 'modal_a', cplx(0.0, 0.0))
        b = opt(d, 'modal_b', cplx(0.0, 0.0))
        t += '%10i%10i%10i%10i\n' % (2, 6, d['load_case'], d['mode_n'])
        t += '%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (re(d['eig']), im(d['eig']), re(a), im(a), re(b), im(b))
    for i in range(len(d['node_nums'])):
        t += '%10i\n' % d['node_nums'][i]
        if o['form'] == 'r3':
            t += '%13.5e%13.5e%13.5e\n' % (d['r1'][i], d['r2'][i], d['r3'][i])
        elif o['form'] == 'r6':
            t += '%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (d['r1'][i], d['r2'][i], d['r3'][i], d['r4'][i],
                                                            d['r5'][i], d['r6'][i])
        else:
            t += '%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                re(d['r1'][i]), im(d['r1'][i]), re(d['r2'][i]), im(d['r2'][i]), re(d['r3'][i]), im(d['r3'][i]))
    return t + '    -1\n'


def rnd_c(z):
    return cplx(rnd(5, re(z)), rnd(5, im(z)))


def expect(d, o):
    e = {'type': 55}
    for k in ('id1', 'id2', 'id3', 'id4', 'id5'):
        e[k] = opt(d, k, 'NONE')
    e['model_type'] = opt(d, 'model_type', 1)
    for k in ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'node_nums'):
        e[k] = d[k]
    e['data_type'] = 5 if o['form'] == 'c3' else 2
    e['n_data_per_node'] = 6 if o['form'] == 'r6' else 3
    if o['at'] == 2:
        e['mode_n'] = d['mode_n']
        e['freq'] = rnd(5, d['freq'])
        for k in ('modal_m', 'modal_damp_vis', 'modal_damp_his'):
            e[k] = rnd(5, opt(d, k, 0))
    elif o['at'] == 5:
        e['freq_step_n'] = d['freq_step_n']
        e['freq'] = rnd(5, d['freq'])
    else:
        e['mode_n'] = d['mode_n']
        e['eig'] = rnd_c(d['eig'])
        e['modal_a'] = rnd_c(opt(d, 'modal_a', cplx(0.0, 0.0)))
        e['modal_b'] = rnd_c(opt(d, 'modal_b', cplx(0.0, 0.0)))
    for k in ('r1', 'r2', 'r3'):
        e[k] = [rnd_c(v) for v in d[k]] if o['form'] == 'c3' else [rnd(5, v) for v in d[k]]
    if o['form'] == 'r6':
        for k in ('r4', 'r5', 'r6'):
            e[k] = [rnd(5, v) for v in d[k]]
    return e
