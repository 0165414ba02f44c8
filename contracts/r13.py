"""2414: analysis data."""
from contracts.spec import *

TYPE = 2414
FUNCS = {'writer': 'pyuff.datasets.dataset_2414._write2414', 'reader': 'pyuff.datasets.dataset_2414._extract2414'}

IDS = ('id1', 'id2', 'id3', 'id4', 'id5')
REC9 = ('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
        'number_of_data_values_for_the_data_component')
F10 = ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number',
       'time_step_number', 'frequency_number')
F11 = ('creation_option', 'number_retained')
F12 = ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping')
F13 = ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
       'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
       'imaginary_part_of_modal_B_or_modal_mass')
G10 = ('record10_field1', 'record10_field2', 'record10_field3', 'record10_field4',
       'record10_field5', 'record10_field6', 'record10_field7', 'record10_field8')
G11 = ('record11_field1', 'record11_field2', 'record11_field3', 'record11_field4',
       'record11_field5', 'record11_field6', 'record11_field7', 'record11_field8')
G12 = ('record12_field1', 'record12_field2', 'record12_field3', 'record12_field4', 'record12_field5',
       'record12_field6')
G13 = ('record13_field1', 'record13_field2', 'record13_field3', 'record13_field4', 'record13_field5',
       'record13_field6')


def shape(S):
    form = S.choose('form', ['freq1', 'freq2', 'freq3', 'nodes', 'elements', 'nodes_on_elements'])
    d = S.dict(('type', 2414))
    S.set(d, 'analysis_dataset_label', S.int('analysis_dataset_label', 10))
    S.set(d, 'analysis_dataset_name', S.str('analysis_dataset_name', 80))
    for k in IDS:
        S.set(d, k, S.str(k, 80))
    freq = form in ('freq1', 'freq2', 'freq3')
    for k in ('model_type', 'data_characteristic', 'result_type'):
        S.set(d, k, S.int(k, 10))
    if freq:
        m = int(form[4])
        S.set(d, 'dataset_location', S.int('dataset_location', 10))
        S.set(d, 'analysis_type', 5)
        S.set(d, 'data_type', 5)
        S.set(d, 'number_of_data_values_for_the_data_component', m)
        for k in F10 + F11:
            S.set(d, k, S.int(k, 10))
        for k in F12 + F13:
            S.set(d, k, S.real(k, 13))
        n = S.count('n')
        S.set(d, 'node_nums', S.ints('node_nums', n, 10, S.choose('container', ['arr', 'farr'])))
        for k in ('x', 'y', 'z')[:m]:
            S.set(d, k, S.cplxs(k, n, 13, 'arr'))
        return d, {'form': form, 'freq': True, 'm': m}
    loc = {'nodes': 1, 'elements': 2, 'nodes_on_elements': 3}[form]
    S.set(d, 'dataset_location', loc)
    S.set(d, 'analysis_type', S.int('analysis_type', 10, but=5))
    S.set(d, 'data_type', S.int('data_type', 10))
    S.set(d, 'number_of_data_values_for_the_data_component', S.int('ndv', 10))
    for k in G10 + G11:
        S.opt(d, k, S.int(k, 10))
    for k in G12 + G13:
        S.opt(d, k, S.real(k, 13))
    if loc == 3:
        n = S.count('n')
        S.set(d, 'element_nums', S.ints('element_nums', n, 10, 'arr'))
        S.nodes_on_elements(d, n)
    else:
        n = S.count('n', lo=1)
        S.set(d, 'node_nums' if loc == 1 else 'element_nums', S.ints('nums', n, 10, 'arr'))
        S.set(d, 'data_at_node' if loc == 1 else 'data_at_element', S.ragged('values', n, 13))
    return d, {'form': form, 'freq': False, 'm': 0}


def reals13(vals):
    t = ''
    for v in vals:
        t += '%13.5e' % v
    return t + '\n'


def layout(d, o):
    t = '    -1\n  2414\n'
    t += '%10i\n' % d['analysis_dataset_label']
    t += '%-80s\n' % d['analysis_dataset_name']
    t += '%10i\n' % d['dataset_location']
    for k in IDS:
        t += '%-80s\n' % d[k]
    for k in REC9:
        t += '%10i' % d[k]
    t += '\n'
    if o['freq']:
        for k in F10:
            t += '%10i' % d[k]
        t += '\n%10i%10i\n' % (d['creation_option'], d['number_retained'])
        t += reals13([d[k] for k in F12])
        t += reals13([d[k] for k in F13])
        for i in range(len(d['node_nums'])):
            t += '%10i\n' % d['node_nums'][i]
            t += '%13.5e%13.5e' % (re(d['x'][i]), im(d['x'][i]))
            if o['m'] >= 2:
                t += '%13.5e%13.5e' % (re(d['y'][i]), im(d['y'][i]))
            if o['m'] >= 3:
                t += '%13.5e%13.5e' % (re(d['z'][i]), im(d['z'][i]))
            t += '\n'
        return t + '    -1\n'
    for rec in (G10, G11):
        for k in rec:
            t += '%10i' % opt(d, k, 0)
        t += '\n'
    t += reals13([opt(d, k, 0) for k in G12])
    t += reals13([opt(d, k, 0) for k in G13])
    if o['form'] == 'nodes':
        for i in range(len(d['node_nums'])):
            t += '%10i\n' % d['node_nums'][i]
            t += reals13(d['data_at_node'][i])
    elif o['form'] == 'elements':
        for i in range(len(d['element_nums'])):
            t += '%10i%10i\n' % (d['element_nums'][i], len(d['data_at_element'][i]))
            t += reals13(d['data_at_element'][i])
    else:
        for i in range(len(d['element_nums'])):
            t += '%10i%10i%10i%10i\n' % (d['element_nums'][i], d['IEXP'][i], d['number_of_nodes'][i],
                                        d['number_of_values_per_node'][i])
            for line in d['data_at_nodes_on_element'][i]:
                t += reals13(line)
    return t + '    -1\n'


def rnd_c(z):
    return cplx(rnd(5, re(z)), rnd(5, im(z)))


def rnd_l(vals):
    return [rnd(5, v) for v in vals]


def expect(d, o):
    e = {'type': 2414}
    for k in ('analysis_dataset_label', 'analysis_dataset_name', 'dataset_location') + IDS + REC9:
        e[k] = d[k]
    if o['freq']:
        for k in F10 + F11 + ('node_nums',):
            e[k] = d[k]
        for k in F12 + F13:
            e[k] = rnd(5, d[k])
        for k in ('x', 'y', 'z')[:o['m']]:
            e[k] = [rnd_c(v) for v in d[k]]
        return e
    for k in G10 + G11:
        e[k] = opt(d, k, 0)
    for k in G12 + G13:
        e[k] = rnd(5, opt(d, k, 0))
    if o['form'] == 'nodes':
        e['node_nums'] = d['node_nums']
        e['data_at_node'] = [rnd_l(v) for v in d['data_at_node']]
    elif o['form'] == 'elements':
        e['element_nums'] = d['element_nums']
        e['NDVAL'] = [len(v) for v in d['data_at_element']]
        e['data_at_element'] = [rnd_l(v) for v in d['data_at_element']]
    else:
        for k in ('element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node'):
            e[k] = d[k]
        e['data_at_nodes_on_element'] = [[rnd_l(line) for line in lines] for lines in d['data_at_nodes_on_element']]
    return e
