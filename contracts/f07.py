"""Required fields, by data-set type."""


def keys(*k):
    return [(x,) for x in k]


def required(pid, d, o):
    """paths of the fields without which the data-set cannot be written"""
    if pid == 'R01':
        return keys('node_nums') + (keys('x', 'y', 'z') if len(d['node_nums']) else [])
    if pid == 'R02':
        return keys('cs_num', 'ref_cs_num', 'ref_o', 'x_point', 'xz_point')
    if pid == 'R03':
        r = keys('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'node_nums', 'r1', 'r2', 'r3')
        return r + keys(*{2: ('mode_n', 'freq'), 5: ('freq_step_n', 'freq')}.get(o['at'], ('mode_n', 'eig')))
    if pid in ('R04', 'R05'):
        r = keys('func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'orddenom_spec_data_type', 'x', 'data')
        return r if o['force_double'] else r + keys('ord_data_type')
    if pid == 'R06':
        return keys('trace_num', 'nodes')
    if pid == 'R07':
        return keys('model_name', 'description', 'db_app', 'program')
    if pid == 'R08':
        return keys('units_code', 'length', 'force', 'temp', 'temp_offset')
    if pid == 'R09':
        return [(k,) for k in d if k != 'type']
    if pid == 'R10':
        return []
    if pid == 'R11':
        return keys('node_nums') + (keys('def_cs', 'disp_cs', 'color', 'x', 'y', 'z') if len(d['node_nums']) else [])
    if pid == 'R12':
        r = []
        if len(o['kinds']):
            kind = o['kinds'][o['lacking'] if 'lacking' in o else len(o['kinds']) - 1]
            i = len(d[kind]) - 1
            r += [(kind, i, k) for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes',
                                         'nodes_nums')]
            if kind in (11, 21, 22, 23, 24):
                r += [(kind, i, k) for k in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')]
        return r
    if pid == 'R13':
        r = keys('analysis_dataset_label', 'analysis_dataset_name', 'dataset_location', 'id1', 'id2', 'id3', 'id4', 'id5',
                 'model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
                 'number_of_data_values_for_the_data_component')
        if o['freq']:
            from contracts.r13 import F10, F11, F12, F13
            return r + keys('node_nums', *(F10 + F11 + F12 + F13)) + \
                (keys(*('x', 'y', 'z')[:o['m']]) if len(d['node_nums']) else [])
        if o['form'] == 'nodes':
            return r + keys('node_nums', 'data_at_node')
        if o['form'] == 'elements':
            return r + keys('element_nums', 'data_at_element')
        return r + keys('element_nums') + (keys('IEXP', 'number_of_nodes', 'number_of_values_per_node',
                                                'data_at_nodes_on_element') if len(d['element_nums']) else [])
    if pid == 'R14':
        return keys('CS_sys_labels', 'CS_names', 'CS_matrices')
    if pid in ('R15', 'R16'):
        # 2429 takes a dictionary without 'groups' for a single group, whose fields are then missing
        r = keys('groups')
        if d['groups']:
            i = o['lacking'] if 'lacking' in o else len(d['groups']) - 1
            r += [('groups', i, k) for k in ('group_number', 'group_name', 'entity_type_code')]
            if len(d['groups'][i]['entity_type_code']):
                r += [('groups', i, 'entity_tag')]
                if pid == 'R16':
                    r += [('groups', i, 'entity_node_leaf_id'), ('groups', i, 'entity_component_id')]
        return r
    raise KeyError(pid)
