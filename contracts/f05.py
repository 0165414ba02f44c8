"""Frame of the writers: the defaults they add to the caller's dictionary."""

U = 'NONE'


def defaults(pid, d, o):
    """optional fields and their defaults, for a dictionary d as given by the caller"""
    if pid == 'R01':
        n = len(d['node_nums'])
        return {'def_cs': [0] * n, 'disp_cs': [0] * n, 'color': [0] * n}
    if pid == 'R02':
        n = len(d['cs_num'])
        return {'cs_type': [0] * n, 'color': [0] * n, 'method': [1] * n, 'cs_name': [''] * n}
    if pid == 'R03':
        e = {'units_description': ' ', 'id1': U, 'id2': U, 'id3': U, 'id4': U, 'id5': U, 'model_type': 1}
        if o['at'] == 2:
            e.update({'modal_m': 0, 'modal_damp_vis': 0, 'modal_damp_his': 0})
        if o['at'] in (3, 7):
            e.update({'modal_a': 0j, 'modal_b': 0j})
        return e
    if pid in ('R04', 'R05'):
        e = {'units_description': '', 'binary': 0}
        for k in ('id1', 'id2', 'id3', 'id4', 'id5', 'rsp_ent_name', 'ref_ent_name'):
            e[k] = U
        for k in ('func_id', 'ver_num', 'load_case_id', 'z_axis_value', 'abscissa_spacing', 'spec_data_type',
                  'abscissa_spec_data_type', 'ordinate_spec_data_type', 'z_axis_spec_data_type', 'version_num'):
            e[k] = 0
        for q in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
            for u in ('len', 'force', 'temp'):
                e[q + '_' + u + '_unit_exp'] = 0
        for q in ('abscissa', 'ordinate', 'orddenom'):
            e[q + '_axis_lab'] = U
            e[q + '_axis_units_lab'] = U
        e['z_axis_axis_lab'] = U
        e['z_axis_axis_units_lab'] = U
        return e
    if pid == 'R06':
        return {'id': 'NONE', 'color': 0}
    if pid == 'R07':
        e = {'version_db1': '0', 'version_db2': '0', 'file_type': '0'}
        for k in ('date', 'time'):
            now = o.get(k, '$' + k)         # the clock at the time of writing
            e[k + '_db_created'] = now
            e[k + '_db_saved'] = now
            e[k + '_file_written'] = d.get(k + '_db_written', now)
        return e
    if pid == 'R08':
        return {'units_description': 'User unit system', 'temp_mode': 1}
    if pid == 'R10':
        e = {}
        for k in ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id', 'idm_item_id',
                  'primary_parent_uid', 'optimization_switches'):
            e[k] = 0
        for k in ('entity_name', 'part_number', 'date', 'time'):
            e[k] = ''
        e['status_mask'] = [0] * 32
        return e
    if pid == 'R13':
        e = {}
        for r, n in ((10, 8), (11, 8), (12, 6), (13, 6)):
            for i in range(1, n + 1):
                e['record%d_field%d' % (r, i)] = 0
        return e
    if pid == 'R14':
        return {'Part_UID': 1, 'Part_Name': 'None', 'CS_types': [0], 'CS_colors': [8]}
    if pid in ('R15g', 'R16g'):
        return {'active_%s_set_no_for_group' % k: 0 for k in ('constraint', 'restraint', 'load', 'dof', 'temperature', 'contact')}
    return {}


ACTIVE = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
          'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group')


def group_after(g):
    e = {}
    for k in g:
        e[k] = g[k]
    for k in ACTIVE:
        if k not in g:
            e[k] = 0
    return e


def groups_after(groups):
    return [group_after(g) for g in groups]
