"""Builders (prepare_*): signature, documented kinds of arguments, and what the result must hold.

A list is a list, a tuple (not empty) or an array; I, F and N may have two dimensions (an array, or a list of lists of one length).
Kinds: s text; i one integer; I integer or list/array of integers; A list or array of integers; f one real; F real or list/array of reals;
N number or list/array of numbers, real or complex; Z one number, real or complex; X like F, or list of matrices; L list of texts;
M list of 32 integers; G list of groups; a tuple enumerates the values."""


def seqof(a, b):
    return tuple(range(a, b + 1))


def fields(text, kind):
    return [(k, kind) for k in text.split()]


U21 = seqof(0, 20)
NODES = fields('node_nums def_cs disp_cs color', 'I') + fields('x y z', 'F')
ACTIVE = ['active_%s_set_no_for_group' % k for k in ('constraint', 'restraint', 'load', 'dof', 'temperature', 'contact')]


def unit_exps(q):
    return fields('%s_len_unit_exp %s_force_unit_exp %s_temp_unit_exp' % (q, q, q), 'I')


PREPARE = {
    15: [('node_nums', 'A')] + NODES[1:],
    18: fields('cs_num cs_type ref_cs_num color method', 'I') + [('cs_name', 'L')] + fields('ref_o x_point xz_point', 'F'),
    55: fields('id1 id2 id3 id4 id5', 's') + [('model_type', (0, 1, 2, 3)), ('analysis_type', (2, 3, 5, 7)),
        ('data_ch', seqof(0, 5)), ('spec_data_type', seqof(0, 18)), ('data_type', (2, 5)), ('n_data_per_node', 'I')] +
        fields('r1 r2 r3 r4 r5 r6', 'N') + fields('load_case mode_n', 'i') + [('freq', 'F'), ('modal_m', 'f')] +
        fields('modal_damp_vis modal_damp_his', 'f') + fields('eig modal_a modal_b', 'Z') +
        [('freq_step_n', 'i'), ('node_nums', 'I')],
    58: [('binary', (0, 1))] + fields('id1 id2 id3 id4 id5', 's') + [('func_type', seqof(0, 27))] +
        fields('ver_num load_case_id', 'I') + [('rsp_ent_name', 's'), ('rsp_node', 'I'), ('rsp_dir', seqof(-6, 6)),
        ('ref_ent_name', 's'), ('ref_node', 'I'), ('ref_dir', seqof(-6, 6)), ('ord_data_type', (2, 4, 5, 6)),
        ('num_pts', 'I'), ('abscissa_spacing', (0, 1))] + fields('abscissa_min abscissa_inc z_axis_value', 'F') +
        [('abscissa_spec_data_type', U21)] + unit_exps('abscissa') + [('abscissa_axis_units_lab', 's')] +
        [('ordinate_spec_data_type', U21)] + unit_exps('ordinate') + [('ordinate_axis_units_lab', 's')] +
        [('orddenom_spec_data_type', U21)] + unit_exps('orddenom') + [('orddenom_axis_units_lab', 's')] +
        [('z_axis_spec_data_type', U21)] + unit_exps('z_axis') + [('z_axis_axis_units_lab', 's')] +
        fields('data x', 'N') + fields('spec_data_type byte_ordering fp_format n_ascii_lines n_bytes', 'I'),
    82: fields('trace_num n_nodes color', 'I') + [('id', 's'), ('nodes', 'I')],
    151: fields('model_name description db_app date_db_created time_db_created', 's') + fields('version_db1 version_db2', 'I') +
         [('file_type', (0, 1, 2))] + fields('date_db_saved time_db_saved program date_db_written time_db_written', 's'),
    164: [('units_code', seqof(0, 9)), ('units_description', 's'), ('temp_mode', (1, 2))] +
         fields('length force temp temp_offset', 'f'),
    1858: fields('record_num octave_format measurement_run weighting_type window_type amplitude_units normalization_method '
                 'abscissa_data_type_qualifier ordinate_numerator_data_type_qualifier '
                 'ordinate_denominator_data_type_qualifier z_axis_data_type_qualifier sampling_type', 'I') +
          fields('z_rpm_value z_time_value z_order_value num_of_samples user_value_1 user_value_2 user_value_3 '
                 'user_value_4 exponential_window_damping_factor', 'F') + fields('response_direction reference_direction', 's'),
    2400: fields('model_uid entity_type entity_subtype version_number', 'I') + fields('entity_name part_number', 's') +
          [('status_mask', 'M')] + fields('date time', 's') +
          fields('idm_version_id idm_item_id primary_parent_uid optimization_switches', 'I'),
    2411: NODES,
    2412: fields('element_nums fe_descriptor phys_table mat_table color num_nodes nodes_nums beam_orientation '
                 'beam_foreend_cross beam_aftend_cross', 'I'),
    2414: [('analysis_dataset_label', 'I'), ('analysis_dataset_name', 's'), ('dataset_location', (1, 2, 3, 5))] +
          fields('id1 id2 id3 id4 id5', 's') + [('model_type', (0, 1, 2, 3)), ('analysis_type', (0, 1, 2, 3, 4, 5, 6, 7, 9)),
          ('data_characteristic', (0, 1, 2, 3, 4, 6)), ('result_type', 'i'), ('data_type', (1, 2, 4, 5, 6))] +
          fields('number_of_data_values_for_the_data_component design_set_id iteration_number solution_set_id '
                 'boundary_condition load_set mode_number time_step_number frequency_number creation_option '
                 'number_retained', 'I') +
          fields('time frequency eigenvalue modal_mass viscous_damping hysteretic_damping real_part_eigenvalue '
                 'imaginary_part_eigenvalue real_part_of_modal_A_or_modal_mass imaginary_part_of_modal_A_or_modal_mass '
                 'real_part_of_modal_B_or_modal_mass imaginary_part_of_modal_B_or_modal_mass d', 'F') +
          [('node_nums', 'I')] + fields('x y z', 'N'),
    2420: [('Part_UID', 'I'), ('Part_Name', 's'), ('CS_sys_labels', 'I'), ('CS_types', 'T'), ('CS_colors', 'I'),
           ('CS_names', 'L'), ('CS_matrices', 'X')],
    2429: [('groups', 'G')],
    2467: [('groups', 'G')],
}

GROUP = {
    2429: [('group_number', 'n'), ('group_name', 'w')] + fields('entity_type_code entity_tag', 'I') +
          [(k, 'n') for k in ACTIVE],
    2467: [('group_number', 'n'), ('group_name', 'w')] +
          fields('entity_type_code entity_tag entity_node_leaf_id entity_component_id', 'I') + [(k, 'n') for k in ACTIVE],
}


class Broken(Exception):
    pass


def value(r, kind, pool):
    import numpy as np
    if isinstance(kind, tuple):
        return r.choice(kind)
    n = lambda: r.choice([0, 1, 2, 5, 41, 999999, -7, r.randrange(0, 10 ** 6)])
    x = lambda: float(r.choice([0.0, -0.0, 1.5, -2.25e-7, 3e30, r.uniform(-10, 10)]))
    c = lambda: complex(x(), x())
    s = lambda: r.choice(['', 'NONE', 'text', ' a b ', 'x' * 90, r.choice(pool)])

    def many(f, dt):
        k = r.randrange(0, 6)
        if k == 0:
            return f()
        v = [f() for _ in range(r.randrange(1, 4) if k != 3 else r.randrange(0, 4))]
        return {1: v, 2: tuple(v), 3: np.array(v, dtype=dt), 4: np.array([v, v], dtype=dt), 5: [v, list(v)]}[k]
    if kind == 's':
        return s()
    if kind == 'w':
        return s() or 'g'
    if kind == 'i':
        return n()
    if kind == 'n':
        return abs(n())
    if kind == 'f':
        return x()
    if kind == 'I':
        return many(n, int)
    if kind == 'A':
        v = [n() for _ in range(r.randrange(0, 4))]
        return r.choice([v or [1], tuple(v or [1]), np.array(v, dtype=int)])
    if kind == 'X' and r.random() < 0.5:
        return [np.array([[x() for _ in range(3)] for _ in range(4)]) for _ in range(r.randrange(1, 4))]
    if kind in 'FX':
        return many(x, float)
    if kind == 'Z':
        return r.choice([x, c])()
    if kind == 'N':
        return many(c, complex) if r.random() < 0.5 else many(x, float)
    if kind == 'L':
        v = [s() for _ in range(r.randrange(0, 4))]
        return np.array(v) if v and r.random() < 0.3 else v
    if kind == 'M':
        return [n() for _ in range(32)]
    if kind == 'T':
        v = [r.choice((0, 1, 2)) for _ in range(r.randrange(1, 4))]
        return r.choice([v, tuple(v), np.array(v), v[0]])
    raise KeyError(kind)


def group(r, typ, pool, full):
    g = {}
    for k, kind in GROUP[typ]:
        if not full and k in ACTIVE and r.random() < 0.4:
            continue
        g[k] = value(r, kind, pool)
    return g


def case(S):
    r = S.rng
    pool = list(S.strs_) or ['z']
    typ = r.choice(sorted(PREPARE) + [2429, 2467])
    full = r.random() < 0.5
    if typ in GROUP and r.random() < 0.6:
        return {'f': 'group', 'typ': typ, 'args': group(r, typ, pool, False), 'full': full}
    p = r.choice([0.0, 0.2, 0.5, 0.9, 1.0])
    args = {}
    for k, kind in PREPARE[typ]:
        if kind == 'G':
            args[k] = [group(r, typ, pool, True) for _ in range(r.randrange(0, 3))]
        elif r.random() < p:
            args[k] = value(r, kind, pool)
    return {'f': 'prepare', 'typ': typ, 'args': args, 'full': full}


def run(c, pyuff):
    import copy
    import importlib
    from engine.cmp import diff, short
    m = importlib.import_module('pyuff.datasets.dataset_%d' % c['typ'])
    name = 'prepare_group' if c['f'] == 'group' else 'prepare_%d' % c['typ']
    args = c['args']
    before = copy.deepcopy(args)
    try:
        r = getattr(m, name)(return_full_dict=True, **args) if c['full'] else getattr(m, name)(**args)
    except Exception as e:
        raise Broken('%s of dataset_%d with valid arguments raised %s: %s' % (name, c['typ'], type(e).__name__, e))
    want = dict(before)
    if c['f'] == 'group':
        for k in ACTIVE:
            want.setdefault(k, 0)
    else:
        want['type'] = c['typ']
        if c['full']:
            for k, _ in PREPARE[c['typ']]:
                want.setdefault(k, None)
    x = diff(r, want)
    if x:
        raise Broken('%s of dataset_%d: %s' % (name, c['typ'], x))
    for k in want:
        if type(r[k]) is not type(want[k]):
            raise Broken('%s of dataset_%d: %r changed from %s to %s' % (name, c['typ'], k, short(want[k]), short(r[k])))
    x = diff(args, before)
    if x:
        raise Broken('%s of dataset_%d changed its argument: %s' % (name, c['typ'], x))
