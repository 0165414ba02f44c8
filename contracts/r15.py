"""2429: permanent groups."""
from contracts.spec import *

TYPE = 2429
FUNCS = {'writer': 'pyuff.datasets.dataset_2429._write2429', 'reader': 'pyuff.datasets.dataset_2429._extract2429'}

ACTIVE = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
          'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group')
ENT = ('entity_type_code', 'entity_tag')


def shape(S):
    return shape_groups(S, 2429, ENT)


def shape_groups(S, typ, ent):
    c = S.choose('container', ['list', 'arr'])
    n = S.count('groups')

    def group(S):
        g = S.dict()
        S.set(g, 'group_number', S.int('group_number', 10))
        for k in ACTIVE:
            S.opt(g, k, S.int(k, 10))
        S.set(g, 'group_name', S.str('group_name', 40))
        m = S.count('m')
        for k in ent:
            S.set(g, k, S.ints(k, m, 10, c))
        return g
    d = S.dict(('type', typ))
    S.set(d, 'groups', S.seq('group', n, group))
    return d, {}


def layout(d, o):
    t = '    -1\n  2429\n'
    for g in d['groups']:
        t += group_head(g)
        for line in chunks(interleave(g['entity_type_code'], g['entity_tag']), 8):
            for v in line:
                t += '%10i' % v
            t += '\n'
    return t + '    -1\n'


def group_head(g):
    t = '%10i' % g['group_number']
    for k in ACTIVE:
        t += '%10i' % opt(g, k, 0)
    t += '%10i\n' % len(g['entity_type_code'])
    return t + '%-40s\n' % g['group_name']


def group_read(g, ent):
    e = {'group_number': g['group_number'], 'group_name': g['group_name'],
         'number_of_entities_in_group': len(g['entity_type_code'])}
    for k in ACTIVE:
        e[k] = opt(g, k, 0)
    for k in ent:
        e[k] = g[k]
    return e


def expect(d, o):
    return {'type': 2429, 'groups': [group_read(g, ENT) for g in d['groups']]}
