"""2467: permanent groups."""
from contracts.spec import *
from contracts.r15 import shape_groups, group_head, group_read

TYPE = 2467
FUNCS = {'writer': 'pyuff.datasets.dataset_2467._write2467', 'reader': 'pyuff.datasets.dataset_2467._extract2467'}

ENT = ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id')


def shape(S):
    return shape_groups(S, 2467, ENT)


def layout(d, o):
    t = '    -1\n  2467\n'
    for g in d['groups']:
        t += group_head(g)
        for line in chunks(interleave(g['entity_type_code'], g['entity_tag'], g['entity_node_leaf_id'],
                                      g['entity_component_id']), 8):
            for v in line:
                t += '%10i' % v
            t += '\n'
    return t + '    -1\n'


def expect(d, o):
    # the format is read into the list of groups; the other keys are (empty) leftovers of an earlier interface
    e = {'type': 2467, 'groups': [group_read(g, ENT) for g in d['groups']]}
    return e
