"""2400: model header."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 2400
FUNCS = {'writer': 'pyuff.datasets.dataset_2400._write2400', 'reader': 'pyuff.datasets.dataset_2400._extract2400'}


def shape(S):
    c = S.choose('container', ['list', 'arr'])
    d = S.dict(('type', 2400))
    for k, w in (('model_uid', 12), ('entity_type', 6), ('entity_subtype', 6), ('version_number', 12)):
        S.opt(d, k, S.int(k, w))
    S.opt(d, 'entity_name', S.str('entity_name', 80))
    S.opt(d, 'part_number', S.str('part_number', 80))
    S.opt(d, 'status_mask', S.fixed_ints('status_mask', 32, -9, 99, c))
    S.opt(d, 'date', S.str('date', 10))
    S.opt(d, 'time', S.str('time', 10))
    for k in ('idm_version_id', 'idm_item_id', 'primary_parent_uid', 'optimization_switches'):
        S.opt(d, k, S.int(k, 12))
    return d, {}


def layout(d, o):
    t = head(2400)
    t += '%12i%6i%6i%12i\n' % (opt(d, 'model_uid', 0), opt(d, 'entity_type', 0), opt(d, 'entity_subtype', 0),
                              opt(d, 'version_number', 0))
    t += '%-80s\n' % opt(d, 'entity_name', '')
    t += '%-80s\n' % opt(d, 'part_number', '')
    for v in opt(d, 'status_mask', [0] * 32):
        t += '%2i' % v
    t += '\n%-10s%-10s%12i%12i%12i\n' % (opt(d, 'date', ''), opt(d, 'time', ''), opt(d, 'idm_version_id', 0),
                                        opt(d, 'idm_item_id', 0), opt(d, 'primary_parent_uid', 0))
    t += '%12i\n' % opt(d, 'optimization_switches', 0)
    return t + '    -1\n'


def expect(d, o):
    e = {'type': 2400}
    for k in ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id', 'idm_item_id',
              'primary_parent_uid', 'optimization_switches'):
        e[k] = opt(d, k, 0)
    for k in ('entity_name', 'part_number', 'date', 'time'):
        e[k] = opt(d, k, '')
    e['status_mask'] = opt(d, 'status_mask', [0] * 32)
    return e
