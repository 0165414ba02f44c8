"""151: file header."""
from contracts.spec import *
from contracts.r02 import head

TYPE = 151
FUNCS = {'writer': 'pyuff.datasets.dataset_151._write151', 'reader': 'pyuff.datasets.dataset_151._extract151'}


def shape(S):
    d = S.dict(('type', 151))
    for k in ('model_name', 'description', 'db_app', 'program'):
        S.set(d, k, S.str(k, 80))
    for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written',
              'time_file_written', 'date_db_written', 'time_db_written'):
        S.opt(d, k, S.str(k, 10))
    for k in ('version_db1', 'version_db2', 'file_type'):
        S.opt(d, k, S.int(k, 10))
    return d, S.now()


def written(d, o, k):
    """date or time at which the file was written: given under either name, or now"""
    return opt(d, k + '_file_written', opt(d, k + '_db_written', o[k]))


def layout(d, o):
    t = head(151)
    for k in ('model_name', 'description', 'db_app'):
        t += '%-80s\n' % d[k]
    t += '%-10s%-10s%10s%10s%10s\n' % (opt(d, 'date_db_created', o['date']), opt(d, 'time_db_created', o['time']),
                                      opt(d, 'version_db1', 0), opt(d, 'version_db2', 0), opt(d, 'file_type', 0))
    t += '%-10s%-10s\n' % (opt(d, 'date_db_saved', o['date']), opt(d, 'time_db_saved', o['time']))
    t += '%-80s\n' % d['program']
    t += '%-10s%-10s\n' % (written(d, o, 'date'), written(d, o, 'time'))
    return t + '    -1\n'


def expect(d, o):
    e = {'type': 151}
    for k in ('model_name', 'description', 'db_app', 'program'):
        e[k] = d[k]
    for k in ('date', 'time'):
        e[k + '_db_created'] = opt(d, k + '_db_created', o[k])
        e[k + '_db_saved'] = opt(d, k + '_db_saved', o[k])
        e[k + '_file_written'] = written(d, o, k)
    for k in ('version_db1', 'version_db2', 'file_type'):
        e[k] = opt(d, k, 0)
    return e
