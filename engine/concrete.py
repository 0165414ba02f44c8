"""Contract-directed search for failing inputs on the real code (and replay of one input).

Used when an obligation fails, to find the input that shows the failure; and on every run as a cross-check that the
contracts mean what they say to CPython."""
import contextlib
import copy
import hashlib
import io
import os
import random
import re
import sys
import time
import traceback
import numpy as np
import contracts
from engine import gen
from engine.cmp import diff, bytes_diff, short, plain, to_json, from_json

DELIM = re.compile(rb'    -1(?=[\r\n]|\Z| {74})')


class Fail(Exception):
    """the property does not hold on this case"""


class Skip(Exception):
    """outside the precondition"""


def delims(b):
    return [m.start() for m in re.finditer(rb'(?=    -1(?:[\r\n]|\Z| {74}))', b)]


def as_bytes(t):
    return t if isinstance(t, bytes) else t.encode('utf-8')


class Env:
    def __init__(self, scratch):
        import pyuff
        import warnings
        warnings.simplefilter('ignore')
        self.pyuff = pyuff
        self.dir = scratch
        self.n = 0

    def path(self, content=None):
        self.n += 1
        p = os.path.join(self.dir, 'f%d.uff' % (self.n % 50))
        if os.path.exists(p):
            os.unlink(p)
        if content is not None:
            with open(p, 'wb') as f:
                f.write(content)
        return p

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())


def content(p):
    with open(p, 'rb') as f:
        return f.read()


class Spec:
    """the contract of one data-set type"""

    def __init__(self, pid):
        self.pid = pid
        self.m = contracts.load(pid)
        self.type = self.m.TYPE
        self.tol = {'x': 1e-9} if pid in ('R04', 'R05') else None
        self.extra = pid == 'R16'

    def make(self, S):
        d, o = self.m.shape(S)
        return d, dict(o)

    def nows(self, o, t0, t1):
        """possible option sets, by the time of writing"""
        if self.pid != 'R07':
            return [o]
        out = []
        for s in range(int(t0 - 0.1), int(t1) + 1):
            q = dict(o)
            q['date'] = time.strftime('%d-%b-%y', time.localtime(s))
            q['time'] = time.strftime('%H:%M:%S', time.localtime(s))
            out.append(q)
        return out

    def layout(self, d, o):
        try:
            return as_bytes(self.m.layout(d, o))
        except OverflowError:
            raise Skip()  # beyond the range of single precision

    def layout_big(self, d, o):
        try:
            return as_bytes(self.m.layout_big(d, o))
        except OverflowError:
            raise Skip()

    def expect(self, d, o):
        return self.m.expect(d, o)


_specs = {}


def spec(pid):
    if pid not in _specs:
        _specs[pid] = Spec(pid)
    return _specs[pid]


def admissible(sp, d, o, lay=None):
    q = o
    if sp.pid == 'R07' and 'date' not in o:
        q = sp.nows(o, time.time(), time.time())[0]
    b = sp.layout(d, q)
    if len(delims(b)) != 2:
        raise Skip()
    return b


def write(env, path, dsets, mode='add', force_double=True):
    u = env.pyuff.UFF(path)
    with env.quiet():
        u.write_sets(dsets, mode, force_double=force_double)
    return u


def call(what, f, *a, **k):
    try:
        return f(*a, **k)
    except (Fail, Skip):
        raise
    except Exception as e:
        raise Fail('%s raised %s: %s' % (what, type(e).__name__, e))


# ---------------------------------------------------------------- R
def case_r(pid, S):
    sp = spec(pid)
    d, o = sp.make(S)
    admissible(sp, d, o)
    r = S.rng
    if hasattr(sp.m, 'refused') and r.random() < 0.15:
        return {'refused': sp.m.refused(S)}
    return {'d': d, 'o': o, 'mode': r.choice(['add', 'overwrite', 'overwrite-old', 'add-old'])}


OLD = b'    -1\n   999\nsome text\n    -1\n'


def run_r(pid, c, env):
    sp = spec(pid)
    if 'refused' in c:
        try:
            write(env, env.path(), c['refused'])
        except Exception:
            return
        raise Fail('lists of different lengths were accepted')
    d, o = c['d'], c['o']
    admissible(sp, d, o)
    given = copy.deepcopy(d)
    fd = o.get('force_double', True)
    old = OLD if c['mode'].endswith('-old') else None
    p = env.path(old)
    mode = c['mode'].split('-')[0]
    t0 = time.time()
    u = call('write_sets', write, env, p, d, mode, fd)
    t1 = time.time()
    got = content(p)
    if old and mode == 'add':
        if not got.startswith(old):
            raise Fail('the earlier content of the file changed: %r' % got[:80])
        got = got[len(old):]
    worst = None
    for q in sp.nows(o, t0, t1):
        r = bytes_diff(got, sp.layout(given, q))
        if r is None:
            worst = None
            o = q
            break
        worst = r
    if worst:
        raise Fail('written text differs from the published layout: ' + worst)
    e = sp.expect(given, o)
    # what the object itself reads back
    with env.quiet():
        r = call('read_sets', u.read_sets)
    if isinstance(r, list):
        r = r[-1] if r else None
    x = diff(r, e, tol=sp.tol, extra=sp.extra)
    if x:
        raise Fail('read back: ' + x)
    # and from the specified text
    p = env.path(sp.layout(given, o))
    with env.quiet():
        r = call('read_sets', lambda: env.pyuff.UFF(p).read_sets())
    x = diff(r, e, tol=sp.tol, extra=sp.extra)
    if x:
        raise Fail('read of the specified text: ' + x)
    if pid == 'R05':
        p = env.path(sp.layout_big(given, o))
        if len(delims(content(p))) == 2:
            with env.quiet():
                r = call('read_sets (other byte order)', lambda: env.pyuff.UFF(p).read_sets())
            x = diff(r, sp.m.expect_big(given, o), tol=sp.tol)
            if x:
                raise Fail('read of the other byte order: ' + x)


# ---------------------------------------------------------------- helpers for the F properties
def any_set(S, pids=None, small=True):
    pids = pids or contracts.R
    pid = S.rng.choice(pids)
    for _ in range(20):
        S2 = gen.ConcreteS(S.rng, (S.ints_, S.reals_, S.strs_), force={'groups': S.rng.randrange(0, 4)} if small else None)
        sp = spec(pid)
        d, o = sp.make(S2)
        if pid == 'R07':
            # fixed date and time, to know the text
            for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written',
                      'time_file_written'):
                d.setdefault(k, 'x')
            o = dict(o, date='x', time='x')
        try:
            admissible(sp, d, o)
            return pid, d, o
        except Skip:
            continue
    raise Skip()


def old_content(S):
    """some earlier content of a file"""
    r = S.rng
    k = r.randrange(0, 8)
    if k == 0:
        return None
    if k == 1:
        return b''
    blocks = []
    for _ in range(r.randrange(0, 4)):
        pid, d, o = any_set(S)
        blocks.append(spec(pid).layout(d, o))
    t = b''.join(blocks)
    if k == 2:
        t = t.rstrip(b'\n')
    elif k == 3:
        t += r.choice([b'junk', b'text\n', b'\n', b'x\r\n', b'x\r', b'    -1', b'\xff\xfe\x00', b' '])
    elif k == 4:
        t = b'header text\n' + t
    return t


def joined(old, blocks):
    """earlier content followed by the blocks, each on a line of its own"""
    t = old or b''
    for b in blocks:
        if b and t and t[-1:] not in (b'\n', b'\r'):
            t += b'\n'
        t += b
    return t


def scan(b):
    """the data-sets of a file by the definition in F01: (start, end, type, binary)"""
    ds = delims(b)
    out = []
    for i in range(0, len(ds) - 1, 2):
        lines = b[ds[i]:ds[i + 1]].splitlines()
        typ = None
        bin_ = False
        if len(lines) >= 2:
            try:
                typ = int(lines[1][:6])
            except ValueError:
                typ = None
            bin_ = lines[1][6:7] in (b'b', b'B')
        out.append((ds[i], ds[i + 1], typ, bin_))
    return out


def check_scan(u, b):
    sc = scan(b)
    if u.get_n_sets() != len(sc):
        raise Fail('%d data-sets reported, the file has %d' % (u.get_n_sets(), len(sc)))
    ty = list(np.asarray(u.get_set_types()).tolist())
    fo = list(np.asarray(u.get_set_formats()).tolist())
    if len(ty) != len(sc) or len(fo) != len(sc):
        raise Fail('%d types and %d formats reported for %d data-sets' % (len(ty), len(fo), len(sc)))
    for i, (_, _, t, bn) in enumerate(sc):
        if t is not None:
            if ty[i] != t:
                raise Fail('data-set %d reported as type %r, it is %r' % (i, ty[i], t))
            if bool(fo[i]) != bn or fo[i] not in (0, 1):
                raise Fail('data-set %d reported with format %r, binary is %r' % (i, fo[i], bn))


# ---------------------------------------------------------------- F01
def case_f01(S):
    r = S.rng
    frag = [b'    -1\n', b'    -1\r\n', b'    -1', b'    -1\r', b'    -1' + b' ' * 74, b'    -1' + b' ' * 74 + b'\n',
            b'    -1' + b' ' * 73 + b'\n', b'    -1 \n', b'    -2\n', b'     -1\n', b'   -1\n', b'    -10\n', b'xx    -1\n',
            b'    15\n', b'    58\n', b'    58b     1     2\n', b'    58B\n', b'  2414\n', b'   151' + b' ' * 74 + b'\n',
            b'   999\n', b'\n', b'\r', b'text line\n', b'\x00\xff\x80', b'      \n', b'    -1\n    -1\n', b'    5', b'123456789\n',
            b'   -15\n', b'    15b\n', b'  58  \n', b'abcdef\n', b'    -1' + b' ' * 75, b'    -1\x0b', b'    -1\x85\n', b'    -1\t\n',
            b'    55 b\n', b'     1     \n', b'    58b', b'    82\r\n', b'    -1 -1\n', b'-1\n', b'        -1\n',
            b'    -1    -1\n', b'     0\n', b'\x1c', b'\x0c\n']
    def text():
        k = r.randrange(0, 3)
        if k == 0:
            return b''.join(r.choice(frag) for _ in range(r.randrange(0, 14)))
        if k == 1:
            t = b''
            for _ in range(r.randrange(0, 7)):
                t += r.choice(frag[:4]) + b'%6i' % r.choice([15, 58, 151, 164, 2411, 7, 123456, 0, 58, 58]) + \
                    r.choice([b'\n', b'b\n', b'B     1\n', b' ' * 74 + b'\n', b'\r\n', b' b\n', b'', b'c\n', b'5\n']) + \
                    r.choice([b'', b'data\n', b'line\nline\r\n', b'bin\x00\r\n\n', b' ']) + r.choice(frag[:6])
            if r.random() < 0.4:
                t += r.choice(frag)
            if r.random() < 0.3:
                t = t[:r.randrange(0, len(t) + 1)]
            return t
        t = b''.join(spec(p).layout(d, o) for p, d, o in [any_set(S) for _ in range(r.randrange(0, 4))])
        if r.random() < 0.5:
            t = t[:r.randrange(0, len(t) + 1)]
        return t
    return {'files': [text() if r.random() < 0.93 else None for _ in range(r.choice([1, 1, 2, 3]))],
            'again': r.random() < 0.5}


def run_f01(c, env):
    p = env.path(None)
    u = None
    for b in c['files']:
        if b is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p, 'wb') as f:
                f.write(b)
        if u is None or not c['again']:
            u = call('UFF()', env.pyuff.UFF, p)
        else:
            if bool(call('refresh', u.refresh)) != (b is not None):
                raise Fail('refresh does not tell that the file %s' % ('exists' if b is not None else 'does not exist'))
        call('scan', check_scan, u, b or b'')
        if bool(u.get_status()) != (b is not None):
            raise Fail('the status after the scan is %r' % (u.get_status(),))
        if b is not None:
            if content(p) != b:
                raise Fail('scanning changed the file')


# ---------------------------------------------------------------- F02
def case_f02(S):
    r = S.rng
    ops = []
    for _ in range(r.randrange(1, 4)):
        sets = []
        for _ in range(r.randrange(1, 4)):
            if r.random() < 0.12:
                sets.append((None, {'type': r.choice([999, 1, 57, 0, -1, 'x', 2413, 581])}, {}))
            else:
                sets.append(any_set(S))
        fd = r.random() < 0.7
        ops.append({'mode': r.choice(['add', 'add', 'overwrite', 'ADD', 'Overwrite']), 'sets': sets, 'fd': fd,
                    'single': len(sets) == 1 and r.random() < 0.6, 'same': r.random() < 0.6,
                    # (a data-set may be in the list more than once)
                    'order': r.choice([None, None, None, sorted(r.randrange(len(sets)) for _ in range(3))])})
    for op in ops:
        for i, (pid, d, o) in enumerate(op['sets']):
            if pid in ('R04', 'R05'):
                # the precision is one argument for the whole list
                c = o['cplx']
                if op['fd']:
                    o = dict(o, single=False)
                else:
                    if 'ord_data_type' not in d:
                        d['ord_data_type'] = 6 if c else 4
                    o = dict(o, single=d['ord_data_type'] in (2, 5))
                op['sets'][i] = (pid, d, o)
    return {'old': old_content(S), 'ops': ops}


def run_f02(c, env):
    p = env.path(c['old'])
    u = env.pyuff.UFF(p)
    b = c['old']
    for op in c['ops']:
        blocks = []
        for pid, d, o in op['sets']:
            if pid is None:
                blocks.append(b'')
            else:
                t = spec(pid).layout(d, o)
                if len(delims(t)) != 2:
                    raise Skip()
                blocks.append(t)
        arg = [copy.deepcopy(d) for _, d, _ in op['sets']]
        if op.get('order') and not op['single']:
            arg, blocks = [arg[i] for i in op['order']], [blocks[i] for i in op['order']]
        if not op['same']:
            u = env.pyuff.UFF(p)
        with env.quiet():
            call('write_sets', u.write_sets, arg[0] if op['single'] else arg, op['mode'], force_double=op['fd'])
        b = joined(b if op['mode'].lower() == 'add' else None, blocks)
        got = content(p)
        x = bytes_diff(got, b)
        if x:
            # an unsupported data-set added to an unterminated file may terminate the line
            alt = joined(c['old'], blocks)
            if not any(blocks) and got.rstrip(b'\n') == b.rstrip(b'\n'):
                b = got
            else:
                raise Fail('%s of %d data-set(s): %s' % (op['mode'], len(blocks), x))
        b = got
        call('scan', check_scan, u, got)


# ---------------------------------------------------------------- F03
def case_f03(S):
    r = S.rng
    sets = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        if r.random() < 0.12:
            sets.append((None, r.choice([999, 1, 2413, 1234]), {}))
        else:
            sets.append(any_set(S))
    n = len(sets)
    sel = []
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(0, 7)
        if k == 0:
            sel.append(None)
        elif k == 1:
            sel.append(r.choice([-1, n, n + 1, -n - 1, -2]))
        elif k == 2:
            sel.append([r.randrange(-1, n + 1) for _ in range(r.randrange(0, 4))])
        elif k == 3 and n:
            sel.append(r.randrange(0, n))
        elif n:
            sel.append([r.randrange(0, n) for _ in range(r.randrange(0, 5))])
        else:
            sel.append(None)
    return {'sets': sets, 'sel': sel, 'late': r.random() < 0.3, 'missing': r.random() < 0.05, 'changed': r.random() < 0.5}


def run_f03(c, env):
    blocks, want = [], []
    for pid, d, o in c['sets']:
        if pid is None:
            blocks.append(b'    -1\n%6i\nsomething\n    -1\n' % d)
            want.append(({'type': d}, None, False))
        else:
            sp = spec(pid)
            t = sp.layout(d, o)
            if len(delims(t)) != 2:
                raise Skip()
            blocks.append(t)
            want.append((sp.expect(d, o), sp.tol, sp.extra))
    b = b''.join(blocks)
    p = env.path(None if c['late'] or c['missing'] else b)
    u = env.pyuff.UFF(p)
    if c['missing'] or c['late']:
        for s in c['sel']:
            try:
                u.read_sets(s)
            except Exception:
                continue
            raise Fail('reading %r of a file that does not exist did not raise' % (s,))
        if c['missing']:
            return
        with open(p, 'wb') as f:
            f.write(b)
    n = len(blocks)
    for s in c['sel']:
        idx = list(range(n)) if s is None else s if isinstance(s, list) else [s]
        bad = any(i < 0 or i >= n for i in idx)
        try:
            with env.quiet():
                r = u.read_sets(s)
        except Exception as e:
            if bad:
                continue
            raise Fail('read_sets(%r) of %d data-sets raised %s' % (s, n, e))
        if bad:
            raise Fail('read_sets(%r) of %d data-sets did not raise' % (s, n))
        if len(idx) == 1:
            r = [r]
        if not isinstance(r, list) or len(r) != len(idx):
            raise Fail('read_sets(%r) of %d data-sets returned %s' % (s, n, short(plain(r))))
        for x, i in zip(r, idx):
            q = diff(x, want[i][0], tol=want[i][1], extra=want[i][2])
            if q:
                raise Fail('read_sets(%r), data-set %d: %s' % (s, i, q))
        if c.get('changed'):
            # what the caller does with the dictionaries is of no concern to later reads
            for x in r:
                for k, v in x.items():
                    if hasattr(v, 'flat') and v.size:
                        v += 1
                    elif isinstance(v, list):
                        v.append(None)
                x['type'] = -7
    if content(p) != b:
        raise Fail('reading changed the file')


# ---------------------------------------------------------------- F04
def case_f04(S):
    r = S.rng
    sets = []
    for _ in range(r.choice([1, 1, 2, 3])):
        sets.append(any_set(S, ['R04', 'R05', 'R04', 'R05'] if r.random() < 0.6 else None))
    return {'sets': sets, 'big': r.random() < 0.3, 'sel': r.choice([None, 'one', 'list'])}


def run_f04(c, env):
    b = b''
    for pid, d, o in c['sets']:
        sp = spec(pid)
        t = sp.layout_big(d, o) if c['big'] and pid == 'R05' else sp.layout(d, o)
        if len(delims(t)) != 2:
            raise Skip()
        b += t
    p = env.path(b)
    s = None if c['sel'] is None else 0 if c['sel'] == 'one' else list(range(len(c['sets'])))[::-1]
    with env.quiet():
        full = call('read_sets', lambda: env.pyuff.UFF(p).read_sets(s))
        head = call('read_sets(header_only=True)', lambda: env.pyuff.UFF(p).read_sets(s, header_only=True))
    full, head = plain(full), plain(head)
    if isinstance(full, dict):
        full, head = [full], [head]
    for f, h in zip(full, head):
        if f['type'] == 58:
            if f.get('x') is None or f.get('data') is None:
                raise Fail('full read without data')
            f = dict(f, x=None, data=None)
        x = diff(h, f)
        if x:
            raise Fail('header-only read: ' + x)
    if len(full) != len(head):
        raise Fail('header-only read returns %d data-sets, full read %d' % (len(head), len(full)))


# ---------------------------------------------------------------- F05
_foreign = {}


def foreign(strs):
    """names spelled in the code that are no field of any data-set"""
    if id(strs) not in _foreign:
        from contracts import f05, f06
        ours = set()
        for t in f06.PREPARE.values():
            ours.update(k for k, _ in t)
        rng = random.Random(0)
        for pid in contracts.R:
            for _ in range(60):
                S = gen.ConcreteS(rng, ([], [], []))
                S.p_opt = 1.0
                try:
                    d, o = spec(pid).make(S)
                    ours.update(map(str, d))
                    ours.update(map(str, f05.defaults(pid, d, o)))
                    ours.update(map(str, spec(pid).expect(d, o)))
                except Exception:
                    pass
        _foreign[id(strs)] = [s for s in strs if re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*', s) and s not in ours]
    return _foreign[id(strs)]


def case_f05(S):
    pid, d, o = any_set(S, None)
    r = S.rng
    if pid in ('R04', 'R05') and r.random() < 0.3:
        d['extra_field'] = 'kept'
    if pid in ('R04', 'R05') and r.random() < 0.3 and len(d['data']):
        x = np.array(d['data'])
        if o['single']:
            raise Skip()
        x[r.randrange(0, len(x))] = r.choice([np.nan, np.inf, -np.inf])
        d['data'] = x
    if r.random() < 0.2:
        d['note'] = [1, 2]
    ex = foreign(S.strs_)
    if ex and r.random() < 0.3:
        k = r.choice(ex)
        if k not in d:
            d[k] = r.choice([0, 7, 'q', ['q'], [7] * 5, ['q'] * 5, np.array([7, 8, 9]), 1.5, None, ''])
    if pid == 'R07':
        for k in list(d):
            if k.startswith(('date', 'time')) and r.random() < 0.4:
                del d[k]
    return {'pid': pid, 'd': d, 'o': o}


MAY = {'R04': {'ord_data_type', 'n_bytes', 'abscissa_min', 'data'}, 'R05': {'ord_data_type', 'n_bytes', 'abscissa_min', 'data'},
       'R03': {'modal_a', 'modal_b'}}


def frame(pid, before, after, o, t0, t1, where=''):
    from contracts import f05
    for k in before:
        if k not in after:
            raise Fail('the field %s%r disappeared from the dictionary' % (where, k))
        if k in MAY.get(pid, ()):
            if k == 'data':
                x = diff(after[k], np.nan_to_num(np.asarray(before[k])))
            elif k in ('modal_a', 'modal_b'):
                x = diff(complex(after[k]), complex(before[k]))
            elif k == 'ord_data_type' and not o.get('force_double', True):
                x = diff(after[k], before[k])
            else:
                x = None
        elif k == 'groups':
            if len(after[k]) != len(before[k]):
                raise Fail('the number of groups changed')
            for i, (g, h) in enumerate(zip(before[k], after[k])):
                frame(pid + 'g', g, h, o, t0, t1, "['groups'][%d]" % i)
            x = None
        else:
            x = diff(after[k], before[k])
        if x:
            raise Fail('supplied field %s%r changed: %s' % (where, k, x))
    for k, v in f05.defaults(pid, before, {k: v for k, v in o.items() if k not in ('date', 'time')}).items():
        if k in before:
            continue
        if k not in after:
            raise Fail('optional field %s%r was not added' % (where, k))
        if v in ('$date', '$time'):
            fm = '%d-%b-%y' if v == '$date' else '%H:%M:%S'
            if after[k] not in [time.strftime(fm, time.localtime(s)) for s in range(int(t0 - 0.1), int(t1) + 1)]:
                raise Fail('optional field %r was added as %r' % (k, after[k]))
            continue
        x = diff(after[k], v)
        if x and not (str(after[k]) == str(v)):
            raise Fail('optional field %s%r was not added with its default: %s' % (where, k, x))


def run_f05(c, env):
    pid, d, o = c['pid'], c['d'], c['o']
    before = copy.deepcopy(d)
    p, q = env.path(), env.path()
    fd = o.get('force_double', True)
    t0 = time.time()
    call('write_sets', write, env, p, d, 'add', fd)
    t1 = time.time()
    frame(pid, before, d, o, t0, t1)
    mid = copy.deepcopy(d)
    call('second write_sets', write, env, q, d, 'add', fd)
    x = bytes_diff(content(q), content(p))
    if x:
        raise Fail('writing the same dictionary again gives a different block: ' + x)
    for k in mid:
        if k not in d:
            raise Fail('the second write removed %r' % k)


# ---------------------------------------------------------------- F06
def case_f06(S):
    from contracts import f06
    return f06.case(S)


def run_f06(c, env):
    from contracts import f06
    try:
        f06.run(c, env.pyuff)
    except f06.Broken as e:
        raise Fail(str(e))


# ---------------------------------------------------------------- F07
def case_f07(S):
    from contracts import f07
    r = S.rng
    k = r.random()
    old = old_content(S)
    if old is None:
        old = b''
    nxt = any_set(S)
    if k < 0.08:
        return {'kind': 'mode', 'old': old, 'set': any_set(S), 'mode': r.choice(['append', '', 'w', 'ad', 'over', 'addd', 'a', 'write', 'overwrite ']),
                'next': nxt}
    if k < 0.12:
        return {'kind': 'empty', 'old': old, 'mode': r.choice(['add', 'overwrite', 'x']), 'next': nxt}
    for _ in range(30):
        pid, d, o = any_set(S)
        if k < 0.2:
            d = dict(d)
            del d['type']
            miss = ['type']
        else:
            req = f07.required(pid, d, o)
            if not req:
                continue
            miss = r.sample(req, 1 if r.random() < 0.7 else min(len(req), r.randrange(1, 4)))
            d = copy.deepcopy(d)
            for path in miss:
                t = d
                try:
                    for s in path[:-1]:
                        t = t[s]
                    del t[path[-1]]
                except (KeyError, IndexError):
                    pass
        first = [any_set(S)] if r.random() < 0.25 and o.get('force_double', True) else []
        return {'kind': 'missing', 'old': old, 'pid': pid, 'd': d, 'o': o, 'miss': miss, 'first': first, 'next': nxt}
    raise Skip()


def run_f07(c, env):
    p = env.path(c['old'])
    u = env.pyuff.UFF(p)
    old = c['old']
    raised = False
    want = old
    try:
        with env.quiet():
            if c['kind'] == 'mode':
                arg = copy.deepcopy(c['set'][1])
                u.write_sets(arg if len(c['mode']) % 2 else [arg], c['mode'])
            elif c['kind'] == 'empty':
                u.write_sets([], c['mode'])
            else:
                sets = [copy.deepcopy(d) for _, d, _ in c['first']] + [copy.deepcopy(c['d'])]
                for pid, d, o in c['first']:
                    # the precision code is derived from the argument
                    oo = dict(o, single=False) if pid in ('R04', 'R05') else o
                    t = spec(pid).layout(d, oo)
                    if len(delims(t)) != 2:
                        raise Skip()
                    want = joined(want, [t])
                u.write_sets(sets if len(sets) > 1 else sets[0], 'add', force_double=c['o'].get('force_double', True)
                             if len(sets) == 1 else True)
    except Skip:
        raise
    except Exception:
        raised = True
    if not raised:
        raise Fail('%s was accepted' % ({'mode': 'mode %r' % c.get('mode'), 'empty': 'an empty list'}.get(
            c['kind'], 'a data-set without %s' % (c.get('miss'),))))
    got = content(p) if os.path.exists(p) else None
    if got != want:
        if got is None or not c.get('first') or bytes_diff(got, want):
            raise Fail('the refused write changed the file: %s' % (bytes_diff(got or b'', want) or 'signed zeros' if got is not None else 'it is gone'))
    call('scan', check_scan, u, want)
    want = got
    pid, d, o = c['next']
    oo = dict(o, single=False) if pid in ('R04', 'R05') else o
    t = spec(pid).layout(d, oo)
    if len(delims(t)) != 2:
        return
    with env.quiet():
        call('later write_sets', u.write_sets, copy.deepcopy(d))
    x = bytes_diff(content(p), joined(want, [t]))
    if x:
        raise Fail('addition after a refused write: ' + x)


# ---------------------------------------------------------------- F08
def case_f08(S):
    r = S.rng
    blocks = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        for _ in range(20):
            pid, d, o = any_set(S, ['R05'])
            t = spec(pid).layout_big(d, o) if r.random() < 0.3 else spec(pid).layout(d, o)
            if len(delims(t)) == 2:
                break
        else:
            raise Skip()
        lines = t.split(b'\n', 13)
        blocks.append((lines[:13], lines[13][:-7]))
    from contracts import f08
    c = {'blocks': blocks, 'eol': r.choice([b'\n', b'\n', b'\r\n']), 'last': r.random() < 0.7, 'name': r.choice([None, 'out.uff', 'x']),
         'infile': r.choice(['in.uff', 'data.v1.uf', 'noext', 'a b.UFF', 'in58b.dat'])}
    if not f08.admissible(c['blocks'], c['eol'], c['last']):
        raise Skip()
    return c


def run_f08(c, env):
    from contracts import f08
    blocks = [(list(h), p) for h, p in c['blocks']]
    bad, good = f08.texts(blocks, c['eol'], c['last'])
    base = os.path.join(env.dir, 'fix')
    os.makedirs(base, exist_ok=True)
    for f in os.listdir(base):
        os.unlink(os.path.join(base, f))
    src = os.path.join(base, c['infile'])
    try:
        with env.quiet():
            env.pyuff.datasets.dataset_58.fix_58b(src)
    except Exception:
        pass
    else:
        raise Fail('repairing a file that does not exist did not raise')
    if os.listdir(base):
        raise Fail('repairing a file that does not exist created %r' % os.listdir(base))
    with open(src, 'wb') as f:
        f.write(bad)
    if c['name']:
        dst = os.path.join(base, 'res_' + c['name'])
    else:
        root, ext = os.path.splitext(src)
        dst = root + '_fixed' + ext
    with env.quiet():
        call('fix_58b', env.pyuff.datasets.dataset_58.fix_58b, src, *([dst] if c['name'] else []))
    if content(src) != bad:
        raise Fail('the original file was modified')
    if not os.path.exists(dst):
        raise Fail('the result is not at %s (files: %r)' % (os.path.basename(dst), os.listdir(base)))
    if sorted(os.listdir(base)) != sorted({os.path.basename(src), os.path.basename(dst)}):
        raise Fail('other files appeared: %r' % os.listdir(base))
    got = content(dst)
    if got != good:
        i = next((k for k, (a, b) in enumerate(zip(got, good)) if a != b), min(len(got), len(good)))
        raise Fail('repaired file differs at byte %d: %r, expected %r' % (i, got[max(0, i - 20):i + 20], good[max(0, i - 20):i + 20]))


# ---------------------------------------------------------------- F09
def case_f09(S):
    r = S.rng
    sets = []
    for _ in range(r.randrange(0, 5)):
        k = r.random()
        if k < 0.6:
            n = r.randrange(0, 5)
            quad = {'nodes_nums': [[S.int('q', 10, lo=0, hi=10 ** 6) for _ in range(4)] for _ in range(n)]}
            d = {'type': 2412, 'quad': quad}
            if r.random() < 0.5:
                for kk in ('element_nums', 'color', 'fe_descriptor', 'phys_table', 'mat_table', 'num_nodes'):
                    quad[kk] = [r.randrange(0, 9) for _ in range(n)]
            if r.random() < 0.3:
                d['triangle'] = {'nodes_nums': [[1, 2, 3]]}
            if r.random() < 0.2:
                quad['nodes_nums'] = np.array(quad['nodes_nums'], dtype=int).reshape(-1, 4)
            sets.append(d)
        elif k < 0.75:
            sets.append({'type': 2412, 'triangle': {'nodes_nums': [[1, 2, 3]]}})
        else:
            sets.append(any_set(S)[1])
    c = {'sets': sets}
    if len(sets) > 1 and r.random() < 0.2:
        # the same object twice in the list
        c['same'] = tuple(r.sample(range(len(sets)), 2))
    return c


def run_f09(c, env):
    from contracts import f09
    if 'same' in c:
        c['sets'][c['same'][0]] = c['sets'][c['same'][1]]
    before = copy.deepcopy(c['sets'])
    with env.quiet():
        r = call('convert_dataset_2412_to_82', env.pyuff.tools.convert_dataset_2412_to_82, c['sets'])
    e = f09.convert(before)
    x = diff({'r': r}, {'r': e})
    if x:
        raise Fail('converted: ' + x)
    x = diff({'r': c['sets']}, {'r': before})
    if x:
        raise Fail('the source data-sets changed: ' + x)


# ---------------------------------------------------------------- F10
def case_f10(S):
    pid, d, o = any_set(S)
    return {'pid': pid, 'd': d, 'o': o, 'header': S.rng.random() < 0.2}


def run_f10(c, env):
    pid, d, o = c['pid'], c['d'], c['o']
    p, q = env.path(), env.path()
    fd = o.get('force_double', True)
    call('write_sets', write, env, p, copy.deepcopy(d), 'add', fd)
    if len(delims(content(p))) != 2:
        raise Skip()
    with env.quiet():
        r = call('read_sets', lambda: env.pyuff.UFF(p).read_sets())
    call('write_sets of what was read', write, env, q, r, 'add', fd)
    a, b = content(p), content(q)
    if pid == 'R05' and len(a) == len(b):
        # the sign of a zero is not kept
        la, lb = a.split(b'\n', 13), b.split(b'\n', 13)
        ft = np.float32 if o['single'] else np.float64
        if len(la) == len(lb) == 14 and np.array_equal(np.frombuffer(la[13][:-7], ft), np.frombuffer(lb[13][:-7], ft)):
            lb[13] = la[13][:-7] + lb[13][-7:]
            b = b'\n'.join(lb)
    x = bytes_diff(b, a)
    if x and pid in ('R04', 'R05') and o['even']:
        # the increment (fifth field of record 7) may differ in its last digit
        la, lb = a.split(b'\n'), b.split(b'\n')
        if len(la) > 8 and len(lb) > 8 and la[8][:43] == lb[8][:43] and la[8][56:] == lb[8][56:]:
            u, v = float(la[8][43:56]), float(lb[8][43:56])
            x0 = abs(float(la[8][30:43]))
            if abs(u - v) <= 1.0001e-5 * max(abs(u), abs(v)) * 10 + 1e-14 * x0:
                lb[8] = la[8]
                x = bytes_diff(b'\n'.join(lb), a)
    if x:
        raise Fail('the rewritten block differs: ' + x)


CASES = {'F01': (case_f01, run_f01), 'F02': (case_f02, run_f02), 'F03': (case_f03, run_f03), 'F04': (case_f04, run_f04),
         'F05': (case_f05, run_f05), 'F06': (case_f06, run_f06), 'F07': (case_f07, run_f07), 'F08': (case_f08, run_f08),
         'F09': (case_f09, run_f09), 'F10': (case_f10, run_f10)}


def make_case(pid, S):
    return case_r(pid, S) if pid in contracts.R else CASES[pid][0](S)


def run_case(pid, c, env):
    if pid in contracts.R:
        run_r(pid, c, env)
    else:
        CASES[pid][1](c, env)
