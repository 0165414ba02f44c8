"""Comparison of concrete values, and their JSON form."""
import base64
import re
import numpy as np


def plain(v):
    """lists, dictionaries, numbers and texts only"""
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()] if v.ndim else plain(v.item())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {(k.item() if isinstance(k, np.generic) else k): plain(x) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    return v


def num_eq(a, b, tol):
    if a == b:
        return True
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if tol:
        return abs(a - b) <= tol * max(abs(a), abs(b))
    return False


def diff(a, b, path='', tol=None, extra=False):
    """None if equal, else a text saying where (got a, want b)."""
    if not path:
        a, b = plain(a), plain(b)
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return '%s: got %s' % (path or 'result', short(a))
        for k in b:
            if k not in a:
                return '%s[%r] is missing' % (path, k)
        for k in a:
            if k not in b and not (extra and a[k] in ([], {}, '', None)):
                return '%s[%r] = %s is not expected' % (path, k, short(a[k]))
        for k in b:
            t = tol.get(k) if isinstance(tol, dict) else tol
            r = diff(a[k], b[k], '%s[%r]' % (path, k), t)
            if r:
                return r
        return None
    if isinstance(b, list):
        if not isinstance(a, list):
            return '%s: got %s, expected %s' % (path, short(a), short(b))
        if len(a) != len(b):
            return '%s: %d values, expected %d (got %s, expected %s)' % (path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i), tol)
            if r:
                return r
        return None
    if isinstance(b, (bool, int, float, complex)):
        if not isinstance(a, (bool, int, float, complex)) or not num_eq(a, b, tol if not isinstance(tol, dict) else None):
            return '%s: got %s, expected %s' % (path, short(a), short(b))
        return None
    if a != b or type(a) is not type(b):
        return '%s: got %s, expected %s' % (path, short(a), short(b))
    return None


def short(v):
    s = repr(v)
    return s if len(s) <= 160 else s[:150] + '...'


def nz(b):
    """printed negative zeros are not distinguished from zeros"""
    return re.sub(rb'( |\n)-(0\.0+[eEdD]\+00)', rb'\1 \2', b)


def bytes_diff(got, want):
    if got == want or nz(got) == nz(want):
        return None
    gl, wl = got.split(b'\n'), want.split(b'\n')
    for i, (x, y) in enumerate(zip(gl, wl)):
        if x != y and nz(x) != nz(y):
            return 'line %d is %r, expected %r' % (i + 1, x[:160], y[:160])
    return '%d bytes, expected %d; the shorter is a prefix' % (len(got), len(want))


# ---------------------------------------------------------------- JSON
def to_json(v):
    if isinstance(v, np.ndarray):
        return {'$a': to_json(v.tolist()), 'dtype': str(v.dtype), 'shape': list(v.shape)}
    if isinstance(v, np.generic):
        return to_json(v.item())
    if isinstance(v, complex):
        return {'$c': [v.real.hex(), v.imag.hex()]}
    if isinstance(v, float):
        return {'$f': v.hex(), 'is': repr(v)}
    if isinstance(v, bytes):
        return {'$b': base64.b64encode(v).decode()}
    if isinstance(v, tuple):
        return {'$t': [to_json(x) for x in v]}
    if isinstance(v, list):
        return [to_json(x) for x in v]
    if isinstance(v, dict):
        return {'$d': [[to_json(k), to_json(x)] for k, x in v.items()]}
    return v


def from_json(v):
    if isinstance(v, list):
        return [from_json(x) for x in v]
    if isinstance(v, dict):
        if '$a' in v:
            dt = v['dtype']
            return np.array(from_json(v['$a']), dtype=dt if not dt.startswith('<U') else None).reshape(v['shape'])
        if '$c' in v:
            return complex(float.fromhex(v['$c'][0]), float.fromhex(v['$c'][1]))
        if '$f' in v:
            return float.fromhex(v['$f'])
        if '$b' in v:
            return base64.b64decode(v['$b'])
        if '$t' in v:
            return tuple(from_json(x) for x in v['$t'])
        if '$d' in v:
            return {from_json(k): from_json(x) for k, x in v['$d']}
    return v
