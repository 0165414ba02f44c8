"""Primitives of the specification language.

Contracts are written in plain Python over these primitives; the verifier interprets the same text symbolically and
gives the primitives their symbolic meaning, CPython runs it on concrete values."""
import struct

# 13 or 15 columns that are read by their position (three-digit exponents may fill them)
BY_POSITION = 14


def rnd(p, x):
    """the value of x once printed with p decimals in exponent form"""
    return float('%.*e' % (p, x))


def f32(x):
    """the value of x once stored in 32 bits"""
    return struct.unpack('<f', struct.pack('<f', x))[0]


def chunks(seq, k):
    """seq cut in consecutive pieces of k; the last one may be shorter"""
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def opt(d, k, v):
    """d[k] or the default"""
    return d[k] if k in d else v


def re(z):
    return z.real


def im(z):
    return z.imag


def cplx(a, b):
    return complex(a, b)


def interleave(*seqs):
    """a0 b0 c0 a1 b1 c1 ..."""
    out = []
    for t in zip(*seqs):
        out.extend(t)
    return out


def bin_values(en, fmt, seq):
    """the values as binary numbers, en '<' or '>', fmt 'd' or 'f'"""
    return b''.join(struct.pack(en + fmt, x) for x in seq)


def utf8(s):
    return s.encode('utf-8')
