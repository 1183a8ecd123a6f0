"""Reference constellations and label arithmetic."""
import math, cmath, itertools
from mc.refs_ldpc import lcg


def bits_of(i, n):
    return [(i >> (n - 1 - j)) & 1 for j in range(n)]


def index_of(bits):
    v = 0
    for b in bits:
        v = 2 * v + int(b)
    return v


def scatter(m, seed):
    g = lcg(seed)
    pts = []
    while len(pts) < m:
        z = complex(next(g) % 97 / 16 - 3, next(g) % 89 / 16 - 2.5)
        if all(abs(z - p) > .2 for p in pts):
            pts.append(z)
    return pts


SHAPES = {
    'bpsk': [-1., 1.],
    'ook': [0., 1.],
    'pam4': [-3., -1., 1., 3.],
    'qpsk rot': [cmath.exp(1j * (math.pi / 4 + k * math.pi / 2)) for k in range(4)],
    'uneven8': [0j, 1 + 0j, 2j, -1 - 1j, 3 - 2j, -2.5 + 1j, .5 + 2j, -.25 - 2j],
    'scatter16': scatter(16, 3),
    'scatter32': scatter(32, 4),
}


def modem(spec):
    """spec -> (modem object, number of points).  ('psk', m) ('qam', m) (shape name, gray?, container)"""
    import numpy as np
    from commpy.modulation import Modem, PSKModem, QAMModem
    if spec[0] == 'psk':
        return PSKModem(spec[1])
    if spec[0] == 'qam':
        return QAMModem(spec[1])
    pts = SHAPES[spec[0]]
    if spec[2] == 'array':
        pts = np.array(pts)
    elif spec[2] == 'c64':
        pts = np.array(pts, 'complex64')
    elif spec[2] == 'tuple':
        pts = tuple(pts)
    return Modem(pts) if spec[1] is None else Modem(pts, spec[1])


def gray(i):
    return i ^ (i >> 1)


def gray_order(pts):
    """label -> point when neighbours of the list get labels differing in one bit (reflected Gray code)"""
    out = [None] * len(pts)
    for i, p in enumerate(pts):
        out[gray(i)] = p
    return out
