"""Channels, constellations and a plain-Python tree search."""
import itertools, math

I = 1j
CHANNELS = {                       # name -> rows
    '1x1': [[.8 - .6j]],
    '2x1': [[1 + .2j], [-.3 + .9j]],
    '3x1': [[.1j], [2.], [-1 + 1j]],
    'eye2': [[1, 0], [0, 1]],
    'real2': [[1.2, -.7], [.4, .9]],
    'cplx2': [[.9 + .4j, -.3 + 1.1j], [.2 - .8j, 1.3 + .1j]],
    'upper2': [[.1, 3 + 1j], [0, 1.5j]],
    'ill2': [[1, 1.01], [1, .99j]],
    'near2': [[1, 1], [1, 1.05]],
    'perm2': [[0, 1j], [2, 0]],
    '3x2': [[1, .5j], [-.4 + .2j, 1.1], [.3, -.9 + .6j]],
    '4x2': [[.2, 1], [.7j, -.3], [1.1, .4j], [-.5 - .5j, .25]],
    'real3x2': [[1., .3], [-.2, .8], [.5, -1.]],
    '3x3': [[1, .3j, -.2], [.5 - .5j, 1.2, .1], [.2, -.6j, .9 + .3j]],
    'dep3': [[1, 1, .1], [.9, 1.1, 0], [0, .2j, 1.3]],
    '4x3': [[1, 0, .5j], [.3, -1, .2], [0, .8j, 1], [-.6, .4, .7]],
    'ill3': [[1., .95, .9], [.95, 1., .97], [.9, .97, 1.]],
    'ill3c': [[1., .9j, .9], [.95, 1j, .97 + .1j], [.9 - .1j, .97j, 1.]],
    'ill4': [[1., .95, .9, .9], [.95, 1., .97, .92], [.9, .97, 1., .95], [.92, .9, .96, 1.]],
    '1x2': [[1, .6 + .3j]],
    '2x3': [[1, .3j, -.2], [.5 - .5j, 1.2, .1]],
    'rank1': [[1, 2], [.5, 1]],
}

CONSTS = {
    'bpsk': [-1., 1.],
    'pam4': [-3., -1., 1., 3.],
    'q4': [-1 - 1j, -1 + 1j, 1 - 1j, 1 + 1j],
    'psk4': [1 + 0j, 1j, -1 + 0j, -1j],
    'odd4': [2 + .3j, -.4 + 1j, -1.1 - 2j, .5 + 0j],
    'psk8': [complex(math.cos(k * math.pi / 4), math.sin(k * math.pi / 4)) for k in range(8)],
    'q16': [complex(a, b) for a in (-3, -1, 1, 3) for b in (-3, -1, 1, 3)],
}


def mv(H, x):
    return [sum(h * v for h, v in zip(row, x)) for row in H]


def dist2(y, H, x):
    return sum(abs(a - b) ** 2 for a, b in zip(y, mv(H, x)))


def all_metrics(y, H, con):
    """[(metric, vector)] over all transmit vectors"""
    return [(dist2(y, H, x), x) for x in itertools.product(con, repeat=len(H[0]))]


def qr_py(H):
    """Gram-Schmidt: columns q_j and r (list of rows)"""
    n = len(H[0])
    Q, R = [], [[0j] * n for _ in range(n)]
    for j in range(n):
        v = [complex(row[j]) for row in H]
        for _ in range(2):                                   # re-orthogonalise once
            for i, q in enumerate(Q):
                s = sum(a.conjugate() * b for a, b in zip(q, v))
                R[i][j] += s
                v = [b - s * a for a, b in zip(q, v)]
        nv = math.sqrt(sum(abs(a) ** 2 for a in v))
        if nv < 1e-12:
            return None
        R[j][j] = nv
        Q.append([a / nv for a in v])
    return Q, R


def beam(y, H, con, K):
    """survivors of a layer-by-layer beam search: list of (partial metric, vector), or None when a tie decides who survives"""
    f = qr_py(H)
    if f is None:
        return None
    Q, R = f
    n = len(R)
    yt = [sum(a.conjugate() * b for a, b in zip(q, y)) for q in Q]
    cur = [(0., ())]
    for i in range(n - 1, -1, -1):
        nxt = []
        for m, tail in cur:
            base = yt[i] - sum(R[i][i + 1 + k] * tail[k] for k in range(len(tail)))
            for s in con:
                nxt.append((m + abs(base - R[i][i] * s) ** 2, (s,) + tail))
        nxt.sort(key=lambda t: t[0])
        if len(nxt) > K:
            if nxt[K][0] - nxt[K - 1][0] < 1e-9 * (1 + nxt[K][0]):
                return None
            nxt = nxt[:K]
        cur = nxt
    return cur


def received(n_rx, axis):
    """all received vectors over a complex grid"""
    pts = [complex(a, b) for a in axis for b in axis]
    return itertools.product(pts, repeat=n_rx)
