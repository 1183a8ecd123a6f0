"""Plain-Python models of parity-check matrices, their design files, encoders and message passing."""
import math


def lcg(seed):
    x = (seed * 2654435761 + 12345) & 0xffffffff
    while True:
        x = (x * 1664525 + 1013904223) & 0xffffffff
        yield x >> 16


def lcg_matrix(r, n, weight_num, weight_den, seed):
    """reproducible 0/1 matrix without zero rows or columns"""
    g = lcg(seed)
    H = [[int(next(g) % weight_den < weight_num) for _ in range(n)] for _ in range(r)]
    for i in range(r):
        if not any(H[i]):
            H[i][next(g) % n] = 1
    for j in range(n):
        if not any(H[i][j] for i in range(r)):
            H[next(g) % r][j] = 1
    return tuple(map(tuple, H))


def rows_of(H):
    return [[j for j, v in enumerate(row) if v] for row in H]


def cols_of(H):
    return [[i for i in range(len(H)) if H[i][j]] for j in range(len(H[0]))]


def params(H, full=True):
    """parameter dictionary with the documented keys (entries ascending)"""
    import numpy as np
    R, C = rows_of(H), cols_of(H)
    md, mv = max(map(len, R)), max(map(len, C))
    pad = lambda lists, w: np.array([x for l in lists for x in l + [-1] * (w - len(l))], np.int32)
    p = dict(n_vnodes=len(H[0]), n_cnodes=len(H), max_cnode_deg=md, cnode_adj_list=pad(R, md),
             cnode_deg_list=np.array([len(l) for l in R], np.int32))
    if full:
        p.update(max_vnode_deg=mv, vnode_adj_list=pad(C, mv), vnode_deg_list=np.array([len(l) for l in C], np.int32),
                 cnode_vnode_map=pad([[C[v].index(c) for v in l] for c, l in enumerate(R)], md),
                 vnode_cnode_map=pad([[R[c].index(v) for c in l] for v, l in enumerate(C)], mv))
    return p


def design_text(H, order=0, blank=True):
    """a design file for H; order rotates/reverses the neighbour lists"""
    def arr(l):
        return l if order == 0 else l[::-1] if order == 1 else l[1:] + l[:1]
    R, C = rows_of(H), cols_of(H)
    out = ['%d %d' % (len(C), len(R)), '%d %d' % (max(map(len, C)), max(map(len, R)))]
    for L in (C, R):
        out.append(' '.join(str(len(l)) for l in L) + (' ' if blank else ''))
    for L in (C, R):
        out += ['\t'.join(str(x + 1) for x in arr(l)) for l in L]
    return '\n'.join(out) + '\n'


def parse_design(text):
    """independent reader of the documented format -> (n_vnodes, n_cnodes, [col lists], [row lists], degree lines, max degrees)"""
    lines = [l.split() for l in text.splitlines()]
    ints = [[int(t) for t in l] for l in lines]
    nv, nc = ints[0]
    vl, cl = ints[4:4 + nv], ints[4 + nv:4 + nv + nc]
    return dict(nv=nv, nc=nc, maxdeg=ints[1], vdeg=ints[2], cdeg=ints[3],
                C=[[x - 1 for x in l] for l in vl], R=[[x - 1 for x in l] for l in cl],
                rest=[l for l in ints[4 + nv + nc:] if l])


def to_matrix(nc, nv, R):
    H = [[0] * nv for _ in range(nc)]
    for i, l in enumerate(R):
        for j in l:
            H[i][j] = 1
    return tuple(map(tuple, H))


def solve_parity(H):
    """rows G (as ints, bit j = message bit j) with parity_i = <G_i, m>, or None when the last columns are singular"""
    r, n = len(H), len(H[0])
    k = n - r
    rows = [[sum(H[i][k + j] << j for j in range(r)), sum(H[i][j] << j for j in range(k))] for i in range(r)]
    for c in range(r):
        p = next((i for i in range(c, r) if rows[i][0] >> c & 1), None)
        if p is None:
            return None
        rows[c], rows[p] = rows[p], rows[c]
        for i in range(r):
            if i != c and rows[i][0] >> c & 1:
                rows[i] = [rows[i][0] ^ rows[c][0], rows[i][1] ^ rows[c][1]]
    return [g for _, g in rows]


def encode(G, msg):
    m = sum(b << i for i, b in enumerate(msg))
    return list(msg) + [bin(g & m).count('1') & 1 for g in G]


def syndrome_ok(R, bits):
    return all(sum(bits[v] for v in l) % 2 == 0 for l in R)


def boxplus(vals):
    """2 atanh(prod tanh(x/2)), stably"""
    acc = None
    for x in vals:
        if acc is None:
            acc = x
        else:
            s = (1 if acc >= 0 else -1) * (1 if x >= 0 else -1)
            a, b = abs(acc), abs(x)
            acc = s * (min(a, b) + math.log1p(math.exp(-(a + b))) - math.log1p(math.exp(-abs(a - b))))
    return 500. if acc is None else acc


def minsum(vals):
    if not vals:
        return 500.
    s = 1
    for x in vals:
        s *= (x > 0) - (x < 0)
    return s * min(abs(x) for x in vals)


class BP:
    """flooding belief propagation, one iteration at a time"""
    def __init__(self, H, llr):
        self.R, self.C = rows_of(H), cols_of(H)
        self.llr = [max(-500., min(500., float(x))) for x in llr]
        self.v2c = {(c, v): self.llr[v] for c, l in enumerate(self.R) for v in l}
        self.peak = max([abs(x) for x in self.llr] or [0])

    def iterate(self, alg):
        f = boxplus if alg == 'SPA' else minsum
        c2v = {}
        for c, l in enumerate(self.R):
            for v in l:
                x = f([self.v2c[c, w] for w in l if w != v])
                c2v[c, v] = max(-500., min(500., x)) if alg == 'SPA' else x
        post = [self.llr[v] + sum(c2v[c, v] for c in l) for v, l in enumerate(self.C)]
        self.v2c = {(c, v): post[v] - x for (c, v), x in c2v.items()}
        self.peak = max([self.peak] + [abs(x) for x in self.v2c.values()] + [abs(x) for x in c2v.values()])
        return post


def app_llrs(H, llr):
    """exact a-posteriori LLRs over the code of H, by enumeration"""
    n, R = len(H[0]), rows_of(H)
    z = [[0., 0.] for _ in range(n)]
    for w in range(2 ** n):
        b = [w >> i & 1 for i in range(n)]
        if syndrome_ok(R, b):
            p = math.exp(sum(x * (.5 - y) for x, y in zip(llr, b)))
            for i in range(n):
                z[i][b[i]] += p
    return [math.log(a / b) if a and b else math.copysign(math.inf, a - b) for a, b in z]
