"""C12: triang_ldpc_systematic_encode against the unique systematic codeword of each message."""
import itertools
from mc.refs_ldpc import *

PID = 'C12'
RULE = ('all parity-check matrices of small shape whose last columns are invertible x all messages (single blocks and all blocks at once); all '
        'message lengths (padding, refusal) and element types; larger triangular, permuted and dense matrices on the message basis; shipped codes')
BOUNDS = dict(quick='all invertible right parts up to 3x3 with all left parts of width <=2 (width <=3 for 2 rows, <=5 for 1 row); structured 4x4 '
                    'and 5x5 right parts; sizes up to 120x200; WiMAX codes on the whole basis',
              thorough='all invertible 4x4 right parts with width 1; left parts of width 3 for 3 rows')
ASSUMPTIONS = ['the last n_cnodes columns of the parity-check matrix are invertible over GF(2)', 'messages are arrays of 0 and 1']


def run(c, p, G, msg, dt, **kw):
    """encode a message of several blocks; compare every column with the reference"""
    import numpy as np
    from commpy.channelcoding.ldpc import triang_ldpc_systematic_encode
    k, r = p['n_vnodes'] - p['n_cnodes'], p['n_cnodes']
    m = np.array(msg, dt)
    keep = m.copy()
    out = triang_ldpc_systematic_encode(m, p, **kw)
    c.step()
    c.true(m.dtype == keep.dtype and m.shape == keep.shape and (m == keep).all(), 'the message was changed', msg)
    padded = list(msg) + [0] * (-len(msg) % k)
    blocks = [padded[i:i + k] for i in range(0, len(padded), k)]
    want = [encode(G, b) for b in blocks]
    got = out.tolist()
    if len(blocks) == 1:
        c.eq(got, want[0], 'codeword of %s' % short(msg))
    else:
        c.eq(got, [list(col) for col in zip(*want)], 'codewords of %s' % short(msg))
    c.true(str(out.dtype) == 'int8', 'type of the output', str(out.dtype))
    return len(blocks)


def short(m):
    return repr(m if len(m) < 40 else m[:40])


def code_case(c, H):
    """one small code: all messages, alone and together"""
    from commpy.channelcoding.ldpc import build_matrix
    G, k = solve_parity(H), len(H[0]) - len(H)
    p = params(H, False)
    msgs = list(itertools.product((0, 1), repeat=k))
    run(c, p, G, [b for m in msgs for b in m], 'int64')
    c.eq(p['parity_check_matrix'].toarray(), [list(x) for x in H], 'parity-check matrix added to the parameters')
    c.eq({k2: v.tolist() if hasattr(v, 'tolist') else v for k2, v in p.items() if not k2.endswith('matrix')},
         {k2: v.tolist() if hasattr(v, 'tolist') else v for k2, v in params(H, False).items()}, 'parameters after encoding')
    for m in msgs:
        run(c, p, G, m, 'int64')


def length_case(c, H, L, dt, mode):
    """all message lengths; parameters given in the different documented forms"""
    import numpy as np
    from commpy.channelcoding.ldpc import triang_ldpc_systematic_encode, build_matrix
    G, k = solve_parity(H), len(H[0]) - len(H)
    p = params(H, mode == 'full')
    if mode != 'lazy':
        build_matrix(p)
    if mode == 'dense':
        p['generator_matrix'] = np.array([[g >> j & 1 for j in range(k)] for g in G])
    for kind in range(3):
        msg = [[1] * L, [int(i % 3 == kind) for i in range(L)], [0] * L][kind]
        if L % k == 0:
            run(c, p, G, msg, dt, pad=False)
        else:
            c.raises(ValueError, triang_ldpc_systematic_encode, np.array(msg, dt), p, False)
        run(c, p, G, msg, dt)
        run(c, p, G, msg, dt, pad=True)


def basis_case(c, H, dt):
    G, k = solve_parity(H), len(H[0]) - len(H)
    p = params(H, False)
    eye = [int(i == j) for i in range(k) for j in range(k)]
    run(c, p, G, eye + [1] * k + [0] * k + [1, 0] * (k // 2), dt)
    run(c, p, G, [1] * k, dt)


def shipped_case(c, path, dt):
    import numpy as np
    from commpy.channelcoding.ldpc import get_ldpc_code_params, triang_ldpc_systematic_encode
    with open(path) as f:
        q = parse_design(f.read())
    H = np.array(to_matrix(q['nc'], q['nv'], q['R']), float)
    k = q['nv'] - q['nc']
    p = get_ldpc_code_params(path)
    msg = np.concatenate((np.eye(k, dtype=dt).ravel(), np.ones(k, dt), np.zeros(k, dt), (np.arange(k) % 3 == 0).astype(dt),
                          np.ones(k // 2, dt)))
    c.raises(ValueError, triang_ldpc_systematic_encode, msg, p, False)
    keep = msg.copy()
    out = triang_ldpc_systematic_encode(msg, p)
    c.true((msg == keep).all(), 'the message was changed')
    c.true(out.shape == (q['nv'], k + 4), 'shape of the output', out.shape)
    padded = np.concatenate((msg, np.zeros(k - k // 2, dt))).reshape(k, -1, order='F')
    c.true((out[:k] == padded).all(), 'not systematic')
    c.true(((out == 0) | (out == 1)).all(), 'not binary')
    syn = H.dot(out.astype(float)) % 2
    c.true(not syn.any(), 'parity checks violated by blocks', np.where(syn.any(0))[0].tolist()[:5])
    c.step(k + 4)
    one = triang_ldpc_systematic_encode(msg[:k], p, False)
    c.true(one.shape == (q['nv'],) and (one == out[:, 0]).all(), 'a single block differs from the same block among others')


# ------------------------------------------------------------------ spaces
def square(r):
    """all invertible r x r matrices as tuples of rows"""
    for rows in itertools.product(range(1, 2 ** r), repeat=r):
        S = tuple(tuple(x >> j & 1 for j in range(r)) for x in rows)
        if solve_parity(tuple((0,) + x for x in S)) is not None:
            yield S


def join(P, S):
    return tuple(a + b for a, b in zip(P, S))


def small(ctx, r, k, part, parts):
    lefts = list(itertools.product(itertools.product((0, 1), repeat=k), repeat=r))
    for i, S in enumerate(square(r)):
        if i % parts == part:
            for P in lefts:
                H = join(P, S)
                ctx.case(H, code_case, H)


def structured(ctx, r, part, parts):
    """right parts with determinants other than +-1, permutations of triangular matrices, circulants"""
    out = set()
    J = tuple(tuple(int(i != j) for j in range(r)) for i in range(r))
    out.add(J)
    for bits in range(1, 2 ** r):
        out.add(tuple(tuple(bits >> ((j - i) % r) & 1 for j in range(r)) for i in range(r)))
    for bits in itertools.product((0, 1), repeat=r * (r - 1) // 2):
        it = iter(bits)
        L = [[next(it) if j < i else int(i == j) for j in range(r)] for i in range(r)]
        out.add(tuple(map(tuple, L)))
        out.add(tuple(tuple(x[::-1]) for x in L))
        out.add(tuple(map(tuple, zip(*L))))
        out.add(tuple(map(tuple, L[::-1])))
    for i, S in enumerate(sorted(out)):
        if i % parts == part and all(map(any, S)) and solve_parity(tuple((0,) + x for x in S)) is not None:
            for w in (1, 5, 2 ** r - 1):
                H = join(tuple((w >> a & 1, (w * 5 >> a) & 1, 1) for a in range(r)), S)
                ctx.case(H, code_case, H)


def lengths(ctx, H, modes, top):
    k = len(H[0]) - len(H)
    for L in range(1, top * k + 2):
        for mode in modes:
            for dt in ('int64', 'int8', 'uint8', 'int32'):
                ctx.case((H, L, dt, mode), length_case, H, L, dt, mode)


def big(ctx, r, k, kind, seed):
    n = r + k
    for num, den in ((1, 2), (1, 10)):
        H = [list(x) for x in lcg_matrix(r, n, num, den, seed)]
        for i in range(r):
            for j in range(r):
                if kind == 'lower' and j > i or kind == 'upper' and j < i:
                    H[i][k + j] = 0
                if i == j:
                    H[i][k + j] = 1
                if kind == 'dual':
                    H[i][k + j] = int(i == j or i == j + 1 or (j == 0 and i in (r // 2, r - 1)))
        if kind == 'mixed':                                 # row operations of a triangular matrix: invertible and dense
            for i in range(r):
                for j in range(r):
                    if j > i:
                        H[i][k + j] = 0
            for i in range(r - 1):
                H[i] = [(a + b) % 2 for a, b in zip(H[i], H[i + 1])]
        H = tuple(map(tuple, H))
        if solve_parity(H) is None:
            continue
        for dt in ('int64', 'int8'):
            ctx.case(('big', r, k, kind, seed, num, den, dt), basis_case, H, dt)


def shipped(ctx, rel, dt):
    import os, commpy
    path = os.path.join(os.path.dirname(commpy.__file__), 'channelcoding', 'designs', 'ldpc', *rel.split('/'))
    ctx.case((rel, dt), shipped_case, path, dt)


HAMMING = ((1, 1, 0, 1, 1, 0, 0), (1, 0, 1, 1, 0, 1, 0), (0, 1, 1, 1, 0, 0, 1))
ODD3 = ((1, 0, 0, 1, 1, 1), (1, 1, 1, 0, 1, 1), (0, 1, 1, 1, 0, 1), (0, 0, 1, 1, 1, 0))


def shards(tier):
    th = tier == 'thorough'
    out = [(shipped, (f, dt)) for f in ('wimax/1440.720.txt', 'wimax/960.720.a.txt', 'gallager/96.33.964.txt') for dt in ('int64', 'int8')]
    out += [(big, (r, k, kind, s)) for r, k in ((40, 40), (80, 50), (20, 300)) for kind in ('lower', 'upper', 'dual', 'mixed') for s in (1, 2)]
    for r, k in [(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)] + ([(3, 3), (4, 1)] if th else []):
        parts = 24 if r * k > 4 and r > 2 else 1
        parts = 64 if r == 4 or (r, k) == (3, 3) else parts
        out += [(small, (r, k, i, parts)) for i in range(parts)]
    out += [(structured, (r, i, 8)) for r in (4, 5) for i in range(8 if r == 4 or th else 2)]
    for H in (HAMMING, ODD3, ((1, 1, 1),), ((1, 0, 1, 0), (1, 1, 1, 1))):
        out += [(lengths, (H, (m,), 4 if th else 3)) for m in ('lazy', 'full', 'dense')]
    return out
