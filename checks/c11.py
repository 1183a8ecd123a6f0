"""C11: LDPC design files, parameters and matrices all describe one parity-check matrix."""
import itertools, os, shutil, tempfile
from mc.refs_ldpc import *

PID = 'C11'
RULE = ('every 0/1 matrix of the small shapes (no empty row or column): written, parsed, read, rebuilt, rewritten; the same matrices in files '
        'with other neighbour orders and line ends; larger irregular matrices; every shipped design file')
BOUNDS = dict(quick='all matrices of shapes 1xn (n<=6), 2x2..2x5, 3x3, 3x4, 4x2, 4x3; structured up to 60x120; 4 shipped files',
              thorough='also 2x6, 2x7, 3x5, 4x4, 5x3 and structured up to 200x400')
ASSUMPTIONS = ['no row or column of the parity-check matrix is empty', 'design files follow the documented layout']
DT = ('int64', 'int8', 'uint8', 'int32', 'int16')


def check_params(c, p, H, rows=None, cols=None):
    R, C = rows or rows_of(H), cols or cols_of(H)
    nc, nv = len(R), len(C)
    c.eq(int(p['n_vnodes']), nv, 'n_vnodes')
    c.eq(int(p['n_cnodes']), nc, 'n_cnodes')
    mv, mc = max(map(len, C)), max(map(len, R))
    c.eq(int(p['max_vnode_deg']), mv, 'max_vnode_deg')
    c.eq(int(p['max_cnode_deg']), mc, 'max_cnode_deg')
    c.eq(p['vnode_deg_list'], [len(l) for l in C], 'vnode_deg_list')
    c.eq(p['cnode_deg_list'], [len(l) for l in R], 'cnode_deg_list')
    for k in ('vnode_adj_list', 'cnode_adj_list', 'vnode_cnode_map', 'cnode_vnode_map'):
        c.true(getattr(p[k], 'ndim', 0) == 1 and p[k].dtype.kind == 'i', k + ' is not a flat integer array')
    va, ca, vm, cm = (p[k].tolist() for k in ('vnode_adj_list', 'cnode_adj_list', 'vnode_cnode_map', 'cnode_vnode_map'))
    for name, adj, mp, L, w, oadj, ow in (('variable', va, vm, C, mv, ca, mc), ('check', ca, cm, R, mc, va, mv)):
        c.true(len(adj) == len(L) * w == len(mp), 'size of the flat lists of %s nodes' % name)
        for i, l in enumerate(L):
            row, mrow = adj[i * w:(i + 1) * w], mp[i * w:(i + 1) * w]
            c.eq(sorted(row[:len(l)]), sorted(l), 'neighbours of %s node %d' % (name, i))
            c.eq(row[len(l):] + mrow[len(l):], [-1] * 2 * (w - len(l)), 'unused slots of %s node %d' % (name, i))
            for slot, j in enumerate(row[:len(l)]):
                c.true(0 <= mrow[slot] < ow and oadj[j * ow + mrow[slot]] == i, 'map of %s node' % name, i, 'slot', slot, mrow)
    c.step(nc + nv)


def check_matrices(c, p, H):
    r, n = len(H), len(H[0])
    c.eq(p['parity_check_matrix'].toarray(), [list(x) for x in H], 'parity_check_matrix')
    if n > r and solve_parity(H) is not None:
        G = p['generator_matrix']
        G = (G.toarray() if hasattr(G, 'toarray') else G).tolist()
        c.true(len(G) == r and len(G[0]) == n - r, 'shape of the generator matrix')
        for i in range(r):
            for j in range(n - r):
                c.true(G[i][j] == int(G[i][j]), 'generator entry is not an integer', G[i][j])
        for j in range(n - r):                        # the word of basis message j
            word = [int(i == j) for i in range(n - r)] + [int(G[i][j]) % 2 for i in range(r)]
            c.true(syndrome_ok(rows_of(H), word), 'generator column is not a codeword', j, word)


def core(p):
    return {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in p.items() if not k.endswith('matrix')}


def full_case(c, H, dt, d):
    import numpy as np
    from commpy.channelcoding.ldpc import write_ldpc_params, get_ldpc_code_params, build_matrix
    a, b = os.path.join(d, 'a.txt'), os.path.join(d, 'b.txt')
    for f in (a, b):
        if os.path.exists(f):
            os.remove(f)
    M = np.array(H, dt)
    c.call(write_ldpc_params, M, a)
    with open(a) as f:
        text = f.read()
    q = parse_design(text)
    c.eq([q['nv'], q['nc'], q['rest']], [len(H[0]), len(H), []], 'header and length of the written file')
    C, R = cols_of(H), rows_of(H)
    c.eq([sorted(l) for l in q['C']] + [sorted(l) for l in q['R']], C + R, 'neighbour lines of the written file')
    c.eq(q['vdeg'] + q['cdeg'] + q['maxdeg'], [len(l) for l in C] + [len(l) for l in R] + [max(map(len, C)), max(map(len, R))], 'degrees in the file')
    p = c.call(get_ldpc_code_params, a)
    check_params(c, p, H)
    before = core(p)
    c.step()
    build_matrix(p)
    c.eq(core(p), before, 'entries changed by build_matrix')
    check_matrices(c, p, H)
    p2 = c.call(get_ldpc_code_params, a, True)
    c.eq(core(p2), before, 'parameters read with compute_matrix=True')
    check_matrices(c, p2, H)
    c.call(write_ldpc_params, p2['parity_check_matrix'].toarray(), b)
    c.eq(core(c.call(get_ldpc_code_params, b)), before, 'parameters after writing the matrix again')


def file_case(c, H, order, blank, d):
    """files written by somebody else"""
    from commpy.channelcoding.ldpc import get_ldpc_code_params
    a = os.path.join(d, 'c.txt')
    with open(a, 'w') as f:
        f.write(design_text(H, order, blank))
    p = c.call(get_ldpc_code_params, a, compute_matrix=True)
    check_params(c, p, H)
    check_matrices(c, p, H)


def shipped_case(c, path, matrix):
    from commpy.channelcoding.ldpc import get_ldpc_code_params
    with open(path) as f:
        q = parse_design(f.read())
    H = to_matrix(q['nc'], q['nv'], q['R'])
    c.eq(cols_of(H), [sorted(l) for l in q['C']], 'test harness: shipped file is inconsistent')
    p = c.call(get_ldpc_code_params, path, matrix)
    check_params(c, p, H)
    if matrix:
        c.eq(p['parity_check_matrix'].toarray(), [list(x) for x in H], 'parity_check_matrix')


def in_dir(fn):
    def run(ctx, *a):
        d = tempfile.mkdtemp(prefix='c11-')
        try:
            fn(ctx, d, *a)
        finally:
            shutil.rmtree(d)
    run.__name__ = fn.__name__
    return run


def matrices(r, n, first):
    for bits in itertools.product((0, 1), repeat=(r - 1) * n):
        H = (first,) + tuple(bits[i * n:(i + 1) * n] for i in range(r - 1))
        if all(any(x) for x in H) and all(any(x[j] for x in H) for j in range(n)):
            yield H


@in_dir
def small(ctx, d, r, n, first):
    for i, H in enumerate(matrices(r, n, first)):
        ctx.case(H, full_case, H, DT[i % 5], d)


@in_dir
def foreign(ctx, d, r, n, first):
    for H in matrices(r, n, first):
        for order in (0, 1, 2):
            for blank in (True, False):
                ctx.case((H, order, blank), file_case, H, order, blank, d)


@in_dir
def big(ctx, d, r, n, seed):
    for num, den in ((1, 2), (1, 8), (3, 40)):
        H = lcg_matrix(r, n, num, den, seed)
        # make the last columns lower triangular: always invertible
        H = tuple(tuple(v if j < n - r else int(j - n + r == i) if j - n + r >= i else v for j, v in enumerate(row)) for i, row in enumerate(H))
        ctx.case(('big', r, n, seed, num, den), full_case, H, 'int64', d)
        ctx.case(('bigf', r, n, seed, num, den), file_case, H, 2, True, d)


def shipped(ctx, rel):
    import commpy
    path = os.path.join(os.path.dirname(commpy.__file__), 'channelcoding', 'designs', 'ldpc', *rel.split('/'))
    for m in (False, True):
        ctx.case((rel, m), shipped_case, path, m)


FILES = ('wimax/1440.720.txt', 'wimax/960.720.a.txt', 'gallager/96.33.964.txt', 'gallager/96.3.963.txt')


def shards(tier):
    th = tier == 'thorough'
    out = [(shipped, (f,)) for f in FILES]
    out += [(big, (r, n, s)) for r, n in ((60, 120), (10, 45), (30, 40), (7, 130)) + (((200, 400),) if th else ()) for s in (1, 2)]
    shapes = [(1, n) for n in range(1, 7)] + [(2, 2), (2, 3), (2, 4), (2, 5), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3)]
    if th:
        shapes += [(2, 6), (2, 7), (3, 5), (4, 4), (5, 3)]
    for r, n in shapes:
        out += [(small, (r, n, f)) for f in itertools.product((0, 1), repeat=n) if any(f)]
    for r, n in ((1, 3), (2, 3), (2, 4), (3, 3)) + (((3, 4),) if th else ()):
        out += [(foreign, (r, n, f)) for f in itertools.product((0, 1), repeat=n) if any(f)]
    return out
