"""C13: ldpc_bp_decode, one iteration limit after the other, against flooding message passing."""
import itertools, math
from mc.refs_ldpc import *

PID = 'C13'
RULE = ('every LLR vector over a small alphabet (ties, zeros, weak and strong values) x codes x algorithm, decoded with every iteration limit '
        '0..T: each limit is one transition, compared with one more message-passing iteration unless the previous word was valid; all '
        'parity-check matrices of small shape; all pairs of blocks; all single-bit corruptions of codewords')
BOUNDS = dict(quick='alphabets of 3-5 values, n<=7, T=4; all 2x3 matrices; pairs and triples of blocks of 8 vectors; flips of '
                    'codewords of the shipped 96-bit codes and the (7,4) code; saturating LLRs to 1e300',
              thorough='larger alphabets, all 2x4 and 3x3 matrices, T=8, WiMAX flips')
ASSUMPTIONS = ['sum-product values are compared while every message stays below 20 (beyond, float rounding of tanh dominates): signs, '
               'finiteness and stopping are still checked', 'check nodes of degree one: message value not compared for sum-product']

H_SPC3 = ((1, 1, 1),)
H_SPC5 = ((1, 1, 1, 1, 1),)
H_REP3 = ((1, 1, 0), (0, 1, 1))
H_TREE5 = ((1, 1, 1, 0, 0), (0, 0, 1, 1, 1))
H_TREE6 = ((1, 1, 0, 0, 0, 0), (0, 1, 1, 1, 0, 0), (0, 0, 0, 1, 1, 1))
H_STAR5 = ((1, 1, 0, 0, 0), (1, 0, 1, 0, 0), (1, 0, 0, 1, 1))
H_HAM = ((1, 1, 0, 1, 1, 0, 0), (1, 0, 1, 1, 0, 1, 0), (0, 1, 1, 1, 0, 0, 1))
H_CYC4 = ((1, 1, 1, 0), (1, 1, 0, 1))
H_CYC6 = ((1, 1, 0), (0, 1, 1), (1, 0, 1))
H_SING = ((1, 1, 0, 0), (1, 1, 1, 1))
H_DEG1 = ((1, 0, 0, 0), (1, 1, 1, 0), (0, 0, 1, 1))
H_FREE = ((1, 1, 0, 0, 1), (0, 1, 0, 1, 1))                   # column 2 is in no check
TREES = (H_SPC3, H_SPC5, H_REP3, H_TREE5, H_TREE6, H_STAR5)


def diameter(H):
    return len(H) + 1


def decode(c, p, llr, alg, it):
    import numpy as np
    from commpy.channelcoding.ldpc import ldpc_bp_decode
    out = c.call(ldpc_bp_decode, np.array(llr, float), p, alg, it)
    c.eq(len(out), 2, 'number of results')
    return out


def consistent(c, bits, llrs, what):
    for b, x in zip(bits, llrs):
        c.true(b in (0, 1) and math.isfinite(x), what + ': not a finite result:', bits, llrs)
        c.true(b == (x < 0) or (x == 0 and math.copysign(1, x) < 0), what + ': decision differs from the LLR sign', bits, llrs)


def trace_case(c, H, llr, alg, T, p=None):
    """limits 0..T"""
    p = p or params(H)
    R = rows_of(H)
    bp = BP(H, llr)
    deg1 = alg == 'SPA' and any(len(l) == 1 for l in R)
    bits, cur, valid, known = None, None, False, True
    unit = min(1., max(map(abs, llr)) or 1.)                        # weak LLRs are compared on their own scale
    for t in range(T + 1):
        dec, out = decode(c, p, llr, alg, t)
        c.true(str(dec.dtype) == 'int8', 'type of the decoded word', str(dec.dtype))
        dec, out = dec.tolist(), out.tolist()
        if len(H[0]) == 1:
            dec, out = [dec], [out]
        c.true(len(dec) == len(out) == len(llr), 'length of the result')
        what = '%s limit %d of %s' % (alg, t, llr)
        consistent(c, dec, out, what)
        if t == 0:
            c.close(out, bp.llr, 0, what)
        elif valid:                                            # must have stopped: nothing may change
            c.eq(dec, bits, what + ' after a valid word')
            c.close(out, cur, 1e-9, what + ' after a valid word')
        elif known:
            want = bp.iterate(alg)
            if alg == 'MSA':
                c.close(out, want, 1e-9 * unit, what, rel=1e-9)
            elif bp.peak < 20 and not deg1:
                c.close(out, want, 1e-7 * unit + (1e-15 * math.exp(bp.peak) if bp.peak > 1 else 0), what, rel=0)
            else:
                known = False
        bits, cur = dec, out
        valid = valid or syndrome_ok(R, bits)
    if not valid and known and alg == 'SPA' and H in TREES and T >= diameter(H):
        c.close(cur, app_llrs(H, bp.llr), 1e-6, 'a-posteriori LLRs on a cycle-free graph')
        return 'exact APP'
    return 'valid' if valid else 'limit'


def words_case(c, H, alg):
    """every codeword is returned at once, unchanged; every single flip follows the equations"""
    R, n = rows_of(H), len(H[0])
    for w in itertools.product((0, 1), repeat=n):
        if syndrome_ok(R, w):
            for a in (.3, 4., 1e3):
                llr = [a * (1 + i / 7) * (1 - 2 * b) for i, b in enumerate(w)]
                for it in (0, 1, 3):
                    dec, out = decode(c, params(H), llr, alg, it)
                    c.eq(dec, list(w), 'valid word')
                    c.close(out, [max(-500, min(500, x)) for x in llr], 0, 'LLRs of a valid word')
            for i in range(n):
                trace_case(c, H, [(1.5 + j / 9) * (1 - 2 * (b ^ (i == j))) for j, b in enumerate(w)], alg, 4)


def flip_case(c, p, R, word, flips, alg):
    """a shipped code corrects a single error, and the LLRs are those of message passing"""
    llr = [(5 + (i % 7) / 8) * (1 - 2 * (b ^ (i in flips))) for i, b in enumerate(word)]
    dec, out = decode(c, p, llr, alg, 20)
    dec, out = dec.tolist(), out.tolist()
    consistent(c, dec, out, 'flip')
    c.eq(dec, word, 'corrected word (errors at %s)' % (flips,))


def block_case(c, H, vecs, alg, it):
    """blocks decoded together equal the blocks decoded alone"""
    p = params(H)
    alone = [decode(c, p, v, alg, it) for v in vecs]
    dec, out = decode(c, p, [x for v in vecs for x in v], alg, it)
    c.true(dec.shape == out.shape == (len(H[0]), len(vecs)), 'shape of the result', dec.shape, out.shape)
    for j, (d, o) in enumerate(alone):
        c.eq(dec[:, j], d, 'block %d of %s' % (j, vecs))
        c.close(out[:, j], o, 1e-12, 'LLRs of block %d of %s' % (j, vecs))


def huge_case(c, H, llr, alg, T):
    """saturation: finite, decisions follow the signs, clipped first, caller untouched"""
    p = params(H)
    R = rows_of(H)
    for t in range(T + 1):
        dec, out = decode(c, p, llr, alg, t)
        consistent(c, dec.tolist(), out.tolist(), '%s limit %d of %s' % (alg, t, llr))
        if t == 0:
            c.close(out, [max(-500., min(500., x)) for x in llr], 0, 'clipped LLRs')
        elif alg == 'MSA':
            pass
    if alg == 'MSA':
        trace_case(c, H, llr, alg, T)


def name_case(c, H, llr, name, it):
    import numpy as np
    from commpy.channelcoding.ldpc import ldpc_bp_decode
    c.raises(NameError, ldpc_bp_decode, np.array(llr, float), params(H), name, it)


# ------------------------------------------------------------------ spaces
def vectors(ctx, H, alg, alphabet, T, first):
    for v in itertools.product(alphabet, repeat=len(H[0]) - len(first)):
        v = first + v
        ctx.case((H, v, alg, T), trace_case, H, v, alg, T)


def all_codes(ctx, r, n, alg, first, alphabet):
    for bits in itertools.product((0, 1), repeat=(r - 1) * n):
        H = (first,) + tuple(bits[i * n:(i + 1) * n] for i in range(r - 1))
        if all(map(any, H)):
            for v in itertools.product(alphabet, repeat=n):
                ctx.case((H, v, alg), trace_case, H, v, alg, 3)


def words(ctx, H, alg):
    ctx.case((H, alg, 'words'), words_case, H, alg)


def blocks(ctx, H, alg, vecs):
    for it in (0, 1, 2, 5):
        for pair in itertools.product(vecs, repeat=2):
            ctx.case((H, alg, pair, it), block_case, H, pair, alg, it)
    for tri in itertools.permutations(vecs[:5], 3):
        ctx.case((H, alg, tri), block_case, H, tri, alg, 3)


def huge(ctx, H, alg, alphabet):
    for v in itertools.product(alphabet, repeat=len(H[0])):
        ctx.case((H, alg, v, 'huge'), huge_case, H, v, alg, 3)


def names(ctx):
    for H, llr in ((H_REP3, (1, 1, 1)), (H_REP3, (1, -1, 1)), (H_HAM, (1,) * 7), (H_HAM, (-1,) * 6 + (1,))):
        for name in ('spa', 'BP', '', 'MSA ', None, 'SPAMSA'):
            for it in (0, 1, 4):
                ctx.case((H, llr, name, it), name_case, H, llr, name, it)


def shipped(ctx, rel, alg, part, parts, step, wkind):
    import os, commpy
    from commpy.channelcoding.ldpc import get_ldpc_code_params
    path = os.path.join(os.path.dirname(commpy.__file__), 'channelcoding', 'designs', 'ldpc', *rel.split('/'))
    with open(path) as f:
        q = parse_design(f.read())
    H = to_matrix(q['nc'], q['nv'], q['R'])
    G = solve_parity(H)
    word = [0] * q['nv']
    if wkind and G is not None:
        word = encode(G, [int(i % 5 in (0, 3)) for i in range(q['nv'] - q['nc'])])
    p = get_ldpc_code_params(path)
    for i in range(part * step, q['nv'], parts * step):
        ctx.case((rel, alg, i, wkind), flip_case, p, rows_of(H), word, (i,), alg)


def medium(ctx, r, n, num, den, seed, alg):
    """irregular codes of moderate size: every iteration against the model"""
    H = lcg_matrix(r, n, num, den, seed)
    g = lcg(seed + 99)
    for _ in range(6):
        v = tuple((next(g) % 41 - 14) / 8 for _ in range(n))
        ctx.case(('medium', r, n, seed, v, alg), trace_case, H, v, alg, 4)


A3 = (-1.5, .5, 2.)
A5 = (-2.5, -.5, 0., .75, 3.)
TINY = (-3e-7, 0., 1e-7, 5e-7)


def shards(tier):
    th = tier == 'thorough'
    out = [(names, ())]
    for alg in ('SPA', 'MSA'):
        for rel in ('gallager/96.33.964.txt', 'gallager/96.3.963.txt'):
            out += [(shipped, (rel, alg, i, 4, 1, w)) for i in range(4) for w in ((0, 1) if '33' in rel else (0,))]
        out += [(shipped, (rel, alg, i, 4, 37 if th else 160, 1)) for rel in ('wimax/1440.720.txt', 'wimax/960.720.a.txt') for i in range(4)]
        out += [(medium, (r, n, num, den, s, alg)) for r, n, num, den in ((6, 12, 1, 3), (10, 24, 1, 6), (20, 40, 1, 10), (4, 30, 1, 2)) for s in (1, 2)]
        for H in (H_SPC3, H_SPC5, H_REP3, H_CYC4, H_HAM, H_SING, H_TREE5, H_STAR5):
            out.append((words, (H, alg)))
        for H, alpha, T in ((H_SPC3, A5, 4), (H_REP3, A5, 4), (H_CYC6, A5, 4), (H_CYC4, A5, 4), (H_SING, A5, 4), (H_DEG1, A5, 4),
                            (H_SPC3, TINY, 4), (H_CYC4, TINY, 4), (H_TREE5, A3, 4), (H_STAR5, A3, 4), (H_FREE, A3, 4), (H_SPC5, A3, 4), (H_TREE6, A3, 4), (H_HAM, (-1.25, 2.), 4)):
            if th:
                alpha = alpha if alpha == TINY else A5 if alpha == A3 else (-1.25, 0., 2.) if len(alpha) == 2 else A5 + (-7.,)
                T += 4
            firsts = [(a, b) for a in alpha for b in alpha] if len(H[0]) > 4 else [(a,) for a in alpha]
            out += [(vectors, (H, alg, alpha, T, f)) for f in firsts]
        for r, n in ((2, 3),) + (((2, 4), (3, 3)) if th else ()):
            out += [(all_codes, (r, n, alg, f, A3)) for f in itertools.product((0, 1), repeat=n) if any(f)]
        vecs = [(1., 1., 1., 1.), (-1., 2., .5, 1.), (0., 0., 0., 0.), (-3., -3., 1., 2.), (.5, -.25, -.25, 6.), (600., -1., 2., 3.)]
        out += [(blocks, (H, alg, vecs)) for H in (H_CYC4, H_SING)]
        out.append((blocks, (H_HAM, alg, [v + (.5, -1., 2.) for v in vecs])))
        out += [(huge, (H, alg, a)) for H in (H_REP3, H_SPC3, H_CYC6) for a in ((-1e300, -500., -40., 0., 40., 700.), (-1e-300, 1e-9, 1e4, -30.))]
    return out
