"""C18: soft MIMO outputs against the max-log formula over the exact candidate set; bit-level model against the symbol model."""
import itertools, math
from mc.refs_mimo import *

PID = 'C18'
RULE = ('all received vectors over a grid and all noiseless vectors x channels x constellations x K (soft K-best), all candidate lists of a small '
        'alphabet (max-log), full stacks (best-first), all sign vectors (bit-level model)')
BOUNDS = dict(quick='received grids of 9 values per antenna (1-2 antennas) or 4 (3-4); K in 1,2,3,5,16, all; up to 512 candidates; candidate lists of '
                    'up to 3 of 16 points and all 15 subsets; sign vectors up to 2^8',
              thorough='grids of 16 values; lists of up to 4 points; sign vectors up to 2^12')
ASSUMPTIONS = ['no more columns than rows, full column rank; positive noise variance; at least two transmit antennas and stacks holding every node '
               'for the best-first detector, whose magnitudes are only bounded', 'candidate sets decided by ties are not compared']


def arr(H, dt=None):
    import numpy as np
    return np.array(H, dt)


def nbits(con):
    return len(con).bit_length() - 1


def label(con, x):
    n = nbits(con)
    return [(con.index(v) >> (n - 1 - j)) & 1 for v in x for j in range(n)]


def demode(cn):
    """a modulator-order demapper built on the real modem"""
    from commpy.modulation import Modem
    md = Modem(CONSTS[cn], False)
    return lambda p: md.demodulate(p, 'hard')


def maxlog(cands, con, nv):
    """cands: list of (metric, vector)"""
    nb = len(label(con, cands[0][1]))
    out = []
    for k in range(nb):
        m = [min([d for d, x in cands if label(con, x)[k] == b], default=math.inf) for b in (0, 1)]
        out.append((m[1] - m[0]) / (2 * nv) if not math.isinf(m[0]) or not math.isinf(m[1]) else math.nan)
    return out


def compare(c, got, want, scale, what):
    c.eq(len(got), len(want), what + ': number of LLRs')
    for g, w in zip(got, want):
        if math.isinf(w):
            c.true(g == w, what + ': LLR', got, want)
        else:
            c.true(abs(g - w) <= 1e-8 * (scale + abs(w)), what + ': LLR', got, want)


def kb_case(c, hn, cn, y, K, nv):
    from commpy.modulation import kbest
    H, con = CHANNELS[hn], CONSTS[cn]
    if K >= len(con) ** len(H[0]):
        surv = all_metrics(y, H, con)
    else:
        b = beam(y, H, con, K)
        if b is None:
            return 'tie'
        surv = [(dist2(y, H, x), x) for _, x in b]
    got = c.call(kbest, arr(y), arr(H), arr(con), K, nv, 'soft', demode(cn)).tolist()
    big = max(m for m, _ in surv)
    compare(c, got, maxlog(surv, con, nv), (1 + big) / nv, 'soft K-best, K=%d' % K)
    # the hard output carries the same signs
    best = min(m for m, _ in surv)
    near = [x for m, x in surv if m <= best + 1e-7 * (1 + big)]
    if len(near) == 1:
        for g, b in zip(got, label(con, near[0])):
            c.true((g < 0) == b, 'sign of an LLR differs from the best candidate', got, near)
        return 'signs'
    return 'near tie'


def scale_case(c, hn, cn, y, K, nv, sh, sc):
    """channel gains times sh, constellation times sc, noise likewise: same LLRs"""
    from commpy.modulation import kbest, max_log_approx, Modem
    H, con = CHANNELS[hn], CONSTS[cn]
    h, pts, v = arr([[sh * z for z in row] for row in H]), arr([sc * z for z in con]), arr([sh * sc * z for z in y])
    md = Modem(pts, False)
    dem = lambda p: md.demodulate(p, 'hard')
    b = beam(y, H, con, K)
    if b is not None:
        surv = [(dist2(y, H, x), x) for _, x in b]
        got = c.call(kbest, v, h, pts, K, nv * (sh * sc) ** 2, 'soft', dem).tolist()
        compare(c, got, maxlog(surv, con, nv), (1 + max(m for m, _ in surv)) / nv, 'soft K-best, K=%d, units %g and %g' % (K, sh, sc))
    mets = all_metrics(y, H, con)
    got = c.call(max_log_approx, v, h, nv * (sh * sc) ** 2, arr([[sc * z for z in col] for col in zip(*(x for _, x in mets))]), dem).tolist()
    compare(c, got, maxlog(mets, con, nv), (1 + max(m for m, _ in mets)) / nv, 'max-log, units %g and %g' % (sh, sc))


def scales(ctx, hn, cn):
    for y in received(len(CHANNELS[hn]), AX3):
        for K in (1, 3, 64):
            for sh, sc in ((1e-9, 1.), (1., 1e-8), (1e6, 1e6), (1e5, 1e-9), (1e-5, 1e-5)):
                ctx.case(('scale', hn, cn, y, K, sh, sc), scale_case, hn, cn, y, K, .4, sh, sc)


def ml_case(c, hn, cn, y, pts, nv):
    """max_log_approx on an explicit candidate list"""
    from commpy.modulation import max_log_approx
    H, con = CHANNELS[hn], CONSTS[cn]
    P = arr([list(col) for col in zip(*pts)])
    got = c.call(max_log_approx, arr(y), arr(H), nv, P, demode(cn)).tolist()
    cands = [(dist2(y, H, x), x) for x in pts]
    compare(c, got, maxlog(cands, con, nv), (1 + max(m for m, _ in cands)) / nv, 'max-log over %d candidates' % len(pts))


def bf_case(c, hn, cn, y, llr_max, nv, sent=None, stack=None):
    from commpy.modulation import best_first_detector
    H, con = CHANNELS[hn], CONSTS[cn]
    n, m = len(H[0]), len(con)
    got = c.call(best_first_detector, arr(y), arr(H), arr(con), (stack or m ** n,) * (n - 1), nv, demode(cn), llr_max).tolist()
    c.eq(len(got), n * nbits(con), 'number of LLRs')
    for g in got:
        c.true(abs(g) <= llr_max * (1 + 1e-9) + 1e-9, 'LLR beyond the maximum', got, llr_max)
    allm = sorted(all_metrics(y, H, con), key=lambda t: t[0])
    if sent is not None:
        want = sent
    elif allm[1][0] - allm[0][0] > 1e-7 * (1 + allm[-1][0]):
        want = allm[0][1]
    else:
        return 'tie'
    for g, b in zip(got, label(con, want)):
        c.true((g < 0) if b else (g > 0), 'sign differs from the maximum-likelihood vector', got, want)
    return 'signs'


def bit_case(c, hn, w, signs):
    """H (w-weighted bits) == A bits"""
    from commpy.modulation import bit_lvl_repr
    H = CHANNELS[hn]
    n, beta = len(H[0]), len(w)
    A = c.call(bit_lvl_repr, arr(H), arr(w))
    c.true(A.shape == (len(H), n * beta), 'shape of the bit-level matrix', A.shape)
    A = A.tolist()
    for b in signs:
        s = [sum(w[k] * b[i * beta + k] for k in range(beta)) for i in range(n)]
        c.step()
        c.close(mv(A, b), mv(H, s), 1e-9, 'bit-level channel for %s' % (b,))


def odd_case(c, hn, beta):
    from commpy.modulation import bit_lvl_repr
    c.raises(ValueError, bit_lvl_repr, arr(CHANNELS[hn]), arr([1.] * beta))


def kb_grid(ctx, hn, cn, axis, Ks, nvs):
    for y in received(len(CHANNELS[hn]), axis):
        for K in Ks:
            for nv in nvs:
                ctx.case(('kb', hn, cn, y, K, nv), kb_case, hn, cn, y, K, nv)


def bf_grid(ctx, hn, cn, axis, step):
    H, con = CHANNELS[hn], CONSTS[cn]
    for y in received(len(H), axis):
        for lm in (.5, 10., 1e3):
            ctx.case(('bf', hn, cn, y, lm), bf_case, hn, cn, y, lm, .5)
    for x in list(itertools.product(con, repeat=len(H[0])))[::step]:
        y = tuple(complex(v) for v in mv(H, x))
        for stack in (None, 1, 2):
            ctx.case(('bf0', hn, cn, x, stack), bf_case, hn, cn, y, 50., .1, x, stack)


def lists(ctx, hn, cn, ys, top):
    H, con = CHANNELS[hn], CONSTS[cn]
    pts = list(itertools.product(con, repeat=len(H[0])))
    if len(pts) > 16:
        pts = pts[:: max(1, len(pts) // 12)]
    for y in ys:
        y = y[:len(H)]
        for r in range(1, top + 1):
            for sub in itertools.product(pts, repeat=r) if r < 3 else itertools.combinations(pts, r):
                ctx.case(('ml', hn, cn, y, sub), ml_case, hn, cn, y, sub, .7)
        if len(pts) <= 4:
            for r in range(1, len(pts) + 1):
                for sub in itertools.combinations(pts, r):
                    for nv in (1e-3, 1., 40.):
                        ctx.case(('mls', hn, cn, y, sub, nv), ml_case, hn, cn, y, sub, nv)


def bits(ctx, hn, w, top):
    n = len(CHANNELS[hn][0]) * len(w)
    if n <= top:
        ctx.case(('bits', hn, w), bit_case, hn, w, list(itertools.product((-1, 1), repeat=n)))
    else:
        ctx.case(('bits', hn, w), bit_case, hn, w, [[1 if i != j else -1 for i in range(n)] for j in range(n)] + [[1] * n])


def odd(ctx):
    for hn in CHANNELS:
        for beta in (1, 3, 5):
            ctx.case(('odd', hn, beta), odd_case, hn, beta)


AX3 = (-1.4, .3, 2.1)
AX4 = (-3., -1.2, .25, 1.9)
WEIGHTS = [(1., 1j), (2., 1., 2j, 1j), (.5 + .1j, -1j), (3, 4), (-1., .25, 1j, .125j), (1, 2, 4, 8, 1j, 2j)]
YS = [(.3 + .1j, -1.1j, .7, -2 + 1j), (0j, 0j, 0j, 0j), (5 - 4j, -6 + .5j, 1j, 2.)]


def shards(tier):
    th = tier == 'thorough'
    out = [(odd, ())] + [(scales, (hn, cn)) for hn in ('1x1', '2x1', 'real2', 'cplx2') for cn in ('pam4', 'odd4')]
    for hn, H in CHANNELS.items():
        nr, nt = len(H), len(H[0])
        out += [(bits, (hn, w, 12 if th else 8)) for w in WEIGHTS]
        if nt > nr or hn == 'rank1':
            continue
        for cn, con in CONSTS.items():
            m = len(con) ** nt
            if m > 600:
                continue
            axis = (AX4 if th else AX3) if nr <= 2 else (-1.1, .6)
            if nr >= 3 and m > 64 and not th:
                axis = (.4,)
            if nr >= 4:
                axis = (-1.1, .6) if m <= 16 and th else (.6,)
            Ks = sorted({k for k in (1, 2, 3, 5, 16, m) if k <= m})
            if m > 60:
                Ks = [k for k in Ks if k in (1, 5, 16)] + ([m] if nr < 3 or th else [])
                axis = axis[1:] or axis
            out.append((kb_grid, (hn, cn, axis, tuple(Ks), (.3,))))
            out.append((kb_grid, (hn, cn, axis[:1], tuple(Ks), (1e-4, 25.))))
            if nt >= 2:
                out.append((bf_grid, (hn, cn, axis, 1 if th or m <= 64 else 3)))
            if m <= 64 and nr <= 3 and (th or cn in ('bpsk', 'q4', 'odd4', 'psk8') or hn in ('cplx2', '3x2')):
                out.append((lists, (hn, cn, YS, 4 if th else 3)))
    return out
