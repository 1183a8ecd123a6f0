"""C17: mimo_ml and hard K-best against exhaustive minimisation and a reference beam."""
import itertools
from mc.refs_mimo import *

PID = 'C17'
RULE = ('all received vectors over a complex grid and all noiseless vectors x channels (square, tall, wide for exhaustive search, real, triangular, '
        'near-singular, ill-conditioned, rank-deficient) x constellations x K')
BOUNDS = dict(quick='grid of 9 values per antenna for 1-2 antennas, 4 for 3-4; all noiseless vectors up to 256 per channel; K in 1,2,3,4,7,16, all; element types and containers',
              thorough='16 values per antenna for 1-2 antennas, 9 for 3; all noiseless vectors up to 4096')
ASSUMPTIONS = ['K-best: no more columns than rows, full column rank (noiseless recovery)',
               'where a tie decides which candidates survive, only membership is checked']


def arr(H, dt=None):
    import numpy as np
    return np.array(H, dt)


def in_const(c, x, con, n, what):
    x = [complex(v) for v in x]
    c.eq(len(x), n, what + ': number of detected symbols')
    out = []
    for v in x:
        k = min(range(len(con)), key=lambda i: abs(con[i] - v))
        c.true(abs(con[k] - v) < 1e-9, what + ': not a constellation point', v)
        out.append(con[k])
    return tuple(out)


def ml_case(c, hn, cn, y):
    from commpy.modulation import mimo_ml
    H, con = CHANNELS[hn], CONSTS[cn]
    x = c.call(mimo_ml, arr(y), arr(H), arr(con))
    x = in_const(c, x, con, len(H[0]), 'ML')
    best = min(m for m, _ in all_metrics(y, H, con))
    c.true(dist2(y, H, x) <= best + 1e-9, 'ML vector is not the nearest:', y, x, best)
    return x


def kb_case(c, hn, cn, y, K, sent=None):
    from commpy.modulation import kbest
    H, con = CHANNELS[hn], CONSTS[cn]
    n = len(H[0])
    x = in_const(c, c.call(kbest, arr(y), arr(H), arr(con), K), con, n, 'K-best')
    if sent is not None:
        c.eq(list(x), list(sent), 'noiseless vector with K=%d' % K)
    d = dist2(y, H, x)
    if K >= len(con) ** n:
        best = min(m for m, _ in all_metrics(y, H, con))
        c.true(d <= best + 1e-9 * (1 + best), 'full-width K-best is not the minimiser:', y, x, d, best)
    surv = beam(y, H, con, K)
    if surv is not None:
        best = min(dist2(y, H, v) for _, v in surv)
        c.true(abs(d - best) <= 1e-8 * (1 + best), 'K-best with K=%d is not the best survivor of the beam:' % K, y, x, d, best)
    return x


def bad_case(c, hn, kind):
    from commpy.modulation import kbest
    H = arr(CHANNELS[hn])
    y = arr([1 + 1j] * H.shape[0])
    con = arr(CONSTS['q4'])
    if kind == 'wide':
        c.raises(ValueError, kbest, y, H, con, 4)
    else:
        c.raises(ValueError, kbest, y, H, con, 4, 1., kind)


def scale_case(c, hn, cn, y, K, sh, sc):
    """channel gains times sh, constellation times sc: the detected indexes do not depend on the units"""
    from commpy.modulation import kbest, mimo_ml
    H, con = CHANNELS[hn], CONSTS[cn]
    h, pts, v = arr([[sh * z for z in row] for row in H]), arr([sc * z for z in con]), arr([sh * sc * z for z in y])
    mets = all_metrics(y, H, con)
    best = min(m for m, _ in mets)
    x = in_const(c, [complex(z) / sc for z in c.call(mimo_ml, v, h, pts)], con, len(H[0]), 'ML')
    c.true(dist2(y, H, x) <= best + 1e-9, 'ML vector is not the nearest (units %g, %g):' % (sh, sc), y, x, best)
    if len(H[0]) <= len(H) and hn != 'rank1':
        surv = beam(y, H, con, K)
        if surv is not None:
            best = min(dist2(y, H, z) for _, z in surv)
            x = in_const(c, [complex(z) / sc for z in c.call(kbest, v, h, pts, K)], con, len(H[0]), 'K-best')
            d = dist2(y, H, x)
            c.true(abs(d - best) <= 1e-8 * (1 + best), 'K-best with K=%d is not the best survivor (units %g, %g):' % (K, sh, sc), y, x, d, best)


def scales(ctx, hn, cn):
    for y in received(len(CHANNELS[hn]), AX3):
        for K in (1, 3, 64):
            for sh, sc in ((1e-9, 1.), (1., 1e-8), (1e6, 1e6), (1e5, 1e-9), (1e-5, 1e-5)):
                ctx.case(('scale', hn, cn, y, K, sh, sc), scale_case, hn, cn, y, K, sh, sc)


FORMS = {'bpsk': ('int64', 'float32', 'float64', 'complex64', 'complex128', list, tuple), 'pam4': ('int8', 'float32', list),
         'q4': ('complex64', 'complex128', list, tuple), 'psk4': ('complex64', list), 'odd4': ('complex64', list)}


def form_case(c, hn, cn, form, sig, x, K):
    """constellations and signals in other element types and containers: noiseless vectors are found"""
    from commpy.modulation import kbest, mimo_ml
    H, con = CHANNELS[hn], CONSTS[cn]
    pts = form(con) if callable(form) else arr(con, form)
    y, h = arr(mv(H, x), sig), arr(H, sig)
    for what, got in (('ML', c.call(mimo_ml, y, h, pts)), ('K-best', c.call(kbest, y, h, pts, K))):
        c.close(got, [complex(v) for v in x], 1e-5, '%s, constellation %s, signals %s' % (what, form, sig))


def forms(ctx, cn):
    for hn in ('1x1', '2x1', 'eye2', 'cplx2', 'real2', '3x2', 'real3x2'):
        H, con = CHANNELS[hn], CONSTS[cn]
        for form in FORMS[cn]:
            for sig in ('complex64', 'complex128') + (('float64', 'float32') if hn in ('eye2', 'real2', 'real3x2') and cn in ('bpsk', 'pam4') else ()):
                for x in itertools.product(con, repeat=len(H[0])):
                    for K in (1, 2, 64):
                        ctx.case(('form', hn, cn, str(form), sig, x, K), form_case, hn, cn, form, sig, x, K)


def ml_grid(ctx, hn, cn, axis):
    H = CHANNELS[hn]
    for y in received(len(H), axis):
        ctx.case(('ml', hn, cn, y), ml_case, hn, cn, y)


def kb_grid(ctx, hn, cn, axis, Ks):
    H, con = CHANNELS[hn], CONSTS[cn]
    for y in received(len(H), axis):
        for K in Ks:
            ctx.case(('kb', hn, cn, y, K), kb_case, hn, cn, y, K)


def noiseless(ctx, hn, cn, Ks, ml, step):
    H, con = CHANNELS[hn], CONSTS[cn]
    for x in list(itertools.product(con, repeat=len(H[0])))[::step]:
        y = tuple(complex(v) for v in mv(H, x))
        if ml:
            ctx.case(('ml', hn, cn, y), ml_case, hn, cn, y)
        for K in Ks:
            ctx.case(('kb0', hn, cn, x, K), kb_case, hn, cn, y, K, x)


def bad(ctx):
    for hn in ('1x2', '2x3'):
        ctx.case((hn, 'wide'), bad_case, hn, 'wide')
    for hn in ('eye2', '3x2', '1x1'):
        for kind in ('HARD', 'llr', '', None):
            ctx.case((hn, kind), bad_case, hn, kind)


def ill_grid(ctx, hn, cn, axis, Ks):
    """ill-conditioned channels, real and imaginary grids: the best vector may look bad on its first layers"""
    H = CHANNELS[hn]
    for re in itertools.product(axis, repeat=len(H)):
        for y in (re,) if cn in ('bpsk', 'pam4') else (tuple(complex(a, 0) for a in re), tuple(complex(a, b) for a, b in zip(re, reversed(re)))):
            for K in Ks:
                ctx.case(('ill', hn, cn, y, K), kb_case, hn, cn, y, K)


AX3 = (-1.4, .3, 2.1)
AX4 = (-3., -1.2, .25, 1.9)


def shards(tier):
    th = tier == 'thorough'
    out = [(scales, (hn, cn)) for hn in ('1x1', '2x1', 'real2', 'cplx2') for cn in ('pam4', 'odd4')] + [(bad, ())] + [(forms, (cn,)) for cn in FORMS]
    ax = tuple(k * .8 - 4 for k in range(11)) if th else tuple(k * 1.6 - 4 for k in range(6))
    for hn, cn, Ks in (('ill3', 'pam4', (1, 4, 15, 16, 64)), ('ill3', 'q4', (4, 16, 64)), ('ill3c', 'q4', (4, 16, 64)), ('ill4', 'bpsk', (2, 4, 8, 16)), ('near2', 'pam4', (3, 4, 16))):
        out += [(ill_grid, (hn, cn, tuple(a * (1 if cn == 'pam4' else .6) for a in (ax if len(CHANNELS[hn]) < 4 else ax[::2])), (K,))) for K in Ks]
    for hn, H in CHANNELS.items():
        nr, nt = len(H), len(H[0])
        for cn, con in CONSTS.items():
            m = len(con) ** nt
            if m > 4096 or (m > 600 and not th):
                continue
            axis = (AX4 if th else AX3) if nr <= 2 else (AX3 if nr == 3 and th else (-1.1, .6))
            if nr >= 3 and m > 64 and not th:
                axis = (.4,)
            out.append((ml_grid, (hn, cn, axis)))
            if nt <= nr and hn != 'rank1':
                Ks = (1, 2, 3, 4, 7, 16, m, m + 5)
                Ks = sorted({k for k in Ks if k <= m + 5})
                if m > 60 and not th:
                    Ks = [k for k in Ks if k in (1, 3, 16, m)]
                out.append((kb_grid, (hn, cn, axis, tuple(Ks))))
                out.append((noiseless, (hn, cn, tuple(Ks), True, 1 if th or m <= 64 else 3)))
    return out
