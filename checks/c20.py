"""C20: Zadoff-Chu sequences."""
import cmath, math

PID = 'C20'
RULE = ('every length x every root 1..N-1 x shifts (negative and beyond the length included): each sample against the formula with exact integer phase, '
        'modulus, every cyclic autocorrelation lag; refused parameters')
BOUNDS = dict(quick='lengths 2-41 all roots, 9 shifts; long primes/powers of two up to 1031 with several roots', thorough='lengths 2-97, 139, 256, 839, 1031')
ASSUMPTIONS = ['the shift of documented index offset: phase pi*u*n*(n+cf+2q)/N']


def phase_seq(u, N, q):
    """exp(-j pi u n (n + cf + 2q) / N) with the phase reduced exactly in integers"""
    cf = N % 2
    tab = [cmath.exp(-1j * math.pi * k / N) for k in range(2 * N)]
    return [tab[u * n * (n + cf + 2 * q) % (2 * N)] for n in range(N)]


def zc_case(c, u, N, q, lags):
    import numpy as np
    from commpy.sequences import zcsequence
    z = c.call(zcsequence, u, N) if q is None else c.call(zcsequence, u, N, q)
    want = phase_seq(u, N, q or 0)
    tol = 1e-9 * max(1, N * N / 1000.)
    c.true(z.shape == (N,), 'length', z.shape)
    c.close(z, want, tol, 'Zadoff-Chu sequence')
    c.close(np.abs(z), [1.] * N, 1e-12, 'modulus')
    for lag in (range(1, N) if lags else (1, 2, N // 2, N - 1)):
        if lag < N:
            r = abs(np.vdot(z, np.roll(z, lag)))
            c.true(r < 1e-8 * N + tol * N, 'autocorrelation at lag', lag, r)
    return 'q=%s' % q


def bad_case(c, u, N, q):
    from commpy.sequences import zcsequence
    c.raises(ValueError, zcsequence, u, N, q)


def length(ctx, N, shifts, lags):
    for u in range(1, N):
        for q in shifts:
            if math.gcd(u, N) == 1:
                ctx.case((u, N, q), zc_case, u, N, q, lags)
            else:
                ctx.case((u, N, q), bad_case, u, N, q or 0)


def longs(ctx, N):
    for u in [1, 2, 3, 5, 7, 25, 29, 34, N // 2, N - 2, N - 1]:
        for q in (None, 1, N // 3):
            if 0 < u < N:
                if math.gcd(u, N) == 1:
                    ctx.case((u, N, q), zc_case, u, N, q, False)
                else:
                    ctx.case((u, N, q), bad_case, u, N, q or 0)


def bads(ctx):
    for N in range(1, 21):
        for u in [-N - 1, -N, -2, -1, 0, N, N + 1, 2 * N, 2 * N + 1]:
            for q in (0, 1, -1):
                ctx.case(('range', u, N, q), bad_case, u, N, q)
        for u, n, q in ((.5, N, 0), (1.5, N, 0), (1, N + .5, 0), (1, N + .25, 1), (1, N, .5), (1, N, -1.25), (1.0000001, N, 0)):
            ctx.case(('real', u, n, q), bad_case, u, n, q)


def shards(tier):
    top = 97 if tier == 'thorough' else 41
    return [(length, (N, (None, 0, 1, 2, -1, 5, N - 1, N, 3 * N + 1), True)) for N in range(top, 1, -1)] + \
           [(longs, (N,)) for N in (63, 64, 100, 113, 127, 128, 139, 256, 353, 839, 1024, 1031)] + [(bads, ())]
