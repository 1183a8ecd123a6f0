"""C21: pulse-shaping filters against their closed forms in exact/stable arithmetic."""
import math
from fractions import Fraction as F

PID = 'C21'
RULE = ('every (tap count, roll-off, symbol period, sampling rate) of a grid that hits and narrowly misses the singular times: every tap against the closed '
        'form evaluated from the exact rational value of the float parameters in a form without the singularities')
BOUNDS = dict(quick='tap counts 0-16, 20, 21, 24, 31-33, 41, 64, 65, 101, 128; 18 roll-offs; 7 periods; 14 sampling rates', thorough='tap counts 0-80, 128, 255, 256, 513; 40 roll-offs')
ASSUMPTIONS = ['time axis (n - N/2)/Fs as generated by the library for odd and even N']

ALPHAS = [0, 0., 1, 1., .1, .2, .22, .25, .3, 1 / 3, .35, .4, .5, .6, .7, .75, .8, .9]
MORE = [i / 32 for i in range(1, 32, 2)] + [.05, .15, .45, .55, .65, .85, .95, 2 / 3, 1e-3, .999]
PERIODS = [1, 2, .5, 1e-3, 3.69e-6, 1 / 3, .7]
RATES = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 2.5, 1.2, 24]


def sinpi(z):
    """sin(pi z) for a Fraction"""
    z = z % 2
    s = 1
    if z >= 1:
        z, s = z - 1, -1
    if z > F(1, 2):
        z = 1 - z
    return s * (math.sin(math.pi * float(z)) if z < F(1, 4) else math.cos(math.pi * float(F(1, 2) - z)))


def cospi(z):
    return sinpi(z + F(1, 2))


def sinc(z):
    return 1. if z == 0 else sinpi(z) / (math.pi * float(z))


def rc(x, a):
    """raised cosine at x symbol periods; cos(pi y)/(1-4y^2) = (pi/2) sinc(e/2)/(1+2y) with e = 1-2y"""
    y = a * abs(x)
    e = 1 - 2 * y
    return sinc(x) * (math.pi / 2) * sinc(e / 2) / float(1 + 2 * y)


def rrc(x, a):
    x = abs(x)
    if x == 0:
        return float(1 - a) + 4 * float(a) / math.pi
    w = 4 * a * x
    if abs(w - 1) > F(1, 2):
        return (sinpi(x * (1 - a)) + float(w) * cospi(x * (1 + a))) / (math.pi * float(x * (1 - w * w)))
    d = w - 1                                       # numerator/(1-w^2) with the factor d divided out
    t0 = x - F(1, 4)
    num = 2 * cospi(t0) * (math.pi / 4) * sinc(d / 4) + sinpi(t0 + d / 4)
    return num / float(2 + d) / (math.pi * float(x))


def design_case(c, fname, n, alpha, Ts, Fs):
    import numpy as np
    import commpy.filters as fl
    t, h = c.call(getattr(fl, fname), *((n, Ts, Fs) if alpha is None else (n, alpha, Ts, Fs)))
    c.true(len(t) == n and len(h) == n, 'number of taps', len(t), len(h), n)
    a, T, R = F(alpha or 0), F(Ts), F(Fs)
    for i in range(n):
        te = (i - F(n, 2)) / R
        c.close(t[i], float(te), 0, 'time of tap %d' % i, 1e-12)
        if fname == 'rectfilter':
            want = 1.
        elif fname == 'gaussianfilter':
            want = math.sqrt(math.pi) / float(a) * math.exp(-(math.pi * float(te / a)) ** 2)
        else:
            want = (rc if fname == 'rcosfilter' else rrc)(te / T, a)
        g = float(h[i])
        if not abs(g - want) <= 1e-7 + 1e-9 * abs(want):
            c.true(False, '%s tap %d at t/Ts=%s: got %r, expected %r' % (fname, i, float(te / T), g, want))
        m = n - i
        if 0 <= m < n and not abs(g - float(h[m])) <= 1e-7 + 1e-9 * abs(want):
            c.true(False, 'not symmetric', i, m)
        if fname == 'rcosfilter':
            x = te / T
            k = round(x)
            if k and abs(x - k) < F(1, 10 ** 12):
                c.true(abs(g) < 1e-7, 'raised cosine does not vanish at symbol time', k, g)
    return fname


def pair_case(c, alpha, Ts, over, span):
    """two root-raised-cosine filters in cascade make the raised cosine"""
    import numpy as np
    import commpy.filters as fl
    n = 2 * span * over
    Fs = over / Ts
    t, g = c.call(fl.rrcosfilter, n, alpha, Ts, Fs)
    _, h = c.call(fl.rcosfilter, n, alpha, Ts, Fs)
    full = np.convolve(g, g) / over                    # sample j is at time (j - n)/Fs
    mid = n // 2
    for k in range(-4 * over, 4 * over + 1):
        c.close(float(full[n + k]), float(h[mid + k]), 5e-3, 'cascade of two root-raised-cosine filters at sample %d' % k)


def designs(ctx, fname, alpha, Ts, taps):
    for over in RATES:
        for n in taps:
            Fs = over / Ts
            ctx.case((fname, n, alpha, Ts, Fs), design_case, fname, n, alpha, Ts, Fs)


def ints(ctx, fname, taps):
    """integer parameters, and singular times that are exact in floating point"""
    for alpha in (0, 1, .5, .25, .125):
        for Ts, Fs in ((1, 1), (1, 4), (2, 1), (4, 2), (8, 1), (1, 16)):
            for n in taps:
                ctx.case(('int', fname, n, alpha, Ts, Fs), design_case, fname, n, alpha, Ts, Fs)


def pairs(ctx, alpha):
    for Ts in (1, .5, 1e-3):
        for over in (2, 4, 5):
            ctx.case(('cascade', alpha, Ts, over), pair_case, alpha, Ts, over, 40)


def shards(tier):
    th = tier == 'thorough'
    taps = list(range(81)) + [128, 255, 256, 513] if th else list(range(17)) + [20, 21, 24, 31, 32, 33, 41, 64, 65, 101, 128]
    out = []
    for T in PERIODS:
        for a in ALPHAS + (MORE if th else []):
            out += [(designs, (f, a, T, taps)) for f in ('rcosfilter', 'rrcosfilter')]
        for a in [.1, .5, 1, 2.5]:
            out += [(designs, ('gaussianfilter', a, T, taps[:20] + [64]))]
        out += [(designs, ('rectfilter', None, T, taps[:20] + [64]))]
    out += [(ints, (f, taps)) for f in ('rcosfilter', 'rrcosfilter')]
    return out + [(pairs, (a,)) for a in (.25, .3, .5, .75, 1, 1.)]
