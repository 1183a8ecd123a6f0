"""C24: fading parameters: validation, atomicity, presets, and the exact mean/covariance of the generated gains."""
import itertools, math, cmath
from mc.refs_chan import *

PID = 'C24'
RULE = ('every history of valid and refused fading assignments/presets up to a depth; every preset x antenna configuration x parameters: the gains are run on '
        'the all-zero generator tape and on every one-hot tape, which gives their mean, covariance and pseudo-covariance exactly')
BOUNDS = dict(quick='antennas up to 4x4 and 6x2, 5x5; 12 correlation coefficients; betas 0, .5, 2; K-factors 0, .5, 1, 10; histories of 17 operations to depth 3',
              thorough='antennas up to 8x8; histories to depth 4')
ASSUMPTIONS = ['gains are linear in the normal draws of the global NumPy generator (checked on superpositions)',
               'energies within 1e-9 of one are accepted, further than 1e-2 refused; nothing is claimed in between',
               'Kronecker model: E[h_il conj(h_jm)] = Rr_ij Rt_lm']

ANT = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 4), (6, 2), (5, 5)]


def mk(nr, nt, f):
    import numpy as np
    return np.array([[f(i, l) for l in range(nt)] for i in range(nr)])


def los(nr, nt, cplx):
    return mk(nr, nt, lambda i, l: (1 + .3 * i - .2 * l) * (cmath.exp(1j * (i - .4 * l)) if cplx else (-1) ** (i + l)))


def tape_gains(ch, msg, values):
    with Tape(values) as t:
        ch.propagate(msg)
    return ch.channel_gains, t.pos


def check_stats(c, ch, nt, nr, mean, Rt, Rr, cplx, siso=False):
    """mean, covariance and pseudo-covariance of the gains of two message vectors"""
    import numpy as np
    nv = 2
    msg = np.zeros(nv * nt, complex if cplx else float)
    ch.noise_std = 0
    G0, draws = tape_gains(ch, msg, {})
    if draws == 0:
        return 'generator not reached'
    shape = (nv,) if siso else (nv, nr, nt)
    c.true(np.shape(G0) == shape, 'shape of the gains', np.shape(G0))
    G0 = np.array(G0, complex).reshape(nv, -1)
    c.close(G0, [[complex(v) for v in np.ravel(mean)]] * nv, 1e-9, 'mean of the gains')
    R = []
    for k in range(draws):
        g, _ = tape_gains(ch, msg, {k: 1.})
        R.append((np.array(g, complex).reshape(nv, -1) - G0).ravel())
    R = np.array(R)
    cov = R.T.dot(R.conj())
    pse = R.T.dot(R)
    one = np.kron(Rr, Rt)                               # index i*nt+l
    want = np.kron(np.eye(nv), one)
    c.true(np.abs(cov - want).max() < 1e-7, 'covariance of the gains', np.round(cov, 4).tolist(), np.round(want, 4).tolist())
    if cplx and not np.iscomplexobj(one):
        c.true(np.abs(pse).max() < 1e-7, 'pseudo-covariance of complex gains', np.round(pse, 4).tolist())
    elif cplx:
        c.true(np.abs(pse).max() < 1e-7, 'pseudo-covariance of complex gains', np.round(pse, 4).tolist())
    a, b = draws // 3, draws - 1
    g, _ = tape_gains(ch, msg, {a: 2., b: -1.5} if a != b else {a: .5})
    g = (np.array(g, complex).reshape(nv, -1) - G0).ravel()
    lin = 2. * R[a] - 1.5 * R[b] if a != b else .5 * R[a]
    c.true(np.abs(g - lin).max() < 1e-9, 'gains are not linear in the draws')
    c.step(draws)
    return 'stats'


def same_param(c, ch, mean, Rt, Rr, cplx, what):
    import numpy as np
    p = ch.fading_param
    c.true(np.shape(p[0]) == np.shape(mean) and np.abs(p[0] - mean).max() < 1e-9, what + ': mean', np.asarray(p[0]).tolist(), np.asarray(mean).tolist())
    got, want = np.kron(p[1], p[2]), np.kron(Rt, Rr)
    c.true(np.abs(got - want).max() < 1e-9, what + ': correlation', np.round(got, 4).tolist(), np.round(want, 4).tolist())
    c.true(bool(ch.isComplex) == cplx, what + ': isComplex', ch.isComplex)


def expo(n, t, beta):
    return mk(n, n, lambda i, j: t ** (j - i) * math.exp(-beta * abs(i - j)))


def rician(mean, k):
    import numpy as np
    n = mean.size
    nlos = n / (k + 1.)
    return mean * math.sqrt(k * nlos / (np.abs(mean) ** 2).sum()), nlos / n


def preset(name, nt, nr, args):
    """-> call arguments, expected mean, Rt, Rr, complex"""
    import numpy as np
    It, Ir = np.identity(nt), np.identity(nr)
    if name == 'uncorr_rayleigh_fading':
        dt = np.dtype(args[0])
        return (dt.type if args[0] not in ('complex', 'float') else {'complex': complex, 'float': float}[args[0]],), np.zeros((nr, nt)), It, Ir, dt.kind == 'c'
    if name == 'uncorr_rician_fading':
        cplx, k = args
        m = los(nr, nt, cplx)
        mean, f = rician(m, k)
        return (m, k), mean, It * f, Ir, cplx
    if name == 'expo_corr_rayleigh_fading':
        t, r, bt, br = args
        a = (t, r) if bt is None else (t, r, bt, br)
        return a, np.zeros((nr, nt)), expo(nt, t, bt or 0), expo(nr, r, br or 0), True
    if name == 'expo_corr_rician_fading':
        k, t, r, bt, br = args
        m = los(nr, nt, True)
        mean, f = rician(m, k)
        a = (m, k, t, r) if bt is None else (m, k, t, r, bt, br)
        return a, mean, expo(nt, t, bt or 0) * f, expo(nr, r, br or 0), True


def preset_case(c, nt, nr, name, args):
    import numpy as np
    from commpy.channels import MIMOFlatChannel
    ch = MIMOFlatChannel(nt, nr)
    a, mean, Rt, Rr, cplx = preset(name, nt, nr, args)
    c.call(getattr(ch, name), *a)
    same_param(c, ch, mean, Rt, Rr, cplx, name)
    if name != 'uncorr_rayleigh_fading':
        k = args[1] if name == 'uncorr_rician_fading' else args[0] if 'rician' in name else 0
        c.close(float(ch.k_factor), float(k), 1e-9, 'k_factor')
    else:
        c.close(float(ch.k_factor), 0., 1e-12, 'k_factor')
    return check_stats(c, ch, nt, nr, mean, Rt, Rr, cplx)


def direct_case(c, nt, nr, kind):
    """correlation matrices given directly: full, singular, scaled, complex ones with a real mean"""
    import numpy as np
    from commpy.channels import MIMOFlatChannel
    It, Ir = np.identity(nt), np.identity(nr)
    Z = np.zeros((nr, nt))
    m = los(nr, nt, False)
    m = m / math.sqrt((m ** 2).sum() / (nt * nr))
    mean, Rt, Rr, cplx = {
        'ones': (Z, np.ones((nt, nt)), np.ones((nr, nr)), False),
        'onesC': (Z + 0j, np.ones((nt, nt)), np.ones((nr, nr)), True),
        'alt': (Z, mk(nt, nt, lambda i, j: (-1.) ** (i - j)), Ir, False),
        'los': (m, np.zeros((nt, nt)), Ir, False),
        'losC': (m * 1j, It, np.zeros((nr, nr)), True),
        'mixed': (m * .5, expo(nt, cmath.exp(.7j), .3) * .75, Ir, True),
        'mixedR': (m * .5, It * .75, expo(nr, 1j, 0), True),
        'dense': (m * .6, mk(nt, nt, lambda i, j: .5 ** abs(i - j)) * .64, mk(nr, nr, lambda i, j: .2 + .8 * (i == j)), False),
        'unbalanced': (Z, np.diag([2. * (i + 1) / (nt + 1) for i in range(nt)]), np.diag([2. * (i + 1) / (nr + 1) for i in range(nr)]), False),
        'scaled': (Z + 0j, It * 4, Ir / 4, True),
    }[kind]
    ch = MIMOFlatChannel(nt, nr)
    ch.fading_param = (mean, Rt, Rr)
    same_param(c, ch, mean, Rt, Rr, cplx, 'assignment')
    lo = (np.abs(mean) ** 2).sum()
    nlo = nt * nr - lo
    c.true(abs(nlo) < 1e-9 and ch.k_factor > 1e9 or abs(ch.k_factor - lo / nlo) < 1e-9, 'k_factor', ch.k_factor)
    r = check_stats(c, ch, nt, nr, mean, Rt, Rr, cplx)
    ch2 = MIMOFlatChannel(nt, nr, None, (mean, Rt, Rr))
    same_param(c, ch2, mean, Rt, Rr, cplx, 'constructor')
    return r


def siso_case(c, p0, p1):
    import numpy as np
    from commpy.channels import SISOFlatChannel
    e = abs(p1) + abs(p0) ** 2
    old = (.6 + 0j, .64)
    if abs(e - 1) > 1e-2 or e != e or p1 < -1e-2:
        c.raises(ValueError, SISOFlatChannel, None, (p0, p1))
        ch = SISOFlatChannel(0., old)
        c.raises(ValueError, setattr, ch, 'fading_param', (p0, p1))
        p0, p1 = old
    elif abs(e - 1) > 1e-9 or p1 < -1e-9:
        return 'border'
    else:
        ch = SISOFlatChannel(0., (p0, p1))
        ch2 = SISOFlatChannel(0., old)
        ch2.fading_param = (p0, p1)
        ch = [ch, ch2][int(abs(p0) * 64) % 2]
    cplx = isinstance(p0, (complex, np.complexfloating))
    c.true(ch.fading_param[0] == p0 and ch.fading_param[1] == p1, 'fading_param', ch.fading_param)
    c.true(bool(ch.isComplex) == cplx, 'isComplex', ch.isComplex)
    if p1 > 1e-9:
        c.close(float(ch.k_factor), abs(p0) ** 2 / p1, 1e-9, 'k_factor')
    return check_stats(c, ch, 1, 1, [[complex(p0)]], np.array([[1.]]), np.array([[max(0., float(p1))]]), cplx, True)


def gain_case(c, nt, nr, a, b, d, cplx):
    """MIMO energy: mean scaled by a, transmit correlation by b, receive correlation by d"""
    import numpy as np
    from commpy.channels import MIMOFlatChannel
    m = mk(nr, nt, lambda i, l: a * (cmath.exp(1j * (i + l)) if cplx else 1.))
    p = (m, np.identity(nt) * b, np.identity(nr) * d)
    e = (a * a + b * d) * nt * nr
    ch = MIMOFlatChannel(nt, nr)
    if e != e or abs(e - nt * nr) > 1e-2:
        c.raises(ValueError, setattr, ch, 'fading_param', p)
        c.raises(ValueError, MIMOFlatChannel, nt, nr, None, p)
        same_param(c, ch, np.zeros((nr, nt)), np.identity(nt), np.identity(nr), False, 'after a refusal')
        return 'refused'
    if abs(e - nt * nr) > 1e-9:
        return 'border'
    ch.fading_param = p
    same_param(c, ch, *p, cplx, 'assignment')
    return check_stats(c, ch, nt, nr, *p, cplx) if nt * nr <= 6 else 'accepted'


def specular_case(c, nt, nr, tt, dt, tr, dr):
    from commpy.channels import MIMOFlatChannel
    ch = MIMOFlatChannel(nt, nr)
    if dt < 0 or dr < 0:
        c.raises(ValueError, ch.specular_compo, tt, dt, tr, dr)
        return 'refused'
    H = c.call(ch.specular_compo, tt, dt, tr, dr)
    c.close(H, [[cmath.exp(2j * math.pi * (n * dr * math.cos(tr) - m * dt * math.cos(tt))) for m in range(nt)] for n in range(nr)], 1e-9, 'specular components')
    c.call(ch.uncorr_rician_fading, H, 3.)
    c.close(float(ch.k_factor), 3., 1e-9, 'k_factor with specular components')


def hist_ops(nt, nr):
    import numpy as np
    e = cmath.exp(.4j)
    It, Ir = np.identity(nt), np.identity(nr)
    good = [('uncorr_rayleigh_fading', ('float',)), ('uncorr_rayleigh_fading', ('complex',)), ('uncorr_rician_fading', (True, 2.)), ('uncorr_rician_fading', (False, 1)),
            ('expo_corr_rayleigh_fading', (e, 1j, None, None)), ('expo_corr_rayleigh_fading', (e, -1 + 0j, .5, 1.)), ('expo_corr_rician_fading', (4., 1j, e, None, None)),
            ('expo_corr_rician_fading', (.5, e, e, 1., 0.))]
    L = los(nr, nt, True)
    bad = [('expo_corr_rayleigh_fading', (.5, 1j)), ('expo_corr_rayleigh_fading', (1j, 1.2)), ('expo_corr_rayleigh_fading', (1j, 1j, -1, 0)), ('expo_corr_rayleigh_fading', (1j, 1j, 0, -.1)),
           ('expo_corr_rician_fading', (L, 2., .9, 1.)), ('expo_corr_rician_fading', (L, 2., 1j, 0j)), ('expo_corr_rician_fading', (L, 2., 1j, 1j, 1, -2)),
           ('fading_param', (L * 9, It, Ir)), ('fading_param', (L * 0, It * 1.1, Ir)), ('fading_param', (L * float('nan'), It, Ir))]
    return good, bad


def hist_case(c, nt, nr, hist):
    """hist: indices, non-negative = valid preset, negative = refused operation"""
    import numpy as np
    from commpy.channels import MIMOFlatChannel
    good, bad = hist_ops(nt, nr)
    ch = MIMOFlatChannel(nt, nr, 0.)
    state = (np.zeros((nr, nt)), np.identity(nt), np.identity(nr), False)
    for i in hist:
        if i >= 0:
            a, mean, Rt, Rr, cplx = preset(good[i][0], nt, nr, good[i][1])
            c.call(getattr(ch, good[i][0]), *a)
            state = (mean, Rt, Rr, cplx)
        else:
            name, a = bad[-1 - i]
            if name == 'fading_param':
                c.raises(ValueError, setattr, ch, name, a)
            else:
                c.raises(ValueError, getattr(ch, name), *a)
        same_param(c, ch, *state, 'after %s' % (hist,))
    return check_stats(c, ch, nt, nr, *state)


T = [1 + 0j, -1 + 0j, 1j, -1j, cmath.exp(-.2j * math.pi), cmath.exp(2j * math.pi / 3), cmath.exp(.3j), cmath.exp(3.1j), 1., -1, cmath.exp(1j) * (1 + 5e-5), cmath.exp(-2j), -1., 1]


def presets(ctx, nt, nr):
    for dt in ('float', 'complex', 'complex64', 'float32'):
        ctx.case((nt, nr, 'ray', dt), preset_case, nt, nr, 'uncorr_rayleigh_fading', (dt,))
    for cplx in (False, True):
        for k in (0, .5, 1, 10, 1000.):
            ctx.case((nt, nr, 'ric', cplx, k), preset_case, nt, nr, 'uncorr_rician_fading', (cplx, k))
    for i, t in enumerate(T):
        if i == 10:
            continue
        for j, r in enumerate(T):
            if j == 10 or (nt * nr > 9 and (i + j) % 3) or (max(i, j) > 11 and (min(i, j) not in (1, 7, 9) or nt * nr > 9)):
                continue
            for bt, br in ((None, None), (0, 0), (.5, 0), (0, 2.), (1, .5)):
                ctx.case((nt, nr, 'expo', t, r, bt, br), preset_case, nt, nr, 'expo_corr_rayleigh_fading', (t, r, bt, br))
                if (i + 2 * j) % 5 == 0:
                    for k in (0, .5, 10):
                        ctx.case((nt, nr, 'exporic', k, t, r, bt, br), preset_case, nt, nr, 'expo_corr_rician_fading', (k, t, r, bt, br))
    for kind in ('ones', 'onesC', 'alt', 'los', 'losC', 'mixed', 'mixedR', 'dense', 'unbalanced', 'scaled'):
        ctx.case((nt, nr, 'direct', kind), direct_case, nt, nr, kind)


def sisos(ctx):
    grid = [0, 1, -1, .6, .8, -.6, .5, .25, 2, 1.5, .1, math.sqrt(.3), math.sqrt(.7), .1 ** .5, math.sqrt(1 / 3), float('nan')]
    var = [0, 1, .64, .36, .75, .7, .3, .9, 2 / 3, .5, -.44, -1, 2, .1, 1 - 1e-12, float('nan')]
    import numpy as np
    for p0 in grid + [complex(v) for v in grid] + [.6j, .3 - .4j, .5 + .5j, 1j, np.complex128(.6 + .0j), np.float64(.6), 1 + 1j, .7 - .2j]:
        for p1 in var + [1 - abs(p0) ** 2, 1.5 - abs(p0) ** 2]:
            ctx.case(('siso', p0, p1), siso_case, p0, p1)


def gains(ctx, nt, nr):
    for a in (0, .5, .6, 1, 1.2, math.sqrt(.3), float('nan')):
        for b in (0, 1, .75, .64, 2, .7):
            for d in (1, .5, 0, 4):
                for cplx in (False, True):
                    ctx.case(('energy', nt, nr, a, b, d, cplx), gain_case, nt, nr, a, b, d, cplx)


def speculars(ctx):
    for nt, nr in ANT:
        for tt in (0, 2, -1.1, math.pi):
            for dt in (0, .1, .5, 2, -1, -.01):
                for tr in (.5, math.pi / 2, -2.):
                    for dr in (0, 1, .25, -1):
                        ctx.case(('specular', nt, nr, tt, dt, tr, dr), specular_case, nt, nr, tt, dt, tr, dr)


def hists(ctx, nt, nr, d, first):
    good, bad = hist_ops(nt, nr)
    ops = list(range(len(good))) + [-1 - i for i in range(len(bad))]
    for rest in itertools.product(ops, repeat=d - 1):
        ctx.case((nt, nr, first) + rest, hist_case, nt, nr, (first,) + rest)


def shards(tier):
    th = tier == 'thorough'
    out = [(presets, a) for a in ([(8, 8), (7, 3)] if th else []) + ANT[::-1]]
    ops = list(range(8)) + [-1 - i for i in range(10)]
    for nt, nr in ((2, 2), (1, 2), (3, 2)):
        out += [(hists, (nt, nr, (4 if th else 3) if (nt, nr) == (2, 2) else 2, f)) for f in ops]
    return out + [(sisos, ()), (speculars, ())] + [(gains, a) for a in ANT]
