"""C23: flat-fading channels: output = gains * input + noise, with the prescribed noise variance."""
import itertools, math
from mc.refs_chan import *

PID = 'C23'
RULE = ('every history of channel operations (noise settings, fading changes, propagations of several message shapes, refused calls) up to a depth, from a '
        'seeded generator: outputs recomputed from the reported gains and noise, and every reported noise/gain component, divided by its prescribed standard '
        'deviation, matched with a fresh value of the generator stream')
BOUNDS = dict(quick='SISO: 19 operations to depth 3; MIMO: 17 operations to depth 2 for 9 antenna configurations up to 4x4, depth 3 for 2x3; '
                    'message lengths 1-13 x 6 element types x antennas',
              thorough='SISO depth 4; MIMO depth 3 for all antenna configurations')
ASSUMPTIONS = ['the random numbers come from the global NumPy generator, as seeding it is the documented way to reproduce runs',
               'an SNR setting refers to the real/complex nature at the time it is made']

SNRS = [('dB', 0, 1, 1), ('dB', 7.5, .5, 10), ('lin', 4, 1, 1), ('lin', .3, 1 / 3, 2.5), ('dB', -3)]
STDS = [0, .7]
SISO_F = {'none': (1, 0), 'noneC': (1 + 0j, 0), 'ray': (0, 1), 'rayC': (0j, 1), 'ric': (.6, .64), 'ricC': (.3 - .4j, .75), 'neg': (-1., 0)}


def message(kind, n):
    import numpy as np
    base = [complex((i * 7 % 5) - 2.5, (i * 3 % 4) - 1.5) for i in range(n)]
    if kind in ('c', 'complex64'):
        return np.array(base, 'complex64' if kind == 'complex64' else complex)
    if kind == 'list':
        return [v.real for v in base]
    if kind == 'int':
        return np.array([(i * 5 % 7) - 3 for i in range(n)])
    return np.array([v.real for v in base], {'r': float}.get(kind, kind))


class Model:
    """noise variance and fading as the documentation prescribes them"""
    def __init__(self, nt, nr, fading, cplx):
        self.nt, self.nr, self.fading, self.cplx, self.std = nt, nr, fading, cplx, None

    def snr(self, op):
        kind, v = op[0], op[1]
        rate, Es = (op[2], op[3]) if len(op) > 2 else (1, 1)
        lin = db(v) if kind == 'dB' else v
        self.std = math.sqrt((1 + self.cplx) * self.nt * Es / (rate * lin))

    def sd(self):
        """standard deviation of each real component of the noise"""
        return self.std * .5 if self.cplx else self.std


def apply_noise(c, ch, m, op):
    if op[0] == 'std':
        ch.noise_std = op[1]
        m.std = op[1]
    else:
        c.call(ch.set_SNR_dB if op[0] == 'dB' else ch.set_SNR_lin, *op[1:])
        m.snr(op)
        c.close(float(ch.noise_std), m.std, 1e-12, 'noise_std after %s' % (op,))


def check_siso(c, ch, m, st, msg, y):
    import numpy as np
    n = len(msg)
    mean, var = m.fading
    g, w, u = ch.channel_gains, ch.noises, ch.unnoisy_output
    for what, v in (('gains', g), ('noises', w), ('unnoisy output', u), ('output', y)):
        c.true(np.shape(v) == (n,), 'shape of ' + what, np.shape(v))
    x = flat(msg)
    G, W, U, Y = flat(g), flat(w), flat(u), flat(y)
    if not m.cplx:
        c.true(not np.iscomplexobj(y), 'a real channel returned complex values')
    for i in range(n):
        if not (abs(U[i] - G[i] * x[i]) < 1e-5 and abs(Y[i] - G[i] * x[i] - W[i]) < 1e-5):
            c.true(False, 'symbol %d: output is not gain * input + noise' % i, Y[i], G[i], x[i], W[i], U[i])
    st.more((2 if m.cplx else 1) * 2 * n)
    if m.sd():
        st.take(c, components(W, m.sd(), m.cplx), 'noise')
    else:
        c.true(all(v == 0 for v in W), 'noise without noise', W)
    if var:
        st.take(c, components(G, math.sqrt(var * (.5 if m.cplx else 1)), m.cplx, [complex(mean)] * n), 'gain')
    else:
        c.true(all(abs(v - mean) < 1e-12 for v in G), 'gains without fading', G)


def check_mimo(c, ch, m, st, msg, y):
    import numpy as np
    nv = -(-len(msg) // m.nt)
    mean, Rt, Rr, uncorr = m.fading
    g, w, u = ch.channel_gains, ch.noises, ch.unnoisy_output
    c.true(np.shape(g) == (nv, m.nr, m.nt), 'shape of the gains', np.shape(g))
    for what, v in (('noises', w), ('unnoisy output', u), ('output', y)):
        c.true(np.shape(v) == (nv, m.nr), 'shape of ' + what, np.shape(v))
    x = flat(msg) + [0j] * (nv * m.nt - len(msg))
    if not m.cplx:
        c.true(not np.iscomplexobj(y), 'a real channel returned complex values')
    for i in range(nv):
        for r in range(m.nr):
            want = sum(complex(g[i, r, t]) * x[i * m.nt + t] for t in range(m.nt))
            if not (abs(complex(u[i, r]) - want) < 1e-5 and abs(complex(y[i, r]) - want - complex(w[i, r])) < 1e-5):
                c.true(False, 'vector %d, antenna %d: output is not gains . input + noise' % (i, r), y[i].tolist(), g[i].tolist(), x[i * m.nt:(i + 1) * m.nt], w[i].tolist())
    st.more((2 if m.cplx else 1) * nv * m.nr * (1 + m.nt))
    if m.sd():
        st.take(c, components(w, m.sd(), m.cplx), 'noise')
    else:
        c.true(all(v == 0 for v in flat(w)), 'noise without noise', flat(w))
    if uncorr:
        flatmean = [complex(v) for _ in range(nv) for row in mean for v in row]
        st.take(c, components(g, math.sqrt(uncorr * (.5 if m.cplx else 1)), m.cplx, flatmean), 'gain')


def do_history(c, ch, m, hist, fadings, check, seed=7):
    st = Stream(seed)
    n = 0
    for op in hist:
        c.step()
        if op[0] in ('std', 'dB', 'lin'):
            apply_noise(c, ch, m, op)
        elif op[0] == 'fade':
            ch.fading_param = fadings[op[1]][0]
            m.fading, m.cplx = fadings[op[1]][1:]
            c.true(bool(ch.isComplex) == m.cplx, 'isComplex after', op)
        elif op[0] == 'send':
            msg = message(op[1], op[2])
            if op[1] in ('c', 'complex64') and not m.cplx:
                c.raises(TypeError if m.std is not None else (TypeError, AssertionError), ch.propagate, msg)
                continue
            if m.std is None:
                c.raises(AssertionError, ch.propagate, msg)
                continue
            y = c.call(ch.propagate, msg)
            check(c, ch, m, st, msg, y)
            n += 1
    return n


def siso_fadings():
    return {k: (p, p, isinstance(p[0], complex)) for k, p in SISO_F.items()}


def siso_case(c, hist):
    from commpy.channels import SISOFlatChannel
    ch = SISOFlatChannel()
    m = Model(1, 1, (1, 0), False)
    c.true(ch.nb_tx == 1 and ch.nb_rx == 1, 'antennas')
    return do_history(c, ch, m, hist, siso_fadings(), check_siso)


def init_case(c, std, fad):
    from commpy.channels import SISOFlatChannel
    p, q, cplx = siso_fadings()[fad]
    ch = SISOFlatChannel(std, p)
    m = Model(1, 1, q, cplx)
    m.std = std
    return do_history(c, ch, m, [('send', 'r', 3), ('send', 'c', 4), ('dB', 3), ('send', 'r', 2)], siso_fadings(), check_siso, 11)


def mimo_fadings(nt, nr):
    import numpy as np
    los = np.array([[1 if (r + t) % 2 else -1 for t in range(nt)] for r in range(nr)], float)
    ph = np.exp(1j * np.add.outer(np.arange(nr), .7 * np.arange(nt)))
    It, Ir = np.identity(nt), np.identity(nr)
    ct = np.array([[.5 ** abs(a - b) for a in range(nt)] for b in range(nt)])
    cr = np.array([[.3 ** abs(a - b) for a in range(nr)] for b in range(nr)])
    Z = np.zeros((nr, nt))
    return {
        'ray': ((Z, It, Ir), (Z, It, Ir, 1.), False),
        'rayC': ((Z + 0j, It, Ir), (Z, It, Ir, 1.), True),
        'ric': ((los * .6, It * .64, Ir), (los * .6, It, Ir, .64), False),
        'ricC': ((ph * .8, It, Ir * .36), (ph * .8, It, Ir, .36), True),
        'corr': ((Z, ct, cr), (Z, ct, cr, 0), False),
        'corrC': ((ph * .6, ct * .64, cr), (ph, ct, cr, 0), True),
    }


def mimo_case(c, nt, nr, hist):
    from commpy.channels import MIMOFlatChannel
    ch = MIMOFlatChannel(nt, nr)
    f = mimo_fadings(nt, nr)
    m = Model(nt, nr, f['ray'][1], False)
    return do_history(c, ch, m, hist, f, check_mimo)


def lengths_case(c, nt, nr, fad, kind, n):
    from commpy.channels import MIMOFlatChannel, SISOFlatChannel
    if nt == 0:
        p, q, cplx = siso_fadings()[fad]
        ch, m, chk, f = SISOFlatChannel(.5, p), Model(1, 1, q, cplx), check_siso, siso_fadings()
    else:
        f = mimo_fadings(nt, nr)
        p, q, cplx = f[fad]
        ch, m, chk = MIMOFlatChannel(nt, nr, .5, p), Model(nt, nr, q, cplx), check_mimo
    m.std = .5
    return do_history(c, ch, m, [('send', kind, n), ('lin', 3, .5, 2), ('send', kind, n)], f, chk, 3)


NOISE = SNRS[:4] + [('std', s) for s in STDS]
SISO_OPS = NOISE + [('dB', -3)] + [('fade', k) for k in SISO_F] + [('send', 'r', 1), ('send', 'c', 3), ('send', 'int', 2), ('send', 'complex64', 2), ('send', 'list', 2)]
MIMO_OPS = NOISE + [('fade', k) for k in ('ray', 'rayC', 'ric', 'ricC', 'corr', 'corrC')] + [('send', 'r', 4), ('send', 'c', 5), ('send', 'int', 1), ('send', 'complex64', 6)]


def siso_hists(ctx, d, first):
    for rest in itertools.product(SISO_OPS, repeat=d - 1):
        h = (first,) + rest
        if not any(o[0] == 'send' for o in h[:-1]) and h[-1][0] != 'send':
            h += (('send', 'r', 2), ('send', 'c', 2))
        ctx.case(h, siso_case, h)


def mimo_hists(ctx, nt, nr, d, first):
    for rest in itertools.product(MIMO_OPS, repeat=d - 1):
        h = (first,) + rest
        if h[-1][0] != 'send':
            h += (('send', 'r', 5), ('send', 'c', 3))
        ctx.case((nt, nr) + h, mimo_case, nt, nr, h)


def inits(ctx):
    for std in (None, 0, .5, 2):
        for f in SISO_F:
            ctx.case(('init', std, f), init_case, std, f)


def lengths(ctx, nt, nr, fads):
    for fad in fads:
        for kind in ('r', 'c', 'int', 'complex64', 'float32', 'int8') + (('list',) if nt == 0 else ()):
            for n in list(range(1, 14)) + [64, 65]:
                ctx.case(('len', nt, nr, fad, kind, n), lengths_case, nt, nr, fad, kind, n)


ANT = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (4, 1)]


def shards(tier):
    th = tier == 'thorough'
    out = [(siso_hists, (4 if th else 3, f)) for f in SISO_OPS] + [(siso_hists, (d, f)) for f in SISO_OPS for d in (1, 2)] + [(inits, ())]
    for nt, nr in ANT:
        out += [(mimo_hists, (nt, nr, 3 if th or (nt, nr) == (2, 3) else 2, f)) for f in MIMO_OPS]
        out.append((lengths, (nt, nr, ('ray', 'rayC', 'ric', 'ricC', 'corr', 'corrC'))))
    return out + [(lengths, (0, 0, tuple(SISO_F)))]
