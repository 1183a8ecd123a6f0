"""C15: soft demodulation against log-domain sums computed in plain Python."""
import itertools, math
from mc.refs_mod import *

PID = 'C15'
RULE = ('every constellation x noise variance x received-value grid (decision regions, points, ties, far outliers); all sequences of received '
        'values up to length 3 (independence of symbols); element types')
BOUNDS = dict(quick='21 modems up to 64 points; 7 variances from 1e-6 to 1e4; grid 13x13 (7x7 for 64 points) + all points + outliers at +-1e3; '
                    'sequences over 6 values to length 3',
              thorough='grid 31x31, 11 variances, 256 points, sequences over 10 values to length 3')
ASSUMPTIONS = ['noise variance is positive', 'values agree to 1e-9 relative (plus rounding of the squared distances)']


def lse(v):
    m = max(v)
    return m + math.log(sum(math.exp(x - m) for x in v))


def llrs(con, n, z, nv):
    met = [-abs(z - p) ** 2 / nv for p in con]
    out = []
    for k in range(n):
        one = [met[i] for i in range(len(con)) if i >> (n - 1 - k) & 1]
        zero = [met[i] for i in range(len(con)) if not i >> (n - 1 - k) & 1]
        out.append(lse(one) - lse(zero))
    return out, max(-x for x in met)


def check(c, md, con, zs, nv, arr=None):
    import numpy as np
    n = md.num_bits_symbol
    got = c.call(md.demodulate, np.array(zs) if arr is None else arr, 'soft', nv).tolist()
    c.eq(len(got), n * len(zs), 'number of LLRs')
    for i, z in enumerate(zs):
        want, big = llrs(con, n, z, nv)
        c.step()
        c.close(got[i * n:(i + 1) * n], want, 1e-9 + 1e-13 * big, 'LLRs of %s at variance %g' % (z, nv), rel=1e-9)
    return got


def row_case(c, spec, zs, nv):
    md = modem(spec)
    check(c, md, [complex(p) for p in md.constellation], zs, nv)


def clean_case(c, spec, nv):
    """noiseless points: the signs are the bits"""
    md = modem(spec)
    con = [complex(p) for p in md.constellation]
    got = check(c, md, con, con, nv)
    n = md.num_bits_symbol
    dmin = min(abs(a - b) for a, b in itertools.combinations(con, 2))
    if nv > dmin ** 2 / math.log(len(con) + 2):                  # the other points outweigh the sent one: no claim
        return
    for i in range(len(con)):
        c.eq([int(x > 0) for x in got[i * n:(i + 1) * n]], bits_of(i, n), 'signs on the noiseless point %d' % i)


def scale_case(c, name, scale, nv):
    """scaled constellations, values and noise have the same LLRs"""
    import numpy as np
    from commpy.modulation import Modem
    pts = [complex(p) for p in SHAPES[name]]
    zs = [.3 + .1j, -1.2 + .7j, 2.5 - 3j, 0j] + pts
    got = c.call(Modem([scale * p for p in pts], False).demodulate, np.array([scale * z for z in zs]), 'soft', nv * scale ** 2).tolist()
    n = len(pts).bit_length() - 1
    for i, z in enumerate(zs):
        want, big = llrs(pts, n, z, nv)
        c.close(got[i * n:(i + 1) * n], want, 1e-8 + 1e-12 * big, 'LLRs of %s scaled by %g' % (z, scale), rel=1e-8)


def scales(ctx):
    for name in SHAPES:
        for scale in (1e-9, 1e-4, 1e3, 1e8):
            for nv in (1e-3, .5, 8.):
                ctx.case(('scale', name, scale, nv), scale_case, name, scale, nv)


def seq_case(c, spec, zs, nv):
    md = modem(spec)
    check(c, md, [complex(p) for p in md.constellation], zs, nv)


def form_case(c, spec, form):
    import numpy as np
    md = modem(spec)
    con = [complex(p) for p in md.constellation]
    zs = [.3, -1.2, 2.5, -.1]
    if form == 'real':
        check(c, md, con, zs, .5, np.array(zs))
    elif form == 'int':
        check(c, md, con, [1, -2, 0], 1, np.array([1, -2, 0]))
    elif form == 'npvar':
        check(c, md, con, [complex(x, .2) for x in zs], np.float64(.7))
    elif form == 'view':
        a = np.array([complex(x, -.3) for x in zs for _ in (0, 1)])
        a.setflags(write=False)
        check(c, md, con, [complex(x, -.3) for x in zs], .7, a[::2])
    elif form == 'keyword':
        z = np.array([.3 + .1j])
        c.close(c.call(md.demodulate, z, demod_type='soft', noise_var=.25), llrs(con, md.num_bits_symbol, .3 + .1j, .25)[0], 1e-9, 'keyword call')


def bad_case(c, spec, t):
    import numpy as np
    c.raises(ValueError, modem(spec).demodulate, np.array([1. + 0j]), t, 1.)


SPECS = ([('psk', 2 ** k) for k in range(1, 7)] + [('qam', 4), ('qam', 16), ('qam', 64)] +
         [('bpsk', None, 'list'), ('ook', True, 'array'), ('pam4', None, 'list'), ('pam4', False, 'array'), ('qpsk rot', False, 'array'),
          ('qpsk rot', True, 'list'), ('uneven8', False, 'list'), ('uneven8', None, 'array'), ('scatter16', False, 'array'),
          ('scatter16', True, 'list'), ('scatter32', None, 'array'), ('scatter32', False, 'list')])


def rows(ctx, spec, n, nvs):
    md = modem(spec)
    con = [complex(p) for p in md.constellation]
    span = 1.4 * max(abs(p) for p in con)
    xs = [span * (2 * i / (n - 1) - 1) for i in range(n)]
    for nv in nvs:
        for y in xs:
            ctx.case((spec, nv, y), row_case, spec, [complex(x, y) for x in xs], nv)
        ctx.case((spec, nv, 'far'), row_case, spec, [1000 + 0j, -1000j, 50 - 70j, 0j], nv)
        ctx.case((spec, nv, 'clean'), clean_case, spec, nv)


def seqs(ctx, spec, zs):
    for r in (1, 2, 3):
        for s in itertools.product(zs, repeat=r):
            ctx.case((spec, s), seq_case, spec, s, .4)


def forms(ctx):
    for spec in SPECS:
        for f in ('real', 'int', 'npvar', 'view', 'keyword'):
            ctx.case((spec, f), form_case, spec, f)
        for t in ('Hard', 'SOFT', '', 'llr', None):
            ctx.case((spec, 'type', t), bad_case, spec, t)


def shards(tier):
    th = tier == 'thorough'
    nvs = (1e-6, 1e-3, .05, .5, 1., 8., 1e4) + ((1e-9, 1e-2, .2, 1e8) if th else ())
    out = [(forms, ()), (scales, ())]
    for spec in SPECS + ([('qam', 256), ('psk', 256)] if th else []):
        big = spec[1] == 64 or spec[1] == 256
        n = (31 if not big else 15) if th else (13 if not big else 7)
        out += [(rows, (spec, n, nvs[i::2])) for i in range(2)]
    for spec in SPECS:
        if spec[1] not in (64, 32):
            out.append((seqs, (spec, (.1 + .2j, -1.3 + .4j, 2j, 5 - 5j, 0j, -.7 - .9j) + ((1 + 1j, -3 + .1j, .2, 1e3j) if th else ()))))
    return out
