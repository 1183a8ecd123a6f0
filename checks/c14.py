"""C14: modulators and hard demodulators against the table lookup and nearest-point rules."""
import itertools, math, cmath
from mc.refs_mod import *

PID = 'C14'
RULE = ('every modem x every symbol, symbol pair and short message, every point of a received-value grid; every adjacent pair of points for '
        'Gray labelling; every history of constellation assignments (valid and invalid) up to a depth; every order for acceptance')
BOUNDS = dict(quick='PSK 2..256, QAM 4..1024, 9 custom modems; symbol pairs for m<=32 (all symbols beyond); grid 61x61; histories of 9 operations '
                    'to depth 3; orders up to 300',
              thorough='PSK to 1024, symbol pairs for m<=128, grid 121x121, histories to depth 4, symbol triples for m<=8')
ASSUMPTIONS = ['message length is a positive multiple of the bits per symbol', 'constellations have at least 2 points']


def table(c, md, m):
    con = [complex(z) for z in md.constellation]
    c.eq(len(con), m, 'number of points')
    c.eq([md.m, md.num_bits_symbol], [m, m.bit_length() - 1], 'm, num_bits_symbol')
    c.close(float(md.Es), sum(abs(z) ** 2 for z in con) / m, 1e-9, 'Es')
    return con


def make_case(c, spec, m):
    """shape, energy and labelling"""
    md = modem(spec)
    con = table(c, md, m)
    d = {}
    for (i, a), (j, b) in itertools.combinations(enumerate(con), 2):
        d[i, j] = abs(a - b)
    c.true(min(d.values()) > 1e-9, 'two labels share a point')
    if spec[0] == 'psk':
        for k in range(m):
            w = cmath.exp(2j * math.pi * k / m)
            c.true(min(abs(w - z) for z in con) < 1e-9, 'missing PSK point', k)
    elif spec[0] == 'qam':
        s = math.isqrt(m)
        c.eq(sorted((round(z.real, 9), round(z.imag, 9)) for z in con), sorted((float(a), float(b)) for a in range(1 - s, s, 2) for b in range(1 - s, s, 2)), 'QAM grid')
    if spec[0] in ('psk', 'qam'):
        near = min(d.values()) * (1 + 1e-6)
        for (i, j), x in d.items():
            if x <= near:
                c.step()
                c.true(bin(i ^ j).count('1') == 1, 'nearest neighbours differ in more than one bit:', i, j)
    else:
        pts = [complex(z) for z in SHAPES[spec[0]]]
        c.close(con, gray_order(pts) if spec[1] in (None, True) else pts, 1e-6, 'order of a custom constellation')


def trip(c, md, con, n, idx, dt='int64'):
    import numpy as np
    bits = [b for i in idx for b in bits_of(i, n)]
    x = c.call(md.modulate, np.array(bits, dt))
    c.close([complex(z) for z in x], [con[i] for i in idx], 1e-12, 'modulate(%s)' % bits)
    c.eq(c.call(md.demodulate, x, 'hard'), bits, 'demodulate(modulate(%s))' % bits)


def symbols_case(c, spec, m, idx):
    md = modem(spec)
    trip(c, md, [complex(z) for z in md.constellation], m.bit_length() - 1, idx)


def dtype_case(c, spec, m, dt):
    md = modem(spec)
    trip(c, md, [complex(z) for z in md.constellation], m.bit_length() - 1, list(range(m)) + list(range(m - 1, -1, -1)), dt)


def grid_case(c, spec, xs, y):
    """one row of received values at once"""
    import numpy as np
    md = modem(spec)
    con = [complex(z) for z in md.constellation]
    n = md.num_bits_symbol
    z = [complex(x, y) for x in xs]
    got = c.call(md.demodulate, np.array(z), 'hard').tolist()
    c.eq(len(got), n * len(z), 'number of bits')
    for i, v in enumerate(z):
        k = index_of(got[i * n:(i + 1) * n])
        best = min(abs(v - p) for p in con)
        c.true(abs(v - con[k]) <= best + 1e-9, 'not the nearest point for', v, con[k], best)
        c.step()
    one = c.call(md.demodulate, np.array(z[-1:]), 'hard').tolist()
    c.eq(one, got[-n:], 'symbol alone and in a block')


def scale_case(c, name, scale, shift):
    """the same rules for constellations of any magnitude, centred or not"""
    import numpy as np
    from commpy.modulation import Modem
    con = [shift + scale * complex(z) for z in SHAPES[name]]
    md = Modem(con, False)
    m, n = len(con), len(con).bit_length() - 1
    c.close([complex(z) for z in md.constellation], con, 0, 'constellation', rel=1e-12)
    c.close(float(md.Es), sum(abs(z) ** 2 for z in con) / m, 0, 'Es', rel=1e-9)
    for i in range(m):
        for j in range(m):
            bits = bits_of(i, n) + bits_of(j, n)
            x = c.call(md.modulate, np.array(bits))
            c.close([complex(z) for z in x], [con[i], con[j]], 0, 'modulate(%s)' % bits, rel=1e-12)
            c.eq(c.call(md.demodulate, x, 'hard'), bits, 'demodulate(modulate(%s))' % bits)
    for i in range(m):
        d = min(abs(con[i] - p) for k, p in enumerate(con) if k != i)
        z = [con[i] + .45 * d * cmath.exp(2j * math.pi * k / 12) for k in range(12)]
        c.eq(c.call(md.demodulate, np.array(z), 'hard'), bits_of(i, n) * 12, 'values around point %d' % i)


def scales(ctx, name):
    for scale in (1e-12, 1e-6, 1e-3, 1e3, 1e9):
        for shift in (0, 40 * scale, (-3 + 1e3j) * scale):
            ctx.case(('scale', name, scale, shift), scale_case, name, scale, shift)


def refuse_case(c, kind, m):
    from commpy.modulation import PSKModem, QAMModem
    c.raises(ValueError, PSKModem if kind == 'psk' else QAMModem, m)


def type_case(c, t):
    import numpy as np
    md = modem(('qam', 4))
    c.raises(ValueError, md.demodulate, np.array([1 + 1j]), t)
    c.raises(ValueError, md.demodulate, np.array([1 + 1j]), t, 1.)


ASSIGN = {
    'q4': [1 + 1j, -1 + 1j, -1 - 1j, 1 - 1j],
    'b2': [-2., 3.],
    's8': scatter(8, 9),
    's16': scatter(16, 10),
    'int4': [5, -1, 0, 2],
    'arr': None,
    'bad3': [1., 2., 3.],
    'bad6': [1j, 2, 3, 4, 5, 6],
    'mut': None,
}


def history_case(c, start, hist):
    """assignments, refused assignments and use; the reference is just the last accepted list"""
    import numpy as np
    md = modem(start)
    cur = [complex(z) for z in md.constellation]
    kept = None
    for op in hist:
        c.step()
        if op.startswith('bad'):
            try:
                md.constellation = ASSIGN[op]
                c.true(False, 'constellation of length %d accepted' % len(ASSIGN[op]))
            except ValueError:
                pass
        elif op == 'arr':
            kept = np.array([2., 0.5j, -1j, -3 + 1j])
            md.constellation = kept
            cur = kept.tolist()
        elif op == 'mut':                                   # the caller reuses the array given earlier
            if kept is not None:
                kept[:] = 7
        else:
            md.constellation = ASSIGN[op]
            cur = [complex(z) for z in ASSIGN[op]]
        m = len(cur)
        con = table(c, md, m)
        c.close(con, cur, 1e-12, 'constellation after %s' % (hist,))
        trip(c, md, cur, m.bit_length() - 1, list(range(m)) + [0])


SPECS = ([(('psk', 2 ** k), 2 ** k) for k in range(1, 9)] + [(('qam', 4 ** k), 4 ** k) for k in range(1, 6)] +
         [((n, g, t), len(SHAPES[n])) for n, g, t in (('bpsk', None, 'list'), ('bpsk', False, 'array'), ('ook', True, 'array'), ('pam4', None, 'list'),
          ('pam4', False, 'tuple'), ('qpsk rot', False, 'array'), ('qpsk rot', True, 'list'), ('uneven8', False, 'list'), ('uneven8', None, 'array'),
          ('uneven8', False, 'c64'), ('scatter16', False, 'array'), ('scatter16', True, 'list'), ('scatter32', None, 'array'))])


def basics(ctx, spec, m):
    ctx.case(('make', spec), make_case, spec, m)
    for dt in ('int64', 'int8', 'uint8', 'int32'):
        ctx.case(('dtype', spec, dt), dtype_case, spec, m, dt)
    for i in range(m):
        ctx.case((spec, i), symbols_case, spec, m, (i,))


def tuples(ctx, spec, m, r, part, parts):
    for idx in itertools.product(range(m), repeat=r):
        if idx[0] % parts == part:
            ctx.case((spec, idx), symbols_case, spec, m, idx)


def grid(ctx, spec, n, span):
    xs = [span * (2 * i / (n - 1) - 1) for i in range(n)]
    for y in xs + [0.]:
        ctx.case(('grid', spec, y), grid_case, spec, tuple(xs), y)


def messages(ctx, spec, m, top):
    n = m.bit_length() - 1
    for r in range(1, top // n + 1):
        for idx in itertools.product(range(m), repeat=r):
            ctx.case((spec, 'msg', idx), symbols_case, spec, m, idx)


def orders(ctx, kind, ms):
    for m in ms:
        ctx.case((kind, m), refuse_case, kind, m)
    if kind == 'psk':
        for t in ('HARD', 'Soft', '', None, 'hard ', 0):
            ctx.case(('type', t), type_case, t)


def histories(ctx, start, d, first):
    for h in itertools.product(ASSIGN, repeat=d - 1):
        ctx.case((start, (first,) + h), history_case, start, (first,) + h)


def shards(tier):
    th = tier == 'thorough'
    out = []
    specs = SPECS + ([(('psk', 512), 512), (('psk', 1024), 1024)] if th else [])
    for spec, m in sorted(specs, key=lambda s: -s[1]):
        out.append((basics, (spec, m)))
        out.append((grid, (spec, 121 if th else 61, 1.6 if spec[0] == 'psk' else max(abs(z) for z in SHAPES[spec[0]]) * 1.3 if spec[0] in SHAPES else math.isqrt(m) + .5)))
        if m <= (128 if th else 32):
            out += [(tuples, (spec, m, 2, i, max(1, m // 8))) for i in range(max(1, m // 8))]
        if m <= 8:
            out.append((tuples, (spec, m, 3, 0, 1)) if th else (messages, (spec, m, 7)))
    out += [(scales, (name,)) for name in SHAPES]
    psk_bad = [m for m in range(-3, 300) if m < 0 or m & (m - 1)]
    qam_bad = [m for m in range(-3, 300) if m < 0 or (m > 1 and (math.isqrt(m) ** 2 != m or math.isqrt(m) & (math.isqrt(m) - 1)))]
    out += [(orders, ('psk', psk_bad)), (orders, ('qam', qam_bad + [512, 2048, 4.5, 400, 900, 1000]))]
    for start in (('qam', 16), ('psk', 8), ('bpsk', False, 'list')):
        for d in (1, 2, 3) + ((4,) if th else ()):
            out += [(histories, (start, d, f)) for f in ASSIGN]
    return out
