"""C29: bit conversions, distances, up-sampling, power."""
import itertools, math

PID = 'C29'
RULE = ('all values and widths up to a bound, all powers of two and their neighbours up to 2^70, all integer types; all pairs of short words; all histories of '
        'conversions (single, array, back, overwriting a result, flooding a cache) up to a depth against the stateless definition')
BOUNDS = dict(quick='values to 4096 x widths to 16; words to length 12 back; pairs of words to length 6 (hamming), 4 letters^3 (euclid); up-sampling factors 1-9; '
                    'histories of depth 4 over 12 operations', thorough='values to 65536; words to length 16; histories of depth 5')
ASSUMPTIONS = ['non-negative integers that fit in the width; distances of numeric arrays whose type holds the differences and their squares']


def bits(v, w):
    return [(v >> (w - 1 - i)) & 1 for i in range(w)] if w else []


def conv_case(c, v, w, ty):
    import numpy as np
    from commpy.utilities import dec2bitarray, decimal2bitarray, bitarray2dec
    x = v if ty == 'int' else getattr(np, ty)(v)
    want = bits(v, w)
    for f in (dec2bitarray, decimal2bitarray):
        a = c.call(f, x, w)
        c.true(isinstance(a, np.ndarray) and a.shape == (w,), 'shape', a)
        c.true(a.tolist() == want, '%s(%s, %d)' % (f.__name__, v, w), a.tolist(), want)
        c.true(int(c.call(bitarray2dec, a)) == v, 'back conversion', v)
        a[:] = 1 - a                                  # the result is the caller's own
    c.true(c.call(dec2bitarray, x, w).tolist() == want, 'second conversion', v, w)


def values(ctx, lo, hi, wmax):
    for v in range(lo, hi):
        need = max(v.bit_length(), 1)
        for w in range(need if v else 0, wmax + 1):
            ctx.case((v, w), conv_case, v, w, 'int')


def big(ctx):
    lim = dict(int8=7, uint8=8, int16=15, uint16=16, int32=31, uint32=32, int64=63, uint64=64)
    for e in range(0, 71):
        for d in (-2, -1, 0, 1, 3):
            v = 2 ** e + d
            if v < 0:
                continue
            for w in sorted({max(1, v.bit_length()), v.bit_length() + 1, 72, 130}):
                for ty in ['int'] + [t for t, b in lim.items() if v < 2 ** b]:
                    ctx.case((v, w, ty), conv_case, v, w, ty)


def array_case(c, vals, w, form):
    import numpy as np
    from commpy.utilities import dec2bitarray, bitarray2dec
    x = vals if form == 'list' else tuple(vals) if form == 'tuple' else np.array(vals, form)
    a = c.call(dec2bitarray, x, w)
    want = [b for v in vals for b in bits(v, w)]
    c.true(a.shape == (len(want),) and a.tolist() == want, 'conversion of %s' % (vals,), a.tolist(), want)
    a[:] = 1 - a
    c.true(c.call(dec2bitarray, x, w).tolist() == want, 'second conversion of %s' % (vals,))


def arrays(ctx, n, w):
    al = sorted(v for v in {0, 1, 2, 2 ** w - 1, 2 ** (w - 1), 5 % 2 ** w, 2 ** w // 3} if v < 2 ** w)
    for vals in itertools.product(al, repeat=n):
        for form in ('list', 'tuple', 'int64', 'uint8', 'int32', 'uint64'):
            if (form != 'uint8' or w <= 8) and (form != 'int64' or w < 64) and (form != 'uint64' or w <= 64):
                if form != 'int32' or w < 32:
                    ctx.case((vals, w, form), array_case, list(vals), w, form)


def back_case(c, word, form):
    import numpy as np
    from commpy.utilities import bitarray2dec, dec2bitarray
    x = list(word) if form == 'list' else np.array(word, form)
    v = 0
    for b in word:
        v = 2 * v + b
    got = c.call(bitarray2dec, x)
    c.true(int(got) == v and got == v, 'value of %s' % (word,), got, v)
    c.true(c.call(dec2bitarray, int(got), len(word)).tolist() == list(word), 'bits of the value', got)


def backs(ctx, n, forms):
    for w in itertools.product((0, 1), repeat=n):
        for f in forms:
            ctx.case((w, f), back_case, w, f)


def wide_backs(ctx):
    for n in (31, 32, 33, 62, 63, 64, 65, 100, 200):
        for k in range(n):
            for base in ((0,) * n, (1,) * n):
                w = list(base)
                w[k] ^= 1
                for f in ('int8', 'int64', 'bool', 'list', 'int32', 'float64'):
                    ctx.case((tuple(w), f), back_case, tuple(w), f)


def hamming_case(c, a, b, da, db):
    import numpy as np
    from commpy.utilities import hamming_dist
    x, y = np.array(a, da), np.array(b, db)
    d = c.call(hamming_dist, x, y)
    c.true(int(d) == sum(p != q for p, q in zip(a, b)), 'Hamming distance', a, b, d)
    c.true(int(c.call(hamming_dist, y, x)) == int(d), 'symmetry')


def hammings(ctx, n):
    for a in itertools.product((0, 1), repeat=n):
        for b in itertools.product((0, 1), repeat=n):
            for da, db in (('int8', 'int8'), ('int64', 'int64'), ('bool', 'bool'), ('int8', 'int64'), ('uint8', 'uint8')):
                ctx.case((a, b, da, db), hamming_case, a, b, da, db)


def long_dist(ctx):
    for n in (100, 255, 256, 257, 1000, 40000, 70000):
        for k, dts in ((n, ('int8', 'uint8', 'bool', 'int64')), (n // 2, ('int8', 'bool')), (1, ('int8',)), (0, ('int64',))):
            for dt in dts:
                ctx.case(('hamming', n, k, dt), hamming_case, (0,) * n, (1,) * k + (0,) * (n - k), dt, dt)
        ctx.case(('euclid', n), euclid_case, tuple((i * 7 % 11) - 5. for i in range(n)), tuple((i * 3 % 5) + .5 for i in range(n)), 'float64')
        ctx.case(('euclid int', n), euclid_case, tuple((i * 7 % 11) - 5 for i in range(n)), tuple((i * 3 % 5) for i in range(n)), 'int64')
        ctx.case(('power', n), power_case, tuple((i * 7 % 11) - 5. for i in range(n)), 'float64')
        ctx.case(('power c', n), power_case, tuple(complex((i * 7 % 11) - 5., i % 3) for i in range(n)), 'complex128')


def euclid_case(c, a, b, dt):
    import numpy as np
    from commpy.utilities import euclid_dist
    x, y = np.array(a, dt), np.array(b, dt)
    want = math.fsum((p - q) ** 2 for p, q in zip(x.tolist(), y.tolist()))
    tol = 1e-5 if dt == 'float32' else 1e-12
    for u, v in ((x, y), (y, x)):
        d = c.call(euclid_dist, u, v)
        c.true(abs(float(d) - want) <= tol * (1 + want), 'squared Euclidean distance', a, b, d, want)


def euclids(ctx, n):
    for a in itertools.product((0., 1., -2.5, 1e6), repeat=n):
        for b in itertools.product((0., -1., .125, 3.), repeat=n):
            ctx.case((a, b), euclid_case, a, b, 'float64')
    for a in itertools.product((0, 1, -20, 7), repeat=n):
        for b in itertools.product((0, -1, 100), repeat=n):
            for dt in ('int64', 'float32', 'int32'):
                ctx.case((a, b, dt), euclid_case, a, b, dt)


def up_case(c, x, n, dt):
    import numpy as np
    from commpy.utilities import upsample
    a = list(x) if dt == 'list' else np.array(x, dt)
    y = c.call(upsample, a, n)
    want = [v if k == 0 else 0 for v in (np.array(x, dt).tolist() if dt != 'list' else x) for k in range(n)]
    c.true(y.shape == (len(want),), 'length', y.shape)
    c.true(all(complex(p) == complex(q) for p, q in zip(y.tolist(), want)), 'up-sampling of %s by %d' % (x, n), y.tolist())
    y[:] = 9
    c.true(c.call(upsample, a, n).tolist() == [complex(v) for v in want], 'second up-sampling')


def ups(ctx, n):
    for x in itertools.product((0, 1, -1.5, 2j), repeat=n):
        for f in range(1, 10):
            for dt in ('complex128', 'list', 'complex64') + (('float64', 'float32') if all(not isinstance(v, complex) for v in x) else ()) + (('int64', 'int8') if all(v == 0 or v == 1 for v in x) else ()):
                ctx.case((x, f, dt), up_case, x, f, dt)


def power_case(c, x, dt):
    import numpy as np
    from commpy.utilities import signal_power
    a = list(x) if dt == 'list' else np.array(x, dt)
    vals = list(x) if dt == 'list' else a.tolist()
    want = math.fsum(abs(v) ** 2 for v in vals) / len(vals)
    got = c.call(signal_power, a)
    c.true(abs(float(got) - want) <= 1e-6 * (1 + want) if dt in ('complex64', 'float32') else abs(float(got) - want) <= 1e-12 * (1 + want), 'signal power of %s (%s)' % (x, dt), got, want)


def powers(ctx, n):
    for x in itertools.product((0, 1, -2.5, 3 - 4j, 1e-3, 100), repeat=n):
        dts = ['complex128', 'complex64']
        if not any(isinstance(v, complex) for v in x):
            dts += ['float64', 'float32', 'list']
        if all(v == int(abs(v)) for v in x if not isinstance(v, complex)) and len(dts) == 5:
            dts += ['int64', 'int8', 'uint8', 'int16']
        for dt in dts:
            ctx.case(('power', x, dt), power_case, x, dt)


# ---- histories

OPS = [('dec', 5, 4), ('dec', 5, 8), ('one', 5, 4), ('one', 5, 8), ('one', 9, 4), ('arr', (5, 9), 4), ('arr', (5,), 8), ('back', (0, 1, 0, 1)), ('spoil',), ('flood',), ('np', 5, 4), ('zero', 0, 4)]


def hist_case(c, hist):
    import numpy as np
    from commpy.utilities import dec2bitarray, decimal2bitarray, bitarray2dec
    kept = []
    for op in hist:
        k = op[0]
        if k == 'spoil':
            for a, w in kept:
                a[:] = 7
            kept = []
            continue
        if k == 'flood':
            for v in range(150):
                a = c.call(decimal2bitarray, v, 9)
                c.true(a.tolist() == bits(v, 9), 'conversion of %d' % v, a.tolist())
            continue
        if k == 'back':
            c.true(int(c.call(bitarray2dec, np.array(op[1]))) == 5, 'back')
            continue
        if k == 'arr':
            a, w = c.call(dec2bitarray, op[1], op[2]), [b for v in op[1] for b in bits(v, op[2])]
        elif k == 'np':
            a, w = c.call(dec2bitarray, np.int8(op[1]), op[2]), bits(op[1], op[2])
        else:
            a, w = c.call(dec2bitarray if k == 'dec' else decimal2bitarray, op[1], op[2]), bits(op[1], op[2])
        c.true(a.tolist() == w, 'operation %s of %s' % (op, hist), a.tolist(), w)
        kept.append((a, w))
        for b, v in kept:
            c.true(b.tolist() == v, 'an earlier result changed', b.tolist(), v)


def histories(ctx, depth, first):
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        h = (OPS[first],) + tuple(OPS[i] for i in rest)
        ctx.case(h, hist_case, h)


def shards(tier):
    th = tier == 'thorough'
    out = []
    if th:
        out += [(values, (i, i + 2048, 18)) for i in range(0, 65536, 2048)]
    else:
        out += [(values, (i, i + 512, 16)) for i in range(0, 4096, 512)] + [(values, (4096, 4100, 16))]
    out += [(histories, (5 if th else 4, f)) for f in range(len(OPS))]
    out += [(big, ()), (wide_backs, ()), (long_dist, ())]
    out += [(arrays, (n, w)) for n in (0, 1, 2, 3) for w in (1, 2, 3, 5, 8, 16, 31, 32, 33, 63, 64, 65, 70)]
    out += [(backs, (n, ('int8', 'int64', 'bool', 'list') if n <= 12 else ('int8',))) for n in range(0, 17 if th else 14)]
    out += [(hammings, (n,)) for n in range(1, 8 if th else 7)] + [(euclids, (n,)) for n in (1, 2, 3)] + [(ups, (n,)) for n in range(0, 5)] + [(powers, (n,)) for n in range(1, 5 if th else 4)]
    return out
