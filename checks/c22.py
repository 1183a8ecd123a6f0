"""C22: frequency offsets."""
import itertools, cmath, math
from fractions import Fraction as F

PID = 'C22'
RULE = ('all waveforms over a small alphabet x offsets x rates against the phasor computed from the exact rational phase; all histories of three offsets: '
        'composition, restoration, reuse of earlier outputs')
BOUNDS = dict(quick='words of length 0-4 over 6 values x 11 offsets x 5 rates; 4 element types; long waveforms to 5000 samples; 11^3 offset histories',
              thorough='words of length 0-6; 11^4 histories')
ASSUMPTIONS = []

ALPHA = [0, 1, -1, 1j, 2.5 - 1.5j, -.25]
OFFS = [0, 1, -1, .5, 100, -3.75, 1e3, 1 / 3, 12345.678, -2e5, 7]
RATES = [1, 8, 1e3, 44100, 3e6]


def phasor(n, Fs, df):
    ph = (F(df) / F(Fs) * n) % 1
    return cmath.exp(2j * math.pi * float(ph))


def want(x, Fs, df):
    return [complex(v) * phasor(i, Fs, df) for i, v in enumerate(x)]


def tol(n, Fs, df):
    return 1e-9 + 1e-14 * n * abs(df / Fs)


def word_case(c, x, Fs, df, dt):
    import numpy as np
    from commpy.impairments import add_frequency_offset
    y = c.call(add_frequency_offset, np.array(x, dt), Fs, df)
    x = np.array(x, dt).tolist()
    t = tol(len(x), Fs, df)
    c.true(y.shape == (len(x),), 'length', y.shape)
    if dt == 'complex64':
        t += 1e-5
    w = want(x, Fs, df)
    c.close(y, w, t, 'offset waveform')
    c.close(np.abs(y), [abs(v) for v in x], t, 'magnitudes')
    back = c.call(add_frequency_offset, y, Fs, -df)
    c.close(back, [complex(v) for v in x], t, 'restored waveform')


def hist_case(c, offs, Fs, x):
    import numpy as np
    from commpy.impairments import add_frequency_offset
    a = np.array(x)
    y, total, kept = a, F(0), []
    for d in offs:
        y = c.call(add_frequency_offset, y, Fs, d)
        total += F(d)
        kept.append((y, y.copy()))
    c.close(y, [complex(v) * cmath.exp(2j * math.pi * float(total / F(Fs) * i % 1)) for i, v in enumerate(x)], 1e-8, 'composition of offsets %s' % (offs,))
    for v, k in kept:
        c.true((v == k).all(), 'a later call changed an earlier result')
    once = c.call(add_frequency_offset, a, Fs, float(sum(offs)))
    c.close(y, once.tolist(), 1e-7, 'composition equals the summed offset')


def words(ctx, n, Fs, dts):
    for df in OFFS:
        for x in itertools.product(ALPHA, repeat=n):
            ctx.case((x, Fs, df), word_case, x, Fs, df, 'complex128')
            for dt in dts:
                z = x if dt == 'complex64' else [complex(v).real for v in x]
                ctx.case((x, Fs, df, dt), word_case, z, Fs, df, dt)


def longs(ctx, n):
    x = [complex((i * 7919 % 31) - 15, (i * 104729 % 17) - 8) for i in range(n)]
    for Fs in RATES:
        for df in OFFS:
            for dt in ('complex128', 'complex64', 'int64', 'float64', 'float32'):
                ctx.case(('long', n, Fs, df, dt), word_case, x if dt.startswith('c') else [v.real for v in x], Fs, df, dt)


def hists(ctx, d, first, Fs):
    x = [1, -2j, .5, 3 + 1j, 0, 2, -1, 1j, 4]
    for rest in itertools.product(OFFS, repeat=d - 1):
        ctx.case((first,) + rest, hist_case, (first,) + rest, Fs, x)


def shards(tier):
    th = tier == 'thorough'
    out = [(hists, (4 if th else 3, f, Fs)) for f in OFFS for Fs in (8, 44100)]
    for n in range(0, 7 if th else 5):
        for Fs in RATES:
            out.append((words, (n, Fs, ('complex64', 'int64', 'float64', 'float32') if n < 4 else ())))
    return out + [(longs, (n,)) for n in (63, 64, 65, 255, 1000, 5000)]
