"""C25: BEC, BSC and AWGN per symbol."""
import itertools, math
from mc.refs_chan import *

PID = 'C25'
RULE = ('the random draws are an explicit environment: all bit words x all words of draws over a boundary alphabet around the probability, one-hot and '
        'two-hot noise tapes for every position of AWGN, seeded streams; every output symbol decided from its own draw')
BOUNDS = dict(quick='words of length 0-4 x 6^n draw words x 11 probabilities x 7 element types; words of length 300; AWGN: all words of length 1-3 over 6 '
                    'amplitudes x 9 SNRs x 4 rates, lengths to 40',
              thorough='binary words of length 0-5; AWGN words of length 1-5')
ASSUMPTIONS = ['the draws are uniform on [0, 1) from the global NumPy generator, one per symbol in order']

PROBS = [0, 0., 1, 1., .5, .25, .1, 1e-12, 1 - 2 ** -53, 2 ** -53, 2 / 3]


def tapes(p):
    import numpy as np
    hi = 1 - 2. ** -53
    vals = {0., hi, .5}
    for v in (float(p), float(np.nextafter(p, 0)), float(np.nextafter(p, 1))):
        if 0 <= v <= hi:
            vals.add(v)
    return sorted(vals)


def ref(kind, bits, draws, p):
    if kind == 'bec':
        return [-1 if d < p else b for b, d in zip(bits, draws)]
    return [1 - b if d < p else b for b, d in zip(bits, draws)]


def bit_case(c, kind, bits, draws, p, dt):
    import numpy as np
    from commpy import channels as ch
    x = np.array(bits, dt)
    with Tape(draws) as t:
        y = c.call(getattr(ch, kind), x, p)
    c.true(y is not x and not np.shares_memory(y, x), 'the output is the input array')
    if t.pos != len(bits):
        if p == 0:
            c.eq(y, list(bits), 'probability 0')
        elif p == 1:
            c.eq(y, ref(kind, bits, [0.] * len(bits), 1), 'probability 1')
        else:
            c.true(all(int(v) in (b, -1 if kind == 'bec' else 1 - b) for b, v in zip(bits, y.tolist())), 'output alphabet', y.tolist())
        return 'generator not reached'
    c.eq(y, ref(kind, bits, draws, p), '%s(%s), draws %s, p=%r' % (kind, list(bits), list(draws), p))
    return sum(d < p for d in draws)


def seeded_case(c, kind, n, p, dt, seed):
    """the real generator, replayed"""
    import numpy as np
    from commpy import channels as ch
    bits = [(i * 2654435761 >> 7) & 1 for i in range(n)]
    rs = np.random.RandomState(seed)
    np.random.seed(seed)
    for k in range(2):
        y = c.call(getattr(ch, kind), np.array(bits, dt), p)
        draws = rs.random_sample(n).tolist()
        got = y.tolist()
        c.eq(len(got), n, 'length')
        if p in (0, 1):
            c.eq(got, ref(kind, bits, draws, p), '%s with probability %s' % (kind, p))
        hit = sum(g != b for g, b in zip(got, bits))
        want = ref(kind, bits, draws, p)
        c.true(set(got) <= {0, 1, -1} if kind == 'bec' else set(got) <= {0, 1}, 'output alphabet')
        c.true(all(g == b or g == (-1 if kind == 'bec' else 1 - b) for g, b in zip(got, bits)), 'output alphabet')
        # whatever generator is used, the number of actions is within ten standard deviations
        c.true(abs(hit - n * p) <= 10 * math.sqrt(n * p * (1 - p)) + 1e-9, 'number of actions', hit, n * p)
        c.step(n)
    return 'same draws' if got == want else 'other draws'


def awgn_case(c, x, dt, snr, rate, kw):
    import numpy as np
    from commpy.channels import awgn
    a = np.array(x, dt)
    n, cplx = len(x), np.iscomplexobj(a)
    xs = [complex(v) for v in a.tolist()]
    power = sum(abs(v) ** 2 for v in xs) / n
    var = power / (rate * db(snr))
    sd = math.sqrt(var / 2) if cplx else math.sqrt(var)
    tol = 1e-9 * (1 + math.sqrt(power) + sd) * (1e4 if dt in ('complex64', 'float32') else 1)

    def run(tape):
        with Tape(tape) as t:
            y = c.call(awgn, a, snr, rate) if kw == 'pos' else c.call(awgn, a, snr_dB=snr, rate=rate) if kw == 'kw' else c.call(awgn, a, snr)
        c.true(np.shape(y) == (n,), 'length', np.shape(y))
        c.true(np.iscomplexobj(y) == cplx, 'real noise for real signals, complex noise for complex ones')
        return [complex(v) - s for v, s in zip(y.tolist(), xs)], t.pos
    base, m = run({})
    if m == 0:
        return 'generator not reached'
    c.true(all(abs(v) <= tol for v in base), 'noise is not centred', base)
    c.eq(m, n * (2 if cplx else 1), 'number of normal draws')
    owner = set()
    for k in range(m):
        d, _ = run({k: 1.})
        at = [i for i, v in enumerate(d) if abs(v) > tol]
        if var and sd < 100 * tol:
            continue                                     # below the resolution of the element type
        if not var:
            c.true(not at, 'noise without power', d)
            continue
        c.true(len(at) == 1, 'one draw moved the symbols', at)
        v = d[at[0]]
        c.true(abs(abs(v) - sd) <= tol * 10, 'noise amplitude of one unit draw', v, sd)
        c.true(not cplx and v.imag == 0 or cplx and min(abs(v.real), abs(v.imag)) <= tol, 'noise component', v)
        owner.add((at[0], abs(v.imag) > abs(v.real)))
    if var and sd >= 100 * tol:
        c.eq(len(owner), m, 'distinct components moved by the draws')
        d, _ = run([(-1) ** k * (k + 1.) for k in range(m)])
        tot = sum(abs(v) ** 2 for v in d)
        c.close(tot, var / (2 if cplx else 1) * sum((k + 1) ** 2 for k in range(m)), tol * 10 * (1 + n * m * m), 'energy of the noise')
    return 'noise'


def awgn_stream(c, n, cplx, snr, rate, dt, seed):
    import numpy as np
    from commpy.channels import awgn
    x = [complex((i * 7 % 5) - 2, (i * 3 % 4) - 1 if cplx else 0) for i in range(n)]
    a = np.array(x if cplx else [v.real for v in x], dt)
    power = sum(abs(v) ** 2 for v in x) / n
    var = power / (rate * db(snr))
    st = Stream(seed)
    st.more(n * 4)
    for _ in range(2):
        y = c.call(awgn, a, snr, rate)
        st.take(c, [w for v in components([complex(g) - s for g, s in zip(y.tolist(), x)], math.sqrt(var / 2) if cplx else math.sqrt(var), cplx) for w in [v]], 'noise')


def bits(ctx, kind, n, p, dts):
    al = tapes(p)
    for w in itertools.product((0, 1), repeat=n):
        for d in itertools.product(al, repeat=n):
            for dt in dts:
                ctx.case((kind, w, d, p, dt), bit_case, kind, w, list(d), p, dt)


def long_bits(ctx, kind):
    for p in PROBS + [.999]:
        for n in (1, 8, 300, 4096):
            for dt in ('int8', 'int64', 'int32'):
                ctx.case(('seeded', kind, n, p, dt), seeded_case, kind, n, p, dt, n + 3)
        al = tapes(p)
        for n in (17, 300):
            ctx.case(('tape', kind, n, p), bit_case, kind, [(i * 5 // 3) & 1 for i in range(n)], [al[i * i % len(al)] for i in range(n)], p, 'int8')


AMPS = [0, 1, -1, 2.5, .1, 30]
SNRS = [0, 10, -10, 3.0103, 100, -3, 25.5, 1, 60]


def awgns(ctx, n, cplx, first):
    amps = AMPS if not cplx else [0, 1, 1j, -2 + .5j, .1 - .1j, 30j]
    for rest in itertools.product(amps, repeat=n - 1):
        x = (first,) + rest
        for i, snr in enumerate(SNRS):
            for j, rate in enumerate((1, .5, 1 / 3, 3 / 4)):
                if n > 2 and (i + j) % 4:
                    continue
                dts = ['complex128', 'complex64'] if cplx else ['float64', 'int64' if all(v == int(v) for v in x) else 'float32']
                for dt in dts:
                    ctx.case((x, dt, snr, rate), awgn_case, x, dt, snr, rate, 'default' if rate == 1 else 'kw' if i % 2 else 'pos')


def awgn_long(ctx):
    for n in (1, 2, 7, 40):
        for cplx in (False, True):
            x = tuple(complex((i * 7 % 5) - 2, ((i * 3 % 4) - 1) * cplx) if cplx else (i * 7 % 5) - 2. for i in range(n))
            for snr in SNRS:
                for rate in (1, .5):
                    for dt in (('complex128', 'complex64') if cplx else ('float64', 'float32', 'int64')):
                        ctx.case(('long', n, cplx, snr, rate, dt), awgn_case, x, dt, snr, rate, 'pos')
    for n in (2, 50, 1000):
        for cplx in (False, True):
            for snr in SNRS[:7]:
                if abs(snr) < 50:
                    ctx.case(('stream', n, cplx, snr), awgn_stream, n, cplx, snr, .5, complex if cplx else float, n)


DTS = ('int8', 'int64', 'uint8', 'int16', 'int32', 'float64')


def shards(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('bec', 'bsc'):
        for p in PROBS:
            for n in range(0, 6 if th else 5):
                dts = [d for d in DTS if not (kind == 'bec' and d == 'uint8') and not (kind == 'bsc' and d == 'float64')]
                out.append((bits, (kind, n, p, dts if n < 4 else dts[:1])))
        out.append((long_bits, (kind,)))
    for n in range(1, 6 if th else 4):
        for cplx in (False, True):
            for f in (AMPS if not cplx else [0, 1, 1j, -2 + .5j, .1 - .1j, 30j]):
                out.append((awgns, (n, cplx, f)))
    out.append((awgn_long, ()))
    out.sort(key=lambda s: -s[1][1] if len(s[1]) > 1 and s[0] is bits else 0)
    return out
