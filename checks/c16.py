"""C16: OFDM transmission and reception."""
import itertools, cmath, math

PID = 'C16'
RULE = ('every (FFT size, carriers, prefix) configuration x every basis vector of every OFDM symbol (real and imaginary unit: linearity is '
        'checked separately) and dense vectors: round trip, prefix, spectrum')
BOUNDS = dict(quick='FFT 3..17, 32, 64 and all even carrier counts <= FFT-1, all prefix lengths 0..FFT (a set for 32, 64), 1-4 OFDM symbols',
              thorough='FFT up to 24, 64, 128, 100')
ASSUMPTIONS = ['even number of carriers smaller than the FFT size', 'prefix not longer than the FFT size']


def conf_case(c, nfft, nsc, cp, ns):
    import numpy as np
    from commpy.modulation import ofdm_tx, ofdm_rx
    half = nsc // 2
    slots = [(-half + i) % nfft for i in range(half)] + [1 + i for i in range(half)]
    inputs = []
    for s in range(ns):
        for i in range(nsc):
            for v in (1, 1j):
                x = np.zeros((nsc, ns), complex)
                x[i, s] = v
                inputs.append(x)
    inputs.append(np.array([[complex(i * 3 % 7 - 2.5, s - i * .3) for s in range(ns)] for i in range(nsc)]))
    inputs.append(np.array([[complex((-1) ** (i + s), 0) for s in range(ns)] for i in range(nsc)]).real)
    total = None
    k = np.arange(nfft)
    for x in inputs:
        y = c.call(ofdm_tx, x, nfft, nsc, cp)
        c.true(y.shape == (ns * (nfft + cp),), 'length of the transmitted signal', y.shape)
        spec = np.zeros((nfft, ns), complex)
        for i, b in enumerate(slots):
            spec[b] = x[i]
        for s in range(ns):
            sym = y[s * (nfft + cp):(s + 1) * (nfft + cp)]
            body = sym[cp:]
            c.true(np.abs(sym[:cp] - body[nfft - cp:]).max() < 1e-12 if cp else True, 'prefix is not a copy of the last samples')
            got = np.array([(body * np.exp(-2j * np.pi * f * k / nfft)).sum() for f in range(nfft)])
            c.true(np.abs(got - spec[:, s]).max() < 1e-9, 'spectrum of OFDM symbol', s, got.tolist(), spec[:, s].tolist())
        z = c.call(ofdm_rx, y, nfft, nsc, cp)
        c.true(z.shape == (nsc, ns), 'shape of the received symbols', z.shape)
        c.true(np.abs(z - x).max() < 1e-9, 'received symbols differ from the transmitted ones', z.tolist(), x.tolist())
    return 'ok'


def rx_case(c, nfft, nsc, cp, ns):
    """the receiver alone: any prefix content is ignored, each symbol is the DFT of its body"""
    import numpy as np
    from commpy.modulation import ofdm_rx
    n = ns * (nfft + cp)
    y = np.array([complex((i * 7 % 11) - 5, (i * 5 % 13) / 3) for i in range(n)])
    z = c.call(ofdm_rx, y, nfft, nsc, cp)
    half = nsc // 2
    slots = [(-half + i) % nfft for i in range(half)] + [1 + i for i in range(half)]
    k = np.arange(nfft)
    for s in range(ns):
        body = y[s * (nfft + cp) + cp:(s + 1) * (nfft + cp)]
        want = [(body * np.exp(-2j * np.pi * f * k / nfft)).sum() for f in slots]
        c.close([complex(v) for v in z[:, s]], [complex(w) for w in want], 1e-8, 'receiver output of symbol %d' % s)


def confs(ctx, nfft, cps, nss):
    for nsc in range(2, nfft, 2):
        for cp in cps:
            for ns in nss:
                ctx.case((nfft, nsc, cp, ns), conf_case, nfft, nsc, cp, ns)
                ctx.case(('rx', nfft, nsc, cp, ns), rx_case, nfft, nsc, cp, ns)


def some(ctx, nfft, nsc, cp, ns):
    ctx.case((nfft, nsc, cp, ns), conf_case, nfft, nsc, cp, ns)
    ctx.case(('rx', nfft, nsc, cp, ns), rx_case, nfft, nsc, cp, ns)


def shards(tier):
    th = tier == 'thorough'
    out = [(some, (n, nsc, cp, 3)) for n in ((64, 100, 128) if th else (64, 32)) for nsc in (2, 12, n // 2, n - 2) for cp in (0, 1, n // 4, n)]
    for n in range(24 if th else 17, 2, -1):
        if n <= 9 or th:
            out += [(confs, (n, range(n + 1), (s,))) for s in (1, 2, 3, 4)]
        else:
            out += [(confs, (n, (0, 1, 2, n // 4, n // 2, n - 1, n), (s,))) for s in (1, 3)]
    return out
