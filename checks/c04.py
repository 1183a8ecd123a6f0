"""C04: Viterbi decoding is maximum likelihood over the terminated codewords; guaranteed error patterns are corrected."""
import itertools, math
from mc.engine import Mismatch
from mc.refs_conv import CODES, ref, trellis, lcg_bits

PID = 'C04'
RULE = ('all received words of short terminated blocks (hard bits; small alphabets of real values and LLRs, zeros, ties and values beyond the '
        'clipping level included) are decoded with covering tracebacks; the re-encoded decision must be at least as close as every terminated '
        'codeword (brute force). Longer blocks: all error patterns up to the guaranteed weight at all positions before the last five memory lengths, default traceback included')
BOUNDS = dict(quick='hard: all 2^N words, N<=10; real/LLR alphabets of 3-4 values, N<=6..8; all single errors (<=75 steps), all double errors (<=20 steps) that precede the last 5 memory lengths',
              thorough='hard N<=13; alphabets N<=9; all double errors <=26 steps, triple errors for dfree>=7')


def term_words(r, L):
    """all (message, terminated codeword) of the model, shortest uniform flush."""
    dist = r.steps_to_zero()
    n = r.M if r.rsc or r.k == 1 else max(dist.values())
    out = []
    for msg in itertools.product((0, 1), repeat=L):
        body, s = r.encode(list(msg))
        paths = [(s, [])]
        for i in range(n):
            paths = [(r.next[q][u], w + [(r.out[q][u] >> (r.n - 1 - j)) & 1 for j in range(r.n)])
                     for q, w in paths for u in range(r.I) if dist[r.next[q][u]] <= n - i - 1]
        out += [(msg, body + w) for _, w in paths]
    return out


_tw = {}


def tw(name, L):
    if (name, L) not in _tw:
        _tw[name, L] = term_words(ref(name), L)
    return _tw[name, L]


def cost(kind, y, x):
    if kind == 'hard':
        return sum(a != b for a, b in zip(y, x))
    # the distances less what does not depend on the codeword, so that small differences keep their accuracy
    if kind == 'unquantized':
        return math.fsum(-2 * a * (2 * b - 1) for a, b in zip(y, x))
    return math.fsum(-b * max(-500, min(500, a)) for a, b in zip(y, x))


def ml(c, name, L, kind, y, depth, dt=None):
    import numpy as np
    from commpy.channelcoding.convcode import viterbi_decode
    r, t = ref(name), trellis(name)
    d = c.call(viterbi_decode, np.array(y, dt or ('int64' if kind == 'hard' else 'float64')), t, tb_depth=depth, decoding_type=kind)
    d = [int(b) for b in d]
    c.eq(len(d), len(y) * r.k // r.n, 'number of decoded bits')
    c.true(all(b in (0, 1) for b in d), 'decoded values are bits', d)
    got = cost(kind, y, r.encode(d)[0])
    best, bm = min((cost(kind, y, w), m) for m, w in tw(name, L))
    if got > best + 1e-9 * max(map(abs, y)) + 1e-12:
        raise Mismatch('decision %s has distance %s, terminated codeword of message %s has %s' % (d, got, bm, best))
    return ''.join(map(str, d))


def all_words(ctx, name, L, kind, alphabet, part=(0, 1), depths=(None,), dt=None):
    r = ref(name)
    N = len(tw(name, L)[0][1])
    steps = N // r.n
    for i, y in enumerate(itertools.product(alphabet, repeat=N)):
        if i % part[1] == part[0]:
            for dp in depths:
                depth = {None: 400, 'cover': steps + r.M + 1}[dp]
                ctx.case((name, L, kind, y, dp, dt), ml, name, L, kind, y, depth, dt)


def unmerged(r, j):
    """least weight over j steps of paths that leave state 0 at once and have not returned."""
    best = {}
    for u in range(1, r.I):
        s = r.next[0][u]
        if s:
            best[s] = min(best.get(s, 99), bin(r.out[0][u]).count('1'))
    for _ in range(j - 1):
        nb = {}
        for s, w in best.items():
            for u in range(r.I):
                v = r.next[s][u]
                if v:
                    w2 = w + bin(r.out[s][u]).count('1')
                    if w2 < nb.get(v, 1 << 30):
                        nb[v] = w2
        best = nb
    return min(best.values()) if best else 1 << 30


def guarantee(r, depth):
    """largest number of errors certainly corrected when at least 5 memory lengths of correct steps follow."""
    lim = [r.dfree(), unmerged(r, 5 * r.M), unmerged(r, min(depth, 400) - 1)]
    return (min(lim) - 1) // 2


def corrected(c, name, msg, errs, kind, depth):
    import numpy as np
    from commpy.channelcoding.convcode import viterbi_decode
    r, t = ref(name), trellis(name)
    x = list(words(name, tuple(msg)))
    for e in errs:
        x[e] ^= 1
    if kind == 'hard':
        y = np.array(x)
    elif kind == 'unquantized':
        y = np.array([2. * b - 1 for b in x])
    else:
        y = np.array([6. * b - 3 for b in x])
    kw = {} if depth is None else dict(tb_depth=depth)
    d = c.call(viterbi_decode, y, t, decoding_type=kind, **kw)
    c.eq([int(b) for b in d[:len(msg)]], list(msg), 'message with errors at %s' % (errs,))


_w = {}


def words(name, msg):
    if (name, msg) not in _w:
        r = ref(name)
        dist = r.steps_to_zero()
        n = r.M if r.rsc or r.k == 1 else max(dist.values())
        body, s = r.encode(list(msg))
        for i in range(n):
            u = next(u for u in range(r.I) if dist[r.next[s][u]] <= n - i - 1)
            body += [(r.out[s][u] >> (r.n - 1 - j)) & 1 for j in range(r.n)]
            s = r.next[s][u]
        _w[name, msg] = body
    return _w[name, msg]


def errors(ctx, name, steps, weight, kinds, depths, part=(0, 1), seed=3):
    r = ref(name)
    L = steps * r.k
    msg = lcg_bits(L, seed)
    N = len(words(name, tuple(msg)))
    nst = N // r.n
    last = N - 5 * r.M * r.n                # errors may fall before this position
    for depth in depths:
        eff = min(5 * r.M, nst * r.k) if depth is None else depth
        if last < 3 * r.n or guarantee(r, eff) < weight:
            raise AssertionError('space not guaranteed: %s %s %s' % (name, steps, depth))
        for i, errs in enumerate(itertools.combinations(range(last), weight)):
            if i % part[1] == part[0]:
                for kind in kinds:
                    ctx.case((name, steps, seed, errs, kind, depth), corrected, name, msg, errs, kind, depth)


def shards(tier):
    th = tier == 'thorough'
    out = []
    P = 4
    hard = [('k1m1', 3), ('k1m1', 4), ('k1m2', 2), ('k1m2', 3), ('k1m2n1', 6), ('k1rec', 3), ('k1old7', 3), ('k1m2lsb', 3), ('k1m3', 2),
            ('k1recd', 2), ('k2m11', 2), ('k2m11', 4), ('k2m10', 4), ('k2m21', 2), ('k2rsc11', 2), ('k3m100', 3)]
    if th:
        hard += [('k1m2', 4), ('k1rec', 4), ('k1m3', 3), ('k1old13', 3), ('k2m12', 4), ('k1m2n3', 2), ('k1m4', 2), ('k1m1', 5)]
    for name, L in hard:
        n = 2 ** len(tw(name, L)[0][1])
        parts = max(1, n // 256)
        for i in range(parts):
            out.append((all_words, (name, L, 'hard', (0, 1), (i, parts), ('cover', None) if n <= 256 else ('cover',))))
    for kind, alphs in (('unquantized', [(-1.5, -.25, .4, 1.), (-3., 0., .5), (-2e-6, 1e-6, 3e-6), (-1., 1., 1.00001)]),
                        ('soft', [(-4., -1., 0., 2.5), (-700., 499., 900.), (0., 30., -31.), (-2e-6, 1e-6, 3e-6), (-40., 40., 40.00001)])):
        for al in alphs:
            small = [('k1m1', 2), ('k1m2', 1)] + ([('k1rec', 1), ('k2m10', 2)] if len(al) == 3 else [])
            for name, L in small + ([('k1m2', 2), ('k1m3', 1), ('k1rec', 2), ('k3m100', 3)] if th and len(al) == 3 else []):
                N = len(tw(name, L)[0][1])
                parts = max(1, len(al) ** N // 500)
                for i in range(parts):
                    out.append((all_words, (name, L, kind, al, (i, parts), (None,))))
    for kind, al, dt in (('soft', (-120, -3, 2, 100), 'int8'), ('soft', (-300, 0, 90), 'int16'), ('soft', (-400., 0., 95.), 'float32'), ('soft', (-100., 12., 30.), 'float16'),
                         ('soft', (-89, 1, 700), 'int64'), ('unquantized', (-100, 5, 90), 'int8'), ('unquantized', (-1., .25, 2.), 'float32'), ('unquantized', (-300, 0, 250), 'int16')):
        for name, L in (('k1m1', 2), ('k1m2', 1), ('k1rec', 1)):
            out.append((all_words, (name, L, kind, al, (0, 1), (None,), dt)))
    for name, steps in (('k1m2', 75), ('k1m3', 25), ('k1old7', 40), ('k1m2n3', 22), ('k1m2lsb', 20), ('k2m11', 22), ('k2m12', 25), ('k2lsb', 20), ('k3m211', 26)):
        out.append((errors, (name, steps, 1, ('hard', 'soft') if steps < 24 else ('hard',), (None,))))
        if steps < 30:
            out.append((errors, (name, steps - 2, 1, ('unquantized',), (2 * steps,))))
    for name, steps in (('k1m2', 18), ('k1old7', 17), ('k1m3', 20), ('k1m2n3', 15), ('k2m22n4', 23), ('k1m3n4', 18)):
        if guarantee(ref(name), 5 * ref(name).M) < 2:
            continue
        for i in range(4):
            out.append((errors, (name, steps + (6 if th else 0), 2, ('hard', 'soft') if th else ('hard',), (None, 5 * steps) if th else (None,), (i, 4))))
    if th:
        for i in range(8):
            out.append((errors, ('k1m3n4', 18, 3, ('hard',), (None,), (i, 8))))
            out.append((errors, ('k1m4', 24, 3, ('hard',), (100,), (i, 8))))
    return out
