"""C03: viterbi_decode(encode(m)) == m without noise, for every code, type, termination and traceback depth."""
import itertools
from mc.refs_conv import CODES, ref, trellis, lcg_bits

PID = 'C03'
RULE = ('all messages up to the length bound x code x termination x decoding type (several value alphabets per type) x traceback depth; '
        'longer messages: all single-one, all runs, structured ones, with depths below and above the block. '
        'for continuous streams decoded from hard or unquantized values the last memory-length of steps is left open')
BOUNDS = dict(quick='<=4 message bits at every depth, <=6 at default depth (fewer for codes with many states); long: 40..260 steps',
              thorough='<=7 bits at every depth, <=10 at default depth; long up to 1000 steps')
ASSUMPTIONS = ['codes whose outputs determine the input in every state', 'a traceback depth is at least the constraint length memory+1']


def levels(kind, bits):
    """received values for coded bits, per alphabet."""
    if kind == 'hard':
        return list(bits), 'int64', 'hard'
    if kind == 'hardfloat':
        return [float(b) for b in bits], 'float64', 'hard'
    if kind == 'hard8':
        return list(bits), 'int8', 'hard'
    if kind == 'unq':
        return [2. * b - 1 for b in bits], 'float64', 'unquantized'
    if kind == 'unqint':
        return [2 * b - 1 for b in bits], 'int64', 'unquantized'
    if kind == 'unq.6':
        return [1.2 * b - .6 for b in bits], 'float64', 'unquantized'
    if kind == 'soft':
        return [8. * b - 4 for b in bits], 'float64', 'soft'
    if kind == 'softint':
        return [8 * b - 4 for b in bits], 'int64', 'soft'
    if kind == 'softbig':
        return [(2 * b - 1) * 1e4 for b in bits], 'float64', 'soft'
    if kind == 'softinf':
        return [(2 * b - 1) * float('inf') for b in bits], 'float64', 'soft'
    if kind == 'softmix':
        return [(2 * b - 1) * (0.5, 3., 700., 40.)[i % 4] for i, b in enumerate(bits)], 'float64', 'soft'
    if kind in ('softint8', 'softint16', 'softfloat16', 'softfloat32', 'softint32'):
        a = dict(softint8=120, softint16=20000, softfloat16=300, softfloat32=450, softint32=90)[kind]
        return [(2 * b - 1) * (a, a // 4, a // 10, 1)[i % 4] for i, b in enumerate(bits)], kind[4:], 'soft'
    if kind in ('unqint8', 'unqint16', 'unqfloat32', 'unqfloat16'):
        a = dict(unqint8=100, unqint16=300, unqfloat32=2, unqfloat16=500)[kind]
        return [(2 * b - 1) * a for b in bits], kind[3:], 'unquantized'
    raise KeyError(kind)


SMALL = ('softint8', 'softint16', 'softfloat16', 'softfloat32', 'softint32', 'unqint8', 'unqint16', 'unqfloat32', 'unqfloat16')


def dec(c, name, msg, term, kind, depth):
    import numpy as np
    from commpy.channelcoding.convcode import viterbi_decode
    r, t = ref(name), trellis(name)
    msg = list(msg)
    body, s = r.encode(msg)
    if term == 'term':
        # flush along a shortest path of the code's worst-case length, in the model
        dist = r.steps_to_zero()
        n = r.M if r.rsc or r.k == 1 else max(dist.values())
        for i in range(n):
            u = next(u for u in range(r.I) if dist[r.next[s][u]] <= n - i - 1)
            body += [(r.out[s][u] >> (r.n - 1 - j)) & 1 for j in range(r.n)]
            s = r.next[s][u]
    vals, dt, ty = levels(kind, body)
    y = np.array(vals, dt)
    kw = {} if depth is None else dict(tb_depth=depth)
    d = c.call(viterbi_decode, y, t, decoding_type=ty, **kw)
    d = [int(x) for x in d]
    c.eq(len(d), len(body) * r.k // r.n, 'number of decoded bits')
    sure = len(msg) if term == 'term' or ty == 'soft' else max(0, len(msg) - r.M * r.k)
    c.eq(d[:sure], msg[:sure], 'decoded message')
    return ''.join(map(str, d))


def put(ctx, name, msg, term, kind, depth):
    key = (name, ''.join(map(str, msg)) if len(msg) <= 24 else ('long', len(msg), hash(tuple(msg)) & 0xffffffff), term, kind, depth)
    ctx.case(key, dec, name, msg, term, kind, depth)


def all_default(ctx, name, steps, kinds):
    k = ref(name).k
    for n in range(1, steps + 1):
        for msg in itertools.product((0, 1), repeat=n * k):
            for term in ('term', 'cont'):
                for kind in kinds:
                    put(ctx, name, msg, term, kind, None)


def all_depths(ctx, name, steps, term, kinds):
    r = ref(name)
    lo = r.M + 1
    for n in range(1, steps + 1):
        for depth in sorted({lo, lo + 1, lo + 2, n, n + 1, n + r.M - 1, n + r.M, n + r.M + 1, 5 * r.M, 5 * r.M + 1, 60}):
            if depth >= lo:
                for msg in itertools.product((0, 1), repeat=n * r.k):
                    for kind in kinds:
                        put(ctx, name, msg, term, kind, depth)


def long(ctx, name, n, depths, kinds):
    r = ref(name)
    L = n * r.k
    msgs = [tuple(int(i == p) for i in range(L)) for p in range(0, L, max(1, L // (12 if ctx.thorough else 5)))]
    msgs += [tuple(lcg_bits(L, s)) for s in (1, 2)] + [(1,) * L, tuple(int(i % 7 == 3) for i in range(L))]
    for msg in msgs:
        for depth in depths:
            for kind in kinds if depth is None or ctx.thorough else kinds[:1]:
                put(ctx, name, msg, 'term', kind, depth)
            put(ctx, name, msg, 'cont', 'soft', depth)


def bad_type(ctx):
    def body(c, name, ty):
        import numpy as np
        from commpy.channelcoding.convcode import viterbi_decode
        t = trellis(name)
        c.raises(ValueError, viterbi_decode, np.array(ref(name).encode([1] * (4 * t.k))[0]), t, decoding_type=ty)
    for name in ('k1m1', 'k1m2', 'k1m3', 'k2m11', 'k2m21', 'k1old7'):
        for ty in ('Hard', '', 'hardened', 'SOFT', 'unquantised', 'llr'):
            ctx.case(('type', name, ty), body, name, ty)


def shards(tier):
    th = tier == 'thorough'
    out = [(bad_type, ())]
    for name in CODES:
        r = ref(name)
        assert all(len(set(o)) == r.I for o in r.out) or r.n < r.k + 0 or name == 'k1m2n1', name
        big = r.S * r.I >= 32
        base = {1: 6, 2: 3 if not big else 2, 3: 2 if not big else 1, 4: 1}[r.k] - (1 if big and r.k == 1 else 0)
        if th:
            base += {1: 3, 2: 2, 3: 1, 4: 1}[r.k] - (1 if big else 0)
        out.append((all_default, (name, base, ('hard', 'soft'))))
        out.append((all_default, (name, max(1, base - 1 if not th else base), ('unq', 'softbig'))))
        small = max(1, base - {1: 3, 2: 1, 3: 1, 4: 0}[r.k])
        out.append((all_default, (name, small, ('hardfloat', 'hard8', 'unqint', 'unq.6', 'softint', 'softinf', 'softmix') + SMALL)))
        for term in ('term', 'cont'):
            out.append((all_depths, (name, max(1, min(base, 4 if not th else 6) - (1 if big else 0)), term, ('hard', 'soft') if term == 'term' else ('soft',))))
    for name, n in (('k1m2', 41), ('k1m2', 260), ('k1m3', 60), ('k1rec', 50), ('k1old7', 45), ('k2m11', 30), ('k2m21', 40),
                    ('k2rsc11', 31), ('k3rsc', 9), ('k1m2n3', 33), ('k3m100', 25), ('k1m4', 30)):
        M = ref(name).M
        out.append((long, (name, n, (None, M + 2, n - 3) if n < 100 else (None,), ('hard', 'unq'))))
        if th:
            out.append((long, (name, n * 4, (None, M + 1, n * 4 - 1, n * 4 + M, n * 4 + 50), ('hard', 'unq', 'softmix') + SMALL[:3])))
    out.sort(key=lambda s: -(ref(s[1][0]).S * ref(s[1][0]).I if s[1] else 0))
    return out
