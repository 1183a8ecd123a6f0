"""C10: RandInterlv is the documented permutation, exactly invertible, in every history."""
import itertools

PID = 'C10'
RULE = ('all lengths x seeds x element types (permutation, both inversions, two objects, global generator state); all use histories of three '
        'objects up to a depth; all constructor orders; every binary word of small length')
BOUNDS = dict(quick='lengths 0..300, 511..513, 1000, 1024, 4096, 65536, 65537; 6 seeds; 9 dtypes; histories of 9 operations to depth 3; '
                    'seeds 0..399 for lengths 2..5; all words of length <=7',
              thorough='lengths 0..1100 and 4096, 65535..65537; histories to depth 4; seeds 0..1999; all words of length <=10')
ASSUMPTIONS = ['inputs are 1-D arrays of the interleaver length']
SEEDS = (0, 1, 2, 1346, 4294967295, 12345)
DTYPES = ('int64', 'int8', 'uint8', 'int32', 'float64', 'complex128', 'bool', 'float32', 'object')


def perm(n, seed):
    import numpy as np
    return np.random.RandomState(seed).permutation(np.arange(n)).tolist()


def state():
    import numpy as np
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def use(c, it, p, a):
    """interleave, deinterleave and both round trips of one array"""
    vals = a.tolist()
    x = c.call(it.interlv, a)
    c.eq(x, [vals[i] for i in p], 'interleaved')
    c.eq(c.call(it.deinterlv, x), vals, 'deinterleave(interleave)')
    y = c.call(it.deinterlv, a)
    inv = [0] * len(p)
    for i, j in enumerate(p):
        inv[j] = vals[i]
    c.eq(y, inv, 'deinterleaved')
    c.eq(c.call(it.interlv, y), vals, 'interleave(deinterleave)')
    c.true(x.dtype == a.dtype and y.dtype == a.dtype, 'element type changed', str(a.dtype), str(x.dtype), str(y.dtype))
    return x, y


def data(n, dt):
    import numpy as np
    if dt == 'complex128':
        return np.array([complex(i, -i / 3) for i in range(n)])
    if dt == 'float64':
        return np.array([i + 1 / 3 for i in range(n)])
    if dt == 'bool':
        return np.array([bool(i * i % 3 == 1) for i in range(n)], bool)
    if dt == 'object':
        return np.array([2 ** 70 + i for i in range(n)], object)
    if dt == 'int64':
        return np.array([2 ** 53 + 1 + i for i in range(n)], 'int64')
    return np.arange(n).astype(dt)


def size_case(c, n, seed):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    np.random.seed(3)
    before = state()
    it = RandInterlv(n, seed)
    p = perm(n, seed)
    kept = []
    for dt in DTYPES:
        kept.append((use(c, it, p, data(n, dt)), dt))
    np.random.seed(77)
    other = RandInterlv(n, seed)
    c.eq(c.call(other.interlv, np.arange(n)), p, 'second object')
    np.random.seed(3)
    c.true(state() == before, 'test harness')
    RandInterlv(n, seed).interlv(np.arange(n))
    c.true(state() == before, 'the global random generator was disturbed by an interleaver of', n, seed)
    # a strided, read-only view of a longer array
    big = np.arange(2 * n)
    big.setflags(write=False)
    use(c, it, p, big[::2])
    for (x, y), dt in kept:                                   # results handed out stay the caller's
        vals = data(n, dt).tolist()
        c.eq(x, [vals[i] for i in p], 'earlier result')
        if n:
            c.true(not np.shares_memory(x, y), 'results share memory')
    return n


def word_case(c, n, seed, words):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    it, p = RandInterlv(n, seed), perm(n, seed)
    for w in words:
        use(c, it, p, np.array(w))


OPS = ('A+', 'A-', 'B+', 'B-', 'C+', 'C-', 'new', 'seed', 'draw')
PARAM = {'A': (6, 1), 'B': (6, 2), 'C': (5, 1)}


def hist_case(c, hist):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    obj = {k: RandInterlv(*v) for k, v in PARAM.items()}
    np.random.seed(5)
    shadow = np.random.RandomState(5)
    bufs = {k: np.arange(v[0]) * 10 for k, v in PARAM.items()}
    model = {k: v.tolist() for k, v in bufs.items()}
    for op in hist:
        c.step()
        if op == 'new':
            obj = {k: RandInterlv(*PARAM[k]) for k in 'CBA'}
        elif op == 'seed':
            np.random.seed(9)
            shadow = np.random.RandomState(9)
        elif op == 'draw':
            c.eq(np.random.randint(0, 1000, 5), shadow.randint(0, 1000, 5), 'global random numbers')
        else:
            k = op[0]
            p = perm(*PARAM[k])
            if op[1] == '+':
                bufs[k] = c.call(obj[k].interlv, bufs[k])
                model[k] = [model[k][i] for i in p]
            else:
                bufs[k] = c.call(obj[k].deinterlv, bufs[k])
                out = list(model[k])
                for i, j in enumerate(p):
                    out[j] = model[k][i]
                model[k] = out
        for k in 'ABC':
            c.eq(bufs[k], model[k], 'buffer %s after %s' % (k, hist))
    return tuple(map(tuple, model.values()))


def order_case(c, params):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    objs = [RandInterlv(*q) for q in params]
    for it, q in list(zip(objs, params))[::-1] + list(zip(objs, params)):
        c.eq(c.call(it.interlv, np.arange(q[0])), perm(*q), 'interleaver %s among %s' % (q, params))


def sizes(ctx, ns, seed):
    for n in ns:
        ctx.case((n, seed), size_case, n, seed)


def all_perms(ctx, n, seeds):
    import numpy as np
    for s in range(seeds):
        ctx.case(('word', n, s), word_case, n, s, [tuple(range(n))])


def words(ctx, n):
    for s in SEEDS[:4]:
        ctx.case(('words', n, s), word_case, n, s, list(itertools.product((0, 1), repeat=n)))


def hists(ctx, d, first):
    for h in itertools.product(OPS, repeat=d - 1):
        ctx.case((first,) + h, hist_case, (first,) + h)


def orders(ctx):
    P = [(6, 1), (6, 2), (5, 1), (5, 2)]
    for r in (2, 3, 4):
        for q in itertools.permutations(P, r):
            ctx.case(('order', q), order_case, q)


def shards(tier):
    th = tier == 'thorough'
    ns = list(range(1101)) + [4096, 65535, 65536, 65537] if th else list(range(301)) + [511, 512, 513, 1000, 1024, 4096, 65536, 65537]
    out = [(sizes, (ns[i::2], s)) for s in SEEDS for i in range(2)]
    out += [(orders, ())]
    out += [(all_perms, (n, 2000 if th else 400)) for n in (2, 3, 4, 5)]
    out += [(words, (n,)) for n in range(1, 11 if th else 8)]
    for d in (1, 2, 3) + ((4,) if th else ()):
        out += [(hists, (d, f)) for f in OPS]
    return out
