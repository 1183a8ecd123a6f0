"""C19: PN sequences against a plain shift register."""
import itertools

PID = 'C19'
RULE = ('every (order, seed, mask) x a length of several register periods, compared bit by bit with a list-based shift register; all lengths for small '
        'orders; every way of passing seed and mask; all inconsistent sizes')
BOUNDS = dict(quick='all seeds x masks for orders 1-6 over more than two maximal periods, all lengths 0-40 for orders 1-3, sparse/dense masks for orders 7-130',
              thorough='all seeds x masks for orders 1-7 and all masks x 8 seeds for order 8')
ASSUMPTIONS = []


def ref(seed, mask, n):
    sr, out = list(seed), []
    for _ in range(n):
        out.append(sr[-1])
        new = 0
        for a, b in zip(sr, mask):
            new ^= a & b
        sr = [new] + sr[:-1]
    return out


def primitive(mask):
    """the register x_{t+m} = sum_j mask[m-1-k] x_{t+k} visits every non-zero state (decided on the polynomial, not on the register)"""
    m = len(mask)
    poly = 1 << m                                   # x^m + sum_k mask[m-1-k] x^k
    for k in range(m):
        poly |= mask[m - 1 - k] << k
    if not poly & 1:
        return False

    def mulx(a):
        a <<= 1
        return a ^ poly if a >> m else a

    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a = mulx(a)
            b >>= 1
        return r

    def power(e):
        r, b = 1, 2 if m > 1 else mulx(1)
        while e:
            if e & 1:
                r = mul(r, b)
            b = mul(b, b)
            e >>= 1
        return r
    n = (1 << m) - 1
    if power(n) != 1:
        return False
    f, d, rest = [], 2, n
    while rest > 1:
        if rest % d == 0:
            f.append(d)
            while rest % d == 0:
                rest //= d
        d += 1
    return all(power(n // q) != 1 for q in f) if n > 1 else True


def bits(v, m):
    return tuple(v >> i & 1 for i in range(m))


def seq_case(c, seed, mask, n):
    from commpy.sequences import pnsequence
    m = len(seed)
    got = c.call(pnsequence, m, seed, mask, n)
    want = ref(seed, mask, n)
    c.eq(got, want, 'sequence')
    if n >= 2 * (2 ** m - 1) and any(seed) and primitive(mask):
        g = got.tolist()
        N = 2 ** m - 1
        c.true(all(g[i] == g[i + N] for i in range(n - N)), 'period 2^m-1')
        c.true(sum(g[:N]) == 2 ** (m - 1), 'balance')
        for d in (d for d in range(1, N) if N % d == 0):
            c.true(any(g[i] != g[(i + d) % N] for i in range(N)), 'smaller period', d)
        return 'maximal'
    return 'plain'


def forms_case(c, seed, mask, n):
    import numpy as np
    from commpy.sequences import pnsequence
    m = len(seed)
    want = ref(seed, mask, n)
    forms = [list, tuple, lambda v: ''.join(map(str, v)), lambda v: np.array(v), lambda v: np.array(v, np.int8), lambda v: np.array(v, bool),
             lambda v: np.array(v, np.uint8)]
    for f in forms:
        for g in forms:
            c.eq(c.call(pnsequence, m, f(seed), g(mask), n), want, 'sequence from other containers')


def lengths_case(c, seed, mask, top):
    from commpy.sequences import pnsequence
    for n in range(top):
        c.eq(c.call(pnsequence, len(seed), list(seed), list(mask), n), ref(seed, mask, n), 'length %d' % n)


def bad_case(c, m, ls, lm):
    from commpy.sequences import pnsequence
    for mk in (lambda n: [1] * n, lambda n: '1' * n):
        if ls == m and lm == m:
            c.eq(c.call(pnsequence, m, mk(ls), mk(lm), 5), ref([1] * m, [1] * m, 5), 'sequence')
        else:
            c.raises(ValueError, pnsequence, m, mk(ls), mk(lm), 5)


def full(ctx, m, lo, hi, seeds):
    n = 2 * (2 ** m - 1) + m + 3
    for mask in range(lo, hi):
        for seed in seeds:
            ctx.case((m, seed, mask), seq_case, bits(seed, m), bits(mask, m), n)


def large(ctx, m):
    masks = {1, 1 << m - 1, (1 << m) - 1, 1 | 1 << m - 1, 3 << m - 2, 5 << m - 3 | 1, (1 << m) // 3, (1 << m) * 5 // 7}
    for mask in sorted(masks):
        for seed in (0, 1, 1 << m - 1, (1 << m) - 1, (1 << m) // 3, (1 << m) * 3 // 11):
            ctx.case((m, seed, mask), seq_case, bits(seed, m), bits(mask, m), 3 * m + 40)


def small(ctx, m):
    for seed in range(2 ** m):
        for mask in range(2 ** m):
            ctx.case(('lengths', m, seed, mask), lengths_case, bits(seed, m), bits(mask, m), 41)
            ctx.case(('forms', m, seed, mask), forms_case, bits(seed, m), bits(mask, m), 12)


def bads(ctx):
    for m in range(1, 7):
        for ls in range(0, 9):
            for lm in range(0, 9):
                ctx.case(('sizes', m, ls, lm), bad_case, m, ls, lm)


def shards(tier):
    th = tier == 'thorough'
    out = []
    for m in range(7 if th else 6, 0, -1):
        step = max(1, 2 ** m // 16)
        out += [(full, (m, lo, lo + step, range(2 ** m))) for lo in range(0, 2 ** m, step)]
    if th:
        out += [(full, (8, lo, lo + 16, (0, 1, 2, 85, 128, 254, 255, 37))) for lo in range(0, 256, 16)]
    else:
        out += [(full, (7, lo, lo + 16, (1, 64, 127))) for lo in range(0, 128, 16)]
    out += [(large, (m,)) for m in (8, 9, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130)]
    return out + [(small, (m,)) for m in (3, 2, 1)] + [(bads, ())]
