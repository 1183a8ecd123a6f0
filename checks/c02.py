"""C02: conv_encode against the shift-register encoder: walk, termination, puncturing."""
import itertools
from mc.refs_conv import CODES, ref, trellis, bits_of, lcg_bits

PID = 'C02'
RULE = ('all messages of every length up to the bound for each code of the family, continuous and terminated, in three integer dtypes; '
        'all puncture rows up to the period bound; long structured messages. Each output bit is compared with the shift-register model; '
        'the terminated tail is tracked through the set of model states consistent with it and must end in exactly the zero state')
BOUNDS = dict(quick='messages <=9 bits (k=1), <=4 steps (k>=2); puncture periods <=4 on messages <=5 bits; lengths up to 400',
              thorough='messages <=12 bits (k=1), <=6 steps (k=2), <=4 (k>=3); puncture periods <=6 on messages <=7 bits')
ASSUMPTIONS = ['message lengths are multiples of k', 'puncture patterns are one-row matrices']


def check_term(c, r, msg, coded):
    body, state = r.encode(msg)
    c.eq(coded[:len(body)], body, 'terminated encoding does not start with the continuous one')
    tail = coded[len(body):]
    c.true(len(tail) % r.n == 0, 'tail is not a whole number of steps', len(tail), r.n)
    steps = len(tail) // r.n
    dist = r.steps_to_zero()
    worst = max(dist.values())
    c.true(worst <= steps <= r.M, 'number of flush steps', steps, worst, r.M)
    if r.k == 1:
        c.eq(steps, r.M, 'number of flush steps')
    poss = {state}
    for t in range(steps):
        o = 0
        for b in tail[t * r.n:(t + 1) * r.n]:
            o = 2 * o + b
        poss = {r.next[s][u] for s in poss for u in range(r.I) if r.out[s][u] == o and dist.get(r.next[s][u], 99) <= steps - t - 1}
        c.true(bool(poss), 'flush bits are not a path back to the zero state', tail, 'from state', state)
    c.eq(sorted(poss), [0], 'state after the flush bits')
    if not recursive(r):
        # non-recursive encoder: flushed with zero inputs
        z, _ = r.encode([0] * (steps * r.k), state)
        c.eq(tail, z, 'flush of a non-recursive encoder')


def recursive(r):
    return any(r.next[s][0] != r.next_shift[s] for s in range(r.S)) if hasattr(r, 'next_shift') else _recursive(r)


def _recursive(r):
    # zero input must shift zeros into every register
    for s in range(r.S):
        sb, nb, pos = bits_of(s, r.M), [], 0
        for m in r.memory:
            nb += ([0] + sb[pos:pos + m])[:m]
            pos += m
        v = 0
        for b in nb:
            v = 2 * v + b
        if r.next[s][0] != v:
            return True
    return False


def enc(c, name, msg, dtype, pattern):
    import numpy as np
    from commpy.channelcoding.convcode import conv_encode
    r, t = ref(name), trellis(name)
    m = np.array(msg, dtype)
    full = {}
    for term in ('cont', 'term'):
        full[term] = out = [int(x) for x in c.call(conv_encode, m, t, term)]
        if term == 'cont':
            c.eq(out, r.encode(msg)[0], 'continuous encoding')
        else:
            check_term(c, r, msg, out)
    if pattern is None:
        c.eq(c.call(conv_encode, m, t).tolist(), full['term'], 'default termination is "term"')
        c.eq(c.call(conv_encode, m, t, puncture_matrix=np.ones((1, r.n), int), termination='cont').tolist(), full['cont'], 'all-ones puncturing')
    else:
        P = np.array([pattern])
        for term in ('cont', 'term'):
            want = [b for i, b in enumerate(full[term]) if pattern[i % len(pattern)] == 1]
            c.eq(c.call(conv_encode, m, t, term, P).tolist(), want, 'punctured %s' % term)
    return ''.join(map(str, full['term']))


def all_messages(ctx, name, steps, dtype):
    k = ref(name).k
    for L in range(k, steps * k + 1, k):
        for msg in itertools.product((0, 1), repeat=L):
            ctx.case((name, msg, dtype), enc, name, list(msg), dtype, None)


def patterns(ctx, name, period, steps):
    k = ref(name).k
    for P in range(1, period + 1):
        for pat in itertools.product((0, 1), repeat=P):
            for L in range(k, steps * k + 1, k):
                if L > 3 * k and L != steps * k:
                    continue
                for msg in itertools.product((0, 1), repeat=L):
                    if ctx.thorough or L <= 3 or sum(msg) in (1, 2, L):
                        ctx.case((name, msg, pat), enc, name, list(msg), 'int64', list(pat))


def long_messages(ctx, name, lens):
    k = ref(name).k
    for n in lens:
        L = n * k
        for kind in range(4):
            msg = [[1] * L, [i % 3 == 0 and 1 or 0 for i in range(L)], lcg_bits(L, n), [0] * (L - 1) + [1]][kind]
            ctx.case((name, 'long', n, kind), enc, name, msg, 'int64', [1, 1, 0, 1, 0] if kind == 2 else None)


def shards(tier):
    th = tier == 'thorough'
    out = []
    for name in CODES:
        k = ref(name).k
        steps = {1: 12 if th else 9, 2: 6 if th else 4, 3: 4 if th else 3, 4: 3 if th else 2}[k]
        out.append((all_messages, (name, steps, 'int64')))
        out.append((all_messages, (name, min(steps, 4 if k == 1 else 2), 'int8')))
        out.append((all_messages, (name, min(steps, 4 if k == 1 else 2), 'uint8')))
        out.append((long_messages, (name, (17, 65, 130, 400) if not th else (17, 33, 64, 65, 66, 130, 400, 1500))))
    for name in ('k1m1', 'k1m2', 'k1m2n3', 'k1old7', 'k1rec', 'k2m21', 'k2rsc11', 'k3m111'):
        k = ref(name).k
        out.append((patterns, (name, 6 if th else 4, {1: 7 if th else 5, 2: 3, 3: 2}[k])))
    return out
