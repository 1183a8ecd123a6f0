"""C05: puncturing / depuncturing against their index definition."""
import itertools

PID = 'C05'
RULE = ('all 0/1 patterns up to the period bound x all lengths up to the bound (whole and partial periods) with messages of distinct values, '
        'and all binary messages of short lengths; depuncturing of each with soft values, then puncturing again')
BOUNDS = dict(quick='periods <=7, lengths <=22, all binary messages <=6 bits for periods <=4; structured lengths up to 300',
              thorough='periods <=9, lengths <=40, all binary messages <=10 bits for periods <=5')


def body(c, pat, msg, dt):
    import numpy as np
    from commpy.channelcoding.convcode import puncturing, depuncturing
    P = np.array(pat)
    m = np.array(msg, dt)
    want = [v for i, v in enumerate(m.tolist()) if pat[i % len(pat)] == 1]
    got = c.call(puncturing, m, P)
    c.eq(got, want, 'punctured')
    if want:
        back = c.call(depuncturing, got, P, len(msg))
        full = [v if pat[i % len(pat)] == 1 else 0 for i, v in enumerate(m.tolist())]
        c.eq(back, full, 'depunctured')
        c.eq(c.call(puncturing, back, P), want, 'punctured again')
    else:
        c.eq(c.call(depuncturing, np.array([], float), P, len(msg)), [0] * len(msg), 'depunctured nothing')


def patterns(ctx, P, maxlen):
    for pat in itertools.product((0, 1), repeat=P):
        for L in range(1, maxlen + 1):
            ctx.case((pat, L, 'float'), body, pat, [(-1) ** i * (1.5 + i) for i in range(L)], 'float64')
            ctx.case((pat, L, 'fine'), body, pat, [(.1 + i, -1e300 / (i + 1), 1e-300 * (i + 1), -1 / (3 + i))[i % 4] for i in range(L)], 'float64')
            ctx.case((pat, L, 'large int'), body, pat, [2 ** 52 - i for i in range(L)], 'int64')
            ctx.case((pat, L, 'int'), body, pat, [i % 2 if i % 5 else 1 for i in range(L)], 'int64')


def messages(ctx, P, maxlen):
    for pat in itertools.product((0, 1), repeat=P):
        for L in range(1, maxlen + 1):
            for m in itertools.product((0, 1), repeat=L):
                ctx.case((pat, m), body, pat, list(m), 'int64')


def long(ctx, dt):
    for pat in ((1, 1, 1, 0, 0, 1), (1, 1, 1, 0), (1, 1, 1, 0, 0, 1, 1, 0, 0, 1), (1,), (0, 1), (1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)):
        for L in (59, 60, 61, 64, 65, 128, 300):
            ctx.case((pat, L, dt), body, pat, [i % 100 - (50 if dt != 'uint8' else 0) for i in range(L)], dt)


def shards(tier):
    th = tier == 'thorough'
    out = [(patterns, (P, 40 if th else 22)) for P in range(10 if th else 7, 0, -1)]
    out += [(messages, (P, 10 if th else 6)) for P in range(5 if th else 4, 0, -1)]
    return out + [(long, (dt,)) for dt in ('float64', 'int64', 'int8', 'float32', 'uint8')]
