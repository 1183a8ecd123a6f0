"""C06: turbo_encode streams against the constituent shift registers."""
import itertools
from mc.refs_conv import ref, trellis, lcg_bits, CODES, Code

PID = 'C06'
RULE = ('all messages x all permutations (as interleaver objects) up to a length bound, all messages x RandInterlv seeds, longer structured '
        'messages; each for several pairs of recursive systematic constituents (integer/matrix feedback, equal and different memories)')
BOUNDS = dict(quick='all permutations and messages of length <=4; RandInterlv lengths <=7 x 3 seeds; structured lengths up to 200',
              thorough='length <=5 with all permutations; RandInterlv lengths <=10 x 6 seeds; lengths up to 1000')
ASSUMPTIONS = ['constituent codes are rate 1/2 with the message as first output', 'interleaver length equals message length']

PAIRS = [('k1old7', 'k1old7'), ('k1old5', 'k1old5'), ('k1old13', 'k1old13'), ('k1old7', 'k1old13'), ('k1old13', 'k1old5'),
         ('k1rec', 'k1rec'), ('k1rec5', 'k1old7'), ('k1reclsb', 'k1reclsb'), ('k1recd', 'k1recd'), ('k1recd', 'k1rec')]


class Perm:
    def __init__(self, p):
        import numpy as np
        self.p = np.array(p)

    def interlv(self, a):
        return a[self.p]

    def deinterlv(self, a):
        out = a.copy()
        out[self.p] = a
        return out


def streams(c, a, b, msg, inter, p):
    import numpy as np
    from commpy.channelcoding.turbo import turbo_encode
    m = np.array(msg)
    out = c.call(turbo_encode, m, trellis(a), trellis(b), inter)
    c.eq(len(out), 3, 'number of streams')
    ra, rb = ref(a), ref(b)
    par1 = ra.encode(list(msg))[0][1::2]
    par2 = rb.encode([msg[i] for i in p])[0][1::2]
    for got, want, what in zip(out, (list(msg), par1, par2), ('systematic', 'first parity', 'second parity')):
        c.eq([int(x) for x in got], want, what)
    return ''.join(map(str, par1 + par2))


def perm_case(c, a, b, msg, p):
    return streams(c, a, b, msg, Perm(p), p)


def rand_case(c, a, b, msg, seed):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    it = RandInterlv(len(msg), seed)
    p = it.interlv(np.arange(len(msg))).tolist()
    c.step()
    return streams(c, a, b, msg, it, p)


def perms(ctx, a, b, L):
    for p in itertools.permutations(range(L)):
        for msg in itertools.product((0, 1), repeat=L):
            ctx.case((a, b, msg, p), perm_case, a, b, msg, p)


def rand(ctx, a, b, L, seeds):
    for seed in seeds:
        for msg in itertools.product((0, 1), repeat=L):
            ctx.case((a, b, msg, 'seed', seed), rand_case, a, b, msg, seed)


def long(ctx, a, b, L):
    for kind in range(4):
        msg = [[1] * L, lcg_bits(L, 5), [int(i % 3 == 0) for i in range(L)], [0] * (L - 1) + [1]][kind]
        for seed in (0, 1346):
            ctx.case((a, b, 'long', L, kind, seed), rand_case, a, b, msg, seed)


def shards(tier):
    th = tier == 'thorough'
    out = []
    for a, b in PAIRS:
        for L in range(1, 6 if th else 5):
            out.append((perms, (a, b, L)))
        for L in range(5, 11 if th else 8):
            out.append((rand, (a, b, L, (1, 2, 1346, 7, 8, 9) if th else (1, 2, 1346))))
        for L in (16, 33, 64, 65, 200) + ((1000,) if th else ()):
            out.append((long, (a, b, L)))
    return out
