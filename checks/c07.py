"""C07: map_decode = exact a-posteriori LLR (brute force over all messages); turbo_decode = alternation of two MAP decoders."""
import itertools, math
from mc.refs_conv import ref, trellis, lcg_bits
from checks.c06 import Perm

PID = 'C07'
RULE = ('map_decode on all received words over small symbol alphabets x a-priori vectors x noise variances, against the log-ratio of sums over all '
        'messages; turbo_decode on all noiseless words (all messages, all permutations), and on all words of a two-value alphabet against a '
        'reference that alternates brute-force MAP decoders')
BOUNDS = dict(quick='MAP: block length <=3 (3-value alphabet), 4 variances, 9 priors, structured blocks up to length 9; turbo: length <=4 all messages and permutations, '
                    '2^9 received words of length 3, 1..3 iterations',
              thorough='MAP: block length <=4, structured up to 12; turbo: length 5, 3^9 words')
ASSUMPTIONS = ['rate-1/2 codes', 'LLR values are compared only where no probability underflows; decisions of clean signals also beyond']

CODES4 = ('k1old7', 'k1rec', 'k1old13', 'k1m2', 'k1recd')
_branch = {}


def words(name, L):
    """[(bits, second outputs, first outputs)] for every message"""
    if (name, L) not in _branch:
        r = ref(name)
        out = []
        for m in itertools.product((0, 1), repeat=L):
            x, _ = r.encode(list(m))
            out.append((m, x[0::2], x[1::2]))
        _branch[name, L] = out
    return _branch[name, L]


def app(name, sys, par, var, prior):
    """exact log P(b_i=1|y)/P(b_i=0|y)"""
    L = len(sys)
    ws = []
    for m, x0, x1 in words(name, L):
        e = 0.
        for i in range(L):
            e -= ((sys[i] - (2 * x0[i] - 1)) ** 2 + (par[i] - (2 * x1[i] - 1)) ** 2) / (2 * var)
            if m[i]:
                e += prior[i]
        ws.append((e, m))
    top = max(e for e, _ in ws)
    ws = [(math.exp(e - top), m) for e, m in ws]
    out = []
    for i in range(L):
        p1 = sum(w for w, m in ws if m[i])
        p0 = sum(w for w, m in ws if not m[i])
        out.append(math.log(p1 / p0))
    return out


def map_case(c, name, sys, par, var, prior, mode):
    import numpy as np
    from commpy.channelcoding.turbo import map_decode
    args = [np.array(sys, float), np.array(par, float), trellis(name), var, np.array(prior, float)]
    out = c.call(map_decode, *args, **(dict(mode=mode) if mode else {}))
    want = app(name, sys, par, var, prior)
    c.close(out[0], want, 1e-6, 'LLR')
    if mode != 'compute':
        got = out[1].tolist()
        c.eq(len(got), len(sys), 'number of decisions')
        for i, w in enumerate(want):
            if abs(w) > 1e-7:
                c.eq(int(got[i]), int(w > 0), 'decision %d' % i)
    return tuple(int(w > 0) for w in want)


def map_words(ctx, name, L, alphabet, variances, priors):
    for var in variances:
        for prior in priors:
            for y in itertools.product(alphabet, repeat=2 * L):
                ctx.case((name, y, var, prior), map_case, name, y[:L], y[L:], var, prior, None)


def map_long(ctx, name, L):
    for seed in range(6):
        b = lcg_bits(4 * L, seed + 1)
        sys = [(2 * b[i] - 1) * (0.4 + 0.3 * b[L + i]) for i in range(L)]
        par = [(2 * b[2 * L + i] - 1) * (1.1 - 0.9 * b[3 * L + i]) for i in range(L)]
        for var in (.4, 1.7):
            for prior in ((0,) * L, tuple((i % 3 - 1) * 1.3 for i in range(L)), tuple(-2. + .5 * i for i in range(L))):
                for mode in ('decode', 'compute'):
                    ctx.case((name, L, seed, var, prior, mode), map_case, name, sys, par, var, prior, mode)


def turbo_ref(name, sys, p1, p2, var, iters, p, L_int=None):
    L = len(sys)
    La = list(L_int) if L_int else [0.] * L
    sysi = [sys[i] for i in p]
    for _ in range(iters):
        l1 = app(name, sys, p1, var, La)
        Lb = [l1[i] - La[i] for i in p]
        l2 = app(name, sysi, p2, var, Lb)
        e = [x - y for x, y in zip(l2, Lb)]
        La = [0.] * L
        for j, i in enumerate(p):
            La[i] = e[j]
    out = [0.] * L
    for j, i in enumerate(p):
        out[i] = l2[j]
    return out


def turbo_case(c, name, sys, p1, p2, var, iters, p, L_int, noiseless):
    import numpy as np
    from commpy.channelcoding.turbo import turbo_decode
    kw = {} if L_int is None else dict(L_int=np.array(L_int, float))
    got = c.call(turbo_decode, np.array(sys, float), np.array(p1, float), np.array(p2, float), trellis(name), var, iters, Perm(p), **kw)
    got = [int(x) for x in got]
    if noiseless is not None:
        c.eq(got, list(noiseless), 'decoded noiseless turbo word')
    else:
        want = turbo_ref(name, sys, p1, p2, var, iters, p, L_int)
        c.eq(len(got), len(want), 'number of decisions')
        for i, w in enumerate(want):
            if abs(w) > 1e-6:
                c.eq(got[i], int(w > 0), 'decision %d (reference LLRs %s)' % (i, want))
    return ''.join(map(str, got))


def noiseless(ctx, name, L, iters, variances):
    r = ref(name)
    for p in itertools.permutations(range(L)):
        for m in itertools.product((0, 1), repeat=L):
            bp = lambda bits: [2 * b - 1 for b in bits]
            p1 = bp(r.encode(list(m))[0][1::2])
            p2 = bp(r.encode([m[i] for i in p])[0][1::2])
            for n in iters:
                for var in variances:
                    ctx.case((name, 'noiseless', m, p, n, var), turbo_case, name, bp(m), p1, p2, var, n, p, None, m)


def noisy(ctx, name, L, alphabet, iters, perms, var, L_int):
    for p in perms:
        for y in itertools.product(alphabet, repeat=3 * L):
            ctx.case((name, 'noisy', y, p, iters, var, L_int), turbo_case, name, y[:L], y[L:2 * L], y[2 * L:], var, iters, p, L_int, None)


def shards(tier):
    th = tier == 'thorough'
    out = []
    for name in CODES4:
        out.append((map_words, (name, 1, (-1.3, -.4, .2, 1., 2.), (.3, .5, 1., 2.2), tuple((x,) for x in (-3., -1.5, 0., .7, 2., 6.)))))
        out.append((map_words, (name, 2, (-1.3, .2, 1.), (.5, 1., 2.2), tuple(itertools.product((-1.5, 0., 2.), repeat=2)))))
        out.append((map_words, (name, 3, (-1.1, .3) if not th else (-1.1, .3, .8), (.5, 1.5), ((0., 0., 0.), (-1., .5, 2.), (3., 0., -2.)))))
        if th:
            out.append((map_words, (name, 4, (-.9, .4), (1.,), ((0.,) * 4, (-1., .5, 2., 0.)))))
        # strong priors against as strong symbols: no hypothesis may get lost
        out.append((map_words, (name, 3, (-1.1, .9), (.02, .2), ((-45., 0., 0.), (60., -38., 20.), (0., 90., -100.)))))
        out.append((map_words, (name, 2, (-1.1, .3, 1.), (.03, .5), tuple(itertools.product((-80., -36., 0., 36., 80.), repeat=2)))))
        for L in (6, 9) + ((12,) if th else ()):
            out.append((map_long, (name, L)))
    for name in CODES4:
        if name == 'k1m2':
            continue
        for L in (1, 2, 3):
            out.append((noiseless, (name, L, (1, 2, 3), (.5, 1.))))
        out.append((noiseless, (name, 3, (1, 2, 6), (.05, .01, .004))))
        for n in (1, 2, 3):
            for pm in ((1, 2, 0), (2, 1, 0)):
                out.append((noisy, (name, 3, (-.8, .9) if not th else (-.8, .3, .9), n, (pm,), 1., None)))
        out.append((noisy, (name, 3, (-.4, 1.2), 2, ((2, 0, 1),), .7, (-1., .5, 1.5))))
    for name in ('k1old7', 'k1rec'):
        out.append((noiseless, (name, 4, (1, 2), (.7,))))
        if th:
            out.append((noiseless, (name, 5, (2,), (.7,))))
    return out
