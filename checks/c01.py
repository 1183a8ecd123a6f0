"""C01: Trellis tables against the shift-register encoder defined by the polynomials."""
import itertools
from mc.refs_conv import Code, mk_trellis

PID = 'C01'
RULE = ('every (memory, generator, feedback, bit order) configuration of the listed spaces builds a real Trellis; '
        'every (state, input) entry of both tables is compared with the shift-register model')
BOUNDS = dict(quick='k=1: all G with n<=2 for memory<=3 and n=1 for memory 4..5, all F for memory<=2; k=2: all G (n=2) and all F for memory [1,1]; '
                    'all single- and double-tap G/F for memories up to [3,1],[2,2]; k=3 memories up to 4; three bit orders; legacy integer feedback memory<=4',
              thorough='as quick with memory<=4 (n=2), 7 (n=1), all F memory<=3, double taps for all k=2,3 memories')


def one(c, memory, G, F, fmt, legacy=None, rsc=False):
    import numpy as np
    from commpy.channelcoding.convcode import Trellis
    ref = Code(memory, G, F, fmt, legacy, rsc)
    m, g = np.array(memory, int), np.array(G, int)
    kw = dict(polynomial_format=fmt)
    if rsc:
        kw['code_type'] = 'rsc'
    if legacy is not None:
        kw['feedback'] = legacy
    elif F is not None:
        kw['feedback'] = np.array(F, int)
    t = c.call(Trellis, m, g, **kw)
    c.eq(int(t.k), ref.k, 'k'); c.eq(int(t.n), ref.n, 'n'); c.eq(int(t.total_memory), ref.M, 'total_memory')
    c.eq(int(t.number_states), ref.S, 'number_states'); c.eq(int(t.number_inputs), ref.I, 'number_inputs')
    c.eq(t.next_state_table, ref.next, 'next_state_table')
    c.eq(t.output_table, ref.out, 'output_table')
    c.step(ref.S * ref.I)


def case(ctx, memory, G, F, fmt, legacy=None, rsc=False):
    ctx.case((tuple(memory), G, F, fmt, legacy, rsc), one, memory, G, F, fmt, legacy, rsc)


def k1_all(ctx, mem, n, fmts):
    for g in itertools.product(range(1 << (mem + 1)), repeat=n):
        for fmt in fmts:
            case(ctx, [mem], [list(g)], None, fmt)


def k1_feedback(ctx, mem, fmts):
    lim = 1 << (mem + 1)
    for f in range(lim):
        for g in itertools.product(range(lim), repeat=2 if mem < 3 else 1):
            for fmt in fmts:
                case(ctx, [mem], [list(g)], [[f]], fmt)


def legacy(ctx, mem):
    lim = 1 << (mem + 1)
    for f in range(lim):
        for g in range(lim):
            case(ctx, [mem], [[g]], None, 'MSB', f, False)
            if mem <= 3:
                case(ctx, [mem], [[f, g]], None, 'MSB', f, False)
            if f >> mem:                       # recursive systematic: feedback polynomial with its undelayed term
                case(ctx, [mem], [[1, g]], None, 'MSB', f, True)
                case(ctx, [mem], [[0, g]], None, 'MSB', f, True)


def k2_all_g(ctx, fmts):
    for g in itertools.product(range(4), repeat=4):
        for fmt in fmts:
            case(ctx, [1, 1], [list(g[:2]), list(g[2:])], None, fmt)


def k2_all_f(ctx, fmts):
    for f in itertools.product(range(4), repeat=4):
        for fmt in fmts:
            case(ctx, [1, 1], [[1, 2, 3], [3, 0, 1]], [list(f[:2]), list(f[2:])], fmt)


def tap_positions(memory, k, n, fmt):
    """all (row, column, value) with exactly one tap, within the register of the row."""
    W = max(memory)
    pos = []
    for i in range(k):
        for j in range(n):
            for d in range(memory[i] + 1):
                pos.append((i, j, 1 << d if fmt == 'MSB' else 1 << (W - d)))
    return pos


def taps_space(ctx, memory, n, fmt, pairs):
    k = len(memory)
    gp = tap_positions(memory, k, n, fmt)
    one_ = 1 if fmt == 'MSB' else 1 << max(memory)
    ident = [[one_ if i == j else 0 for j in range(k)] for i in range(k)]
    # feedback taps: entry F[l, i] taps register i
    W = max(memory)
    fp = [(l, i, 1 << d if fmt == 'MSB' else 1 << (W - d)) for l in range(k) for i in range(k) for d in range(memory[i] + 1)]
    base = [[(one_ if (i + j) % 2 == 0 else 0) for j in range(n)] for i in range(k)]
    case(ctx, memory, base, None, fmt)
    combos = [(a,) for a in gp] + (list(itertools.combinations(gp, 2)) if pairs else [])
    for combo in combos:
        G = [[0] * n for _ in range(k)]
        for i, j, v in combo:
            G[i][j] |= v
        case(ctx, memory, G, None, fmt)
    combos = [(a,) for a in fp] + (list(itertools.combinations(fp, 2)) if pairs else [])
    for combo in combos:
        F = [row[:] for row in ident]
        for l, i, v in combo:
            F[l][i] ^= v
        case(ctx, memory, base, F, fmt)


def formats(ctx):
    def body(c, bad):
        import numpy as np
        from commpy.channelcoding.convcode import Trellis
        for fb in (None, np.array([[7]])):
            c.raises(ValueError, Trellis, np.array([2]), np.array([[5, 7]]), feedback=fb, polynomial_format=bad)
    for bad in ('', 'msb', 'lsb', 'matlab', 'MATLAB', 'Octal', 'BE', None, 0):
        ctx.case(('bad format', bad), body, bad)


FM = ('MSB', 'LSB', 'Matlab')


def shards(tier):
    th = tier == 'thorough'
    out = [(formats, ()), (k2_all_g, (FM,)), (k2_all_f, (FM,))]
    for mem in (1, 2, 3):
        for fmt in FM:
            out += [(k1_all, (mem, n, (fmt,))) for n in (1, 2)]
    out += [(k1_all, (mem, 1, (f,))) for mem in ((4, 5) if not th else (4, 5, 6, 7)) for f in FM]
    if th:
        out += [(k1_all, (4, 2, (f,))) for f in FM]
    out += [(k1_feedback, (mem, (f,))) for mem in ((1, 2) if not th else (1, 2, 3)) for f in FM]
    out += [(legacy, (mem,)) for mem in ((1, 2, 3) if not th else (1, 2, 3, 4))]
    for memory in ([1, 2], [2, 1], [0, 2], [1, 0], [2, 2], [3, 1], [1, 3]):
        for fmt in FM:
            for n in (2, 3):
                out.append((taps_space, (memory, n, fmt, th or (sum(memory) <= 3 and n == 2))))
    for memory in ([1, 1, 1], [2, 1, 1], [1, 0, 2], [0, 1, 2]):
        for fmt in FM:
            out.append((taps_space, (memory, 4, fmt, th and sum(memory) <= 3)))
    return out
