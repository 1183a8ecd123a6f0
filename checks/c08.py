"""C08: Galois-field arithmetic against carry-less integer arithmetic."""
import itertools, re

PID = 'C08'
RULE = ('all element pairs and all elements of the small fields, the whole basis and boundary elements of the large ones; all small '
        'polynomial pairs; array operations on every rotation so that positions are told apart')
BOUNDS = dict(quick='pairs: m<=8 in full, m<=16 on basis and boundary elements; elements (both conversions, order): m<=10, boundary exponents '
                    'to m=16; cosets m<=9; minimal polynomials m<=8; polynomials of degree <=8 divided by degree <=5',
              thorough='pairs m<=9, conversions m<=12 in full, cosets m<=11, minimal polynomials m<=10, polynomials of degree <=11')
ASSUMPTIONS = ['exponents are in 0..2^m-2 and tuples in 0..2^m-1', 'the order of zero is not defined']


# ------------------------------------------------------------------ reference: integers as GF(2)[x]
def pmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def pmod(a, p):
    n = p.bit_length()
    while a.bit_length() >= n:
        a ^= p << (a.bit_length() - n)
    return a


class Field:
    def __init__(self, m, prim):
        self.m, self.prim, self.N = m, prim, 2 ** m - 1
        self.exp = [1]
        for _ in range(self.N - 1):
            v = self.exp[-1] << 1
            self.exp.append(v ^ prim if v >> m else v)
        self.log = {v: i for i, v in enumerate(self.exp)}

    def mul(self, a, b):
        return self.exp[(self.log[a] + self.log[b]) % self.N] if a and b else 0

    def coset(self, e):
        c, x = [], e % self.N
        while x not in c:
            c.append(x)
            x = x * 2 % self.N
        return c

    def minpoly(self, a):
        if a == 0:
            return 2
        t = [1]                                   # ascending coefficients in the field
        for r in self.coset(self.log[a]):
            t = [x ^ y for x, y in zip([0] + t, [self.mul(c, self.exp[r]) for c in t] + [0])]
        assert set(t) <= {0, 1}
        return sum(b << i for i, b in enumerate(t))


_fields = {}


def gf(x, m):
    import numpy as np
    from commpy.channelcoding.gfields import GF
    return GF(np.array(x), m)


def field(m):
    if m not in _fields:
        _fields[m] = Field(m, int(gf([1], m).prim_poly))
    return _fields[m]


def ints(e):
    return [int(v) for v in e]


# ------------------------------------------------------------------ cases
def prim_case(c, m):
    """the field polynomial has degree m and x generates every non-zero element"""
    f = field(m)
    c.step(f.N)
    c.eq(f.prim.bit_length() - 1, m, 'degree of the field polynomial')
    c.eq(len(set(f.exp)), f.N, 'powers of the primitive element')
    c.eq(pmod(f.exp[-1] << 1, f.prim), 1, 'order of the primitive element')


def bin_case(c, m, a, b):
    """element-wise sum and product of two lists of elements"""
    f = field(m)
    A, B = gf(a, m), gf(b, m)
    for op, want in ((A + B, [x ^ y for x, y in zip(a, b)]), (A * B, [pmod(pmul(x, y), f.prim) for x, y in zip(a, b)])):
        c.step()
        c.eq(ints(op.elements), want, 'GF(2^%d) of %s and %s' % (m, a[:8], b[:8]))
        c.eq(op.m, m, 'field of the result')
    c.eq(ints(A.elements), list(a), 'first operand after the operations')
    c.eq(ints(B.elements), list(b), 'second operand after the operations')


def scalar_case(c, m, a, b):
    from commpy.channelcoding.gfields import GF
    A, B = GF(a, m), GF(b, m)
    c.step(2)
    c.eq(ints((A + B).elements), [a ^ b], 'sum')
    c.eq(ints((A * B).elements), [pmod(pmul(a, b), field(m).prim)], 'product')


def badlen_case(c, m, n1, n2):
    A, B = gf([1] * n1, m), gf([1] * n2, m)
    c.raises(ValueError, lambda: A + B)
    c.raises(ValueError, lambda: A * B)


def conv_case(c, m, exps):
    f = field(m)
    P = gf(exps, m)
    T = P.power_to_tuple()
    c.eq(ints(T.elements), [f.exp[e] for e in exps], 'power to tuple of %s' % (exps[:6],))
    c.eq(ints(T.tuple_to_power().elements), list(exps), 'and back')
    c.eq(ints(P.elements), list(exps), 'operand after the conversion')
    c.eq(ints(gf([f.exp[e] for e in exps], m).tuple_to_power().elements), list(exps), 'tuple to power')
    c.step(3)


def order_case(c, m, els):
    from math import gcd
    f = field(m)
    A = gf(els, m)
    got = A.order()
    want = [f.N // gcd(f.log[e], f.N) for e in els]
    c.close([float(v) for v in got], want, 0, 'orders')
    c.eq(ints(A.elements), list(els), 'operand after order()')
    c.step()


def coset_case(c, m, els):
    """els is closed under squaring: one coset per conjugacy class"""
    f = field(m)
    A = gf(els, m)
    got = [sorted(ints(x.elements)) for x in A.cosets()]
    want = {tuple(sorted(f.exp[i] for i in f.coset(f.log[e]))) if e else (0,) for e in els}
    c.eq(sorted(got), sorted(list(w) for w in want), 'cosets')
    c.eq(ints(A.elements), list(els), 'operand after cosets()')
    c.step(len(got))


def minpoly_case(c, m, els):
    f = field(m)
    A = gf(els, m)
    c.eq(ints(A.minpolys()), [f.minpoly(e) for e in els], 'minimal polynomials of %s' % (els[:5],))
    c.eq(ints(A.elements), list(els), 'operand after minpolys()')
    c.step(len(els))


def div_case(c, x, y):
    from commpy.channelcoding.gfields import polydivide
    c.eq(int(c.call(polydivide, x, y)), pmod(x, y), 'polydivide(%d, %d)' % (x, y))


def mulp_case(c, m, p, x):
    from commpy.channelcoding.gfields import polymultiply
    for y in range(2 ** m):
        c.eq(int(c.call(polymultiply, x, y, m, p)), pmod(pmul(x, y), p), 'polymultiply(%d, %d, %d, %d)' % (x, y, m, p))


def str_case(c, x):
    from commpy.channelcoding.gfields import poly_to_string
    s = c.call(poly_to_string, x)
    c.eq(sorted(int(v) for v in re.findall(r'x\^(\d+)', s)), [i for i in range(x.bit_length()) if x >> i & 1], 'poly_to_string(%d)' % x)


# ------------------------------------------------------------------ spaces
def full_pairs(ctx, m, part, parts):
    n = 2 ** m
    ctx.case(('prim', m), prim_case, m)
    for r in range(part, n, parts):                           # one trace per rotation: all pairs (i, i+r)
        a = tuple(range(n))
        b = tuple((i ^ r) if r % 2 else (i + r) % n for i in range(n))
        ctx.case(('pairs', m, r), bin_case, m, a, b)
    seen = {}
    for a in range(part, n, parts):
        ctx.case(('row', m, a), bin_case, m, (a,) * n, tuple(range(n)))
    if m <= 3:
        for a in range(n):
            for b in range(n):
                ctx.case(('scalar', m, a, b), scalar_case, m, a, b)
    if part == 0:
        for n1, n2 in ((1, 2), (2, 1), (3, 2), (2, 5)):
            ctx.case(('len', m, n1, n2), badlen_case, m, n1, n2)


def special(m):
    return sorted({0, 1, 2 ** m - 1, 2 ** m - 2, (2 ** m - 1) // 3, 2 ** (m - 1) + 1} | {2 ** i for i in range(m)} |
                  {field(m).prim & (2 ** m - 1)})


def basis_pairs(ctx, m):
    ctx.case(('prim', m), prim_case, m)
    s = special(m)
    for a in s:
        ctx.case(('basis', m, a), bin_case, m, (a,) * len(s), tuple(s))


def boundary_exps(m):
    N = 2 ** m - 1
    return sorted(e for e in {0, 1, m - 1, m, m + 1, N - 1, N // 2, N // 3, N - m, 62, 63, 64, 65, 31, 32, 127, 128, 1000} if 0 <= e < N)


def conversions(ctx, m, full):
    N = 2 ** m - 1
    if full:
        for lo in range(0, N, 64):
            ctx.case(('conv', m, lo), conv_case, m, tuple(range(lo, min(N, lo + 64))))
            ctx.case(('convr', m, lo), conv_case, m, tuple(reversed(range(lo, min(N, lo + 64)))))
        for lo in range(1, N + 1, 64):
            ctx.case(('order', m, lo), order_case, m, tuple(range(lo, min(N + 1, lo + 64))))
    else:
        for e in boundary_exps(m):
            if m <= 13 or e < 5000:
                ctx.case(('conv1', m, e), conv_case, m, (e,))


def coset_space(ctx, m):
    n = 2 ** m
    for name, els in (('nonzero', list(range(1, n))), ('all', list(range(n))), ('down', list(range(n - 1, 0, -1))),
                      ('exp', field(m).exp), ('odd first', list(range(1, n, 2)) + list(range(0, n, 2)))):
        ctx.case(('cosets', m, name), coset_case, m, tuple(els))
    f = field(m)
    for e in range(f.N):                                      # one conjugacy class alone
        co = f.coset(e)
        if min(co) == e:
            ctx.case(('coset', m, e), coset_case, m, tuple(f.exp[i] for i in co))


def minpoly_space(ctx, m):
    n = 2 ** m
    ctx.case(('minpolys', m), minpoly_case, m, tuple(range(n)))
    ctx.case(('minpolys down', m), minpoly_case, m, tuple(range(n - 1, -1, -1)))
    for e in range(n) if m <= 4 else special(m):
        ctx.case(('minpoly', m, e), minpoly_case, m, (e,))


def polys(ctx, dx, dy):
    for y in range(2 ** dy, 2 ** (dy + 1)):
        for x in range(2 ** (dx + 1)):
            ctx.case(('div', x, y), div_case, x, y)
    for e in (31, 32, 62, 63, 64, 65, 100):
        for x in (2 ** e, 2 ** e + 1, 2 ** e - 1):
            for y in (2 ** dy, 2 ** dy + 1, 2 ** (dy + 1) - 1):
                ctx.case(('div', x, y), div_case, x, y)


def polymuls(ctx, m):
    for p in range(2 ** m, 2 ** (m + 1)):
        for x in range(2 ** m):
            ctx.case(('polymul', m, p, x), mulp_case, m, p, x)


def strings(ctx, top):
    for x in range(top):
        ctx.case(('str', x), str_case, x)
    for e in (31, 32, 63, 64, 70):
        ctx.case(('str', 2 ** e + 1), str_case, 2 ** e + 1)


def shards(tier):
    th = tier == 'thorough'
    out = []
    out += [(minpoly_space, (m,)) for m in range(10 if th else 8, 0, -1)]
    out += [(coset_space, (m,)) for m in range(11 if th else 9, 0, -1)]
    for m in range(9 if th else 8, 0, -1):
        parts = 2 ** m // 8 if m > 4 else 1
        out += [(full_pairs, (m, i, parts)) for i in range(parts)]
    out += [(basis_pairs, (m,)) for m in range(16, 6, -1)]
    out += [(conversions, (m, True)) for m in range(12 if th else 10, 0, -1)]
    out += [(conversions, (m, False)) for m in range(16, 9, -1)]
    out += [(polys, (11 if th else 8, d)) for d in range(0, 8 if th else 6)]
    out += [(polymuls, (m,)) for m in (1, 2, 3, 4) + ((5,) if th else ())]
    out += [(strings, (4096 if th else 1024,))]
    return out
