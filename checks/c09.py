"""C09: cyclic_code_genpoly against the factorisation of x^n + 1 over GF(2) (by trial division of polynomials)."""
from checks.c08 import pmul, pmod

PID = 'C09'
RULE = 'every odd n of the list x every dimension 1<=k<n against all products of the irreducible factors of x^n+1; every even n refused'
ODD_Q = (3, 5, 7, 9, 11, 15, 17, 21, 31, 33, 51, 63, 73, 85, 127)
ODD_T = ODD_Q + (93, 23, 89)
SOME = {11: (1, 10, 5), 33: (11, 21), 73: (9, 18, 64, 10)}
BOUNDS = dict(quick='all k for n in (3,5,7,9,15,17,21,31,51,85) and, with at most 600 generators, n=63; some k for n in (11,33,73,127)',
              thorough='all k for odd n in %s except 127, where 7 values of k' % (ODD_T,))
ASSUMPTIONS = ['n divides 2^m-1 for some m<=16 (the field sizes the package supports) and 1<=k<n']


def factors(n):
    """irreducible factors of x^n+1 (n odd: square-free), by trial division in increasing degree"""
    rest, out, d = (1 << n) | 1, [], 2
    while rest.bit_length() > 1:
        if 2 * (d.bit_length() - 1) > rest.bit_length() - 1:
            out.append(rest)
            break
        if pmod(rest, d) == 0:
            out.append(d)
            q, r = 0, rest
            while r.bit_length() >= d.bit_length():
                s = r.bit_length() - d.bit_length()
                q |= 1 << s
                r ^= d << s
            rest = q
        else:
            d += 1
    return out


def generators(fac):
    """degree -> set of products of distinct factors"""
    out = {0: {1}}
    for f in fac:
        new = {k: set(v) for k, v in out.items()}
        for k, v in out.items():
            new.setdefault(k + f.bit_length() - 1, set()).update(pmul(f, g) for g in v)
        out = new
    return out


def case(c, n, k, want):
    from commpy.channelcoding.algcode import cyclic_code_genpoly
    got = [int(v) for v in c.call(cyclic_code_genpoly, n, k)]
    c.step(len(got))
    for g in got:
        c.true(g.bit_length() - 1 == n - k and pmod((1 << n) | 1, g) == 0, 'not a generator of degree n-k:', n, k, g)
    c.true(len(set(got)) == len(got), 'a generator is listed twice for', n, k)
    c.eq(sorted(got), sorted(want), 'generators of the (%d,%d) codes' % (n, k))
    return len(got)


def even_case(c, n, k):
    from commpy.channelcoding.algcode import cyclic_code_genpoly
    c.raises(ValueError, cyclic_code_genpoly, n, k)


def space(ctx, n, part, parts, limit):
    fac = factors(n)
    gens = generators(fac)
    ks = sorted(range(1, n), key=lambda k: (len(gens.get(n - k, ())), k)) if n > 31 else range(1, n)
    for i, k in enumerate(ks):
        want = gens.get(n - k, set())
        if i % parts == part and len(want) <= limit:
            ctx.case((n, k), case, n, k, want)


def even(ctx, top):
    for n in range(2, top, 2):
        for k in {1, n // 2, n - 1}:
            ctx.case((n, k), even_case, n, k)


def some(ctx, n, ks):
    gens = generators(factors(n))
    for k in ks:
        ctx.case((n, k), case, n, k, gens.get(n - k, set()))


def shards(tier):
    th = tier == 'thorough'
    out = [(even, (200,))]
    for n in ODD_T if th else ODD_Q:
        if n == 127:
            out += [(some, (127, (k,))) for k in ((1, 7, 8, 120, 119, 126, 106) if th else (120, 7))]
        elif n in SOME and not th:
            out += [(some, (n, (k,))) for k in SOME[n]]
        else:
            parts = 16 if n in (63, 51, 85, 73) else 8 if n > 31 else 4 if n > 9 else 1
            out += [(space, (n, i, parts, 10 ** 6 if n <= 31 or th else 600)) for i in range(parts)]
    return sorted(out, key=lambda s: -s[1][0])
