"""Reference model of convolutional encoders: plain Python, written from the definition of the polynomials."""


def taps(value, nbits, fmt, regmem=None):
    """set of delays d whose tap is 1.  MSB format: bit of weight 2^d <-> D^d; LSB/Matlab: leftmost of nbits <-> D^0."""
    out = []
    for d in range(nbits):
        b = (value >> d) & 1 if fmt == 'MSB' else (value >> (nbits - 1 - d)) & 1
        if b:
            out.append(d)
    return out


def bits_of(v, w):
    return [(v >> (w - 1 - i)) & 1 for i in range(w)]


def to_int(bits):
    v = 0
    for b in bits:
        v = 2 * v + int(b)
    return v


class Code:
    """k inputs, n outputs, one register per input; tables computed lazily as {state:{input:(next,out)}} lists."""
    def __init__(self, memory, G, F=None, fmt='MSB', legacy=None, rsc=False):
        self.memory, self.k, self.n = list(memory), len(G), len(G[0])
        self.M = sum(memory)
        self.S, self.I = 1 << self.M, 1 << self.k
        self.rsc = rsc
        W = max(memory) + 1
        if legacy is not None:                 # integer feedback, single input: leftmost bit of memory+1 is D^0
            assert self.k == 1
            W = memory[0] + 1
            G = [list(G[0])]
            if rsc:
                G[0][0] = legacy
            g = [[taps(v, W, 'LSB') for v in G[0]]]
            f = [d for d in taps(legacy, W, 'LSB') if d >= 1]
        else:
            g = [[taps(v, W, fmt) for v in row] for row in G]
            if F is None:
                ff = [[[0] if i == l else [] for i in range(self.k)] for l in range(self.k)]
            else:
                ff = [[taps(v, W, fmt) for v in row] for row in F]
        self.next = [[0] * self.I for _ in range(self.S)]
        self.out = [[0] * self.I for _ in range(self.S)]
        for s in range(self.S):
            sb = bits_of(s, self.M)
            regs, pos = [], 0
            for m in self.memory:
                regs.append(sb[pos:pos + m]); pos += m
            for u in range(self.I):
                ub = bits_of(u, self.k)
                if legacy is not None:
                    w = (ub[0] + sum(regs[0][d - 1] for d in f)) % 2
                    r = [[w] + regs[0]]        # direct form II: taps act on the register input
                    new = [w]
                else:
                    r = [[ub[i]] + regs[i] for i in range(self.k)]
                    new = [sum(r[i][d] for i in range(self.k) for d in ff[l][i] if d < len(r[i])) % 2
                           for l in range(self.k)]
                o = [sum(r[i][d] for i in range(self.k) for d in g[i][j] if d < len(r[i])) % 2 for j in range(self.n)]
                nb = []
                for l in range(self.k):
                    nb += ([new[l]] + regs[l])[:self.memory[l]]
                self.next[s][u] = to_int(nb)
                self.out[s][u] = to_int(o)

    def encode(self, bits, state=0):
        k, out = self.k, []
        for t in range(0, len(bits) - k + 1, k):
            u = to_int(bits[t:t + k])
            out += bits_of(self.out[state][u], self.n)
            state = self.next[state][u]
        return out, state

    def steps_to_zero(self):
        """dist[s] = least number of steps from s to state 0."""
        dist = {0: 0}
        frontier, d = [0], 0
        while frontier:
            d += 1
            nxt = []
            tgt = set(frontier)
            for s in range(self.S):
                if s not in dist and any(self.next[s][u] in tgt for u in range(self.I)):
                    nxt.append(s)
            for s in nxt:
                dist[s] = d
            frontier = nxt
        return dist

    def dfree(self):
        """least non-zero weight of a path leaving and returning to state 0 (Dijkstra), None if none."""
        import heapq
        pq = []
        for u in range(1, self.I):
            heapq.heappush(pq, (bin(self.out[0][u]).count('1'), self.next[0][u], 1))
        done = {}
        while pq:
            w, s, _ = heapq.heappop(pq)
            if s == 0:
                if w > 0:
                    return w
                continue
            if s in done:
                continue
            done[s] = w
            for u in range(self.I):
                heapq.heappush(pq, (w + bin(self.out[s][u]).count('1'), self.next[s][u], 1))
        return None

    def catastrophic(self):
        """a zero-weight cycle other than staying in state 0 with input 0."""
        # search zero-output edges graph for a cycle that is not the (0,0) loop
        edges = {s: [self.next[s][u] for u in range(self.I) if self.out[s][u] == 0 and not (s == 0 and u == 0)] for s in range(self.S)}
        color = {}
        def dfs(s):
            color[s] = 1
            for t in edges[s]:
                if color.get(t) == 1 or (t not in color and dfs(t)):
                    return True
            color[s] = 2
            return False
        return any(s not in color and dfs(s) for s in range(self.S))


def mk_trellis(np, Trellis, memory, G, F=None, fmt='MSB', legacy=None, rsc=False):
    kw = dict(polynomial_format=fmt)
    if rsc:
        kw['code_type'] = 'rsc'
    if legacy is not None:
        kw['feedback'] = legacy
    elif F is not None:
        kw['feedback'] = np.array(F, int)
    return Trellis(np.array(memory, int), np.array(G, int), **kw)


# ---------------------------------------------------------------------------- families of codes used by several checks
# name: (memory, G, F, fmt, legacy int feedback, rsc flag)
CODES = {
    'k1m1': ([1], [[1, 3]], None, 'MSB', None, False),
    'k1m2': ([2], [[5, 7]], None, 'MSB', None, False),
    'k1m2n1': ([2], [[7]], None, 'MSB', None, False),
    'k1m2n3': ([2], [[5, 7, 6]], None, 'MSB', None, False),
    'k1m2lsb': ([2], [[6, 7]], None, 'LSB', None, False),
    'k1m3': ([3], [[0o15, 0o17]], None, 'MSB', None, False),
    'k1m3mat': ([3], [[0o13, 0o17, 0o11]], None, 'Matlab', None, False),
    'k1m4': ([4], [[0o23, 0o35]], None, 'MSB', None, False),
    'k1m3n4': ([3], [[0o13, 0o15, 0o15, 0o17]], None, 'MSB', None, False),
    'k1old0': ([2], [[5, 7]], None, 'MSB', 0, False),
    'k1old5': ([2], [[1, 7]], None, 'MSB', 5, True),
    'k1old7': ([2], [[1, 5]], None, 'MSB', 7, True),
    'k1old13': ([3], [[1, 15]], None, 'MSB', 13, True),
    'k1rec': ([2], [[1, 6]], [[7]], 'MSB', None, True),
    'k1rec5': ([2], [[1, 7]], [[5]], 'MSB', None, True),
    'k1recd': ([3], [[1, 0o15]], [[0o13]], 'MSB', None, False),
    'k1reclsb': ([3], [[8, 0o15]], [[0o15]], 'LSB', None, True),
    'k2m11': ([1, 1], [[1, 2, 3], [2, 1, 1]], None, 'MSB', None, False),
    'k2m21': ([2, 1], [[5, 7, 0], [0, 2, 3]], None, 'MSB', None, False),
    'k2m12': ([1, 2], [[3, 2, 0], [5, 0, 7]], None, 'MSB', None, False),
    'k2m22n4': ([2, 2], [[7, 5, 0, 1], [0, 2, 7, 5]], None, 'MSB', None, False),
    'k2m31': ([3, 1], [[0o15, 0o13, 0], [0, 3, 1]], None, 'MSB', None, False),
    'k2m10': ([1, 0], [[3, 2, 1], [0, 1, 1]], None, 'MSB', None, False),
    'k2m02': ([0, 2], [[1, 0, 1], [0, 5, 7]], None, 'MSB', None, False),
    'k2rsc11': ([1, 1], [[1, 0, 3], [0, 1, 2]], [[3, 0], [2, 1]], 'MSB', None, True),
    'k2rsc21': ([2, 1], [[1, 0, 6], [0, 1, 3]], [[5, 1], [0, 3]], 'MSB', None, True),
    'k2lsb': ([1, 1], [[2, 1, 3], [1, 2, 2]], None, 'LSB', None, False),
    'k3m111': ([1, 1, 1], [[3, 1, 0, 1], [0, 3, 1, 2], [1, 0, 3, 2]], None, 'MSB', None, False),
    'k3m211': ([2, 1, 1], [[7, 1, 0, 5], [0, 3, 1, 2], [1, 0, 3, 2]], None, 'MSB', None, False),
    'k3m100': ([1, 0, 0], [[3, 1, 0, 2], [0, 1, 1, 0], [0, 0, 1, 1]], None, 'MSB', None, False),
    'k3rsc': ([1, 1, 1], [[1, 0, 0, 2], [0, 1, 0, 3], [0, 0, 1, 2]], [[1, 2, 0], [0, 1, 0], [2, 0, 3]], 'MSB', None, True),
    'k4m1111': ([1, 1, 1, 1], [[3, 0, 0, 0, 1], [0, 1, 0, 2, 2], [0, 0, 3, 0, 1], [0, 0, 2, 1, 3]], None, 'MSB', None, False),
}
_cache = {}


def ref(name):
    if name not in _cache:
        _cache[name] = Code(*CODES[name])
    return _cache[name]


_tcache = {}


def trellis(name):
    """a real Trellis, one per process and code (shared between traces on purpose)."""
    if name not in _tcache:
        import numpy as np
        from commpy.channelcoding.convcode import Trellis
        m, G, F, fmt, legacy, rsc = CODES[name]
        _tcache[name] = mk_trellis(np, Trellis, m, G, F, fmt, legacy, rsc)
    return _tcache[name]


def lcg_bits(n, seed):
    """deterministic structured bit string (no random module)."""
    x, out = seed * 2654435761 % (1 << 32), []
    for _ in range(n):
        x = (1103515245 * x + 12345) % (1 << 31)
        out.append((x >> 16) & 1)
    return out
