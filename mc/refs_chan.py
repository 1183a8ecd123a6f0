"""Reference side of the channel checks: the normal stream of the seeded global generator, and scripted generators."""
import math


class Stream:
    """Values the global NumPy generator produces after seed(s); every normalised noise/gain component that the library reports must be a value
    of this stream that was not used before (whatever the order in which the library draws them)."""
    def __init__(self, seed):
        import numpy as np
        self.rs = np.random.RandomState(seed)
        self.left = []
        np.random.seed(seed)

    def more(self, n):
        self.left = sorted(self.left + self.rs.standard_normal(n).tolist())

    def take(self, c, values, what):
        from bisect import bisect_left
        for v in values:
            i = bisect_left(self.left, v)
            best = None
            for j in (i - 1, i, i + 1):
                if 0 <= j < len(self.left) and (best is None or abs(self.left[j] - v) < abs(self.left[best] - v)):
                    best = j
            if best is None or not abs(self.left[best] - v) <= 1e-7 * (1 + abs(v)):
                c.true(False, '%s: %r standard deviations is not a fresh value of the random stream (nearest %r)' % (
                    what, v, None if best is None else self.left[best]))
            del self.left[best]


def flat(a):
    out = []
    for v in a:
        if isinstance(v, (list, tuple)) or hasattr(v, 'tolist') and getattr(v, 'ndim', 0):
            out += flat(v)
        else:
            out.append(complex(v))
    return out


def components(values, sd, cplx, mean=None):
    """real (and imaginary) parts in standard deviations"""
    vs = flat(values)
    if mean is not None:
        vs = [v - m for v, m in zip(vs, mean)]
    if cplx:
        return [p / sd for v in vs for p in (v.real, v.imag)]
    return [v.real / sd for v in vs]


class Tape:
    """Replaces the normal/uniform generators (in numpy.random and wherever the library bound them) by scripted values."""
    NORMAL = ('standard_normal', 'randn', 'normal')
    UNIFORM = ('random', 'random_sample', 'rand', 'ranf', 'sample', 'uniform')

    def __init__(self, values, default=0.):
        self.values, self.default, self.pos = values, default, 0

    def draw(self, shape):
        import numpy as np
        if shape is None:
            shape = ()
        shape = tuple(shape) if hasattr(shape, '__len__') else (int(shape),)
        n = int(np.prod(shape))
        out = np.full(n, float(self.default))
        for i in range(n):
            k = self.pos + i
            if isinstance(self.values, dict):
                out[i] = self.values.get(k, self.default)
            elif k < len(self.values):
                out[i] = self.values[k]
        self.pos += n
        return out.reshape(shape) if shape else float(out[0])

    def __enter__(self):
        import sys
        import numpy as np
        d = self.draw
        new = dict(standard_normal=lambda size=None: d(size), randn=lambda *s: d(s or None),
                   normal=lambda loc=0., scale=1., size=None: loc + scale * d(size if size is not None else np.broadcast(loc, scale).shape or None),
                   random=lambda size=None: d(size), random_sample=lambda size=None: d(size), ranf=lambda size=None: d(size),
                   sample=lambda size=None: d(size), rand=lambda *s: d(s or None),
                   uniform=lambda low=0., high=1., size=None: low + (high - low) * d(size))
        old = {k: getattr(np.random, k) for k in new if hasattr(np.random, k)}
        self.saved = [(np.random, k, f) for k, f in old.items()]
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == 'commpy' or name.startswith('commpy.')):
                for attr, v in list(vars(mod).items()):
                    for k, f in old.items():
                        try:
                            same = v is f or v == f
                        except Exception:
                            same = False
                        if same is True:
                            self.saved.append((mod, attr, v))
                            setattr(mod, attr, new[k])
                            break
        for k in old:
            setattr(np.random, k, new[k])
        return self

    def __exit__(self, *a):
        for mod, attr, v in reversed(self.saved):
            setattr(mod, attr, v)


def db(x):
    return 10 ** (x / 10.)
