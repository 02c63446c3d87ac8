"""A random generator whose answers are decided by the explorer: every call is a choice point and `explore` runs the code
under test once for every combination of answers (depth-first search over the tree of random outcomes)."""
import itertools

import numpy as np

from mc.domains import compositions


class Pruned(BaseException):
    """the path asks for more answers than the horizon allows (e.g. a rejection loop that never accepts)"""


class Script(np.random.RandomState):
    """plays a prefix of decisions, then always the first option; records how many options each decision had"""

    def __init__(self, prefix=(), horizon=64, picks=None, grid=4):
        super().__init__(12345)
        self.prefix, self.horizon, self.picks, self.grid = list(prefix), horizon, picks, grid
        self.taken, self.options, self.calls = [], [], []
        self.uncontrolled = set()

    def _decide(self, n):
        if n == 1:
            return 0
        i = len(self.taken)
        if i >= self.horizon:
            raise Pruned()
        d = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(d)
        self.options.append(n)
        return d

    def weight(self):
        """probability of this path when every decision is uniform (only meaningful when choices are not cut by picks)"""
        return float(np.prod([1.0 / n for n in self.options])) if self.options else 1.0

    def _shape(self, size, f):
        if size is None:
            return f()
        shape = (size,) if np.isscalar(size) else tuple(size)
        out = [f() for _ in range(int(np.prod(shape)))]
        return np.array(out).reshape(shape) if out else np.zeros(shape, dtype=int)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        self.calls.append(('randint', low, high, size))
        return self._shape(size, lambda: low + self._decide(high - low))

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if np.isscalar(a) else list(a)
        self.calls.append(('choice', tuple(pool), size, None if p is None else tuple(float(v) for v in p)))
        if p is not None:
            if len(p) != len(pool) or abs(float(np.sum(p)) - 1) > 1e-6 or np.min(p) < 0:
                raise ValueError('invalid probabilities')
            pool = [v for v, w in zip(pool, p) if w > 0]
        if not pool:
            raise ValueError('nothing to choose from')
        if self.picks == 'ends' and len(pool) > 2:
            pool = [pool[0], pool[-1]]
        if self.picks == 'first':
            pool = pool[:1]
        if not replace:
            rest = list(pool)
            return self._shape(size, lambda: rest.pop(self._decide(len(rest))))
        return self._shape(size, lambda: pool[self._decide(len(pool))])

    def dirichlet(self, alpha, size=None):
        k = len(alpha)
        self.calls.append(('dirichlet', tuple(float(v) for v in alpha), size))
        pts = [np.array(c) / self.grid for c in compositions(self.grid, k)]
        n = 1 if size is None else int(np.prod(size))
        out = np.array([pts[self._decide(len(pts))] for _ in range(n)])
        return out[0] if size is None else out.reshape((n, k))


def _other(name):
    base = getattr(np.random.RandomState, name)

    def f(self, *a, **k):
        self.uncontrolled.add(name)
        return base(self, *a, **k)
    return f


for _n in ('random_sample', 'random', 'rand', 'randn', 'uniform', 'normal', 'standard_normal', 'permutation', 'shuffle',
           'multinomial', 'binomial', 'gamma', 'standard_gamma', 'exponential', 'standard_exponential', 'beta',
           'random_integers', 'bytes', 'hypergeometric', 'poisson'):
    if hasattr(np.random.RandomState, _n):
        setattr(Script, _n, _other(_n))


def explore(run, limit=200000, **kw):
    """run(script) for every combination of answers; yields (script, result) and stops the enumeration of a path that
    exceeds the horizon (result None, script.pruned True)"""
    prefix = []
    n = 0
    while True:
        s = Script(prefix, **kw)
        s.pruned = False
        try:
            r = run(s)
        except Pruned:
            s.pruned, r = True, None
        yield s, r
        n += 1
        if n > limit:
            raise RuntimeError('tree larger than %d paths' % limit)
        # next path: increment the last decision that still has options
        t, o = s.taken, s.options
        while t and t[-1] + 1 >= o[len(t) - 1]:
            t = t[:-1]
        if not t:
            return
        prefix = t[:-1] + [t[-1] + 1]
