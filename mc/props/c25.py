"""C25 generation of bags with prior probability shift."""
import math

import numpy as np
from quantificationlib.bag_generator import PriorAndCovariateShift_BagGenerator, PriorShift_BagGenerator

from mc import domains as D, rng
from mc.core import Family, call

ASSUMPTIONS = ['the answers of the random generator are enumerated: integers and choices completely, the Dirichlet '
               'distribution on a grid that includes its vertices']


def valid(ob, prev, idx, y, k, size, n_bags, what):
    """structure of the result and agreement between prevalences and examples; returns the counts of each bag"""
    prev, idx = np.asarray(prev), np.asarray(idx)
    ob.expect(prev.shape == (k, n_bags) and idx.shape == (size, n_bags), '%s: shapes %s %s', what, prev.shape, idx.shape)
    ob.expect(np.issubdtype(idx.dtype, np.integer) and idx.min() >= 0 and idx.max() < len(y), '%s: indexes %s', what,
              idx.tolist())
    counts = []
    classes = sorted(set(y.tolist() if isinstance(y, np.ndarray) else y))
    for b in range(n_bags):
        c = [sum(y[i] == cl for i in idx[:, b]) for cl in classes]
        ob.close(prev[:, b], [v / size for v in c], 1e-9, '%s: prevalences of the bag with examples %s of classes %s' % (
            what, idx[:, b].tolist(), [str(y[i]) for i in idx[:, b]]))
        counts.append(tuple(c))
    return counts


def data(y, k, li):
    labels = D.LABELS[k][li % len(D.LABELS[k])]
    return np.arange(2.0 * len(y)).reshape(-1, 2), np.array(labels)[list(y)], labels


# --- uniform: the whole tree of random outcomes
def uni_cases(tier):
    q = tier == 'quick'
    ys = {2: [(0, 1), (1, 0, 1), (0, 0, 1, 1)], 3: [(0, 1, 2), (2, 1, 0, 0)], 4: [(3, 0, 1, 2)]}
    for k in (2, 3, 4):
        for y in ys[k]:
            for size in (1, 2, 3, 4, 5) if k < 4 else (2, 3, 4):
                for n_bags in (1, 2):
                    for picks in ('all', 'ends', 'first'):
                        n = {'all': max(y.count(c) for c in range(k)), 'ends': min(2, max(y.count(c) for c in range(k))),
                             'first': 1}[picks]
                        paths = (((size + 1) ** (k - 1)) * n ** size) ** n_bags
                        if (n == 1 and picks != 'first') or paths > (6000 if q else 60000):
                            continue
                        yield (k, y, size, n_bags, picks, None)
    mins = {2: [0.2, 0.5, 0.34, [0.5, 0.25], [0.0, 0.75], [1.0, 0.0], 0.0], 3: [0.2, 0.33, [0.5, 0.25, 0.0], [0.0, 0.0, 0.6], [0.0, 0.5, 0.0],
                                                         [0.2, 0.3, 0.4]], 4: [0.25, 0.2, [0.1, 0.5, 0.1, 0.0]]}
    for k in (2, 3, 4):
        for m in mins[k]:
            for size in (2, 3, 4, 5, 8) if q else (1, 2, 3, 4, 5, 6, 8, 10):
                for n_bags in (1, 2) if size < 4 and k < 4 else (1,):
                    if k < 4 or size < 5 or (not q and size < 7):
                        yield (k, tuple(range(k)), size, n_bags, 'first', m)


def uni_check(case, ob):
    k, y, size, n_bags, picks, m = case
    X, yl, labels = data(y, k, size)
    low = [0] * k if m is None else [int(round((m if np.isscalar(m) else m[c]) * size)) for c in range(k)]
    allowed = {c for c in D.compositions(size, k) if all(a >= b for a, b in zip(c, low))}
    reached, used, complete = set(), [set() for _ in range(n_bags)], True
    refused = False
    weight, times = {}, {}   # probability of each composition and expected number of times of each example (first bag)
    horizon = (k - 1 + (size if picks != 'first' else 0)) * n_bags + (0 if m is None else k - 1)
    for form in (0, 1):
        if form and (m is None or np.isscalar(m)):
            continue

        def run(s):
            mp = m if m is None or np.isscalar(m) else np.array(m) if form else list(m)
            g = PriorShift_BagGenerator(n_bags=n_bags, bag_size=size, min_prevalence=mp, random_state=s)
            return call(g.generate_bags, X if size % 2 else None, yl)
        for s, r in rng.explore(run, horizon=horizon, picks=None if picks == 'all' else picks):
            ob.op()
            ob.trace()
            if s.uncontrolled:
                complete = False
            if s.pruned:
                continue
            st, v = r
            if st == 'exc':
                ob.expect(isinstance(v, ValueError) and not allowed, '%s: %r', case, v)
                refused = True
                continue
            counts = valid(ob, v[0], v[1], list(yl), k, size, n_bags, str(case))
            ob.state(np.asarray(v[1]))
            w = s.weight()
            weight[counts[0]] = weight.get(counts[0], 0.0) + w
            for i in np.asarray(v[1])[:, 0]:
                times[int(i)] = times.get(int(i), 0.0) + w
            for b, c in enumerate(counts):
                ob.expect(c in allowed, '%s: a bag has %s examples of each class, at least %s required', case, c, low)
                reached.add((b, c))
                used[b] |= set(int(i) for i in np.asarray(v[1])[:, b])
    ob.expect(refused == (not allowed), '%s: refused %s but allowed compositions are %s', case, refused, sorted(allowed)[:4])
    if complete and allowed:
        # uniform over the simplex: with two classes every composition is equally likely; with more the rounding to whole
        # examples makes those on the border less likely, never less than 1 / (k - 1)! times the most likely one
        lo, hi = min(weight, key=weight.get), max(weight, key=weight.get)
        ob.expect(weight[lo] * math.factorial(k - 1) >= weight[hi] * (1 - 1e-9), '%s: %s examples of each class are drawn with '
                  'probability %s, %s with %s', case, lo, weight[lo], hi, weight[hi])
        for b in range(n_bags):
            miss = allowed - {c for bb, c in reached if bb == b}
            ob.expect(not miss, '%s: bag %d can never have %s examples of each class', case, b, sorted(miss)[:3])
            if picks == 'all' and m is None and not b:
                for i in range(len(y)):
                    o = y.index(y[i])
                    ob.expect(abs(times.get(i, 0) - times.get(o, 0)) < 1e-9, '%s: examples %d and %d of the same class appear '
                              '%s and %s times', case, o, i, times.get(o), times.get(i))
            if picks == 'all' and m is None:
                ob.expect(used[b] == set(range(len(y))), '%s: bag %d can only have the examples %s', case, b, used[b])


# --- Dirichlet
def dir_cases(tier):
    q = tier == 'quick'
    for k, grid in ((2, 8), (3, 4), (4, 3)) if q else ((2, 40), (3, 12), (4, 6), (5, 4)):
        for size in (1, 2, 3, 4, 5, 7, 10) if q else range(1, 16):
            for n_bags in (1, 2) if grid < 5 and k < 4 else (1,):
                for alphas in (1, 0.5, [1.0] * k, [0.5 + c for c in range(k)]):
                    yield (k, grid, size, n_bags, alphas)


def dir_check(case, ob):
    k, grid, size, n_bags, alphas = case
    y = tuple(range(k)) + (0, k - 1)
    X, yl, labels = data(y, k, size)
    al = tuple(float(a) for a in ([alphas] * k if np.isscalar(alphas) else alphas))

    def run(s):
        g = PriorShift_BagGenerator(n_bags=n_bags, bag_size=size, method='Dirichlet', alphas=alphas, random_state=s)
        return g.generate_bags(X, yl)
    for s, r in rng.explore(run, horizon=2000, picks='first', grid=grid):
        ob.op()
        ob.trace()
        counts = valid(ob, r[0], r[1], list(yl), k, size, n_bags, str(case))
        ob.state(np.asarray(r[1]))
        d = [c for c in s.calls if c[0] == 'dirichlet']
        if s.uncontrolled or not d:
            continue
        ob.expect(all(c[1] == al for c in d), '%s: alphas used %s', case, d[0][1])
        pts = list(D.compositions(grid, k))
        drawn = [np.array(pts[i]) / grid for i in s.taken[:n_bags]]
        for c, p in zip(counts, drawn):
            # the number of examples of each class is the probability drawn times the size, rounded; the last ones absorb
            # the rounding
            ob.expect(abs(c[0] - p[0] * size) <= 0.5 + 1e-9 and all(abs(a - b * size) <= 0.5 * k + 1e-9 for a, b in zip(c, p)),
                      '%s: probabilities %s give %s examples', case, p.tolist(), c)


# --- seeds: reproducible, and bags of one data set are never used with another
def seed_cases(tier):
    q = tier == 'quick'
    for cls in ('prior', 'both'):
        for method in ('Uniform', 'Dirichlet'):
            for k in (2, 3, 4):
                for seed in range(12 if q else 150):
                    yield (cls, method, k, seed)


def seed_check(case, ob):
    cls, method, k, seed = case
    G = PriorShift_BagGenerator if cls == 'prior' else PriorAndCovariateShift_BagGenerator
    n_bags, size = 3 + seed % 5, 1 + seed % 7
    kw = dict(n_bags=n_bags, bag_size=size, method=method, alphas=1 if method == 'Dirichlet' else None)
    y1 = [c for c in range(k)] + [seed % k, (seed + 1) % k]
    X, yl, labels = data(y1, k, seed)
    g = G(random_state=seed, **kw)
    p1, i1 = [np.array(a) for a in g.generate_bags(X, yl)]
    ob.op()
    valid(ob, p1, i1, list(yl), k, size, n_bags, str(case))
    p2, i2 = [np.array(a) for a in g.generate_bags(X, yl)]
    p3, i3 = G(random_state=seed, **kw).generate_bags(X, yl)
    ob.op(2)
    ob.expect(np.array_equal(i1, i2) and np.array_equal(p1, p2), '%s: asking again for the same data gives other bags', case)
    ob.expect(np.array_equal(i1, i3) and np.array_equal(p1, p3), '%s: the same seed gives other bags', case)
    # other data: fewer classes, more examples, other order
    for j, yy in enumerate((y1[::-1], y1 + y1, list(range(max(2, k - 1))) * 2, y1)):
        kk = len(set(yy))
        Z, yz, _ = data(yy, kk, seed + j)
        p, i = g.generate_bags(Z, yz)
        ob.op()
        valid(ob, p, i, list(yz), kk, size, n_bags, '%s, data set %d with the same generator' % (case, j))
        ob.state(np.asarray(i))
    g = G(random_state=seed, n_bags=n_bags, method=method, alphas=kw['alphas'])
    p, i = g.generate_bags(X, yl)
    ob.op()
    valid(ob, p, i, list(yl), k, len(yl), n_bags, '%s, default size' % (case,))
    # the generator of the user is used and advances
    rs = np.random.RandomState(seed)
    g = G(random_state=np.random.RandomState(seed), **kw)
    p4, i4 = [np.array(a) for a in g.generate_bags(X, yl)]
    p6, i6 = g.generate_bags(X, yl)
    ob.op()
    ob.expect(np.array_equal(i4, i6) and np.array_equal(p4, p6), '%s: asking again for the same data gives other bags '
              '(generator object)', case)
    p5, i5 = G(random_state=rs, **kw).generate_bags(X, yl)
    ob.op(2)
    ob.expect(np.array_equal(i4, i5), '%s: equal generators give different bags', case)
    ob.expect(rs.get_state()[2] != np.random.RandomState(seed).get_state()[2] or
              not np.array_equal(rs.get_state()[1], np.random.RandomState(seed).get_state()[1]), '%s: the generator given is '
              'not used', case)


# --- indexes of data sets of any size
def big_cases(tier):
    for n in (255, 256, 257, 65536, 70001) if tier == 'quick' else (127, 128, 129, 255, 256, 257, 32768, 32769, 65535, 65536, 65537,
                                                                   70001, 140003):
        for method in ('Uniform', 'Dirichlet'):
            for last in (0, 1):
                yield (n, method, last)


def big_check(case, ob):
    """the first class only has the example 0 and the last class only the last one (or the others the other way round)"""
    n, method, last = case
    y = np.ones(n, dtype=int)
    y[0], y[n - 1] = (0, 2) if not last else (2, 0)
    y[n // 2] = 3
    where = {0: {0 if not last else n - 1}, 2: {n - 1 if not last else 0}, 3: {n // 2}}
    g = PriorShift_BagGenerator(n_bags=5, bag_size=9, method=method, alphas=1 if method == 'Dirichlet' else None, random_state=n)
    p, i = [np.asarray(a) for a in g.generate_bags(None, y)]
    ob.op()
    valid(ob, p, i, y, 4, 9, 5, '%s: %d examples' % (method, n))
    ob.state(i)
    for c, w in where.items():
        ob.expect({int(v) for v in i.ravel() if y[int(v)] == c} <= w, 'class %d', c)


def bad_cases(tier):
    for i in range(10):
        yield (i,)


def bad_check(case, ob):
    i, = case
    X, y, _ = data((0, 1, 2, 0), 3, 0)
    kw = [dict(method='other'), dict(random_state='x'), dict(random_state=None), dict(min_prevalence=1.5),
          dict(min_prevalence=-0.1), dict(min_prevalence=[0.5, 0.5, 0.5]), dict(min_prevalence=[-0.1, 0.5, 0.2]),
          dict(method='Dirichlet', alphas=[1, 2]), dict(min_prevalence=0.4), dict(min_prevalence=[0.6, 0.3, 0.2])][i]
    st, r = call(PriorShift_BagGenerator(n_bags=3, bag_size=10, **kw).generate_bags, X, y)
    ob.op()
    ob.state(st)
    ob.expect(st == 'exc' and isinstance(r, ValueError), '%s accepted: %r', kw, r)


FAMILIES = [
    Family('uniform', uni_cases, uni_check, 'every outcome of the random generator, 2-4 classes, bags of 1-8 examples, minimum '
           'prevalences'),
    Family('dirichlet', dir_cases, dir_check, 'every probability vector on a grid, 2-5 classes, bags of 1-15 examples'),
    Family('seeds', seed_cases, seed_check, 'integer seeds and generators, several data sets with the same object'),
    Family('large', big_cases, big_check, 'data sets of 255-140003 examples'),
    Family('refusals', bad_cases, bad_check, 'parameters that cannot be used'),
]
