"""C26 generation of bags with covariate shift, alone and combined with prior shift."""
import math

import numpy as np
from quantificationlib.bag_generator import CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator

from mc import domains as D, rng
from mc.core import Family, call
from mc.props.c25 import valid

ASSUMPTIONS = ['the answers of the random generator are enumerated completely; examples are drawn with its method choice, '
               'otherwise only the structure of the bags is checked']


def kernel(X, c):
    """probability of each example when the centre of the bag is c: Gaussian similarity with gamma = 1 / n_features"""
    g = 1.0 / X.shape[1]
    s = [math.exp(-g * sum((a - b) ** 2 for a, b in zip(X[c], x))) for x in X]
    return [v / sum(s) for v in s]


XS = {'line': [(0.0,), (0.5,), (1.0,), (3.0,)], 'plane': [(0.0, 0.0), (1.0, 0.5), (0.2, 2.0), (0.0, 0.0)],
      'equal': [(2.0,), (2.0,), (2.0,)], 'far': [(0.0, 1.0, 0.0), (1.0, 1.0, 1.0), (100.0, 0.0, 0.0)]}
YS = {4: [(0, 1, 1, 0), (0, 1, 2, 1), (3, 2, 1, 0)], 3: [(0, 1, 0), (2, 1, 0)]}


def cov_cases(tier):
    q = tier == 'quick'
    for xn, X in XS.items():
        n = len(X)
        for y in YS[n]:
            for size in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                for n_bags in (1, 2):
                    for picks in ('all', 'ends', 'first'):
                        m = {'all': n, 'ends': 2, 'first': 1}[picks]
                        if (n * m ** size) ** n_bags <= (2000 if q else 40000) and (picks != 'ends' or n_bags * size > 2):
                            yield (xn, y, size, n_bags, picks)


def cov_check(case, ob):
    xn, y, size, n_bags, picks = case
    k = len(set(y))
    X = np.array(XS[xn])
    n = len(X)
    labels = D.LABELS[k][size % len(D.LABELS[k])]
    yl = np.array(labels)[list(y)]
    want = [kernel(X, c) for c in range(n)]
    Xc, yc = X.copy(), yl.copy()
    seen, complete = set(), True
    used = [set() for _ in range(n_bags)]

    def run(s):
        g = CovariateShift_BagGenerator(n_bags=n_bags, bag_size=size if (size + n_bags) % 2 or size != n else None,
                                        random_state=s)
        return g.generate_bags(X, yl)
    for s, r in rng.explore(run, horizon=5000, picks=None if picks == 'all' else picks):
        ob.op()
        ob.trace()
        valid(ob, r[0], r[1], list(yl), k, size, n_bags, str(case))
        ob.state(np.asarray(r[1]))
        ch = [c for c in s.calls if c[0] == 'choice']
        if s.uncontrolled or len(ch) != n_bags or any(c[3] is None for c in ch):
            complete = False
            continue
        for b, c in enumerate(ch):
            got = dict(zip(c[1], c[3]))
            match = [i for i in range(n) if max(abs(got.get(j, 0.0) - want[i][j]) for j in range(n)) < 1e-9]
            ob.expect(match, '%s: bag %d is drawn with probabilities %s, no example is the centre of them', case, b,
                      [round(got.get(j, 0.0), 6) for j in range(n)])
            seen |= {(b, i) for i in match}
            used[b] |= set(int(i) for i in np.asarray(r[1])[:, b])
    ob.expect(np.array_equal(X, Xc) and np.array_equal(yl, yc), 'inputs modified')
    if complete:
        for b in range(n_bags):
            ob.expect({i for bb, i in seen if bb == b} == set(range(n)), '%s: bag %d is centred only on %s', case, b, sorted(seen))
            if picks == 'all' and xn != 'far':
                ob.expect(used[b] == set(range(n)), '%s: bag %d only has examples %s', case, b, sorted(used[b]))


# --- combination of both shifts: first half prior, second half covariate
def both_cases(tier):
    q = tier == 'quick'
    for method in ('Uniform', 'Dirichlet'):
        for y in ((0, 1, 1, 0), (0, 1, 2, 1)):
            for n_bags in (0, 1, 2, 3, 4, 5) if not q else (1, 2, 3, 4):
                for size in (2, 3, None):
                    for m in (None, 0.3) if method == 'Uniform' else (None,):
                        yield (method, y, n_bags, size, m)


def both_check(case, ob):
    method, y, n_bags, size, m = case
    k = len(set(y))
    labels = D.LABELS[k][n_bags % len(D.LABELS[k])]
    yl = np.array(labels)[list(y)]
    X = np.array(XS['plane'])
    sz = len(y) if size is None else size
    low = int(round((m or 0) * sz))
    cls = {'c': range(4), 'p': []}
    half = n_bags // 2

    def run(s):
        g = PriorAndCovariateShift_BagGenerator(n_bags=n_bags, bag_size=size, method=method, min_prevalence=m,
                                                alphas=1 if method == 'Dirichlet' else None, random_state=s)
        return g.generate_bags(X, yl)
    if n_bags == 0:
        return
    if method == 'Uniform' and low * k > sz:
        if half:
            st, r = call(run, rng.Script(()))
            ob.op()
            ob.expect(st == 'exc' and isinstance(r, ValueError), '%s accepted', case)
        return
    want = [kernel(X, c) for c in range(len(X))]
    for s, r in rng.explore(run, horizon=7 if n_bags < 4 else 6, picks='first', grid=3):
        ob.op()
        ob.trace()
        if s.pruned:
            continue
        counts = valid(ob, r[0], r[1], list(yl), k, sz, n_bags, str(case))
        ob.state(np.asarray(r[1]))
        if s.uncontrolled:
            continue
        if method == 'Uniform':
            ob.expect(all(min(c) >= low for c in counts[:half]), '%s: minimum prevalence not respected: %s', case, counts)
        ch = [c for c in s.calls if c[0] == 'choice' and c[3] is not None]
        ob.expect(len(ch) == n_bags - half, '%s: %d bags with covariate shift', case, len(ch))
        for c in ch:
            got = dict(zip(c[1], c[3]))
            ob.expect(any(max(abs(got.get(j, 0.0) - w[j]) for j in range(4)) < 1e-9 for w in want), '%s: drawn with %s', case, c[3])


# --- seeds and several data sets
def seed_cases(tier):
    for k in (2, 3, 4):
        for seed in range(20 if tier == 'quick' else 300):
            yield (k, seed)


def seed_check(case, ob):
    k, seed = case
    n_bags, size = 3 + seed % 5, 1 + seed % 7
    y1 = [c for c in range(k)] + [seed % k, (seed + 1) % k]
    labels = D.LABELS[k][seed % len(D.LABELS[k])]
    yl = np.array(labels)[y1]
    X = np.array([[(3 * i + seed) % 7 / 3, i / 4] for i in range(len(y1))])
    g = CovariateShift_BagGenerator(n_bags=n_bags, bag_size=size, random_state=seed)
    p1, i1 = [np.array(a) for a in g.generate_bags(X, yl)]
    p2, i2 = [np.array(a) for a in g.generate_bags(X, yl)]
    p3, i3 = CovariateShift_BagGenerator(n_bags=n_bags, bag_size=size, random_state=seed).generate_bags(X, yl)
    ob.op(3)
    valid(ob, p1, i1, list(yl), k, size, n_bags, str(case))
    ob.expect(np.array_equal(i1, i2) and np.array_equal(i1, i3) and np.array_equal(p1, p3), '%s: not reproducible', case)
    g4 = CovariateShift_BagGenerator(n_bags=n_bags, bag_size=size, random_state=np.random.RandomState(seed))
    p4, i4 = [np.array(a) for a in g4.generate_bags(X, yl)]
    p5, i5 = g4.generate_bags(X, yl)
    ob.op(2)
    ob.expect(np.array_equal(i4, i5) and np.array_equal(p4, p5), '%s: asking again for the same data gives other bags '
              '(generator object)', case)
    for j, rows in enumerate((list(range(len(y1)))[::-1], list(range(k)), list(range(len(y1))) * 2)):
        Z, yz = X[rows], yl[rows]
        p, i = g.generate_bags(Z, yz)
        ob.op()
        valid(ob, p, i, list(yz), k, size, n_bags, '%s, data set %d with the same generator' % (case, j))
        ob.state(np.asarray(i))
    # the same features with other labels
    y2 = np.array(labels)[[(c + 1) % k for c in y1]]
    p, i = g.generate_bags(X, y2)
    p, i = g.generate_bags(X, yl)
    p, i = g.generate_bags(X, y2)
    ob.op(3)
    valid(ob, p, i, list(y2), k, size, n_bags, '%s, other labels' % (case,))
    for bad in ('x', None, 1.5):
        st, r = call(CovariateShift_BagGenerator(n_bags=2, random_state=bad).generate_bags, X, yl)
        ob.expect(st == 'exc' and isinstance(r, ValueError), 'random_state %r accepted', bad)


def big_cases(tier):
    for n in (255, 256, 257, 65536, 70001) if tier == 'quick' else (127, 128, 129, 255, 256, 257, 32768, 65536, 65537, 70001):
        yield (n,)


def big_check(case, ob):
    """bags around the last examples, far from all the others: the seeds are tried until the centre is one of them"""
    n, = case
    y = np.arange(n) % 3
    X = np.zeros((n, 2))
    X[n // 2:] = 1000.0
    seen = set()
    for seed in range(8):
        g = CovariateShift_BagGenerator(n_bags=4, bag_size=5, random_state=seed)
        p, i = [np.asarray(a) for a in g.generate_bags(X, y)]
        ob.op()
        valid(ob, p, i, y, 3, 5, 4, '%d examples, seed %d' % (n, seed))
        ob.state(i)
        for b in range(4):
            sides = {int(v) >= n // 2 for v in i[:, b]}
            ob.expect(len(sides) == 1, '%d examples, seed %d: bag %d has examples of both groups %s', n, seed, b, i[:, b].tolist())
            seen |= sides
    ob.expect(len(seen) == 2, '%d examples: only one of the groups is the centre of the bags', n)


FAMILIES = [
    Family('covariate', cov_cases, cov_check, 'every centre and every choice, 3-4 examples, bags of 1-5 examples'),
    Family('combined', both_cases, both_check, 'combination of prior and covariate shift, random outcomes enumerated'),
    Family('large', big_cases, big_check, 'data sets of 255-70001 examples in two distant groups'),
    Family('seeds', seed_cases, seed_check, 'integer seeds, several data sets with the same object'),
]
