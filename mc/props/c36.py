"""C36 changes of the features and of the scores that carry no information."""
import numpy as np

from mc import zoo
from mc.core import Family, call
from mc.props.c03 import TOL, make_bags, problem, problems_of

ASSUMPTIONS = ['no column of the training set is constant; features are multiples of 1/4 and the changes are exact in floating point (powers of two, integers), so the '
               'cut points and the distances are changed exactly']
K = (2, 3, 4)


def features(P):
    """one column for each class but the last, and one more that mixes them"""
    return np.column_stack([zoo.feats(P), np.abs(P[:, 0] - P[:, -1] / 2)])


def perm(F):
    return F[:, ::-1].copy()


def each(F, a, b):
    m = F.shape[1]
    return F * np.array(a * m, float)[:m] + np.array(b * m, float)[:m]


HIST = ('DFX', 'HDX', 'OVR-DFX', 'FH-DFX', 'REGX')
DIST = ('EDX', 'PWK', 'OVR-EDX', 'FH-EDX', 'EoQ-EDX')
CHANGES = {
    'columns in other order': (perm, HIST + DIST),
    'multiplied by 4': (lambda F: F * 4, HIST + DIST),
    'divided by 64': (lambda F: F / 64, HIST + DIST),
    'each column in its own units': (lambda F: each(F, [8, .25, 2], [0]), HIST),
    'moved': (lambda F: F + 3, HIST + DIST),
    'moved below zero': (lambda F: F - 7, HIST + DIST),
    'moved far': (lambda F: F + 2. ** 22, HIST + DIST),
    'moved far below zero': (lambda F: F - 2. ** 22, HIST + DIST),
    'enormous': (lambda F: F * 2. ** 40, HIST + DIST),
    'minute': (lambda F: F / 2. ** 40, HIST + DIST),
    'each column moved': (lambda F: each(F, [1], [5, -2, -100]), HIST + DIST),
    'units and origin': (lambda F: each(F, [.5, 16, 2], [-1, 4, 8]), HIST),
    'changed of sign': (lambda F: -F, DIST),
    'one column changed of sign': (lambda F: each(F, [-1, 1], [0]), DIST),
    'mirror and origin': (lambda F: 1 - F, DIST),
    'a constant column': (lambda F: np.column_stack([np.full(len(F), 2.), F]), ('DFX', 'HDX', 'OVR-DFX', 'FH-DFX') + DIST),
    'columns twice': (lambda F: np.column_stack([F, F]), ('DFX', 'HDX', 'OVR-DFX', 'FH-DFX', 'EDX-manhattan')),
}


def selected(name, fams, what):
    if name.endswith('-glm') or ('-normal' in name or '-binormal' in name) and ('moved' in what or 'origin' in what):
        return False        # iterative fit; cut points rounded
    return name.startswith(fams)


def pick(s, k, q):
    P = problems_of(s, k, q)
    return P[:: max(1, len(P) // ((2 if s.slow else 6) if q else (10 if s.slow else 60)))]


def x_cases(tier):
    for k in K:
        for s in zoo.SPECS:
            if s.kind == 'x' and s.kmin <= k <= s.kmax and any(selected(s.name, f, w) for w, (_, f) in CHANGES.items()):
                for c in pick(s, k, tier == 'quick'):
                    yield (s.name,) + c




def compare(ob, got, want, tol, what, bags):
    for g, w, b in zip(got, want, bags):
        text = '%s, bag %s' % (what, np.asarray(b).tolist())
        if g[0] == 'exc' or w[0] == 'exc':
            a, c = [repr(r[1]) if r[0] == 'exc' else 'an answer' for r in (g, w)]
            ob.expect(g[0] == w[0] and type(g[1]) is type(w[1]), '%s: %s, expected %s', text, a, c)
        else:
            ob.close(np.asarray(g[1], float), np.asarray(w[1], float), tol, text)


def mixtures(k, y, P):
    """bags with only one solution, whatever the distance"""
    part = [P[y == c] for c in range(k)]
    n = [[len(p) == max(map(len, part)) for p in part], [1] * k, [1 + (c == 0) for c in range(k)]]
    return [np.vstack([part[c] for c in range(k) for _ in range(w[c])]) for w in n]


def x_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    k, y, P, R = problem(case[1:])
    y = np.array(y)
    F = features(P)
    if any(len(set(c)) == 1 for c in F.T):
        return          # the cut points of a constant column are in absolute units
    if 'binormal' in s.name and any(all(len(set(c[y == v])) == 1 for v in range(k)) for c in F.T):
        return
    bags = [features(b) for b in (mixtures(k, y, P) if s.slow else make_bags(s, k, list(y), P, R))]

    def run(f):
        q = s.make()
        q.fit(f(F), y)
        ob.op(1 + len(bags))
        return [call(q.predict, f(b)) for b in bags]
    want = run(lambda F: F.copy())
    ob.state([w[1] if w[0] != 'exc' else type(w[1]).__name__ for w in want])
    for what, (f, fams) in CHANGES.items():
        if selected(s.name, fams, what):
            compare(ob, run(f), want, TOL[s.loss], '%s, training labels %s features %s, features %s' % (
                s.name, y.tolist(), F.tolist(), what), bags)


# --- scores
def shrink(P):
    return P / 2 + 1 / (2 * P.shape[1])


def in_bin(j):
    def f(P):
        b = np.minimum(np.floor(P * 4), 3) / 4
        return np.where(P == 1, 1 - j / 16, b + j / 16)
    return f


RANK = {'square': lambda P: P ** 2, 'root': lambda P: (P + 2) ** .5 / 4, 'shrunk': shrink,
        'each column its own': lambda P: np.column_stack([P[:, c] ** (c + 1) for c in range(P.shape[1])])}
AFFINE = {'shrunk': shrink, 'halved': lambda P: P / 2}
BINS = {'moved %d/16 in their bins' % j: in_bin(j) for j in (1, 2, 3)}
SCORES = {'CvMy': RANK, 'EDy': AFFINE, 'EDy-euclidean': AFFINE, 'QUANTy': AFFINE, 'QUANTy-l1': AFFINE, 'QUANTy-l2': AFFINE,
          'QUANTy-3': AFFINE, 'QUANTy-1': AFFINE, 'SORDy': AFFINE, 'PAC-L1': {'shrunk': shrink}, 'PAC-L2': {'shrunk': shrink}}
for _d in ('L1', 'L2', 'HD'):
    for _f in ('PDF', 'CDF'):
        SCORES['DFy-%s-%s' % (_f, _d)] = BINS
for _d in sorted(zoo.FUNCS):
    SCORES['DFy-' + _d] = BINS
for _n in (1, 2, 5):
    SCORES['DFy-equal_count-%d' % _n] = AFFINE


def y_cases(tier):
    for k in K:
        for name in SCORES:
            if name in zoo.BY_NAME:
                s = zoo.BY_NAME[name]
                if s.kmin <= k <= s.kmax:
                    for c in pick(s, k, tier == 'quick'):
                        yield (s.name,) + c


def y_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    k, y, P, R = problem(case[1:])
    y = np.array(y)
    bags = make_bags(s, k, list(y), P, R)

    def run(f):
        q = s.make()
        q.fit(np.zeros((len(y), 1)), y, predictions_train=f(P))
        ob.op(1 + len(bags))
        return [call(q.predict, None, predictions_test=f(b)) for b in bags]
    want = run(lambda P: P.copy())
    ob.state([w[1] if w[0] != 'exc' else type(w[1]).__name__ for w in want])
    for what, f in SCORES[s.name].items():
        compare(ob, run(f), want, TOL[s.loss], '%s, training labels %s predictions %s, predictions %s' % (
            s.name, y.tolist(), P.tolist(), what), bags)


FAMILIES = [
    Family('features', x_cases, x_check, 'methods that use the features x problems of 2-4 classes x changes of the features'),
    Family('scores', y_cases, y_check, 'methods that use scores x problems of 2-4 classes x changes of the scores'),
]
