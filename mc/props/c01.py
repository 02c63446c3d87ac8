"""C01 every quantifier answers with a valid distribution or refuses as documented."""
import itertools

import numpy as np
from quantificationlib.bag_generator import PriorShift_BagGenerator
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.multiclass.df import DFX, DFy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.ordinal.pdf import PDFOrdinaly

from mc import domains as D, large, zoo
from mc.core import Family, call

ASSUMPTIONS = ['entries and sums are checked up to 1e-5 (solvers) or 1e-9 (formulas)',
               'a search may refuse with ValueError when all the prevalences are equally good (decided in C08, C12, C15)']
NAMES = [s.name for s in zoo.SPECS]
FLAT = (ValueError,)


def small(k, q):
    """problems with k classes, simplest first"""
    if k == 2:
        return zoo.problems(2, 2, 2) + zoo.problems(2, 2, 3, 40 if q else None) + zoo.problems(2, 4, 4, 15 if q else 120)
    if k == 3:
        return zoo.problems(3, 2, 3, 25 if q else 250) + zoo.problems(3, 2, 4, 15 if q else 150) + \
            zoo.problems(3, 3, 5, 10 if q else 100)
    if k == 4:
        return zoo.problems(4, 2, 4, 8 if q else 80) + zoo.problems(4, 3, 5, 6 if q else 60)
    return zoo.problems(5, 1, 5, 6 if q else 60)


def bags(k, d, slow):
    R = len(D.simplex(k, d))
    b = [(i,) for i in range(R)] + D.multisets(range(R), 2) + [tuple(range(R)), (0, 0, 0, R - 1), (R // 2,) * 4]
    return D.thin(b, 4 if slow else 14)


def cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4, 5):
        for name in NAMES:
            s = zoo.BY_NAME[name]
            if s.kmin <= k <= s.kmax:
                p = small(k, q)
                if s.name.endswith('glm') or s.name.startswith('EoQ') or s.slow:
                    p = D.thin(p, 40 if q else 250)
                for c in p:
                    yield (name,) + c


def check(case, ob):
    name, k, d, y, r = case
    s = zoo.BY_NAME[name]
    R = zoo.rows(k, d)
    labels = D.LABELS[k][(len(y) + r[0]) % len(D.LABELS[k])]
    q = s.make()
    s.fit(q, labels, y, R[list(r)])
    ob.op()
    for b in bags(k, d, s.slow):
        judge(ob, s, q, k, labels, R[list(b)], '%s, training labels %s rows %s, bag %s' % (name, y, r, b))


def judge(ob, s, q, k, labels, P, what):
    res, p = call(s.predict, q, labels, P)
    ob.op()
    if res == 'exc':
        ob.expect(isinstance(p, s.refuse) and (s.loss == 'search' or k > 2), '%s: %r', what, p)
        ob.state('refused')
        return
    ob.state(p)
    ob.distribution(p, k, what, 1e-9 if s.loss in ('closed', 'search', 'reg') else 1e-5)


# --- features of any scale, constant features, values of the bag outside the training range
SCALES = [(1e6, -5e5), (1e-6, 3.0), (0.0, 7.0), (-3.0, 1.0), (1e9, 0.1), (0.0, 1e8 / 3), (1e-12, 0.0)]


def scale_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        if s.kind == 'x':
            for k in (2, 3):
                if s.kmin <= k <= s.kmax:
                    for c in D.thin(small(k, q), 8 if q else 60):
                        for i in range(len(SCALES)):
                            yield (s.name, i) + c


def scale_check(case, ob):
    name, i, k, d, y, r = case
    a, b = SCALES[i]
    s = zoo.BY_NAME[name]
    X = a * zoo.feats(zoo.rows(k, d)) + b
    labels = np.array(D.LABELS[k][len(y) % len(D.LABELS[k])])
    q = s.make()
    q.fit(X[list(r)], labels[list(y)])
    ob.op()
    for bag in (X[[0]], X[list(r)], np.vstack([X.max(axis=0) + abs(a) + 1, X.min(axis=0) - abs(a) - 1]), X[[-1, -1, 0]] * 2):
        res, p = call(q.predict, bag)
        ob.op()
        what = '%s, features %s x + %s, training labels %s rows %s, bag %s' % (name, a, b, y, r, bag.tolist())
        if res == 'exc':
            ob.expect(isinstance(p, s.refuse) and (s.loss == 'search' or k > 2), '%s: %r', what, p)
            continue
        ob.state(p)
        ob.distribution(p, k, what, 1e-5)


# --- extreme probabilities and larger bags
EXTREME = [0.0, 1e-300, 1e-12, 0.5, 1 - 1e-12, 1.0]


def extreme_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        if s.kind == 'prob' and s.kmin <= 2:
            for r in D.thin(itertools.product(range(len(EXTREME)), repeat=3), 12 if q else 216):
                for y in ((0, 1, 1), (1, 0, 0)):
                    yield (s.name, y, r)


def extreme_check(case, ob):
    name, y, r = case
    s = zoo.BY_NAME[name]
    P = np.array([[1 - v, v] for v in EXTREME])
    labels = (1, 2)
    q = s.make()
    s.fit(q, labels, y, P[list(r)])
    ob.op()
    for b in ((0,), (5,), (1, 4), (2, 2, 3), tuple(range(6)), tuple(range(6)) * 40):
        judge(ob, s, q, 2, labels, P[list(b)], '%s, training labels %s probabilities %s, bag %s' % (
            name, y, [EXTREME[i] for i in r], b))


# --- many classes and examples; bags at the edge of the mixtures of the classes
def large_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 6, 9):
        for n in (60, 400):
            for s in zoo.SPECS:
                if s.kmin <= k <= s.kmax:
                    for seed in range(1 if q else 5):
                        yield (s.name, k, n, seed)


def large_check(case, ob):
    name, k, n, seed = case
    s = zoo.BY_NAME[name]
    y, P = large.problem(k, n, seed)
    labels = large.labels(k, (seed + k) % 4)
    q = s.make()
    s.fit(q, labels, y, P)
    ob.op()
    for m in (1, 300):
        judge(ob, s, q, k, labels, large.bag(k, m, seed), '%s, %s, bag of %d' % (name, case[1:], m))
    for c in range(k if k < 6 and not s.slow else 2):
        for r, odd in ((1, 0), (1, 1), (20, 1)):
            B = np.vstack([np.tile(P[y == c], (r, 1)), np.eye(k)[[(c + 1 + seed) % k] * odd]])
            judge(ob, s, q, k, labels, B, '%s, %s, class %d %d times and %d certain examples of the next class' % (
                name, case[1:], c, r, odd))


def edge_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        if s.kind != 'x':
            for k in (2, 3):
                if s.kmin <= k <= s.kmax:
                    for n in (10, 200):
                        for e in (1, 3):
                            for side in (0, 1):
                                yield (s.name, k, n, e, side)


def edge_check(case, ob):
    """classifier almost perfect: n examples of each class, e errors; bags with slightly less errors than expected"""
    name, k, n, e, side = case
    s = zoo.BY_NAME[name]
    I = np.eye(k)
    y = [c for c in range(k) for _ in range(n)]
    P = np.array([I[(c + 1 + side) % k] if i < e and c == 0 else I[c] for c in range(k) for i in range(n)])
    labels = D.LABELS[k][1]
    q = s.make()
    s.fit(q, labels, y, P)
    ob.op()
    slow = s.slow or s.name.startswith('EoQ')
    for m in (n - e, 10 * n) if slow else (n - e - 1, n - e, n - e + 1, 10 * n, 10 * (n - e) + 1):
        for a in (e - 1, 10 * e + 1) if slow else (0, e - 1, e, 10 * e - 1, 10 * e, 10 * e + 1):
            for b in (0, 1):
                B = I[[0] * m + [(1 + side) % k] * a + [k - 1] * b]
                judge(ob, s, q, k, labels, B, '%s, %s, bag with %d, %d and %d of each class' % (name, case[1:], m, a, b))


# --- documented refusals
def refusal_cases(tier):
    for k in (3, 4, 5):
        for what in ('SORDy', 'QUANTy', 'DeBias'):
            yield (what, k)
        for c in ('DFy', 'DFX', 'FriedmanME'):
            for f in sorted(zoo.FUNCS):
                yield (c + '-' + f, k)
        yield ('binormal-DFy', k)
        yield ('binormal-DFX', k)
    for m in ('full_probabilistic', 'winner_node'):
        for d in ('HD', 'L2', 'EMD'):
            yield ('PDFOrdinaly-%s-%s' % (m, d), 2)
    yield ('strategy', 2)
    yield ('strategy', 3)


def refusal_check(case, ob):
    what, k = case
    R = zoo.rows(k, 3)
    y = np.arange(2 * k) % k
    P = R[np.arange(2 * k) % len(R)]
    X = zoo.feats(P)
    names = what.split('-')
    ctor = dict(SORDy=SORDy, QUANTy=QUANTy, DeBias=DeBias, DFy=DFy, DFX=DFX, FriedmanME=FriedmanME, PDFOrdinaly=PDFOrdinaly)
    if names[0] in ('SORDy', 'QUANTy', 'DeBias'):
        qs, exc = [ctor[names[0]]()], (TypeError, AttributeError)
    elif names[0] == 'PDFOrdinaly':
        qs, exc = [PDFOrdinaly(method=names[1], distance=names[2])], (TypeError,)
    elif names[0] == 'binormal':
        qs, exc = [ctor[names[1]](bin_strategy='binormal')], (ValueError,)
    elif names[0] == 'strategy':
        qs, exc = [DFy(bin_strategy='other'), DFX(bin_strategy='other')], (ValueError,)
    else:
        qs, exc = [ctor[names[0]](distance=zoo.FUNCS[names[1]])], (ValueError,)
    for q in qs:
        def use():
            if isinstance(q, DFX):
                return q.fit(X, y).predict(X[:3])
            return q.fit(X, y, predictions_train=P).predict(None, predictions_test=P[:3])
        res, e = call(use)
        ob.op()
        ob.state(res)
        ob.expect(res == 'exc' and isinstance(e, exc), '%s with %d classes should be refused: %s %r', what, k, res, e)


FAMILIES = [Family('small', cases, check, 'every quantifier and configuration (%d) x problems of 2-5 classes with 2-5 training '
                   'examples on a grid of probabilities x bags of 1-15 examples' % len(NAMES)),
            Family('features', scale_cases, scale_check, 'quantifiers over features x problems x huge, tiny, constant and '
                   'negative scales, bags outside the training range'),
            Family('extreme', extreme_cases, extreme_check, 'binary problems with all the probabilities of %s' % EXTREME),
            Family('large', large_cases, large_check, 'every quantifier and configuration x 2-9 classes, 60-400 examples, bags of 1-300 '
                   'and bags of the examples of one class'),
            Family('edge', edge_cases, edge_check, 'an almost perfect classifier and bags with slightly more or less errors than in '
                   'the training set'),
            Family('refusals', refusal_cases, refusal_check, 'all the documented refusals')]
