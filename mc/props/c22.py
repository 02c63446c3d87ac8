"""C22 quantifiers by decomposition: one versus rest and Frank & Hall."""
import itertools

import numpy as np
from sklearn.multiclass import OneVsRestClassifier
from quantificationlib.base import WithoutClassifiers
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier
from quantificationlib.multiclass.df import DFX, HDy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import EDX, EDy

from mc import domains as D, large
from mc.core import CheckFailed, Family, call
from mc.stubs import Echo, Through, ThroughX

ASSUMPTIONS = ['problems with at least three classes', 'the base quantifiers are checked by their own properties']


class Decided(WithoutClassifiers):
    """base quantifier that recognises its binary problem by the labels and answers what the harness decided"""

    def __init__(self, answers=None):
        super().__init__()
        self.answers = answers
        self.learned_ = {}        # nested, as the objects that many models contain: the copies must not share it

    def fit(self, X, y):
        key = ''.join(str(int(v)) for v in y)
        if key not in self.answers:
            raise CheckFailed('a base quantifier is fitted with labels %s, expected one of %s' % (key, sorted(self.answers)))
        self.learned_['key'] = key
        return self

    def predict(self, X):
        v = self.answers[self.learned_['key']][int(np.asarray(X)[0, 0])]
        return np.array([1 - v, v])


def ovr(v):
    s = sum(v)
    return [a / s for a in v] if s > 0 else [1 / len(v)] * len(v)


def fh(v):
    up = [max(v[:i + 1]) for i in range(len(v))]
    lo = [min(v[i:]) for i in range(len(v))]
    a = [(x + y) / 2 for x, y in zip(up, lo)]
    return [a[0]] + [a[i] - a[i - 1] for i in range(1, len(a))] + [1 - a[-1]]


def problems(m, k, y):
    """binary labels of each base quantifier"""
    if m == 'ovr':
        return [tuple(int(c == i) for c in y) for i in range(k)]
    return [tuple(int(c <= i) for c in y) for i in range(k - 1)]


MAKE = {'ovr': lambda q, **k: OneVsRestQuantifier(q, **k), 'fh': lambda q, **k: FrankAndHallQuantifier(q, **k)}
COMBINE = {'ovr': ovr, 'fh': fh}
Y = {3: [(0, 1, 2), (2, 1, 0, 0)], 4: [(0, 1, 2, 3), (3, 1, 2, 0, 2)], 5: [(4, 0, 3, 1, 2)]}


def rule_cases(tier):
    q = tier == 'quick'
    ds = {('ovr', 3): 8, ('ovr', 4): 4, ('ovr', 5): 3, ('fh', 3): 10, ('fh', 4): 6, ('fh', 5): 4}
    if not q:
        ds = {('ovr', 3): 20, ('ovr', 4): 8, ('ovr', 5): 5, ('fh', 3): 40, ('fh', 4): 16, ('fh', 5): 8}
    for (m, k), d in ds.items():
        for yi in range(len(Y[k])):
            for base in ('decided', 'pcc'):
                if base == 'pcc' and yi:
                    continue
                tot = (d + 1) ** (k if m == 'ovr' else k - 1)
                for lo in range(0, tot, 100):
                    yield (m, k, d, yi, base, lo, min(tot, lo + 100))


def rule_check(case, ob):
    m, k, d, yi, base, lo, hi = case
    y = Y[k][yi]
    n = len(y)
    labels = D.LABELS[k][(yi + d) % len(D.LABELS[k])]
    nm = k if m == 'ovr' else k - 1
    vecs = list(itertools.islice(itertools.product(range(d + 1), repeat=nm), lo, hi))
    vecs = [tuple(v / d for v in t) for t in vecs]
    yl = np.array(labels)[list(y)]
    X = np.arange(n, dtype=float).reshape(-1, 1)
    if base == 'decided':
        answers = {''.join(map(str, b)): [v[i] for v in vecs] for i, b in enumerate(problems(m, k, y))}
        base_quantifier = Decided(answers)
        q = MAKE[m](base_quantifier)
        q.fit(X, yl)
        ob.expect(not base_quantifier.learned_, 'the quantifier given was fitted')
    else:
        q = MAKE[m](PCC())
        q.fit(X, yl, predictions_train=np.full((n, nm), 0.5))
    ob.op()
    ob.expect([str(c) for c in q.classes_] == [str(c) for c in labels], 'classes_ %s', q.classes_)
    for i, v in enumerate(vecs):
        if base == 'decided':
            p = q.predict(np.array([[float(i)]]))
        else:
            e = [min(a, 1 - a) / 2 for a in v]     # two examples whose average is v
            p = q.predict(None, predictions_test=np.array([[a + b for a, b in zip(v, e)], [a - b for a, b in zip(v, e)]]))
        ob.op()
        ob.state(p)
        what = '%s of binary prevalences %s' % (m, v)
        ob.distribution(p, k, what, 1e-9)
        ob.close(p, COMBINE[m](v), 1e-9, what)


# --- real base quantifiers
BASES = {'CC': lambda: CC(), 'PCC': lambda: PCC(), 'AC': lambda: AC(), 'PAC': lambda: PAC(), 'EM': lambda: EM(),
         'EDy': lambda: EDy(), 'HDy': lambda: HDy(n_bins=4), 'EDX': lambda: EDX(), 'DFX': lambda: DFX(n_bins=4, distance='L2'),
         'nested-PAC': lambda: Through(PAC()), 'nested-EDX': lambda: ThroughX(EDX())}
PTS = [(0.0, 1.0), (1.5, 0.0), (2.0, 4.0), (5.0, 1.0), (6.5, 2.0), (9.0, 9.0), (3.0, 3.0)]
NEW = [[(0.5, 0.5), (4.0, 2.0), (8.0, 8.0)], [(2.5, 7.0)], [(0.0, 1.0), (6.0, 2.0), (1.0, 0.2), (5.0, 5.0)]]


def data_cases(tier):
    q = tier == 'quick'
    for m in ('ovr', 'fh'):
        for b in BASES:
            for k, n in ((3, 5), (4, 6), (5, 6)):
                for y in D.thin(D.surjections(n, k), 4 if q and b in ('HDy',) else 14 if q else 120):
                    ways = ('features',) if b in ('EDX', 'DFX', 'nested-EDX') else ('estimators', 'predictions', 'mixed')
                    for w in ways:
                        yield (m, b, k, y, w)


def data_check(case, ob):
    m, b, k, y, way = case
    n = len(y)
    labels = D.LABELS[k][sum(y) % len(D.LABELS[k])]
    yl = np.array(labels)[list(y)]
    X = np.array(PTS[:n])
    bins = [np.array(t) for t in problems(m, k, y)]
    base = BASES[b]()
    if way == 'features':
        q = MAKE[m](base)
        q.fit(X, yl)
        refs_ = [BASES[b]().fit(X, t) for t in bins]
        for B in NEW:
            B = np.array(B)
            judge(ob, q.predict(B), [r.predict(B)[1] for r in refs_], m, k, case)
        return
    models = [Echo().fit(X, t) for t in bins]
    ptr = np.array([e.predict_proba(X)[:, 1] for e in models]).T
    wrap = OneVsRestClassifier if m == 'ovr' else FrankAndHallClassifier
    if way == 'estimators':
        est = wrap(Echo())
        q = MAKE[m](base, estimator_train=est, estimator_test=est)
        q.fit(X, yl)
    elif way == 'predictions':
        q = MAKE[m](base)
        q.fit(None if b != 'AC' else X, yl, predictions_train=ptr)
    else:
        q = MAKE[m](base, estimator_test=wrap(Echo()))
        q.fit(X, yl, predictions_train=ptr)
    ob.op()
    refs_ = []
    for i, t in enumerate(bins):
        r = BASES[b]()
        r.fit(None, t, predictions_train=np.array([1 - ptr[:, i], ptr[:, i]]).T)
        refs_.append(r)
    for B in NEW:
        B = np.array(B)
        pts = [e.predict_proba(B) for e in models]
        p = q.predict(B) if way != 'predictions' else q.predict(None, predictions_test=np.array([t[:, 1] for t in pts]).T)
        want = [r.predict(None, predictions_test=np.array([1 - t[:, 1], t[:, 1]]).T)[1] for r, t in zip(refs_, pts)]
        judge(ob, p, want, m, k, case)


def judge(ob, p, v, m, k, case):
    ob.op()
    ob.state(p)
    ob.distribution(p, k, str(case), 1e-6)
    v = [min(max(float(a), 0.0), 1.0) for a in v]
    if m == 'ovr' and sum(v) < 1e-5:
        return      # the normalisation amplifies the error of the solvers
    tol = 2e-4 if case[1] == 'HDy' else 1e-6
    ob.close(p, COMBINE[m](v), tol / min(1, max(sum(v), 1e-3)), '%s of %s' % (case, np.round(v, 5).tolist()))


def refuse_cases(tier):
    for m in ('ovr', 'fh'):
        for i in range(4):
            yield (m, i)


def refuse_check(case, ob):
    m, i = case
    X, y = np.array(PTS[:4]), np.array([0, 1, 2, 0])
    wrong = [dict(estimator_train=Echo()), dict(estimator_test=Echo()), dict(estimator_train=Echo(), estimator_test=Echo())]
    if i < 3:
        st, r = call(MAKE[m](AC(), **wrong[i]).fit, X, y)
    else:
        st, r = call(MAKE[m](Echo()).fit, X, y)
    ob.op()
    ob.state(st)
    ob.expect(st == 'exc' and isinstance(r, ValueError), 'accepted: %r', r)


# --- many classes and examples
def large_cases(tier):
    for m in ('ovr', 'fh'):
        for b in ('CC', 'PCC', 'AC', 'PAC', 'EM', 'EDy', 'EDX', 'DFX'):
            for k in (3, 7, 12):
                for n in (60, 300):
                    for way in ('features',) if b in ('EDX', 'DFX') else ('predictions', 'estimators'):
                        for seed in range(1 if tier == 'quick' else 6):
                            yield (m, b, k, n, way, seed)


def large_check(case, ob):
    m, b, k, n, way, seed = case
    labels = np.array(large.labels(k, (seed + k + n // 60) % 4))
    y, X = large.features(k, n, 3, seed)
    X = X + 0.11
    yl = labels[y]
    bins = [np.array(t) for t in problems(m, k, y.tolist())]
    models = [Echo().fit(X, t) for t in bins]
    if way == 'estimators':
        est = (OneVsRestClassifier if m == 'ovr' else FrankAndHallClassifier)(Echo())
        q = MAKE[m](BASES[b](), estimator_train=est, estimator_test=est)
    else:
        q = MAKE[m](BASES[b]())
    ptr = np.array([e.predict_proba(X)[:, 1] for e in models]).T
    q.fit(X, yl, **(dict(predictions_train=ptr) if way == 'predictions' else {}))
    ob.op()
    rs = []
    for i, t in enumerate(bins):
        r = BASES[b]()
        if way == 'features':
            r.fit(X, t)
        else:
            r.fit(None, t, predictions_train=np.array([1 - ptr[:, i], ptr[:, i]]).T)
        rs.append(r)
    for nt in (1, 30, 200):
        B = large.feature_bag(k, nt, 3, seed) + 0.17
        if way == 'features':
            p, want = q.predict(B), [r.predict(B)[1] for r in rs]
        else:
            pts = [e.predict_proba(B) for e in models]
            p = q.predict(B) if way == 'estimators' else q.predict(None, predictions_test=np.array([t[:, 1] for t in pts]).T)
            want = [r.predict(None, predictions_test=t)[1] for r, t in zip(rs, pts)]
        judge(ob, p, want, m, k, case)


FAMILIES = [
    Family('rules', rule_cases, rule_check, '3-5 classes, every vector of binary prevalences on a grid'),
    Family('base_quantifiers', data_cases, data_check, 'eleven base quantifiers, three ways of providing predictions'),
    Family('refusals', refuse_cases, refuse_check, 'estimators or quantifiers of other types'),
    Family('large', large_cases, large_check, '3-12 classes, 60-300 examples, bags of 1-200')]
