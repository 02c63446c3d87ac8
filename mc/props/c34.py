"""C34 the representation of the data and the verbosity do not influence the answers."""
import contextlib
import io

import numpy as np
import scipy.sparse
from quantificationlib.bag_generator import (CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from sklearn.model_selection import StratifiedKFold
from sklearn.multiclass import OneVsRestClassifier

from mc import domains as D, zoo
from mc.core import Family, call
from mc.props.c03 import TOL, THINGS, make_bags, problem, problems_of
from mc.stubs import Echo

ASSUMPTIONS = ['numbers are exactly representable in simple precision, so both precisions hold the same data; the averages '
               'computed in simple precision are compared with that precision',
               'sparse features are only used where the documentation accepts them (classifiers decide what they support)']


def strided(a):
    b = np.repeat(a, 2, axis=0)
    b[1::2] = b[1::2][::-1].copy()     # the hidden values are others
    return b[::2]


def inner(a):
    """columns of a wider array"""
    if a.ndim == 1:
        return np.stack([a, a[::-1]], axis=1)[:, 0]
    return np.concatenate([a[:, ::-1], a, a[:, ::-1]], axis=1)[:, a.shape[1]:2 * a.shape[1]]


FLOATS = {'F': np.asfortranarray, 'strided': strided, 'reversed': lambda a: a[::-1].copy()[::-1], 'inner': inner,
          'f32': lambda a: a.astype(np.float32), 'big': lambda a: a.astype('>f8')}
LABELS = {'strided': strided, 'reversed': FLOATS['reversed'], 'inner': inner, 'i8': lambda a: a.astype(np.int8),
          'u8': lambda a: a.astype(np.uint8), 'i32': lambda a: a.astype(np.int32), 'u64': lambda a: a.astype(np.uint64)}
STRS = {'strided': strided, 'reversed': FLOATS['reversed'], 'inner': inner, 'wide': lambda a: a.astype('<U20'),
        'object': lambda a: a.astype(object)}
NAMES = {2: np.array(['a', 'bc']), 3: np.array(['a', 'bc', 'd']), 4: np.array(['a', 'bc', 'd', 'efg'])}
NUMS = {2: np.array([0, 1]), 3: np.array([0, 1, 2]), 4: np.array([1, 2, 5, 7])}


def as_f(fmt, a):
    return FLOATS[fmt](a) if a.dtype.kind == 'f' else a


def as_l(fmt, a):
    if a is None or a.dtype.kind == 'f':
        return a
    return (STRS if a.dtype.kind == 'U' else LABELS)[fmt](a)


def same(ob, got, want, tol, what):
    if got[0] == 'exc' or want[0] == 'exc':
        a, b = [type(r[1]).__name__ if r[0] == 'exc' else 'an answer' for r in (got, want)]
        ob.expect(a == b, '%s: %s, expected %s: %r', what, a, b, got[1] if got[0] == 'exc' else want[1])
        return
    ob.close(np.asarray(got[1], float), np.asarray(want[1], float), tol, what)


def ask(s, q, t):
    return call(q.predict, t) if s.kind == 'x' else call(q.predict, None, predictions_test=t)


# --- predictions, features and labels given as arrays
def arr_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        for s in zoo.SPECS:
            if s.kmin <= k <= s.kmax:
                P = problems_of(s, k, q)
                P = P[:: max(1, len(P) // ((2 if s.slow else 4) if q else (8 if s.slow else 40)))]
                for c in P:
                    yield (s.name, 'f') + c
                    yield (s.name, 'l') + c
                    yield (s.name, 's') + c


def arr_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    mode = case[1]
    k, y, P, R = problem(case[2:])
    labels = (NAMES if mode == 's' else NUMS)[k]
    data = s.train(labels, y, P)
    bags = make_bags(s, k, y, P, R)
    if mode != 'f':
        bags = bags[-1:]
    tests = [zoo.feats(b) if s.kind == 'x' else s.preds(labels, b) for b in bags]
    ref = s.make()
    ref.fit(**{n: a.copy() for n, a in data.items()})
    want = [ask(s, ref, t.copy()) for t in tests]
    ob.op(1 + len(tests))
    ob.state([w[1] if w[0] != 'exc' else type(w[1]).__name__ for w in want])
    what = '%s, training labels %s rows %s' % (s.name, list(y), P.tolist())
    if mode == 'f':
        for f in FLOATS:
            if f == 'f32' and 'normal' in s.name:   # the cut points are averages
                continue
            tol = max(TOL[s.loss], 2e-6) if f == 'f32' else TOL[s.loss]
            for train, test in ((1, 1), (1, 0), (0, 1)):
                if s.slow and train != test:
                    continue
                q = s.make()
                q.fit(**{n: as_f(f, a) if train else a for n, a in data.items()})
                ob.op()
                for t, w in zip(tests, want):
                    r = ask(s, q, as_f(f, t) if test else t)
                    # no class has positive prevalence: a rounding error is any other distribution
                    if f == 'f32' and s.name.startswith('OVR') and w[0] == 'ok' and np.ptp(w[1]) < 1e-9:
                        continue
                    same(ob, r, w, tol, '%s, bag %s, as %s (training %d, bag %d)' % (
                        what, t.tolist(), f, train, test))
                    ob.op()
        return
    for f in (STRS if mode == 's' else LABELS):
        for pred in (0, 1):
            q = s.make()
            d = dict(data, y=as_l(f, data['y']))
            if pred:
                if s.kind != 'crisp':
                    continue
                d['predictions_train'] = as_l(f, data['predictions_train'])
            q.fit(**d)
            ob.op()
            for t, w in zip(tests, want):
                same(ob, ask(s, q, as_l(f, t) if pred else t), w, TOL[s.loss], '%s, bag %s, labels as %s%s' % (
                    what, t.tolist(), f, ' (predictions too)' * pred))
                ob.op()


# --- predictions without doubts given as integers
def int_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        if s.kind == 'prob':
            for k in (2, 3):
                if s.kmin <= k <= s.kmax:
                    n = k + 2
                    for i in range(6 if q else 60):
                        yield (s.name, k, tuple(range(k)) + (i % k, (i // k) % k), tuple((i * c + c * c + c) % k for c in range(n)))


def int_check(case, ob):
    name, k, y, r = case
    s = zoo.BY_NAME[name]
    E = np.eye(k)
    # enough right predictions for the problem to have only one solution
    y = list(y) + list(range(k)) * 3
    P = E[list(r) + list(range(k)) * 3]
    tests = [E[[0, 1, k - 1, k - 1]], E[[0, 1, 1]], E[[0] * 3 + [k - 1] * 2]]
    data = s.train(NUMS[k], y, P)
    res = []
    for kind in (float, int, np.uint8):
        q = s.make()
        d = dict(data, predictions_train=data['predictions_train'].astype(kind))
        st, e = call(q.fit, **d)
        res.append([(st, e) if st == 'exc' else ask(s, q, t.astype(kind)) for t in tests])
        ob.op(1 + len(tests))
    for i, t in enumerate(tests):
        w = res[0][i]
        ob.state(w[1] if w[0] != 'exc' else 'exc')
        for kind, g in zip(('int', 'uint8'), res[1:]):
            same(ob, g[i], w, TOL[s.loss], '%s, training labels %s predictions %s, bag %s as %s' % (
                name, y, P.argmax(1).tolist(), t.argmax(1).tolist(), kind))


# --- through classifiers
class DenseEcho(Echo):
    """accepts sparse matrices, as most classifiers of scikit-learn"""

    @staticmethod
    def _d(X):
        return X.toarray() if scipy.sparse.issparse(X) else X

    def fit(self, X, y):
        return super().fit(self._d(X), y)

    def predict_proba(self, X):
        return super().predict_proba(self._d(X))


class Keeper(DenseEcho):
    """keeps its answers, so nobody may write on them: the same array is given for the same examples"""

    def predict_proba(self, X):
        P = super().predict_proba(X)
        P.flags.writeable = False
        return P

    def predict(self, X):
        P = super().predict(X)
        P.flags.writeable = False
        return P


SPARSE = {'csr': scipy.sparse.csr_matrix, 'csc': scipy.sparse.csc_matrix, 'coo': lambda a: scipy.sparse.csr_matrix(
    scipy.sparse.coo_matrix(a))}
DATA = {2: ([0., 1, 2, 5, 7, 9], [0, 0, 1, 0, 1, 1]), 3: ([0., 1, 2, 4, 5, 7, 9, 10], [0, 1, 0, 1, 2, 1, 2, 2])}
DENSE_ONLY = ('e:cv', 'e:cvr', 'e:pwk', 'e:tree', 'g:prior', 'g:cov', 'g:both')


def thing_cases(tier):
    for n, s in THINGS.items():
        for k in (2, 3):
            if s is None and not (k == 2 and n in ('e:fh', 'e:fhm', 'e:fht', 'e:ddag', 'e:ddagw', 'e:tree')) or \
                    s is not None and s.kmin <= k <= s.kmax:
                for f in list(FLOATS) + ['int', 'kept'] + (list(SPARSE) if n not in DENSE_ONLY else []):
                    yield (n, k, f)


def results(n, k, X, y, T, DenseEcho=DenseEcho):
    """list of outcomes of the thing n"""
    if n[0] == 'q':
        s = THINGS[n]
        q = s.make()
        w = OneVsRestClassifier if s.name.startswith('OVR') else None
        e = [w(DenseEcho()), w(DenseEcho(power=2))] if w else [DenseEcho(), DenseEcho(power=2)]
        if s.name.startswith('FH'):
            e = [FrankAndHallClassifier(DenseEcho()), FrankAndHallMonotoneClassifier(DenseEcho(power=2))]
        q.set_params(estimator_test=e[1])
        if 'estimator_train' in q.get_params(deep=False):
            q.set_params(estimator_train=e[0])
        q.fit(X, y)
        return [call(q.predict, T), call(q.predict, X)]
    if n[0] == 'g':
        g = dict(prior=PriorShift_BagGenerator(n_bags=5, bag_size=4, random_state=1),
                 cov=CovariateShift_BagGenerator(n_bags=5, bag_size=4, random_state=1),
                 both=PriorAndCovariateShift_BagGenerator(n_bags=6, bag_size=4, random_state=1))[n[2:]]
        prev, idx = g.generate_bags(X, y)
        return [('ok', prev), ('ok', idx)]
    e = dict(fh=lambda: FrankAndHallClassifier(DenseEcho()), fhm=lambda: FrankAndHallMonotoneClassifier(DenseEcho()),
             fht=lambda: FrankAndHallTreeClassifier(DenseEcho()), ddag=lambda: DDAGClassifier(DenseEcho()),
             ddagw=lambda: DDAGClassifier(DenseEcho(), predict_method='winner_node'),
             cv=lambda: CV_estimator(DenseEcho(), cv=StratifiedKFold(2)),
             cvr=lambda: CV_estimator(DenseEcho(), cv=StratifiedKFold(2), averaged_predictions=False),
             pwk=lambda: PWK(n_neighbors=3), ens=lambda: EnsembleOfClassifiers(DenseEcho()),
             tree=lambda: OrdinalQuantificationTree(DenseEcho()))[n[2:]]()
    if n == 'e:ens':
        e.fit(X, y, np.array([[0, 1], [2, 3], [4, 5], [5, 5], [1, 0]]))
    else:
        e.fit(X, y)
    r = []
    for Z in (T, X):
        r.append(call(e.predict, Z))
        if hasattr(e, 'predict_proba'):
            r.append(call(e.predict_proba, Z))
    return r


def table(k):
    x, y = DATA[k]
    X = np.array([[a, (3 * a) % 4, 0.0] for a in x])
    T = np.array([[0.0, 2.0, 0.0], [3.0, 1.0, 1.0], [6.0, 0.0, 0.0]])
    return X, np.array(y), T


def thing_check(case, ob):
    n, k, f = case
    X, y, T = table(k)
    want = results(n, k, X, y, T)
    conv = SPARSE[f] if f in SPARSE else (lambda a: a.astype(int)) if f == 'int' else (lambda a: a) if f == 'kept' else FLOATS[f]
    got = results(n, k, conv(X), y, conv(T), Keeper if f == 'kept' else DenseEcho)
    ob.op(len(want) + len(got))
    ob.expect(len(got) == len(want), 'other results')
    tol = max(2e-6, TOL[THINGS[n].loss] if THINGS[n] else 0) if f == 'f32' else TOL[THINGS[n].loss] if THINGS[n] else 1e-9
    for i, (g, w) in enumerate(zip(got, want)):
        ob.state(w[1] if w[0] != 'exc' else type(w[1]).__name__)
        same(ob, g, w, tol, '%s, features %s labels %s as %s, result %d' % (n, X.tolist(), y.tolist(), f, i))


# --- verbosity
def verb_cases(tier):
    for n, s in THINGS.items():
        for k in (2, 3):
            if s is not None and s.kmin <= k <= s.kmax:
                yield (n, k)
    for s in zoo.SPECS:
        for k in (2, 3):
            if s.kmin <= k <= s.kmax:
                yield ('z:' + s.name, k)


def verb_check(case, ob):
    n, k = case
    s = zoo.BY_NAME[n[2:]]
    X, y, T = table(k)
    res, out = [], []
    for v in (0, 1, 2):
        q = s.make()
        deep = [p for p in q.get_params() if p.split('__')[-1] == 'verbose']
        q.set_params(**{p: v for p in deep})
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            if n[0] == 'z':
                k2, yy, P, R = problem(problems_of(s, k, True)[0]) if problems_of(s, k, True) else problem(
                    ('posed', k, tuple(range(1, k + 1)), (1,) * k))
                s.fit(q, NUMS[k], yy, P)
                r = [call(s.predict, q, NUMS[k], b) for b in make_bags(s, k, yy, P, R)]
            else:
                w = OneVsRestClassifier if s.name.startswith('OVR') else FrankAndHallClassifier if s.name.startswith('FH') else None
                e = [w(DenseEcho()), w(DenseEcho(power=2))] if w else [DenseEcho(), DenseEcho(power=2)]
                q.set_params(estimator_test=e[1])
                if 'estimator_train' in q.get_params(deep=False):
                    q.set_params(estimator_train=e[0])
                q.fit(X, y)
                r = [call(q.predict, T), call(q.predict, X)]
        ob.op(1 + len(r))
        res.append(r)
        out.append(o.getvalue())
    ob.expect(out[0] == '', '%s: prints %r in silent mode', n, out[0][:200])
    for v in (1, 2):
        for i, (a, b) in enumerate(zip(res[v], res[0])):
            ob.state(b[1] if b[0] != 'exc' else type(b[1]).__name__)
            same(ob, a, b, TOL[s.loss], '%s with verbose=%d, %d classes, bag %d' % (n, v, k, i))


FAMILIES = [
    Family('arrays', arr_cases, arr_check, 'every quantifier x problems of 2-4 classes x layouts, precisions and types of labels'),
    Family('integers', int_cases, int_check, 'probabilities 0 and 1 given as integers'),
    Family('features', thing_cases, thing_check, 'quantifiers with classifiers, estimators and generators: layouts, integers '
           'and sparse features'),
    Family('verbose', verb_cases, verb_check, 'every quantifier silent and with the two levels of messages'),
]
