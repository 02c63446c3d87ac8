"""C38 a failure of a component given by the user, at any point, reaches the caller and the operation can be repeated."""
import contextlib
import io

import numpy as np
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.metrics import multiclass as M
from quantificationlib.multiclass.df import DFX, DFy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import CvMy, EDX, EDy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from quantificationlib.ordinal.pdf import PDFOrdinaly
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from quantificationlib.search import global_search, golden_section_search
from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances
from sklearn.multiclass import OneVsRestClassifier

from mc import large
from mc.core import Family
from mc.stubs import Echo, Lin
from mc.zoo import FixedBags

ASSUMPTIONS = ['the operation that failed is repeated at once, with the same data; the caller did not change anything else',
               'a failure of the training inside of OneVsRestClassifier (sklearn) is not repeated: that object is left half fitted']


class Point:
    """counts the calls to the components of the user and makes one of them fail"""
    n, at, exc = 0, (), None

    @classmethod
    def reset(cls, at=(), exc=None):
        cls.n, cls.at, cls.exc = 0, at, exc

    @classmethod
    def hit(cls):
        cls.n += 1
        if cls.n in cls.at:
            raise cls.exc


class E(Echo):
    """fails before or after doing the work of fit (odd and even calls)"""

    def fit(self, X, y):
        Point.hit()
        super().fit(X, y)
        return self

    def predict_proba(self, X):
        r = super().predict_proba(X)
        Point.hit()
        return r

    def predict(self, X):
        r = Echo.predict_proba(self, X)
        Point.hit()
        return self.classes_.take(r.argmax(axis=1))


class P(E):
    """fails only in its predictions: OneVsRestClassifier itself (sklearn) looks fitted after a training that failed"""
    fit = Echo.fit


class L(Lin):
    def fit(self, X, y):
        super().fit(X, y)
        Point.hit()
        return self

    def predict(self, X):
        Point.hit()
        return super().predict(X)


class Bags(FixedBags):
    def generate_bags(self, X, y):
        Point.hit()
        return super().generate_bags(X, y)


def fun(f):
    def g(a, b):
        Point.hit()
        return f(a, b)
    return g


HD, L2, TOP = fun(M.hd), fun(M.l2), fun(M.topsoe)
EUC, MAN = fun(euclidean_distances), fun(manhattan_distances)
ONE = fun(lambda a, b: float(np.abs(a - b).sum()))


def cv(e, **k):
    return CV_estimator(e, cv=2, **k)


ESTS = {'plain': E, 'cv': lambda: cv(E()), 'cv all': lambda: cv(E(), averaged_predictions=False),
        'cv soft': lambda: cv(E(), voting='soft'), 'FH': lambda: FrankAndHallClassifier(E()),
        'FH monotone': lambda: FrankAndHallMonotoneClassifier(E()), 'FH tree': lambda: FrankAndHallTreeClassifier(E()),
        'DDAG': lambda: DDAGClassifier(E()), 'OVR': lambda: OneVsRestClassifier(P()),
        'cv FH': lambda: cv(FrankAndHallClassifier(E()))}


def both(q, **k):
    return lambda e: q(estimator_train=ESTS[e](), estimator_test=ESTS[e](), **k)


def eoq(strategy, base=PAC, **k):
    return lambda e: EoQ(base(), 3, Bags(), combination_strategy=strategy, ensemble_estimator_train=EnsembleOfClassifiers(ESTS[e]()),
                         ensemble_estimator_test=EnsembleOfClassifiers(ESTS[e]()), **k)


ANY = ('plain', 'cv', 'cv all', 'cv soft', 'FH', 'FH monotone', 'FH tree', 'DDAG', 'cv FH')
SOME = ('plain', 'cv', 'FH')
# name: (constructor, classifiers, numbers of classes)
Q = {'CC': (lambda e: CC(estimator_test=ESTS[e]()), ANY, (2, 3)), 'PCC': (lambda e: PCC(estimator_test=ESTS[e]()), ANY, (2, 3)),
     'AC': (both(AC), ANY, (2, 3)), 'PAC': (both(PAC), ANY, (2, 3)), 'EM': (both(EM), ANY, (2, 3)),
     'DFy L2': (both(DFy, distance='L2'), SOME, (2, 3)), 'DFy callable': (both(DFy, distance=TOP), ('plain', 'cv'), (2,)),
     'DFy PDF callable': (both(DFy, distance=HD, distribution_function='CDF'), ('plain',), (2,)),
     'FriedmanME': (both(FriedmanME, distance='L2'), SOME, (2, 3)),
     'FriedmanME callable': (both(FriedmanME, distance=L2), ('plain',), (2,)),
     'EDy': (both(EDy, distance=MAN), SOME, (2, 3)), 'CvMy': (both(CvMy, distance=EUC), ('plain', 'cv'), (2, 3)),
     'REGy': (both(REGy, bag_generator=Bags(), regression_estimator=L(), n_bins=4), ('plain', 'cv'), (2, 3)),
     'DeBias': (both(DeBias), ('plain', 'cv'), (2,)), 'SORDy': (both(SORDy), ('plain', 'cv'), (2,)),
     'QUANTy': (both(QUANTy, distance=ONE), ('plain', 'cv'), (2,)),
     'ACOrdinal': (both(ACOrdinal), ('plain', 'FH', 'DDAG'), (3,)),
     'PDFOrdinaly': (both(PDFOrdinaly, distance='L2'), ('plain', 'DDAG'), (3,)),
     'OVR': (lambda e: OneVsRestQuantifier(PAC(), estimator_train=ESTS[e](), estimator_test=ESTS[e]()), ('OVR',), (3,)),
     'OVR trained': (lambda e: OneVsRestQuantifier(PAC(estimator_train=ESTS[e](), estimator_test=ESTS[e]())), ('plain', 'cv'), (3,)),
     'OVR callable': (lambda e: OneVsRestQuantifier(DFy(distance=TOP), estimator_train=ESTS[e](), estimator_test=ESTS[e]()),
                      ('OVR',), (3,)),
     'FHQ': (lambda e: FrankAndHallQuantifier(PAC(), estimator_train=ESTS[e](), estimator_test=ESTS[e]()), ('FH', 'FH monotone'), (3,)),
     'FHQ trained': (lambda e: FrankAndHallQuantifier(PAC(estimator_train=ESTS[e](), estimator_test=ESTS[e]())), ('plain',), (3,)),
     'EoQ mean': (eoq('mean'), ('plain', 'FH'), (2, 3)), 'EoQ prevalences': (eoq('prevalence_similarity'), ('plain',), (2, 3)),
     'EoQ distributions': (eoq('distribution_similarity'), ('plain',), (2, 3)),
     'EoQ distance': (eoq('distribution_similarity', distance_bags=ONE), ('plain',), (2,)),
     'EoQ EM': (eoq('median', EM), ('plain',), (3,)),
     'EDX': (lambda e: EDX(distance=EUC), ('',), (2, 3)), 'DFX callable': (lambda e: DFX(distance=HD), ('',), (2,)),
     'REGX': (lambda e: REGX(bag_generator=Bags(), regression_estimator=L(), n_bins=4), ('',), (2, 3)),
     'EoQ EDX': (lambda e: EoQ(EDX(distance=EUC), 3, Bags()), ('',), (2, 3)),
     'OVR EDX': (lambda e: OneVsRestQuantifier(EDX(distance=EUC)), ('',), (3,)),
     'tree': (lambda e: OrdinalQuantificationTree(ESTS[e]()), ('plain',), (3, 4))}
EXC = (RuntimeError, ValueError, AttributeError, KeyError, KeyboardInterrupt)
HISTORIES = ((('fit', 0), ('predict', 0), ('predict', 1)), (('fit', 1), ('predict', 0), ('fit', 0), ('predict', 1)))


def data(k, i):
    g = large.Gen(11 * k + i)
    y = g.shuffle([c for c in range(k) for _ in range(4 + i)])
    pts = lambda c: [c + g(16) / 8, g(8) / 4]
    return np.array([pts(c) for c in y]), np.array(y), [np.array([pts(g(k)) for _ in range(n)]) for n in (5, 8)]


def play(make, e, k, hist, at, exc, ob):
    """answers of the history; the operation that fails is repeated"""
    q = make(e)
    D = [data(k, 0), data(k, 1)]
    cur, res, failed = None, [], []
    Point.reset(at, exc)
    for op, i in hist:
        for attempt in range(len(at) + 1):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if op == 'fit':
                        out = q.fit(D[i][0], D[i][1])
                        if out is not q:
                            res.append('fit returns %s' % type(out).__name__)
                        cur = i
                    else:
                        res.append(np.asarray(q.predict(D[cur][2][i]), dtype=float))
                ob.op()
                break
            except BaseException as x:
                if x is exc and len(failed) < len(at):
                    failed.append((op, i))
                    continue
                if x is exc or not isinstance(x, Exception):
                    raise
                return ('%s %d: %r' % (op, i, x)), failed, Point.n
    return res, failed, Point.n


def cases(tier):
    q = tier == 'quick'
    for n, (_, es, ks) in Q.items():
        for e in es:
            for k in ks:
                if k == 2 and 'FH' in e:
                    continue
                for h in range(len(HISTORIES)):
                    for x in range(len(EXC)):
                        if not q or (x + h + k) % 2 == 0 or e == 'plain':
                            yield (n, e, k, h, x)


def check(case, ob):
    n, e, k, h, x = case
    make, hist = Q[n][0], HISTORIES[h]
    want, _, total = play(make, e, k, hist, (), None, ob)
    ob.state(total, want)
    points = range(1, total + 1)
    if total > 60:          # searches: the first ones, the last ones and some others
        points = sorted(set(points[:25]) | set(points[-15:]) | set(points[::max(1, total // 25)]))
    for at in points:
        exc = EXC[x]('injected')
        got, failed, _ = play(make, e, k, hist, (at,), exc, ob)
        what = '%s with classifier %s, %d classes, %s: %s in call %d of %d' % (n, e, k, hist, EXC[x].__name__, at, total)
        ob.expect(len(failed) == 1, '%s is hidden', what)
        if isinstance(want, str):       # an error of the quantifier, with or without the failure
            ob.expect(isinstance(got, str) and got == want, '%s (%s), repeated: %s, but without the failure %s', what, failed, got, want)
            continue
        ob.expect(not isinstance(got, str), '%s (%s), repeated: %s', what, failed, got)
        ob.expect(len(got) == len(want), '%s: %s', what, got)
        for a, b in zip(got, want):
            ob.close(a, b, 1e-9, what + ' (%s), repeated' % (failed,))
        ob.trace()


def twice_cases(tier):
    q = tier == 'quick'
    for n, (_, es, ks) in Q.items():
        for e in es[:2] if q else es:
            for k in ks:
                if not (k == 2 and 'FH' in e) and not (q and k == 2 and 3 in ks):
                    for h in range(len(HISTORIES)):
                        yield (n, e, k, h, h if q else 0, 12 if q else 40)


def twice_check(case, ob):
    """the operation that is repeated fails too, at the same call, before it or later; the third attempt ends"""
    n, e, k, h, x, most = case
    make, hist = Q[n][0], HISTORIES[h]
    want, _, total = play(make, e, k, hist, (), None, ob)
    ob.state(total, want)
    points = range(1, total + 1)
    if total > most:
        points = sorted(set(points[:most // 2]) | set(points[-most // 4:]) | set(points[::max(1, 4 * total // most)]))
    for a in points:
        for d in range(1, min(a, most) + 2):
            exc = EXC[x]('injected')
            got, failed, _ = play(make, e, k, hist, (a, a + d), exc, ob)
            what = '%s with classifier %s, %d classes, %s: %s in calls %d and %d' % (n, e, k, hist, EXC[x].__name__, a, a + d)
            if isinstance(want, str):
                ob.expect(isinstance(got, str) and got == want, '%s (%s): %s, but without the failures %s', what, failed, got, want)
                continue
            ob.expect(not isinstance(got, str) and len(got) == len(want), '%s (%s), repeated: %s', what, failed, got)
            for u, v in zip(got, want):
                ob.close(u, v, 1e-9, what + ' (%s), repeated' % (failed,))
            ob.trace()


def search_cases(tier):
    for how in ('global', 'grid given', 'grid made', 'golden'):
        for x in range(len(EXC)):
            for tol in (1e-2, 1e-5):
                for where in (0, 1):
                    for m in (0.0, 0.313, 0.5, 1.0):
                        yield (how, x, tol, where, m)


def search_check(case, ob):
    """the loss or the mixture fails in each of its calls"""
    how, x, tol, where, m = case

    def mixture(prevalence):
        if where:
            Point.hit()
        return np.array([prevalence])

    def dist(a, t):
        if not where:
            Point.hit()
        return abs(float(np.ravel(a)[0]) - t[0])
    grid = np.arange(101.).reshape(-1, 1) / 100 if how == 'grid given' else None

    def run():
        if how == 'golden':
            return golden_section_search(dist, mixture, np.array([m]), tol, 0, 1)
        return global_search(dist, mixture, np.array([m]), tol, grid, how == 'grid made')
    Point.reset()
    run()
    total = Point.n
    ob.state(total)
    for at in range(1, total + 1):
        exc = EXC[x]('injected')
        Point.reset((at,), exc)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = run()
        except BaseException as e:
            if e is not exc:
                raise
            r = exc
        ob.op()
        ob.expect(r is exc, '%s: %s in call %d of %d is hidden: %s', case, EXC[x].__name__, at, total, r)


FAMILIES = [Family('components', cases, check, 'every quantifier x classifiers, regressors, bag generators and distances that fail in each '
                   'of their calls, two histories, five exceptions'),
            Family('twice', twice_cases, twice_check, 'two failures, in every pair of calls (the repeated operation fails again)'),
            Family('search', search_cases, search_check, 'losses and mixtures that fail in each call of the searches')]
