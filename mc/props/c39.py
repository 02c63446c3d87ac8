"""C39 independent objects used by concurrent threads do not influence each other, also when they share trained classifiers or templates."""
import numpy as np
from joblib import Parallel, delayed
from quantificationlib import bag_generator as B
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.metrics import multiclass as M
from quantificationlib.multiclass.df import DFX, DFy, HDX, HDy, MMy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import CvMy, EDX, EDy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.knn import PWKQuantifier
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from quantificationlib.ordinal.pdf import PDFOrdinaly
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from sklearn.multiclass import OneVsRestClassifier

from mc import large, sched
from mc.core import Family, call
from mc.stubs import Echo, Lin
from mc.zoo import FixedBags

ASSUMPTIONS = ['a thread can only be suspended between two source lines of the library or at a call to a classifier or distance',
               'each quantifier, classifier in training and bag generator is used by one thread; trained classifiers, templates and data '
               'may be shared']


class P(Echo):
    """a classifier that can be suspended"""

    def predict_proba(self, X):
        sched.point()
        return super().predict_proba(X)

    def predict(self, X):
        p = super().predict_proba(X).argmax(axis=1)
        sched.point()
        return self.classes_.take(p)


def pausing(f):
    def g(a, b):
        sched.point()
        return f(a, b)
    return g


class Two(B.BagGenerator):
    """two bags, with all the classes: all the examples; and without the first one"""
    n_bags = 2

    def generate_bags(self, X, y):
        n = len(y)
        idx = np.array([[i, max(1, i)] for i in range(n)])
        return np.array([[(y[idx[:, b]] == c).mean() for b in range(2)] for c in np.unique(y)]), idx


L2, TOP = pausing(M.l2), pausing(M.topsoe)
ESTS = {'plain': P, 'cv': lambda: CV_estimator(P(), cv=2), 'cv all': lambda: CV_estimator(P(), cv=2, averaged_predictions=False),
        'cv soft': lambda: CV_estimator(P(), cv=2, voting='soft'), 'FH': lambda: FrankAndHallClassifier(P()),
        'FHM': lambda: FrankAndHallMonotoneClassifier(P()), 'FHT': lambda: FrankAndHallTreeClassifier(P()),
        'DDAG': lambda: DDAGClassifier(P()), 'DDAG winner': lambda: DDAGClassifier(P(), predict_method='winner_node'),
        'OVR': lambda: OneVsRestClassifier(P()), 'cv FH': lambda: CV_estimator(FrankAndHallClassifier(P()), cv=2),
        'ensemble': lambda: EnsembleOfClassifiers(P())}
ORD = ('FH', 'FHM', 'FHT', 'DDAG', 'DDAG winner', 'cv FH')
# quantifiers that receive the shared classifiers: (constructor, classifiers, numbers of classes)
SHARED = {'CC': (lambda e: CC(estimator_test=e), ('plain', 'cv', 'cv soft') + ORD, (2, 3)),
          'PCC': (lambda e: PCC(estimator_test=e), ('plain', 'cv all') + ORD, (2, 3)),
          'AC': (lambda e: AC(estimator_train=e, estimator_test=e), ('plain', 'cv', 'FH', 'DDAG'), (2, 3)),
          'AC HD': (lambda e: AC(estimator_train=e, estimator_test=e, distance='HD'), ('plain',), (3,)),
          'PAC': (lambda e: PAC(estimator_train=e, estimator_test=e), ('plain', 'cv', 'FHT', 'DDAG winner'), (2, 3)),
          'EM': (lambda e: EM(estimator_train=e, estimator_test=e, max_iter=3), ('plain', 'cv', 'FH'), (2, 3)),
          'DFy L2': (lambda e: DFy(e, e, distance='L2', n_bins=4), ('plain', 'cv', 'FHM'), (2, 3)),
          'DFy HD': (lambda e: DFy(e, e, distance='HD', n_bins=4), ('plain',), (2, 3)),
          'HDy': (lambda e: HDy(e, e, n_bins=3), ('plain',), (2,)), 'MMy': (lambda e: MMy(e, e, n_bins=3), ('plain',), (3,)),
          'FriedmanME': (lambda e: FriedmanME(e, e, distance='L2'), ('plain', 'cv'), (2, 3)),
          'EDy': (lambda e: EDy(e, e), ('plain', 'DDAG'), (2, 3)), 'CvMy': (lambda e: CvMy(e, e), ('plain', 'cv'), (2, 3)),
          'REGy': (lambda e: REGy(bag_generator=FixedBags(), n_bins=3, regression_estimator=Lin(), estimator_train=e, estimator_test=e), ('plain',), (2, 3)),
          'DeBias': (lambda e: DeBias(e, e), ('plain', 'cv'), (2,)), 'SORDy': (lambda e: SORDy(e, e), ('plain',), (2,)),
          'ACOrdinal': (lambda e: ACOrdinal(e, e), ('plain', 'FH', 'DDAG'), (3,)),
          'PDFOrdinaly': (lambda e: PDFOrdinaly(e, e, distance='L2', n_bins=2), ('plain', 'FHM'), (3,)),
          'OVR': (lambda e: OneVsRestQuantifier(PAC(), e, e), ('OVR',), (3,)),
          'FHQ': (lambda e: FrankAndHallQuantifier(PAC(), e, e), ('FH', 'FHT'), (3,)),
          'tree': (lambda e: OrdinalQuantificationTree(e), ('FHT',), (3,))}
TPL = P()       # a template shared by everybody
PACT, EDXT = PAC(), EDX()


def ens_bags(n, k):
    return np.array([[(b * (b + 1) // 2 + i * (1 + b % 2)) % n for b in range(3)] for i in range(n)])


def fitted(e, k):
    """a classifier of the user, trained with the first data set"""
    X, y, _ = data(k, 0)
    c = ESTS[e]()
    return c.fit(X, y, ens_bags(len(y), k)) if e == 'ensemble' else c.fit(X, y)


# objects that share nothing, or only a template: (constructor, numbers of classes, kind of quantifier or estimator)
OWN = {'EDX': (EDX, (2, 3)), 'DFX L2': (lambda: DFX(distance='L2', n_bins=3), (2, 3)), 'HDX': (lambda: HDX(n_bins=2), (2,)),
       'PWK': (lambda: PWKQuantifier(n_neighbors=3), (2, 3)),
       'REGX': (lambda: REGX(FixedBags(), n_bins=3, regression_estimator=Lin()), (2, 3)),
       'PAC template': (lambda: PAC(CV_estimator(TPL, cv=2), FrankAndHallClassifier(TPL)), (3,)),
       'OVR template': (lambda: OneVsRestQuantifier(PACT, OneVsRestClassifier(TPL), OneVsRestClassifier(TPL)), (3,)),
       'FHQ template': (lambda: FrankAndHallQuantifier(PACT, FrankAndHallClassifier(TPL), FrankAndHallMonotoneClassifier(TPL)), (3,)),
       'OVR EDX': (lambda: OneVsRestQuantifier(EDXT), (3,)), 'FHQ EDX': (lambda: FrankAndHallQuantifier(EDXT), (3,)),
       'EoQ EDX': (lambda: EoQ(EDXT, 2, Two()), (2,)),
       'EoQ': (lambda: EoQ(PACT, 2, Two(), ensemble_estimator_train=EnsembleOfClassifiers(TPL),
                           ensemble_estimator_test=EnsembleOfClassifiers(TPL), combination_strategy='distribution_similarity'), (2, 3)),
       'EoQ strategies': (lambda: EoQ(PACT, 2, Two(), ensemble_estimator_train=EnsembleOfClassifiers(TPL),
                                      ensemble_estimator_test=EnsembleOfClassifiers(TPL), combination_strategy='median'), (3,)),
       'tree': (lambda: OrdinalQuantificationTree(TPL), (3,)),
       'DDAG': (lambda: PCC(DDAGClassifier(TPL)), (3,)), 'cv': (lambda: CC(CV_estimator(TPL, cv=2, voting='soft')), (2,))}
GENS = {'uniform': lambda s: B.PriorShift_BagGenerator(n_bags=2, bag_size=4, random_state=s),
        'dirichlet': lambda s: B.PriorShift_BagGenerator(n_bags=2, bag_size=4, method='Dirichlet', alphas=1, random_state=s),
        'minimum': lambda s: B.PriorShift_BagGenerator(n_bags=2, bag_size=5, min_prevalence=0.2, random_state=s),
        'covariate': lambda s: B.CovariateShift_BagGenerator(n_bags=2, bag_size=4, random_state=s),
        'both': lambda s: B.PriorAndCovariateShift_BagGenerator(n_bags=2, bag_size=4, random_state=s)}
OPS = (('predict', 'predict'), ('predict', 'fit'), ('fit', 'fit'))
_data = {}


def data(k, i):
    """always the same arrays: the data are shared by the threads too"""
    if (k, i) not in _data:
        g = large.Gen(13 * k + i)
        y = g.shuffle([c for c in range(k) for _ in range(4 + i)])
        pts = lambda c: [c + g(16) / 8, g(8) / 4]
        _data[k, i] = (np.array([pts(c) for c in y]), np.array(y), [np.array([pts(g(k)) for _ in range(n)]) for n in (4, 4, 6)])
    return _data[k, i]


def arr(v):
    return [np.array(x, dtype=float) for x in (v if isinstance(v, tuple) else (v,))]


def run_pair(case, ob, make, pre, tier):
    """make() -> two functions without arguments, one for each thread; each one must answer as if it were alone"""
    want = []
    for i in (0, 1):
        r, v = call(make()[i])
        if r == 'exc':
            raise v
        want.append(arr(v))
    ob.op(2)

    def f():
        return Parallel(n_jobs=2)(delayed(j)() for j in make())

    def judge(out, decisions, c):
        ob.expect(out[0] != 'exc', '%s: with changes of thread at the steps %s: %r', case, [i for i, d in enumerate(decisions) if d], out[1])
        for i in (0, 1):
            got = arr(out[1][i])
            ob.expect(len(got) == len(want[i]), '%s: %s', case, got)
            for a, b in zip(got, want[i]):
                ob.expect(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-6), '%s: with changes of thread at the steps %s, thread %d '
                          'answers %s instead of %s', case, [i for i, d in enumerate(decisions) if d], i, a.tolist(), b.tolist())
        ob.trace()
    size = len(sched.run(f, preemptions=0, lines=True)[1].trail)
    lines = True if size < (250 if tier == 'quick' else 500) else 'calls'
    n, steps = sched.explore(f, judge, pre, lines=lines, limit=4000)
    ob.op(steps)
    ob.state(case, n)
    if pre == 1 and n * n < (200 if tier == 'quick' else 2500):
        n, steps = sched.explore(f, judge, 2, lines=lines, limit=40000)
        ob.op(steps)
        ob.state(case, n)


# --- classifiers shared by two quantifiers
def shared_cases(tier):
    for n, (_, es, ks) in SHARED.items():
        for e in es:
            for k in ks:
                if k == 2 and e in ORD:
                    continue
                for o in range(len(OPS)):
                    yield (n, e, k, o, tier)


def jobs(qs, ops, D):
    def job(q, op, d, t):
        def f():
            if op == 'fit':
                q.fit(D[d][0], D[d][1])
            return np.array(q.predict(D[0][2][t]), dtype=float)
        return f
    for q, op, d in zip(qs, ops, (0, 1)):
        if op == 'predict':
            q.fit(D[d][0], D[d][1])
    return [job(qs[i], ops[i], i, i) for i in (0, 1)]


def shared_check(case, ob):
    n, e, k, o, tier = case
    D = [data(k, 0), data(k, 1)]

    def make():
        est = fitted(e, k)
        return jobs([SHARED[n][0](est) for _ in (0, 1)], OPS[o], D)
    run_pair(case[:-1] + (OPS[o],), ob, make, 1, tier)


# --- different quantifiers with the same classifier
def mixed_cases(tier):
    names = [n for n, (_, es, ks) in SHARED.items() if 'plain' in es]
    for e in ('plain', 'cv', 'FH', 'DDAG', 'FHT'):
        for i, a in enumerate(names):
            b = names[(i + 1) % len(names)]
            k = 3
            if k in SHARED[a][2] and k in SHARED[b][2]:
                for o in (0, 1) if tier == 'quick' else (0, 1, 2):
                    yield (a, b, e, k, o, tier)


def mixed_check(case, ob):
    a, b, e, k, o, tier = case
    D = [data(k, 0), data(k, 1)]

    def make():
        est = fitted(e, k)
        return jobs([SHARED[a][0](est), SHARED[b][0](est)], OPS[o], D)
    run_pair(case[:-1] + (OPS[o],), ob, make, 1, tier)


# --- the classifier itself: two threads ask for predictions
def classifier_cases(tier):
    for e in ESTS:
        for k in (2, 3, 4):
            if k == 2 and e in ORD:
                continue
            for m in (('predict', 'predict'), ('predict_proba', 'predict_proba'), ('predict', 'predict_proba')):
                for same in (0, 1, 2):
                    yield (e, k, m, same, tier)


def classifier_check(case, ob):
    e, k, m, same, tier = case
    X, y, bags = data(k, 0)

    def make():
        c = fitted(e, k)
        args = ((X, bags[2]), (X, X), (bags[0], bags[1]))[same]     # the training examples are predicted out of fold
        return [lambda i=i: getattr(c, m[i])(args[i]) for i in (0, 1)]
    run_pair(case[:-1], ob, make, 1, tier)


# --- objects that share a template or nothing
def own_cases(tier):
    for n, (_, ks) in OWN.items():
        for k in ks:
            for o in range(len(OPS)):
                yield (n, k, o, tier)


def own_check(case, ob):
    n, k, o, tier = case
    D = [data(k, 0), data(k, 1)]
    run_pair(case[:-1] + (OPS[o],), ob, lambda: jobs([OWN[n][0]() for _ in (0, 1)], OPS[o], D), 1, tier)
    ob.expect(not hasattr(TPL, 'classes_') and PACT.estimator_train is None and getattr(PACT, 'classes_', None) is None,
              '%s: a template was changed', case)


# --- generators with their own seeds
def gen_cases(tier):
    for a in GENS:
        for b in GENS:
            for k in (2, 3):
                yield (a, b, k, tier)


def gen_check(case, ob):
    a, b, k, tier = case
    X, y, _ = data(k, 0)

    def make():
        g = [GENS[a](3), GENS[b](8)]
        return [lambda i=i: g[i].generate_bags(X, y) for i in (0, 1)]
    run_pair(case[:-1], ob, make, 1, tier)


FAMILIES = [
    Family('classifiers', classifier_cases, classifier_check, 'two threads that ask a trained classifier for predictions'),
    Family('shared', shared_cases, shared_check, 'two quantifiers with the same trained classifier, predict and fit'),
    Family('mixed', mixed_cases, mixed_check, 'two different quantifiers with the same trained classifier'),
    Family('own', own_cases, own_check, 'two quantifiers that share at most a template'),
    Family('generators', gen_cases, gen_check, 'two bag generators with their own seeds')]
