"""C37 what cannot be answered is refused, and the object can be used afterwards."""
import numpy as np
from quantificationlib import bag_generator as B
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.base import BaseQuantifier
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.metrics import binary as MB
from quantificationlib.metrics import multiclass as M
from quantificationlib.metrics import ordinal as MO
from quantificationlib.multiclass.df import DFX, DFy, HDX, HDy, MMy, compute_bincuts
from quantificationlib.multiclass.energy import EDX
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.pdf import PDFOrdinaly
from quantificationlib.search import global_search, mixture_of_pdfs
from sklearn.ensemble import BaggingClassifier, RandomForestClassifier
from sklearn.multiclass import OneVsRestClassifier
from sklearn.svm import LinearSVC

from mc import domains as D
from mc.core import Family, call
from mc.props.c02 import build
from mc.stubs import Echo, Lin
from mc.zoo import FixedBags, feats

ASSUMPTIONS = ['any exception is a refusal; the object is then used correctly and compared with a new one']


class Other(BaseQuantifier):
    def fit(self, X, y):
        return self

    def predict(self, X):
        return np.array([1., 0, 0])


BINARY, MULTI, ALL = (2,), (3, 4), (2, 3, 4)
U = {}          # name: (constructor with the wrong parameters, parameters that repair it, classes, kind)


def use(name, make, repair, ks, kind='prob'):
    U[name] = (make, repair, ks, kind)


for _n, _c in (('SORDy', SORDy), ('QUANTy', QUANTy), ('DeBias', DeBias)):
    use(_n, _c, None, MULTI)
for _d in ('l2', 'hd', 'topsoe'):
    _f = getattr(M, _d)
    use('DFy distance ' + _d, lambda f=_f: DFy(n_bins=4, distance=f), dict(distance='L2'), MULTI)
    use('DFX distance ' + _d, lambda f=_f: DFX(n_bins=4, distance=f), dict(distance='L2'), MULTI, 'x')
    use('FriedmanME distance ' + _d, lambda f=_f: FriedmanME(distance=f), dict(distance='L2'), MULTI)
FIT = dict(bin_strategy='equal_width')
for _s, _ks in (('binormal', MULTI), ('other', ALL), ('Normal', ALL)):
    use('DFy bins ' + _s, lambda s=_s: DFy(n_bins=4, bin_strategy=s, distance='L2'), FIT, _ks)
    use('HDy bins ' + _s, lambda s=_s: HDy(n_bins=4, bin_strategy=s), FIT, _ks)
    use('MMy bins ' + _s, lambda s=_s: MMy(n_bins=4, bin_strategy=s), FIT, _ks)
    use('DFX bins ' + _s, lambda s=_s: DFX(n_bins=4, bin_strategy=s, distance='L2'), FIT, _ks, 'x')
    use('HDX bins ' + _s, lambda s=_s: HDX(n_bins=4, bin_strategy=s), FIT, _ks, 'x')
    use('REGy bins ' + _s, lambda s=_s: REGy(bag_generator=FixedBags(), bin_strategy=s, regression_estimator=Lin()), FIT, _ks)
    use('REGX bins ' + _s, lambda s=_s: REGX(bag_generator=FixedBags(), bin_strategy=s, regression_estimator=Lin()), FIT, _ks, 'x')
    use('EoQ bins ' + _s, lambda s=_s: EoQ(PAC(), 3, gen(), combination_strategy='distribution_similarity', bin_strategy=s), FIT, _ks)
    use('EoQ of features bins ' + _s, lambda s=_s: EoQ(EDX(), 3, gen(), combination_strategy='distribution_similarity',
                                                       bin_strategy=s), FIT, _ks, 'x')
for _d in ('other', 'Hd', None):
    use('DFy distance %s' % _d, lambda d=_d: DFy(n_bins=4, distance=d), dict(distance='L2'), ALL)
    use('DFX distance %s' % _d, lambda d=_d: DFX(n_bins=4, distance=d), dict(distance='L2'), ALL, 'x')
    use('FriedmanME distance %s' % _d, lambda d=_d: FriedmanME(distance=d), dict(distance='L2'), ALL)
    use('PDFOrdinaly distance %s' % _d, lambda d=_d: PDFOrdinaly(n_bins=3, distance=d), dict(distance='L2'), MULTI)
    use('PDFOrdinaly method %s' % _d, lambda d=_d: PDFOrdinaly(n_bins=3, method=d), dict(method='winner_node'), MULTI)
    use('AC distance %s' % _d, lambda d=_d: AC(distance=d), dict(distance='L2'), MULTI, 'same')
    use('PAC distance %s' % _d, lambda d=_d: PAC(distance=d), dict(distance='L2'), MULTI, 'same prob')
use('PDFOrdinaly', PDFOrdinaly, None, BINARY)
for _s in ('other', 'Mean', 'prevalence', None, ''):
    use('EoQ strategy %s' % _s, lambda s=_s: EoQ(PAC(), 3, gen(), combination_strategy=s), dict(combination_strategy='mean'), ALL)
    use('EoQ of features strategy %s' % _s, lambda s=_s: EoQ(EDX(), 3, gen(), combination_strategy=s),
        dict(combination_strategy='median'), ALL, 'x')


def gen():
    return B.PriorShift_BagGenerator(n_bags=3, min_prevalence=0.2, random_state=5)


# classifiers of other types that also have the attributes estimator, estimators_ or n_estimators
CALIB, BAG = (lambda: CV_estimator(Echo(), cv=2)), (lambda: BaggingClassifier(Echo(), n_estimators=3))
TREES, ENSC = (lambda: RandomForestClassifier(n_estimators=3)), (lambda: EnsembleOfClassifiers(Echo()))
EST = {}        # name: (constructor, parameters that repair it)
OVR, FH = (lambda: OneVsRestClassifier(Echo())), (lambda: FrankAndHallClassifier(Echo()))
for _n, _q, _g, _b, _w in (('OVR', OneVsRestQuantifier, OVR, 'base_quantifier', FH), ('FHQ', FrankAndHallQuantifier, FH, 'quantifier', OVR)):
    for _i, _bad in enumerate((Echo, _w, CALIB, BAG, TREES, ENSC)):
        EST['%s training estimator %d' % (_n, _i)] = (lambda q=_q, g=_g, w=_bad: q(PAC(), estimator_train=w(), estimator_test=g()),
                                                    lambda g=_g: dict(estimator_train=g()))
        EST['%s test estimator %d' % (_n, _i)] = (lambda q=_q, g=_g, w=_bad: q(PAC(), estimator_train=g(), estimator_test=w()),
                                                lambda g=_g: dict(estimator_test=g()))
    for _i, _bad in enumerate((Echo(), None, 'PAC', PAC)):
        EST['%s base %d' % (_n, _i)] = (lambda q=_q, g=_g, w=_bad: q(w, estimator_train=g(), estimator_test=g()),
                                        lambda b=_b: {b: PAC()})
    EST['%s no test estimator' % _n] = (lambda q=_q, g=_g: q(PAC(), estimator_train=g()), lambda g=_g: dict(estimator_test=g()))
    EST['%s no training estimator' % _n] = (lambda q=_q, g=_g: q(PAC(), estimator_test=g()), lambda g=_g: dict(estimator_train=g()))
ENS = lambda: EnsembleOfClassifiers(Echo())
for _i, _bad in enumerate((Echo(), None, 'PAC', Other())):
    EST['EoQ base %d' % _i] = (lambda w=_bad: EoQ(w, 3, gen(), ensemble_estimator_train=ENS(), ensemble_estimator_test=ENS()),
                               lambda: dict(base_quantifier=PAC(), ensemble_estimator_train=ENS(), ensemble_estimator_test=ENS()))
for _i, _bad in enumerate((None, 'uniform', 3)):
    EST['EoQ bags %d' % _i] = (lambda w=_bad: EoQ(PAC(), 3, w, ensemble_estimator_train=ENS(), ensemble_estimator_test=ENS()),
                               lambda: dict(bag_generator=gen()))
EST['EoQ no training estimator'] = (lambda: EoQ(PAC(), 3, gen(), ensemble_estimator_test=ENS()),
                                    lambda: dict(ensemble_estimator_train=ENS()))
EST['EoQ no test estimator'] = (lambda: EoQ(PAC(), 3, gen(), ensemble_estimator_train=ENS()),
                                lambda: dict(ensemble_estimator_test=ENS()))
EST['EoQ crisp distributions'] = (lambda: EoQ(AC(), 3, gen(), combination_strategy='distribution_similarity', ensemble_estimator_train=ENS(),
                                              ensemble_estimator_test=ENS()), lambda: dict(
    combination_strategy='mean', ensemble_estimator_train=ENS(), ensemble_estimator_test=ENS()))
for _n, _c in (('FH', FrankAndHallClassifier), ('FHM', FrankAndHallMonotoneClassifier), ('FHT', FrankAndHallTreeClassifier),
               ('DDAG', DDAGClassifier)):
    EST['%s without estimator' % _n] = (lambda c=_c: c(None), lambda: dict(estimator=Echo()))
    if _n != 'DDAG':
        EST['%s of crisp classifiers' % _n] = (lambda c=_c: c(LinearSVC(random_state=0)), lambda: dict(estimator=Echo()))
EST['ensemble without estimator'] = (lambda: EnsembleOfClassifiers(None), lambda: dict(base_estimator=Echo()))
for _n, _k in (('PAC', PAC), ('DFy', lambda **k: DFy(n_bins=3, distance='L2', **k)), ('AC', AC)):
    EST['%s no test estimator' % _n] = (lambda q=_k: q(estimator_train=Echo()), lambda: dict(estimator_test=Echo()))
    EST['%s no training estimator' % _n] = (lambda q=_k: q(estimator_test=Echo()), lambda: dict(estimator_train=Echo()))


# --- quantifiers that receive the predictions
def use_cases(tier):
    q = tier == 'quick'
    for n, (_, _, ks, _) in U.items():
        for k in ks:
            for noise in range(2 if q else 6):
                for li in range(len(D.LABELS[k]) if not q else 2):
                    yield (n, k, noise, li)


def data(k, noise, kind):
    y, P = build(k, tuple((noise * (c + 1) + c) % (k + 2) for c in range(k)), (1,) * k, 4)
    R = P[[0, 1, 2, k, k + 1, -1]]
    if kind == 'x':
        return y, feats(P), feats(R)
    if kind.startswith('same'):
        P, R = np.full_like(P, 1 / 4 / (k - 1)), np.full_like(R, 1 / 4 / (k - 1))
        P[:, noise % k] = R[:, noise % k] = 3 / 4
    return y, P, R


def fit_predict(q, k, noise, kind, labels):
    y, P, R = data(k, noise, kind)
    lab = np.array(labels)
    if kind == 'x':
        return q.fit(P, lab[y]).predict(R)
    if kind == 'same':
        P, R = lab[P.argmax(axis=1)], lab[R.argmax(axis=1)]
    return q.fit(np.zeros((len(y), 1)), lab[y], predictions_train=P).predict(None, predictions_test=R)


def use_check(case, ob):
    n, k, noise, li = case
    make, repair, ks, kind = U[n]
    labels = D.LABELS[k][li]
    q = make()
    r = call(fit_predict, q, k, noise, kind, labels)
    ob.op(2)
    what = '%s, %d classes %s' % (n, k, labels)
    ob.state(r[0], type(r[1]).__name__)
    ob.expect(r[0] == 'exc', '%s: it is not refused, answer %s', what, r[1])
    # with other parameters, or with a valid number of classes
    ref = make()
    for o in (q, ref):
        if repair is not None:
            o.set_params(**repair)
    k2 = k if repair is not None else (2 if k > 2 else 3)
    if kind == 'same prob':
        kind = 'prob'
    a, b = [call(fit_predict, o, k2, noise + 1, kind, D.LABELS[k2][0]) for o in (q, ref)]
    ob.op(4)
    if b[0] == 'exc':
        raise b[1]
    ob.expect(a[0] != 'exc', '%s: it cannot be used after the refusal: %r', what, a[1])
    ob.close(np.asarray(a[1], float), np.asarray(b[1], float), 1e-6, what + ': answer after the refusal')


# --- objects with classifiers inside
def est_cases(tier):
    for n in EST:
        for k in (3, 4):
            for li in range(2 if tier == 'quick' else len(D.LABELS[k])):
                yield (n, k, li)


def est_check(case, ob):
    n, k, li = case
    make, repair = EST[n]
    X = np.array([[float(c + j * .5), float(j % 2)] for c in range(k) for j in range(4)])
    y = np.array(D.LABELS[k][li])[[c for c in range(k) for j in range(4)]]

    def go(q):
        if isinstance(q, EoQ):
            return q.fit(X, y).predict(X[1:6])
        if isinstance(q, EnsembleOfClassifiers):
            n = np.arange(len(y))
            return q.fit(X, y, np.array([n, (n + 1) % len(y), (3 * n) % len(y) if len(y) % 3 else n]).T).predict_proba(X[1:6])
        r = q.fit(X, y).predict(X[1:6])
        return q.predict_proba(X[1:6]) if hasattr(q, 'predict_proba') else r
    q = make()
    r = call(go, q)
    ob.op(2)
    ob.state(r[0], type(r[1]).__name__)
    what = '%s, %d classes' % (n, k)
    ob.expect(r[0] == 'exc', '%s: it is not refused, answer %s', what, r[1])
    ref = make()
    for o in (q, ref):
        o.set_params(**repair())
    a, b = call(go, q), call(go, ref)
    ob.op(4)
    if b[0] == 'exc':
        raise b[1]
    ob.expect(a[0] != 'exc', '%s: it cannot be used after the refusal: %r', what, a[1])
    ob.close(np.asarray(a[1], float), np.asarray(b[1], float), 1e-6, what + ': answer after the refusal')


# --- an option that is wrong when the bag arrives
LATE = {'PDFOrdinaly method': (lambda: PDFOrdinaly(n_bins=3, distance='L2'), 'method', ('other', None), MULTI, 'prob'),
        'PDFOrdinaly distance': (lambda: PDFOrdinaly(n_bins=3, distance='L2'), 'distance', ('other', None), MULTI, 'prob'),
        'EoQ strategy': (lambda: EoQ(PAC(), 3, gen(), combination_strategy='median'), 'combination_strategy', ('other', None), ALL, 'prob'),
        'EoQ of features strategy': (lambda: EoQ(EDX(), 3, gen()), 'combination_strategy', ('other', None), ALL, 'x')}


def late_cases(tier):
    for n, (_, _, vs, ks, _) in LATE.items():
        for v in vs:
            for k in ks:
                for noise in range(2 if tier == 'quick' else 6):
                    yield (n, v, k, noise)


def late_check(case, ob):
    n, v, k, noise = case
    make, name, _, _, kind = LATE[n]
    y, P, R = data(k, noise, kind)
    lab = np.array(D.LABELS[k][noise % 2])
    q = make()
    if kind == 'x':
        q.fit(P, lab[y])
        go = lambda: np.asarray(q.predict(R), float)
    else:
        q.fit(np.zeros((len(y), 1)), lab[y], predictions_train=P)
        go = lambda: np.asarray(q.predict(None, predictions_test=R), float)
    want = go()
    good = getattr(q, name)
    setattr(q, name, v)
    r = call(go)
    what = '%s changed to %s after fit, %d classes' % (n, v, k)
    ob.expect(r[0] == 'exc', '%s: it is not refused, answer %s', what, r[1])
    setattr(q, name, good)
    ob.close(go(), want, 1e-6, what + ': answer after the refusal')
    ob.op(4)
    ob.state(want)


# --- bag generators
def wrong_bags(k):
    one = [1.0] * k
    yield 'method', dict(method='other'), dict(method='Uniform')
    yield 'method in lower case', dict(method='uniform'), dict(method='Uniform')
    for v in (-0.25, -1, 1.25, 2):
        yield 'minimum %s' % v, dict(min_prevalence=v), dict(min_prevalence=None)
    for j in range(k):
        a = np.full(k, 0.1)
        a[j] = -0.1
        yield 'minimum %s' % a, dict(min_prevalence=a), dict(min_prevalence=None)
        a = np.full(k, 0.1)
        a[j] = 1.0
        yield 'minimum %s' % a, dict(min_prevalence=a), dict(min_prevalence=None)
        yield 'minimum %s' % a.tolist(), dict(min_prevalence=a.tolist()), dict(min_prevalence=None)
    yield 'minimum of all the classes', dict(min_prevalence=0.9), dict(min_prevalence=None)
    for a in (one[:-1], one + [1.0], [1.0], np.array(one[:-1]), np.array(one + [2.0])):
        yield 'alphas %s' % (a,), dict(method='Dirichlet', alphas=a), dict(alphas=1.0)
    yield 'alphas None', dict(method='Dirichlet', alphas=None), dict(alphas=1.0)
    for j in range(k):
        a = np.array(one)
        a[j] = -1
        yield 'alphas %s' % a, dict(method='Dirichlet', alphas=a), dict(alphas=1.0)
    for v in ('seed', 3.5, [1, 2, 'x']):
        yield 'random state %s' % (v,), dict(random_state=v), dict(random_state=3)


GENS = (B.PriorShift_BagGenerator, B.PriorAndCovariateShift_BagGenerator, B.CovariateShift_BagGenerator)


def gen_cases(tier):
    for g in range(3):
        for k in ALL:
            for i, (n, kw, _) in enumerate(wrong_bags(k)):
                if g < 2 or 'random_state' in kw:
                    yield (g, k, i)


def gen_check(case, ob):
    g, k, i = case
    n, kw, repair = list(wrong_bags(k))[i]
    y = np.array(D.LABELS[k][0])[[c for c in range(k) for _ in range(4)]]
    X = np.array([[float(j), float(j % 3)] for j in range(len(y))])

    def go(o):
        return o.generate_bags(X, y)
    base = dict(n_bags=5, bag_size=6)
    if 'random_state' not in kw:
        base['random_state'] = 9
    o = GENS[g](**dict(base, **kw))
    r = call(go, o)
    ob.op()
    ob.state(r[0], type(r[1]).__name__)
    what = '%s, %s, %d classes' % (GENS[g].__name__, n, k)
    ob.expect(r[0] == 'exc', '%s: it is not refused', what)
    for a, v in repair.items():
        setattr(o, a, v)
    r = call(go, o)
    if r[0] == 'exc':
        ob.expect(False, '%s: it cannot be used after the refusal: %r', what, r[1])
    want = GENS[g](**dict(base, **dict(kw, **repair))).generate_bags(X, y)
    ob.op(2)
    for a, b in zip(r[1], want):
        ob.close(np.asarray(a, float), np.asarray(b, float), 1e-12, what + ': bags after the refusal')


# --- functions
METRICS = [getattr(M, n) for n in ('kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe',
                                   'jensenshannon', 'probsymmetric', 'brier_multi')] + [MO.emd, MO.emd_score]


def fun_cases(tier):
    for i in range(len(METRICS)):
        for a in range(1, 6):
            for b in range(1, 6):
                if a != b:
                    yield ('metric', i, a, b)
        for b in (2, 3) if i < 10 else ():
            yield ('columns', i, b, 1)
            yield ('columns', i, b, -1)
    yield ('generator', 0, 0, 0)
    for d in ('l1', 'l2', 'hd', 'topsoe'):
        for bins in range(1, 4):
            for v in range(3):
                yield ('search', d, bins, v)
    for s in ('other', 'width', 'Equal_width', '', None):
        for k in ALL:
            yield ('cuts', s, k, 0)
    for k in (3, 4, 5):
        yield ('cuts', 'binormal', k, 0)


def fun_check(case, ob):
    kind, a, b, c = case
    if kind == 'columns':
        r = call(METRICS[a], np.full((b, 2), 1 / b), np.full((b, 2 + c), 1 / b))
    elif kind == 'generator':
        class Mine(B.BagGenerator):
            pass
        r = call(Mine().generate_bags, np.zeros((4, 1)), np.array([0, 1, 0, 1]))
    elif kind == 'metric':
        r = call(METRICS[a], np.full(b, 1 / b), np.full(c, 1 / c))
    elif kind == 'search':
        h = np.full((b, 1), 1 / b)      # both classes have the same distribution
        t = np.eye(b)[:, [c % b]]
        r = call(global_search, getattr(M, a), mixture_of_pdfs, t, 1e-5, None, False, pos_distrib=h, neg_distrib=h)
    else:
        y = np.array([i % b for i in range(12)])
        r = call(compute_bincuts, np.arange(12.0) / 11, y=y, classes=np.arange(b), n_bins=4, bin_strategy=a, att_range=[0, 1])
    ob.op()
    ob.state(r[0], type(r[1]).__name__)
    ob.expect(r[0] == 'exc', '%s is not refused, answer %s', case, r[1])


FAMILIES = [
    Family('parameters', use_cases, use_check, 'methods for another number of classes, unknown options; then used correctly'),
    Family('components', est_cases, est_check, 'missing or wrong estimators, quantifiers and bag generators; then replaced'),
    Family('late', late_cases, late_check, 'options that are wrong when predict is called; then corrected'),
    Family('generators', gen_cases, gen_check, 'parameters of the generators out of range; then corrected'),
    Family('functions', fun_cases, fun_check, 'vectors of different lengths, flat losses, unknown strategies'),
]
