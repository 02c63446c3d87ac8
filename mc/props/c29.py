"""C29 the parameter protocol of scikit-learn."""
import copy
import inspect
import io
import itertools
import pickle
import sys

import numpy as np
from quantificationlib import bag_generator as B
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.metrics import multiclass as M
from quantificationlib.metrics.binary import absolute_error, binary_kld
from quantificationlib.multiclass.df import DFX, DFy, HDX, HDy, MMy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import CvMy, EDX, EDy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.knn import PWKQuantifier
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from quantificationlib.ordinal.pdf import PDFOrdinaly
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from sklearn.base import BaseEstimator, clone
from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances
from sklearn.model_selection import StratifiedKFold
from sklearn.multiclass import OneVsRestClassifier

from mc.core import Family, call
from mc.stubs import Echo, Lin

ASSUMPTIONS = ['the classifiers given as parameters are fitted by the quantifiers (documented); their own parameters never change',
               'OrdinalQuantificationTree keeps its estimator inside a FrankAndHallTreeClassifier (documented)',
               'a fitted object whose parameters change is not asked to predict before fitting it again']


def E(p=1):
    return lambda: Echo(power=p)


def O(p=1):
    return lambda: OneVsRestClassifier(Echo(power=p))


def H(p=1):
    return lambda: FrankAndHallClassifier(Echo(power=p))


def G(n=4, seed=7, **k):
    return lambda: B.PriorShift_BagGenerator(n_bags=n, bag_size=6, random_state=seed, **k)


def GE(n=5, seed=7):        # every class in every bag
    return lambda: B.PriorShift_BagGenerator(n_bags=n, bag_size=9, min_prevalence=0.2, random_state=seed)


def V(v):
    return lambda: v


class T:
    """a class with its base parameters and the alternatives of each one (all of them factories)"""

    def __init__(self, cls, base, alt, k=3, est=False, binary=False, gen=False):
        self.cls, self.base, self.alt, self.k, self.est, self.gen = cls, base, alt, k, est, gen

    def kwargs(self, changes=()):
        f = dict(self.base)
        for n, i in changes:
            f[n] = self.alt[n][i]
        return {n: g() for n, g in f.items()}

    def make(self, changes=()):
        return self.cls(**self.kwargs(changes))


VB = [V(1)]
ALT2 = dict(estimator_train=[E(2)], estimator_test=[E(2)], verbose=VB)      # two classes
BOTH = dict(estimator_train=E(), estimator_test=E())
ALT = dict(estimator_train=[E(2), H()], estimator_test=[E(2), O()], verbose=VB)
ONE = dict(estimator_test=E())
ALT1 = dict(estimator_test=[E(2), O()], verbose=VB)
DIST = [V('L1'), V('L2'), V('HD')]
STRAT = [V('equal_count'), V('normal')]
TABLE = dict(
    CC=T(CC, ONE, ALT1), PCC=T(PCC, ONE, ALT1),
    AC=T(AC, BOTH, dict(ALT, distance=DIST)), PAC=T(PAC, BOTH, dict(ALT, distance=DIST)),
    DeBias=T(DeBias, BOTH, ALT2, k=2), SORDy=T(SORDy, BOTH, dict(ALT2, tol=[V(0.01)]), k=2),
    QUANTy=T(QUANTy, BOTH, dict(ALT2, n_quantiles=[V(3)], distance=[V(M.l1)], tol=[V(0.01)]), k=2),
    DFy=T(DFy, BOTH, dict(ALT, distribution_function=[V('CDF')], n_bins=[V(3)], bin_strategy=STRAT, distance=DIST, tol=[V(0.01)])),
    DFy2=T(DFy, dict(BOTH, n_bins=V(3)), dict(ALT2, bin_strategy=[V('binormal')], distance=[V(M.topsoe), V('L2')], tol=[V(0.01)]), k=2),
    HDy=T(HDy, BOTH, dict(ALT, n_bins=[V(3)], bin_strategy=STRAT, tol=[V(0.01)])),
    MMy=T(MMy, BOTH, dict(ALT, n_bins=[V(3)], bin_strategy=STRAT, tol=[V(0.01)])),
    DFX=T(DFX, {}, dict(distribution_function=[V('CDF')], n_bins=[V(3)], bin_strategy=STRAT, distance=DIST, tol=[V(0.01)], verbose=VB)),
    HDX=T(HDX, {}, dict(n_bins=[V(3)], bin_strategy=STRAT, tol=[V(0.01)])),
    EM=T(EM, BOTH, dict(ALT, epsilon=[V(0.1)], max_iter=[V(2)])),
    EDy=T(EDy, BOTH, dict(ALT, distance=[V(euclidean_distances)])), CvMy=T(CvMy, BOTH, dict(ALT, distance=[V(euclidean_distances)])),
    EDX=T(EDX, {}, dict(distance=[V(manhattan_distances)], verbose=VB)),
    FriedmanME=T(FriedmanME, BOTH, dict(ALT, distance=[V('L1'), V('HD')], tol=[V(0.01)])),
    FriedmanME2=T(FriedmanME, BOTH, dict(ALT2, distance=[V(M.hd)], tol=[V(0.01)]), k=2),
    PWKQuantifier=T(PWKQuantifier, dict(n_neighbors=V(3)), dict(n_neighbors=[V(1), V(5)], p=[V(1)], metric=[V('chebyshev')],
                                                                metric_params=[V({})], verbose=VB)),
    REGX=T(REGX, dict(bag_generator=G(), regression_estimator=lambda: Lin(), bin_strategy=V('equal_width')),
           dict(bag_generator=[G(3), G(4, 8)], n_bins=[V(3)], bin_strategy=STRAT, regression_estimator=[lambda: Lin(tag='x')], verbose=VB)),
    REGy=T(REGy, dict(BOTH, bag_generator=G(), regression_estimator=lambda: Lin()),
           dict(ALT, bag_generator=[G(3), G(4, 8)], n_bins=[V(3)], bin_strategy=STRAT, regression_estimator=[lambda: Lin(tag='x')])),
    REGX0=T(REGX, dict(bag_generator=G(12)), dict(n_bins=[V(2)], bin_strategy=[V('equal_width')])),
    ACOrdinal=T(ACOrdinal, BOTH, ALT),
    PDFOrdinaly=T(PDFOrdinaly, BOTH, dict(ALT, n_bins=[V(3)], distance=[V('HD'), V('EMD')], method=[V('winner_node')], tol=[V(0.01)])),
    OQT=T(OrdinalQuantificationTree, ONE, dict(verbose=[V(2)])),
    OVR=T(OneVsRestQuantifier, dict(base_quantifier=lambda: PAC(), estimator_train=O(), estimator_test=O()),
          dict(base_quantifier=[lambda: AC(distance='L2'), lambda: DFy(n_bins=3, distance='L2'), lambda: EDX()], estimator_train=[O(2)],
               estimator_test=[O(2)], verbose=VB)),
    FHQ=T(FrankAndHallQuantifier, dict(quantifier=lambda: PAC(), estimator_train=H(), estimator_test=H()),
          dict(quantifier=[lambda: AC(distance='L2'), lambda: DFy(n_bins=3, distance='L2'), lambda: EDX()], estimator_train=[H(2)],
               estimator_test=[H(2)], verbose=VB)),
    EoQ=T(EoQ, dict(base_quantifier=lambda: PAC(), n_quantifiers=V(3), bag_generator=GE(5), n_bins=V(5),
                    ensemble_estimator_train=lambda: EnsembleOfClassifiers(Echo()),
                    ensemble_estimator_test=lambda: EnsembleOfClassifiers(Echo())),
          dict(base_quantifier=[lambda: DFy(n_bins=3, distance='L2')], n_quantifiers=[V(2), V(5)], bag_generator=[GE(9, 8)],
               combination_strategy=[V('median'), V('prevalence_similarity'), V('distribution_similarity')],
               ensemble_estimator_train=[E()], ensemble_estimator_test=[E(2)], distribution_function=[V('CDF')], n_bins=[V(3)],
               bin_strategy=STRAT, distance_bags=[V('cityblock')], percentage_of_selected_models=[V(0.9), V(0.1)], verbose=VB)),
    EoQX=T(EoQ, dict(base_quantifier=lambda: EDX(), n_quantifiers=V(3), bag_generator=GE(5), n_bins=V(5)),
           dict(base_quantifier=[lambda: DFX(n_bins=3, distance='L2')], n_quantifiers=[V(2)], combination_strategy=[
               V('prevalence_similarity'), V('distribution_similarity')], bin_strategy=STRAT)),
    CV=T(CV_estimator, dict(estimator=E(), cv=V(2)), dict(estimator=[E(2)], cv=[V(3), lambda: StratifiedKFold(2, shuffle=True, random_state=1)],
                                                         groups=[lambda: np.array([0, 1] * 6)], n_jobs=[V(1)], fit_params=[V({})],
                                                         pre_dispatch=[V('n_jobs')], averaged_predictions=[V(False)], voting=[V('soft')],
                                                         verbose=[V(0)]), est=True),
    Ens=T(EnsembleOfClassifiers, dict(base_estimator=E()), dict(base_estimator=[E(2)], n_jobs=[V(1)], verbose=VB), est=True),
    FH=T(FrankAndHallClassifier, dict(estimator=E()), dict(estimator=[E(2)], n_jobs=[V(1)], verbose=VB, params_fit=[
        V([dict(power=2), dict(power=3)])]), est=True),
    FHM=T(FrankAndHallMonotoneClassifier, dict(estimator=E()), dict(estimator=[E(2)], n_jobs=[V(1)], verbose=VB, params_fit=[
        V([dict(power=2), dict(power=3)])]), est=True),
    FHT=T(FrankAndHallTreeClassifier, dict(estimator=E()), dict(estimator=[E(2)], n_jobs=[V(1)], verbose=VB, params_fit=[
        V([dict(power=2), dict(power=3)])], performance_measure=[V(absolute_error)]), est=True),
    DDAG=T(DDAGClassifier, dict(estimator=E()), dict(estimator=[E(2)], n_jobs=[V(1)], predict_method=[V('winner_node')], verbose=VB), est=True),
    PWK=T(PWK, dict(n_neighbors=V(3)), dict(n_neighbors=[V(1), V(5)], algorithm=[V('brute')], leaf_size=[V(5)], p=[V(1)],
                                            metric=[V('chebyshev')], metric_params=[V({})], n_jobs=[V(1)]), est=True),
    Prior=T(B.PriorShift_BagGenerator, dict(n_bags=V(4), bag_size=V(6), alphas=lambda: np.array([1., 1, 2])), dict(
        n_bags=[V(3)], bag_size=[V(5)], method=[V('Dirichlet')], alphas=[lambda: np.array([1., 2, 3])], min_prevalence=[V(0.1)],
        random_state=[V(7)], verbose=VB), gen=True),
    Cov=T(B.CovariateShift_BagGenerator, dict(n_bags=V(4), bag_size=V(6)), dict(n_bags=[V(3)], bag_size=[V(5)], random_state=[V(7)],
                                                                               verbose=VB), gen=True),
    PriorCov=T(B.PriorAndCovariateShift_BagGenerator, dict(n_bags=V(4), bag_size=V(6), alphas=lambda: np.array([1., 1, 2])), dict(
        n_bags=[V(6)], bag_size=[V(5)], method=[V('Dirichlet')], alphas=[lambda: np.array([1., 2, 3])], min_prevalence=[V(0.1)],
        random_state=[V(7)], verbose=VB), gen=True))

DATA = {2: ([0., 1, 2, 5, 7, 9, 4, 6], [0, 0, 1, 0, 1, 1, 0, 1]), 3: ([0., 1, 2, 4, 5, 7, 9, 10, 3, 6, 8, 11],
                                                                [0, 1, 0, 1, 2, 1, 2, 2, 0, 1, 2, 0])}
NEW = np.array([[0.5, 0.25], [3.0, 1.0], [6.5, 0.0], [8.0, 2.0]])


def data(t):
    x, y = DATA[t.k]
    return np.array([[v, (3 * v) % 4] for v in x]), np.array([3, 5, 8])[y]


def fit(t, o):
    X, y = data(t)
    if isinstance(o, EnsembleOfClassifiers):
        return o.fit(X, y, np.array([[i + j for j in range(3)] for i in range(len(y) - 3)]))
    return o.fit(X, y)


def predict(t, o):
    """the answers of a fitted object"""
    if t.gen:
        p, i = o.generate_bags(*data(t))
        return [np.asarray(p, dtype=float), np.asarray(i, dtype=float)]
    if t.est:
        X, _ = data(t)
        return [np.asarray(o.predict(NEW), dtype=float), np.asarray(o.predict_proba(NEW) if hasattr(o, 'predict_proba') else 0., dtype=float),
                np.asarray(o.predict(X), dtype=float)]
    return [np.asarray(o.predict(NEW), dtype=float)]


def freeze(v, fitted=True):
    """value of a parameter: everything about it but what the training of a model adds"""
    if isinstance(v, BaseEstimator):
        return (type(v).__name__,) + tuple((n, freeze(x)) for n, x in sorted(v.get_params(deep=False).items()))
    if isinstance(v, B.BagGenerator):
        return (type(v).__name__,) + tuple((n, freeze(x)) for n, x in sorted(vars(v).items()) if n in inspect.signature(
            type(v).__init__).parameters)
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.tolist())
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if callable(v):
        return ('f', id(v))
    return (type(v).__name__, repr(v))


def params(o):
    if isinstance(o, B.BagGenerator):
        return {n: getattr(o, n) for n in inspect.signature(type(o).__init__).parameters if n != 'self'}
    return o.get_params(deep=False)


def values(o):
    return {n: freeze(v) for n, v in params(o).items()}


class Quiet:
    def __enter__(self):
        self.out, sys.stdout = sys.stdout, io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.out


def equal(ob, a, b, what):
    ob.expect(len(a) == len(b), '%s: %s, expected %s', what, a, b)
    for x, y in zip(a, b):
        ob.close(x, y, 1e-6, what)


_ref = {}


def reference(t, name, changes):
    """answers of a new object with these parameters"""
    key = (name, changes)
    if key not in _ref:
        o = t.make(changes)
        r = call(lambda: (fit(t, o) if not t.gen else None, predict(t, o))[1])
        _ref[key] = r
    return _ref[key]


# --- one object with its parameters
def changes_of(t, pairs):
    single = [((n, i),) for n in sorted(t.alt) for i in range(len(t.alt[n]))]
    res = [()] + single
    if pairs:
        res += [a + b for a, b in itertools.combinations(single, 2) if a[0][0] != b[0][0]]
    return res


def one_cases(tier):
    for n, t in TABLE.items():
        for c in changes_of(t, True):
            yield (n, c)


def expected_value(t, n, v):
    if t.cls is OrdinalQuantificationTree and n == 'estimator_test' and not isinstance(v, FrankAndHallTreeClassifier):
        return None
    return v


def one_check(case, ob):
    name, ch = case
    t = TABLE[name]
    ch = tuple(tuple(c) for c in ch)
    kw = t.kwargs(ch)
    what = '%s(%s)' % (t.cls.__name__, ', '.join('%s=%r' % (n, v) for n, v in sorted(kw.items())))
    with Quiet():
        o = t.cls(**kw)
        sig = inspect.signature(t.cls.__init__).parameters
        p = params(o)
        ob.expect(set(p) == {n for n in sig if n != 'self'}, '%s: parameters %s', what, sorted(p))
        for n in p:
            want = kw[n] if n in kw else sig[n].default
            if expected_value(t, n, want) is not None:
                ob.expect(p[n] is want, '%s: parameter %s is %r, not the object given (%r)', what, n, p[n], want)
        v0 = values(o)
        if not t.gen:
            r = repr(o)
            ob.expect(t.cls.__name__ in r, '%s: repr %s', what, r)
        # copies of the object before it is used
        copies = dict(copy=copy.deepcopy(o), pickle=pickle.loads(pickle.dumps(o)) if picklable(kw) else copy.deepcopy(o))
        if not t.gen:
            copies['clone'] = clone(o)
            copies['clone of clone'] = clone(clone(o))
            # the same parameters set afterwards
            s = t.make()
            extra = {n: t.alt[n][i]() for n, i in ch}
            s.set_params(**extra)
            copies['set_params'] = s
            copies['fit, set_params'] = s = t.make()
            call(fit, t, s)
            if t.cls is EnsembleOfClassifiers:     # it is never trained twice
                del copies['fit, set_params']
            else:
                s.set_params(**(t.kwargs(ch) if t.cls is EoQ else {n: t.alt[n][i]() for n, i in ch}))
        for c, q in copies.items():
            ob.expect(values(q) == v0, '%s: %s has the parameters %s, expected %s', what, c, values(q), v0)
        if not t.gen:
            for c in ('copy', 'clone', 'set_params'):
                r = call(predict, t, copies[c])
                ob.expect(r[0] == 'exc', '%s: %s predicts without training: %r', what, c, r[1])
        ref = reference(t, name, ch)
        ob.state(ref[0], [a.tolist() for a in ref[1]] if ref[0] == 'ok' else type(ref[1]).__name__)
        if ref[0] == 'exc':
            raise ref[1]
        for c, q in [('the object', o)] + list(copies.items()):
            for again in (0, 1):
                if not t.gen and not (again and t.cls is EnsembleOfClassifiers):
                    fit(t, q)
                ob.expect(values(q) == v0, '%s: after fit %s has the parameters %s, expected %s', what, c, values(q), v0)
                equal(ob, predict(t, q), ref[1], '%s: predictions of %s' % (what, c))
                ob.expect(values(q) == v0, '%s: after predict %s has the parameters %s, expected %s', what, c, values(q), v0)
                ob.op(2)
        # once it is fitted
        if not t.gen:
            for n in p:
                want = kw[n] if n in kw else sig[n].default
                if expected_value(t, n, want) is not None:
                    ob.expect(params(o)[n] is want, '%s: fit replaced the parameter %s', what, n)
            q = clone(o)
            ob.expect(values(q) == v0, '%s: a clone of the fitted object has the parameters %s, expected %s', what, values(q), v0)
            r = call(predict, t, q)
            ob.expect(r[0] == 'exc', '%s: a clone of the fitted object predicts without training: %r', what, r[1])
            fit(t, q)
            equal(ob, predict(t, q), ref[1], what + ': predictions of a clone of the fitted object')
            for c, q in (('copy', copy.deepcopy(o)), ('pickle', pickle.loads(pickle.dumps(o)) if picklable(kw) else o)):
                ob.expect(values(q) == v0, '%s: a %s of the fitted object has the parameters %s, expected %s', what, c, values(q), v0)
                equal(ob, predict(t, q), ref[1], '%s: predictions of a %s of the fitted object' % (what, c))
            equal(ob, predict(t, o), ref[1], what + ': predictions after copying')
            ob.op(5)


def picklable(kw):
    return True


# --- histories
def hist_cases(tier):
    q = tier == 'quick'
    for n, t in TABLE.items():
        if t.gen or t.cls is EnsembleOfClassifiers:
            continue
        for a in changes_of(t, False)[1:]:
            ops = ['fit', 'predict', 'clone', 'set', 'reset']
            depth = 4 if q else 5
            for s in itertools.product(ops, repeat=depth - 1):
                s = s + ('predict',)
                if 'set' in s and 'fit' in s and not any(x == y for x, y in zip(s, s[1:]) if x != 'fit'):
                    yield (n, a[0], s)


def hist_check(case, ob):
    name, ch, ops = case
    t = TABLE[name]
    ch = tuple(ch)
    with Quiet():
        o = t.make()
        now, fitted = (), None      # model: current parameters, parameters of the last fit
        for i, op in enumerate(ops):
            what = '%s changing %s, operations %s' % (t.cls.__name__, ch, ops[:i + 1])
            ob.op()
            if op == 'fit':
                fit(t, o)
                fitted = now
            elif op == 'clone':
                o = clone(o)
                fitted = None
            elif op in ('set', 'reset'):
                now = (ch,) if op == 'set' else ()
                if fitted is not None:
                    fitted = 'before'
                if t.cls is EoQ:        # its classifiers are never trained again with other bags
                    o.set_params(**dict(t.kwargs(now)))
                o.set_params(**{ch[0]: t.alt[ch[0]][ch[1]]() if op == 'set' else t.base[ch[0]]() if ch[0] in t.base else
                                inspect.signature(t.cls.__init__).parameters[ch[0]].default})
            elif fitted is None:
                r = call(predict, t, o)
                ob.expect(r[0] == 'exc', '%s: it predicts without training: %r', what, r[1])
            elif fitted == now:
                ref = reference(t, name, now)
                if ref[0] == 'exc':
                    raise ref[1]
                equal(ob, predict(t, o), ref[1], what)
            ob.state(name, now, fitted, op)
            ob.expect(values(o) == values(t.make(now)), '%s: parameters %s, expected %s', what, values(o), values(t.make(now)))


# --- nested parameters
NESTED = [('AC', 'estimator_test__power', 2), ('PAC', 'estimator_train__power', 3), ('OVR', 'base_quantifier__distance', 'L1'),
          ('OVR', 'estimator_train__estimator__power', 2), ('FHQ', 'quantifier__distance', 'L1'), ('FHQ', 'estimator_test__estimator__power', 2),
          ('EoQ', 'base_quantifier__distance', 'HD'), ('EoQ', 'ensemble_estimator_train__base_estimator__power', 2),
          ('CV', 'estimator__power', 3), ('FH', 'estimator__power', 3), ('FHM', 'estimator__power', 3), ('FHT', 'estimator__power', 3),
          ('DDAG', 'estimator__power', 3), ('OQT', 'estimator_test__estimator__power', 2), ('Ens', 'base_estimator__power', 2),
          ('REGy', 'regression_estimator__tag', 'z'), ('DFy', 'estimator_test__power', 2), ('EM', 'estimator_test__power', 2)]


def nest_cases(tier):
    for i in range(len(NESTED)):
        for how in ('set', 'clone', 'set after fit', 'copy'):
            yield (i, how)


def nest_check(case, ob):
    i, how = case
    name, key, v = NESTED[i]
    t = TABLE[name]
    with Quiet():
        # the reference sets the attribute of the component directly
        r = t.make()
        path = key.split('__')
        z = r
        for a in path[:-1]:
            z = getattr(z, a)
        setattr(z, path[-1], v)
        fit(t, r)
        ref = predict(t, r)
        o = t.make()
        if how == 'set after fit' and t.cls is not EnsembleOfClassifiers:
            o = clone(fit(t, o))
        o.set_params(**{key: v})
        ob.expect(o.get_params()[key] == v, '%s: get_params %s', NESTED[i], o.get_params().get(key))
        if how == 'clone':
            o = clone(o)
        if how == 'copy':
            o = copy.deepcopy(o)
        ob.expect(o.get_params()[key] == v, '%s %s: get_params %s', NESTED[i], how, o.get_params().get(key))
        fit(t, o)
        ob.op(3)
        got = predict(t, o)
        ob.state([g.tolist() for g in got])
        equal(ob, got, ref, '%s %s' % (NESTED[i], how))
        ob.expect(o.get_params()[key] == v, '%s: get_params after fit %s', NESTED[i], o.get_params().get(key))


# --- documented default values (only those on which the documentation is unambiguous)
def PG(n=1000, **k):
    return lambda: B.PriorShift_BagGenerator(n_bags=n, **k)


N_, Z = V(None), V(0)
HERE = dict(estimator_train=N_, estimator_test=N_, verbose=Z)
JOBS = dict(estimator=N_, n_jobs=N_, verbose=Z)
BAGS = dict(n_bags=V(1000), bag_size=N_, method=V('Uniform'), alphas=N_, min_prevalence=N_, random_state=V(2032), verbose=Z)
KNN = dict(n_neighbors=V(10), p=V(2), metric=V('minkowski'), metric_params=N_)
DEFAULTS = dict(
    CC=dict(estimator_test=N_, verbose=Z), PCC=dict(estimator_test=N_, verbose=Z), AC=dict(HERE, distance=V('HD')),
    PAC=dict(HERE, distance=V('L2')), DeBias=HERE, SORDy=dict(HERE, tol=V(1e-5)),
    QUANTy=dict(HERE, n_quantiles=V(8), distance=V(M.l2), tol=V(1e-5)),
    DFy=dict(HERE, distribution_function=V('PDF'), n_bins=V(8), distance=V('HD'), tol=V(1e-5)),
    HDy=dict(HERE, n_bins=V(8), tol=V(1e-5)), MMy=dict(HERE, n_bins=V(8), tol=V(1e-5)),
    DFX=dict(distribution_function=V('PDF'), n_bins=V(8), distance=V('HD'), tol=V(1e-5), verbose=Z), HDX=dict(n_bins=V(8), tol=V(1e-5)),
    EM=dict(HERE, epsilon=V(1e-4), max_iter=V(1000)), EDy=dict(HERE, distance=V(manhattan_distances)),
    CvMy=dict(HERE, distance=V(manhattan_distances)), EDX=dict(distance=V(euclidean_distances), verbose=Z),
    FriedmanME=dict(HERE, distance=V('L2'), tol=V(1e-5)), PWKQuantifier=dict(KNN, verbose=Z), ACOrdinal=HERE,
    PDFOrdinaly=dict(HERE, n_bins=V(8), method=V('full_probabilistic'), tol=V(1e-5)), REGX=dict(n_bins=V(8), bin_strategy=V('normal'),
                                                                                           regression_estimator=N_, bag_generator=PG()),
    REGy=dict(n_bins=V(8), regression_estimator=N_, estimator_train=N_, estimator_test=N_, bag_generator=PG()),
    OVR=HERE, FHQ=HERE,
    EoQ=dict(base_quantifier=N_, n_quantifiers=V(100), bag_generator=PG(), combination_strategy=V('mean'), n_bins=V(100),
             ensemble_estimator_train=N_, ensemble_estimator_test=N_, distribution_function=V('PDF'), bin_strategy=V('equal_width'),
             distance_bags=V('euclidean'), percentage_of_selected_models=V(0.5), verbose=Z),
    CV=dict(cv=N_, n_jobs=N_, averaged_predictions=V(True), voting=V('hard'), verbose=Z, groups=N_, fit_params=N_),
    Ens=dict(base_estimator=N_, n_jobs=N_, verbose=Z), FH=dict(JOBS, params_fit=N_), FHM=dict(JOBS, params_fit=N_),
    FHT=dict(JOBS, params_fit=N_, performance_measure=V(binary_kld)), DDAG=dict(n_jobs=N_, verbose=Z, predict_method=V('full_probabilistic')),
    PWK=dict(KNN, algorithm=V('auto'), leaf_size=V(30), n_jobs=N_), Prior=BAGS, PriorCov=BAGS,
    Cov=dict(bag_size=N_, random_state=V(2032), verbose=Z))


def default_cases(tier):
    for n in DEFAULTS:
        for p in sorted(DEFAULTS[n]):
            yield (n, p)


def default_check(case, ob):
    name, p = case
    t = TABLE[name]
    kw = t.kwargs()
    kw.pop(p, None)
    what = '%s without the parameter %s' % (t.cls.__name__, p)
    with Quiet():
        o, d = t.cls(**kw), t.cls(**dict(kw, **{p: DEFAULTS[name][p]()}))
        ob.expect(values(o) == values(d), '%s: parameters %s, expected %s', what, values(o), values(d))
        ob.op(2)
        heavy = p in ('estimator_train', 'estimator_test', 'base_quantifier', 'quantifier', 'estimator', 'base_estimator',
                      'ensemble_estimator_train', 'ensemble_estimator_test', 'regression_estimator', 'bag_generator')
        if heavy or name in ('EoQ', 'PWK', 'PWKQuantifier') and p in ('n_quantifiers', 'n_neighbors') or (name, p) == ('CV', 'cv'):
            ob.state(sorted(values(o)))
            return
        if not t.gen:
            fit(t, o), fit(t, d)
        got, want = predict(t, o), predict(t, d)
        ob.op(4)
        ob.state([a.tolist() for a in want] if want[0].size < 99 else want[0].shape)
        equal(ob, got, want, what)


FAMILIES = [Family('objects', one_cases, one_check, 'every class x every parameter changed, alone and in pairs: get_params, copies, '
                   'clones, set_params, before and after fit and predict'),
            Family('histories', hist_cases, hist_check, 'sequences of set_params, clone, fit and predict against a model of the '
                   'parameters'),
            Family('defaults', default_cases, default_check, 'every class x every parameter left out: its documented value is used'),
            Family('nested', nest_cases, nest_check, 'parameters of the components of composite objects')]
