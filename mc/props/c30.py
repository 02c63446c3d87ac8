"""C30 parallel training under every schedule of the jobs."""
import itertools
import os
import subprocess
import sys

import numpy as np
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import PCC
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError

from mc import core, domains as D, sched
from mc.core import Family, call
from mc.props.c19 import Splits, folds
from mc.stubs import Echo

ASSUMPTIONS = ['a job can only be suspended at a call to a model or between two source lines of the library',
               'with processes, the jobs share nothing (each one works with a pickled copy)',
               'the jobs start in the order in which they are dispatched, as in the pools of joblib']
NEW = np.array([[0.4], [3.0], [6.0], [20.0]])
XS = np.array([0., 1, 2.5, 4, 7, 7.5, 3, 11]).reshape(-1, 1)
FAIL = {}        # key of a job -> place where it fails
RUNS = [0]


class Boom(RuntimeError):
    pass


class Slow(Echo):
    """Echo that can be suspended at every step of its training and counts its trainings"""

    def fit(self, X, y):
        sched.point()
        key = (len(X), float(np.sum(X)), int(np.sum(np.asarray(y) == np.unique(y)[0])))
        if FAIL.get(key) == 'start':
            raise Boom('planned failure')
        self.fits_ = getattr(self, 'fits_', 0) + 1
        self.X_ = np.array(X, dtype=float)
        sched.point()
        if FAIL.get(key) == 'middle':
            raise Boom('planned failure')
        self.y_ = np.array(y)
        self.classes_ = np.unique(y)
        sched.point()
        return self

    def __deepcopy__(self, memo):
        sched.point()
        new = type(self)(**self.get_params())
        new.__dict__.update({k: v.copy() if isinstance(v, np.ndarray) else v for k, v in self.__dict__.items()})
        return new


class Outer(BaseEstimator, ClassifierMixin):
    """a model made of another model, trained in place (as a pipeline)"""

    def __init__(self, inner=None):
        self.inner = inner

    def fit(self, X, y):
        self.inner.fit(X, y)
        self.classes_ = self.inner.classes_
        return self

    def predict_proba(self, X):
        return self.inner.predict_proba(X)

    def predict(self, X):
        return self.inner.predict(X)


def model(nested):
    return Outer(Slow()) if nested else Slow()


def core_of(m):
    return m.inner if isinstance(m, Outer) else m


def judge_models(ob, models, wanted, template, what):
    """models are separate objects trained exactly once with the wanted (X, y)"""
    ob.expect(models is not None and len(models) == len(wanted), '%s: %s models, expected %d', what,
              None if models is None else len(models), len(wanted))
    inner = [core_of(m) for m in models]
    ob.expect(len({id(m) for m in inner}) == len(inner), '%s: models share the same object', what)
    for i, (m, (X, y)) in enumerate(zip(inner, wanted)):
        ob.expect(hasattr(m, 'classes_'), '%s: model %d is not trained', what, i)
        ob.expect(m.fits_ == 1, '%s: model %d trained %d times', what, i, m.fits_)
        ob.expect(m.X_.shape == X.shape and np.array_equal(m.X_, X), '%s: model %d trained with the examples %s, expected %s', what, i,
                  m.X_.ravel().tolist(), X.ravel().tolist())
        ob.expect(np.array_equal(m.y_, y), '%s: model %d trained with the labels %s, expected %s', what, i, list(m.y_), list(y))
    ob.expect(not hasattr(core_of(template), 'classes_'), '%s: the estimator given by the user was trained', what)


# --- ensembles
def bags(n, k, nb):
    """indexes (examples x bags) of bags with every class; all the bags are different"""
    res = []
    for b in range(nb):
        res.append([(b + i * (1 + b % 2)) % n for i in range(n - 1)])
    return np.array(res).T


Y = {2: (0, 1, 0, 1, 1), 3: (0, 1, 2, 0, 1, 2, 2)}


def ens_cases(tier):
    q = tier == 'quick'
    for nb, nj, pre in ((1, 1, 99), (2, None, 99), (2, 1, 99), (2, 2, 99), (2, 3, 99), (3, 2, 99), (3, 3, 2 if q else 99),
                        (3, -1, 2 if q else 99), (4, 2, 3), (4, 3, 2 if q else 3), (4, 4, 1 if q else 3), (5, 2, 2 if q else 4),
                        (5, 4, 1 if q else 2), (9, 2, 1 if q else 2), (9, 4, 1)):
        for k in (2, 3):
            for nested in (0, 1):
                for iso in (0, 1):
                    if not (iso and pre > 3 and nb > 2 and q):
                        yield (nb, nj, pre, k, nested, iso)


def ens_check(case, ob):
    nb, nj, pre, k, nested, iso = case
    FAIL.clear()
    y = np.array(D.LABELS[k][nb % len(D.LABELS[k])])[list(Y[k])]
    X = XS[:len(y)]
    idx = bags(len(y), k, nb)
    template = model(nested)
    wanted = [(X[idx[:, b]], y[idx[:, b]]) for b in range(nb)]

    def f():
        e = EnsembleOfClassifiers(template, n_jobs=nj)
        return e.fit(X, y, idx)

    ref = [Echo().fit(*w).predict_proba(NEW) for w in wanted]

    def judge(out, decisions, c):
        what = 'ensemble of %d with n_jobs=%s, schedule %s' % (nb, nj, decisions)
        ob.expect(out[0] == 'ok', '%s: %r', what, out[1])
        e = out[1]
        judge_models(ob, e.estimators_, wanted, template, what)
        P = e.predict_proba(NEW)
        ob.close(P, np.stack(ref, axis=1), 1e-12, what + ' probabilities')
        ob.state(decisions)
    n, steps = sched.explore(f, judge, preemptions=pre, isolated=bool(iso), limit=60000)
    ob.op(n + steps)
    ob.trace(n - 1)


# --- decompositions
FH = dict(fh=FrankAndHallClassifier, fhm=FrankAndHallMonotoneClassifier, fht=FrankAndHallTreeClassifier)
YO = {3: (0, 1, 2, 0, 1, 2), 4: (3, 0, 1, 2, 0, 1, 2, 3), 5: (4, 3, 0, 1, 2, 0, 1, 3)}


def fh_cases(tier):
    q = tier == 'quick'
    for n in sorted(FH):
        for k, nj, pre in ((3, None, 99), (3, 1, 99), (3, 2, 3 if q else 5), (3, -1, 2 if q else 4), (4, 2, 2 if q else 3),
                           (4, 3, 1 if q else 3), (5, 2, 1 if q else 3), (5, 4, 1 if q else 2)):
            for par in (0, 1, 2):      # 2: without parameters, the model is nested
                for iso in (0, 1):
                    if iso:
                        yield (n, k, nj, min(pre, 1 if q else 2), par, 1)
                    else:
                        yield (n, k, nj, pre, par, 0)


def fh_data(k):
    labels = D.LABELS[k][0]
    y = np.array(labels)[list(YO[k])]
    return XS[:len(y)], y, np.array(YO[k])


def fh_check(case, ob):
    n, k, nj, pre, par, iso = case
    FAIL.clear()
    X, y, yi = fh_data(k)
    template = model(par == 2)
    params = [dict(power=1 + c) for c in range(k - 1)] if par == 1 else None
    wanted = [(X, (yi <= c) * 1) for c in range(k - 1)]

    def f(jobs=nj):
        return FH[n](template, n_jobs=jobs, params_fit=params).fit(X, y)

    devnull = open(os.devnull, 'w')
    out, sys.stdout = sys.stdout, devnull      # params_fit prints
    try:
        ref = f(None).predict_proba(NEW)

        def judge(out, decisions, c):
            what = '%s with %d classes, n_jobs=%s, params_fit=%s, schedule %s' % (n, k, nj, params, decisions)
            ob.expect(out[0] == 'ok', '%s: %r', what, out[1])
            e = out[1]
            judge_models(ob, e.estimators_, wanted, template, what)
            for i, m in enumerate(e.estimators_):
                ob.expect(core_of(m).power == (1 + i if par == 1 else 1), '%s: model %d with parameters %s', what, i, m.get_params())
            ob.expect(core_of(template).power == 1, '%s: the estimator given by the user was changed', what)
            ob.close(e.predict_proba(NEW), ref, 1e-12, what + ' probabilities')
            ob.state(decisions)
        ns, steps = sched.explore(f, judge, preemptions=pre, lines=not iso, isolated=bool(iso), limit=60000)
    finally:
        sys.stdout = out
        devnull.close()
    ob.op(ns + steps)
    ob.trace(ns - 1)


# --- failures of the jobs
def fail_cases(tier):
    q = tier == 'quick'
    for place in ('start', 'middle'):
        for nested in (0, 1):
            for iso in (0, 1):
                for nb, nj, pre in ((1, 1, 99), (2, None, 99), (2, 2, 99), (3, 2, 2), (3, 3, 1 if q else 3), (4, 2, 1 if q else 2)):
                    for s in D.thin([s for r in range(1, nb + 1) for s in itertools.combinations(range(nb), r)], 5 if q else 99):
                        yield ('ens', nb, nj, pre, place, s, nested, iso)
        for iso in (0, 1):
            for n in sorted(FH):
                for k, nj, pre in ((3, None, 99), (3, 2, 1 if q else 3), (4, 2, 1), (4, 3, 1 if q else 2)):
                    for s in D.thin([s for r in range(1, k) for s in itertools.combinations(range(k - 1), r)], 4 if q else 99):
                        yield (n, k, nj, pre, place, s, 0, iso)


def fail_check(case, ob):
    n, size, nj, pre, place, failing, nested, iso = case
    template = model(nested)
    if n == 'ens':
        y = np.array([3, 5, 3, 5, 5])
        X = XS[:5]
        idx = bags(5, 2, size)
        wanted = [(X[idx[:, b]], y[idx[:, b]]) for b in range(size)]
        new = lambda: EnsembleOfClassifiers(template, n_jobs=nj)
        fit = lambda e: e.fit(X, y, idx)
    else:
        X, y, yi = fh_data(size)
        wanted = [(X, (yi <= c) * 1) for c in range(size - 1)]
        new = lambda: FH[n](template, n_jobs=nj)
        fit = lambda e: e.fit(X, y)
    keys = {(len(wanted[i][0]), float(np.sum(wanted[i][0])), int(np.sum(wanted[i][1] == np.unique(wanted[i][1])[0]))): place
            for i in failing}
    e = None

    def f():
        nonlocal e
        FAIL.clear()
        FAIL.update(keys)
        e = new()
        return fit(e)

    def judge(out, decisions, c):
        what = '%s with %d jobs, n_jobs=%s, jobs %s fail at their %s, schedule %s' % (n, len(wanted), nj, failing, place, decisions)
        ob.expect(out[0] == 'exc' and type(out[1]).__name__ == 'Boom', '%s: %r instead of the failure', what, out[1])
        r = call(e.predict, NEW)
        ob.expect(r[0] == 'exc', '%s: it predicts %r', what, r[1])
        FAIL.clear()
        r = call(fit, e)      # the cause disappears, trained again
        ob.expect(r[0] == 'ok', '%s: trained again: %r', what, r[1])
        judge_models(ob, e.estimators_, wanted, template, what + ' and trained again')
        ob.expect(call(e.predict, NEW)[0] == 'ok', '%s and trained again: it does not predict', what)
        ob.state(decisions)
    ns, steps = sched.explore(f, judge, preemptions=pre, isolated=bool(iso), limit=60000)
    FAIL.clear()
    ob.op(ns + steps)
    ob.trace(ns - 1)


# --- cross-validation
def cv_cases(tier):
    q = tier == 'quick'
    for k, y in ((2, (0, 1, 0, 1)), (3, (0, 1, 2, 0, 1, 2))):
        fs = [(f,) for nf in (2, 3) for f in D.thin(folds(len(y), y, nf), 3 if q else 6)]
        two = folds(len(y), y, 2)[:2]
        fs += [(a, b) for a in two for b in two]
        for f in fs:
            for nj, pre in ((None, 99), (2, 1 if q else 2), (3, 1)):
                for iso in (0, 1):
                    for avg in (True, False):
                        yield (k, y, f, nj, pre, iso, avg)


def cv_check(case, ob):
    k, yy, reps, nj, pre, iso, avg = case
    FAIL.clear()
    y = np.array(D.LABELS[k][0])[list(yy)]
    n = len(y)
    X = XS[:n]
    fs = [f for r in reps for f in r]
    template = Slow()
    train = [[i for i in range(n) if i not in f] for f in fs]
    wanted = [(X[t], y[t]) for t in train]
    models = [Echo().fit(*w) for w in wanted]
    ref, j = [], 0
    for r in reps:
        P = np.zeros((n, k))
        for f in r:
            P[list(f)] = models[j].predict_proba(X[list(f)])
            j += 1
        ref.append(P)
    refn = [m.predict_proba(NEW) for m in models]
    comb = (lambda z: np.mean(z, axis=0)) if avg else np.vstack

    def f():
        return CV_estimator(template, cv=Splits(fs), n_jobs=nj, averaged_predictions=avg).fit(X, y)

    def judge(out, decisions, c):
        what = 'cross-validation %s of labels %s, n_jobs=%s, schedule %s' % (reps, yy, nj, decisions)
        ob.expect(out[0] == 'ok', '%s: %r', what, out[1])
        e = out[1]
        judge_models(ob, e.estimators_, wanted, template, what)
        ob.close(e.predict_proba(X), comb(ref), 1e-12, what + ': training set')
        ob.close(e.predict_proba(NEW), comb(refn), 1e-12, what + ': new data')
        ob.state(decisions)
    ns, steps = sched.explore(f, judge, preemptions=pre, isolated=bool(iso), limit=60000)
    ob.op(ns + steps)
    ob.trace(ns - 1)


# --- quantifiers on top of them
def top(name, nj):
    """name -> (fit, predict) of an object whose estimators are trained with nj jobs"""
    if name.startswith('eoq'):
        q = EoQ(base_quantifier=dict(pac=PAC, ac=AC, pcc=PCC)[name[4:]](), n_quantifiers=3, combination_strategy='all' if
                name == 'eoq-pac' else 'mean', ensemble_estimator_train=None if name == 'eoq-pcc' else EnsembleOfClassifiers(
                    Slow(), n_jobs=nj), ensemble_estimator_test=EnsembleOfClassifiers(Slow(power=2), n_jobs=nj), n_bins=4)
        y = np.array([3, 5, 3, 5, 5])
        idx = bags(5, 2, 3)
        prev = np.array([[(y[idx[:, b]] == c).mean() for b in range(3)] for c in (3, 5)])
        if name == 'eoq-pcc':
            q.ensemble_estimator_train = EnsembleOfClassifiers(Slow(), n_jobs=nj)
        return q, lambda: q.fit(XS[:5], y, prevalences=prev, indexes=idx), lambda: q.predict(NEW)
    X, y, _ = fh_data(4)
    if name.startswith('fhq'):
        q = FrankAndHallQuantifier(PAC(), estimator_train=FrankAndHallClassifier(Slow(), n_jobs=nj),
                                   estimator_test=FrankAndHallMonotoneClassifier(Slow(), n_jobs=nj))
    elif name == 'pac-fh':
        q = PAC(estimator_train=FrankAndHallTreeClassifier(Slow(), n_jobs=nj), estimator_test=FrankAndHallClassifier(Slow(),
                                                                                                                n_jobs=nj))
    elif name == 'pac-cv':
        q = PAC(estimator_train=CV_estimator(Slow(), cv=Splits(((0, 1, 2, 3), (4, 5, 6, 7))), n_jobs=nj), estimator_test=DDAGClassifier(
            Slow(), n_jobs=nj))
    else:
        q = OrdinalQuantificationTree(FrankAndHallTreeClassifier(Slow(), n_jobs=nj))
    return q, lambda: q.fit(X, y), lambda: q.predict(NEW)


def top_cases(tier):
    q = tier == 'quick'
    for n in ('eoq-pac', 'eoq-ac', 'eoq-pcc', 'fhq', 'pac-fh', 'pac-cv', 'oqt'):
        for nj in (2, 3):
            for iso in (0, 1):
                yield (n, nj, 1 if q else 2, iso)


def top_check(case, ob):
    name, nj, pre, iso = case
    FAIL.clear()
    _, fit, predict = top(name, None)
    fit()
    ref = predict()

    def f():
        _, fit, predict = top(name, nj)
        fit()
        return predict()

    def judge(out, decisions, c):
        what = '%s with n_jobs=%s, schedule %s' % (name, nj, decisions)
        ob.expect(out[0] == 'ok', '%s: %r', what, out[1])
        for k in (sorted(ref) if isinstance(ref, dict) else [None]):
            ob.close(out[1] if k is None else out[1][k], ref if k is None else ref[k], 1e-9, '%s (%s), compared with one job' % (what, k))
        ob.state(decisions)
    ns, steps = sched.explore(f, judge, preemptions=pre, isolated=bool(iso), limit=60000)
    ob.op(ns + steps)
    ob.trace(ns - 1)


# --- the pools of joblib (conformance of the scheduling model with them)
SCRIPT = """
import sys
sys.path[:0] = [%r, %r]
from joblib import parallel_config
from mc import core
from mc.props import c30
ob = core.Observer()
with parallel_config(backend=sys.argv[1]):
    try:
        c30.real(sys.argv[1], int(sys.argv[2]), ob)
    except core.CheckFailed as e:
        print('CHECKFAILED', e)
        sys.exit(3)
print('FINE')
"""


def real(backend, nj, ob):
    for nb in (1, 2, 3, 5, 9):
        y = np.array([3, 5, 3, 5, 5])
        X = XS[:5]
        idx = bags(5, 2, nb)
        t = Outer(Slow())
        e = EnsembleOfClassifiers(t, n_jobs=nj).fit(X, y, idx)
        judge_models(ob, e.estimators_, [(X[idx[:, b]], y[idx[:, b]]) for b in range(nb)], t,
                     'ensemble of %d, %s, n_jobs=%d' % (nb, backend, nj))
    for n in sorted(FH):
        for k in (3, 4, 5):
            X, y, yi = fh_data(k)
            t = model(k == 4)
            e = FH[n](t, n_jobs=nj).fit(X, y)
            judge_models(ob, e.estimators_, [(X, (yi <= c) * 1) for c in range(k - 1)], t, '%s of %d classes, %s, n_jobs=%d' % (
                n, k, backend, nj))


def real_cases(tier):
    for b in ('threading', 'loky', 'multiprocessing'):
        for nj in (2, 3, -1):
            yield (b, nj)


def real_check(case, ob):
    b, nj = case
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, OMP_NUM_THREADS='1', LOKY_MAX_CPU_COUNT='3', PYTHONWARNINGS='ignore')
    try:
        p = subprocess.run([sys.executable, '-c', SCRIPT % (root, core.REPO), b, str(nj)], capture_output=True, text=True,
                           timeout=240, env=env)
    except subprocess.TimeoutExpired:
        return                 # the pool does not start here: nothing is compared
    ob.op(14)
    ob.state(p.returncode)
    ob.expect(p.returncode != 3, '%s', p.stdout[-600:])


FAMILIES = [Family('ensembles', ens_cases, ens_check, 'EnsembleOfClassifiers: 1-9 models, 1-4 workers, every schedule at the calls '
                   'to the models (bounded preemptions for the largest), threads and isolated processes'),
            Family('decompositions', fh_cases, fh_check, 'Frank and Hall classifiers: 2-4 jobs, every schedule at the source lines of '
                   'the jobs up to a number of preemptions'),
            Family('failures', fail_cases, fail_check, 'every set of failing jobs x schedules: reported, no answer, trained again'),
            Family('cross-validation', cv_cases, cv_check, 'CV_estimator: 2-4 folds, schedules of the jobs'),
            Family('quantifiers', top_cases, top_check, 'quantifiers whose estimators are trained in parallel'),
            Family('pools', real_cases, real_check, 'the pools of joblib (threads, loky, multiprocessing), one free schedule each')]
