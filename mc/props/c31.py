"""C31 repeated training predictions are paired with repeated labels."""
import numpy as np
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.baselines.ac import PAC
from quantificationlib.baselines.cc import CC
from quantificationlib.multiclass.df import DFy
from quantificationlib.multiclass.energy import EDy
from quantificationlib.estimators.cross_validation import CV_estimator

from mc import domains as D, zoo
from mc.core import Family, call
from mc.props.c03 import TOL, answer, make_bags, problem, problems_of, same
from mc.props.c19 import Splits, folds
from mc.stubs import Echo

ASSUMPTIONS = ['repeating the same predictions changes the joint rankings (CvMy), the generated bags (regression) and the '
               'position of interpolated cut points, so those methods are only compared with the concatenation']
USING = [s for s in zoo.SPECS if s.kind in ('prob', 'crisp', 'left')]


def fit_(s, labels, y, P):
    """y may be shorter than P: repetitions"""
    q = s.make()
    lab = np.array(labels)[list(y)]
    q.fit(X=np.zeros((len(lab), 1)), y=lab, predictions_train=s.preds(labels, P))
    return q


# --- different repetitions == training set made of their concatenation
def concat_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        for s in USING:
            if s.kmin <= k <= s.kmax:
                m = (8 if s.slow else 24) if q else (40 if s.slow else 250)
                m = m if k < 4 else m // 3
                n = {2: 4, 3: 5, 4: 6}[k]
                d = 2 if k == 4 else 4
                for i, (k_, d_, y, r) in enumerate(zoo.problems(k, d, n, m)):
                    for reps in (2, 3):
                        yield (s.name, k, d, y, r, reps, i % len(D.LABELS[k]))


def concat_check(case, ob):
    name, k, d, y, r, reps, li = case
    s = zoo.BY_NAME[name]
    labels = D.LABELS[k][li]
    R = zoo.rows(k, d)
    n = len(R)
    # the repetitions move the rows to other rows of the grid, in a way that depends on the example
    P = np.vstack([R[[(v * (1 + 2 * j) + j * (i + 1)) % n for i, v in enumerate(r)]] for j in range(reps)])
    got = fitted(s, labels, y, P)
    want = fitted(s, labels, list(y) * reps, P)
    ob.op(2)
    for b in ((0,), (n // 2, n - 1, 1), tuple(range(n))):
        g, w = (f if isinstance(f, str) else answer(s, f, labels, R[list(b)]) for f in (got, want))
        ob.op(2)
        ob.state(g)
        same(ob, g, w, 1e-9, '%s, training labels %s with %d repetitions %s, bag %s, compared with the concatenated training '
             'set' % (name, y, reps, P.tolist(), b))


def fitted(s, labels, y, P):
    r, q = call(fit_, s, labels, y, P)
    if r == 'exc':
        if not s.name.startswith('EoQ'):
            raise q
        return type(q).__name__
    return q


# --- the same repetition several times == once
def tile_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        for s in USING:
            if s.kmin <= k <= s.kmax and not s.joint and 'equal_count' not in s.name:
                for c in problems_of(s, k, q):
                    for reps in (2, 3):
                        yield (s.name, reps) + c


def tile_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    reps = case[1]
    k, y, P, R = problem(case[2:])
    labels = D.LABELS[k][(len(y) + y[0]) % len(D.LABELS[k])]
    one = fit_(s, labels, y, P)
    many = fit_(s, labels, y, np.vstack([P] * reps))
    ob.op(2)
    for bag in make_bags(s, k, y, P, R)[:3]:
        g = answer(s, many, labels, bag)
        ob.op(2)
        ob.state(g)
        same(ob, g, answer(s, one, labels, bag), TOL[s.loss], '%s, training labels %s rows %s repeated %d times, bag %s' % (
            s.name, list(y), P.tolist(), reps, bag.tolist()))


# --- repetitions made by repeated cross-validation
YS = {2: [(0, 1, 0, 1), (1, 0, 0, 1, 1), (0, 0, 1, 1, 1, 0)], 3: [(0, 1, 2, 0, 1, 2), (2, 1, 0, 0, 1, 2), (0, 0, 1, 1, 2, 2, 1)]}
XS = [(0.0,), (1.0,), (2.5,), (4.0,), (7.0,), (7.5,), (3.0,)]
NEW = [(0.4,), (3.0,), (6.0,), (20.0,)]


def cv_cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        for yi, y in enumerate(YS[k]):
            two = D.thin(folds(len(y), y, 2), 4 if q else 12)
            sp = [(a, b) for a in two for b in two] + [(a, b, a) for a in two[:2] for b in two[1:]]
            for s in USING:
                if s.kmin <= k <= s.kmax and s.kind in ('prob', 'crisp') and not s.name.startswith(('OVR', 'EoQ')):
                    for f in D.thin(sp, (3 if s.slow else 6) if q else 24):
                        for avg in (False, True):
                            yield (s.name, k, yi, f, avg)


def cv_check(case, ob):
    name, k, yi, reps, avg = case
    s = zoo.BY_NAME[name]
    yy = YS[k][yi]
    n = len(yy)
    labels = D.LABELS[k][(yi + len(reps)) % len(D.LABELS[k])]
    y = np.array(labels)[list(yy)]
    X = np.array(XS[:n])
    fs = [f for r in reps for f in r]
    q = s.make()
    test = Echo().fit(X, y)
    q.set_params(estimator_test=test)
    if 'estimator_train' not in q.get_params(deep=False):
        return
    q.set_params(estimator_train=CV_estimator(Echo(), cv=Splits(fs), averaged_predictions=avg, voting='soft'))
    q.fit(X, y)
    ob.op()
    ref = []
    for r in reps:
        P = np.zeros((n, k))
        for f in r:
            tr = [i for i in range(n) if i not in f]
            P[list(f)] = Echo().fit(X[tr], y[tr]).predict_proba(X[list(f)])
        ref.append(P)
    if avg:
        ref = [np.mean(ref, axis=0)]
    yc = np.tile(y, len(ref))
    pc = np.vstack(ref)
    if s.kind == 'crisp':
        pc = np.array(labels)[pc.argmax(axis=1)]
    w = s.make()
    w.set_params(estimator_test=test)
    w.fit(np.vstack([X] * len(ref)), yc, predictions_train=pc)
    Z = np.array(NEW)
    g, e = call(q.predict, Z), call(w.predict, Z)
    ob.op(3)
    ob.state(g[0], str(g[1]))
    what = '%s with a repeated cross-validation %s (averaged_predictions=%s), labels %s' % (name, reps, avg, yy)
    if 'exc' in (g[0], e[0]):
        ob.expect(g[0] == e[0] and type(g[1]) is type(e[1]), '%s: %r, expected %r', what, g[1], e[1])
    else:
        ob.close(g[1], e[1], 1e-9 if not avg else TOL[s.loss], what)


# --- ensembles of quantifiers: every bag of every repetition
EOQ = dict(PAC=(PAC, 'prob'), CC=(CC, 'crisp'), DFy=(lambda: DFy(distance='L2', n_bins=4), 'prob'), EDy=(EDy, 'prob'))


def eoq_cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        for b in sorted(EOQ):
            for comb in ('mean', 'median', 'prevalence_similarity', 'distribution_similarity'):
                if (b, comb) != ('CC', 'distribution_similarity'):
                    for c in zoo.problems(k, 4, 5, 6 if q else 60):
                        for reps in (2, 3):
                            yield (b, comb, reps) + c


def eoq_check(case, ob):
    b, comb, reps, k, d, y, r = case
    make, kind = EOQ[b]
    labels = D.LABELS[k][len(r) % len(D.LABELS[k])]
    R = zoo.rows(k, d)
    n, m = len(R), len(y)
    P = np.vstack([R[[(v * (1 + 2 * j) + j * (i + 1)) % n for i, v in enumerate(r)]] for j in range(reps)])
    if kind == 'crisp':
        P = np.array(labels)[P.argmax(axis=1)]
    lab = np.array(labels)[list(y)]
    # bags of different composition, with every class, in different orders
    bags = []
    for o in range(m):
        idx = [(o + i) % m for i in range(m)] + [o, (o + 2) % m]
        bags.append(idx)
    idx = np.array(bags).T
    prev = np.array([[(lab[idx[:, j]] == c).mean() for j in range(idx.shape[1])] for c in sorted(labels)])
    q = EoQ(base_quantifier=make(), n_quantifiers=m, combination_strategy=comb, n_bins=5)
    q.fit(np.zeros((m, 1)), lab, predictions_train=P, prevalences=prev, indexes=idx)
    w = EoQ(base_quantifier=make(), n_quantifiers=m, combination_strategy=comb, n_bins=5)
    ext = np.vstack([idx + j * m for j in range(reps)])
    w.fit(np.zeros((m * reps, 1)), np.tile(lab, reps), predictions_train=P, prevalences=prev, indexes=ext)
    ob.op(2)
    for bag in ((0, n - 1), tuple(range(n))):
        T = R[list(bag)]
        if kind == 'crisp':
            T = np.array(labels)[T.argmax(axis=1)]
        g, e = (call(z.predict, None, predictions_test=T) for z in (q, w))
        ob.op(2)
        ob.state(g[0], str(g[1]))
        what = 'EoQ of %s (%s), labels %s, %d repetitions of the predictions %s, bag %s' % (b, comb, y, reps, P.tolist(), bag)
        if 'exc' in (g[0], e[0]):
            ob.expect(g[0] == e[0] and type(g[1]) is type(e[1]), '%s: %r, expected %r', what, g[1], e[1])
        else:
            ob.close(g[1], e[1], 1e-9, what)


FAMILIES = [Family('concatenation', concat_cases, concat_check, '2 and 3 different repetitions: same prevalences as the training '
                   'set made of them, every quantifier that uses predictions'),
            Family('same', tile_cases, tile_check, 'the same predictions 2 and 3 times: same prevalences as once'),
            Family('cross-validation', cv_cases, cv_check, 'repeated cross-validations decided by the harness, averaged or not'),
            Family('ensembles', eoq_cases, eoq_check, 'ensembles of quantifiers trained with repeated predictions')]
