"""C05 classifiers are fitted once, shared, and interchangeable with their predictions."""
import itertools

import numpy as np
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.multiclass.df import DFy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import EDy
from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier, FrankAndHallMonotoneClassifier
from sklearn.multiclass import OneVsRestClassifier

from mc import domains as D, stubs, zoo
from mc.core import Family, call
from mc.stubs import Echo

ASSUMPTIONS = ['the classifiers raise NotFittedError until they are fitted, as those of scikit-learn do',
               'one-vs-rest and ordinal decompositions receive decomposed classifiers, the only ones they accept']

# --- data: X decides the answers of the classifier
SETS = {2: [([0., 1, 2, 5, 7, 9], [0, 0, 1, 0, 1, 1]), ([3., 4, 1, 8, 0], [1, 0, 1, 1, 0]), ([6., 0, 1], [1, 0, 0])],
        3: [([0., 1, 2, 4, 5, 7, 9, 10], [0, 1, 0, 1, 2, 1, 2, 2]), ([3., 4, 1, 8, 0, 6], [2, 0, 1, 2, 0, 1])],
        4: [([0., 1, 2, 4, 5, 7, 9, 10], [0, 1, 0, 3, 2, 1, 3, 2])]}
BAGS = [[0.5, 3.0, 6.5], [2.0], [9.5, 9.0, 0.0, 0.1]]


def data(k, i, li=0):
    x, y = SETS[k][i]
    return np.array(x).reshape(-1, 1), np.array(D.LABELS[k][li])[y]


def bag(i):
    return np.array(BAGS[i]).reshape(-1, 1)


# --- the same prevalences with classifiers and with their predictions
def wrapped(s, power):
    e = Echo(power=power, tag='used')
    if s.name.startswith('OVR'):
        return OneVsRestClassifier(e)
    if s.name.startswith('FH'):
        return FrankAndHallClassifier(e)
    return e


def predictions(s, power, X, y, Z):
    """what the classifier trained with X, y says about Z, in the format of the quantifier; computed without the library"""
    labels = np.unique(y)
    if s.name.startswith('FH'):
        return np.stack([Echo(power=power).fit(X, (y <= c).astype(int) if y.dtype.kind != 'U' else np.isin(y, labels[:i + 1])
                                               .astype(int)).predict_proba(Z)[:, 1] for i, c in enumerate(labels[:-1])], axis=1)
    if s.name.startswith('OVR'):
        return np.stack([Echo(power=power).fit(X, (y == c).astype(int)).predict_proba(Z)[:, 1] for c in labels], axis=1)
    e = Echo(power=power).fit(X, y)
    return e.predict(Z) if s.kind == 'crisp' else e.predict_proba(Z)


def specs():
    return [s for s in zoo.SPECS if s.kind != 'x' and not s.name.startswith('EoQ')]


def log():
    return [e for e in stubs.LOG if e[1] is not None]


def uses_train(s):
    return s.name.split('-')[-1] not in ('CC', 'PCC') or s.name.startswith('EoQ')


def way_cases(tier):
    for s in specs():
        for k in (2, 3, 4):
            if s.kmin <= k <= s.kmax:
                for i in range(len(SETS[k])):
                    for li in range(len(D.LABELS[k])) if tier != 'quick' else (i, len(D.LABELS[k]) - 1):
                        yield (s.name, k, i, li)


def way_check(case, ob):
    name, k, i, li = case
    s = zoo.BY_NAME[name]
    X, y = data(k, i, li)
    base = s.make()
    inner = getattr(base, 'base_quantifier', getattr(base, 'quantifier', base))
    crisp_inner = name.startswith(('OVR', 'FH'))
    has_train = 'estimator_train' in base.get_params(deep=False)
    ref = None
    # how the training and the test predictions are provided: a classifier, predictions, or both (predictions win)
    for tr, te, pre in itertools.product(('est', 'pred', 'both') if has_train else ('none',), ('est', 'pred', 'both'), (0, 1)):
        if crisp_inner and tr == 'both':
            continue
        q = s.make()
        e1, e2 = wrapped(s, 1), wrapped(s, 2)
        if pre:
            e1.fit(X, y)
            e2.fit(X, y)
        if tr in ('est', 'both'):
            q.set_params(estimator_train=e1 if tr == 'est' else wrapped(s, 3))
        if te in ('est', 'both'):
            q.set_params(estimator_test=e2 if te == 'est' else wrapped(s, 3))
        kw = {}
        if tr in ('pred', 'both'):
            kw = dict(predictions_train=predictions(s, 1, X, y, X))
        q.fit(X, y, **kw)
        ob.op()
        got = []
        for b in range(len(BAGS)):
            kw = dict(predictions_test=predictions(s, 2, X, y, bag(b))) if te in ('pred', 'both') else {}
            for _ in (1, 2):
                r, p = call(q.predict, bag(b), **kw)
                ob.op()
                if r == 'exc' and not isinstance(p, s.refuse):
                    raise p
            got.append(type(p).__name__ if r == 'exc' else np.array(p, dtype=float))
        ob.state(got)
        if ref is None:
            ref = got
        for b, p, w in zip(BAGS, got, ref):
            what = '%s, training set %s %s, bag %s, training predictions by %s, test predictions by %s, fitted before %d' % (
                name, SETS[k][i], D.LABELS[k][li], b, tr, te, pre)
            if isinstance(p, str) or isinstance(w, str):
                ob.expect(isinstance(p, str) and isinstance(w, str), '%s: %s, expected %s', what, p, w)
            else:
                ob.close(p, w, 1e-7, what)


# --- refusals: predictions that nobody gives
def refuse_cases(tier):
    for s in specs():
        for k in (2, 3):
            if s.kmin <= k <= s.kmax:
                yield (s.name, k)


def refuse_check(case, ob):
    name, k = case
    s = zoo.BY_NAME[name]
    X, y = data(k, 0)
    P, Q = predictions(s, 1, X, y, X), predictions(s, 2, X, y, bag(0))
    if 'estimator_train' in s.make().get_params(deep=False) and uses_train(s):
        for te in (None, wrapped(s, 2)):
            q = s.make().set_params(estimator_test=te)
            r, e = call(q.fit, X, y)
            ob.op()
            ob.expect(r == 'exc' and isinstance(e, ValueError), '%s fitted without training predictions: %s', name, r)
    q = s.make()
    r, e = call(q.fit, X, y, predictions_train=P)
    ob.op()
    if r == 'exc':
        raise e
    for Z in (bag(0), None):
        r, e = call(q.predict, Z)
        ob.op()
        ob.expect(r == 'exc' and isinstance(e, ValueError), '%s predicts without predictions: %s %r', name, r, e)
    q.predict(None, predictions_test=Q)
    ob.op()
    r, e = call(q.predict, None)
    ob.expect(r == 'exc' and isinstance(e, ValueError), '%s reuses the predictions of the previous bag: %s %r', name, r, e)
    ob.state(name, k)


# --- histories of quantifiers that share classifiers
KINDS = dict(CC=CC, PCC=PCC, AC=AC, PAC=PAC, EDy=EDy, EM=EM, DFy=lambda **k: DFy(distance='L2', n_bins=4, **k))


def events():
    for name in ('CC', 'PCC'):
        for te in 'AB':
            yield (name, '', te)
    for name in ('AC', 'PAC', 'EDy', 'EM', 'DFy'):
        for tr in 'AB':
            for te in 'AB':
                yield (name, tr, te)
    # predictions instead of one of the classifiers
    yield ('PAC', 'A', '-')
    yield ('PAC', '-', 'B')
    yield ('AC', 'B', '-')


EVENTS = list(events())


def share_cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        ops = [e + (i,) for e in EVENTS for i in range(2)]
        for pre in itertools.product((-1, 1), repeat=2):          # data set used to fit A and B beforehand
            for a in ops:
                yield (k, pre, (a,))
            for seq in itertools.product(ops, repeat=2):
                yield (k, pre, seq)
            for seq in D.thin(itertools.product(ops, repeat=3), 1500 if q else 20000):
                yield (k, pre, seq)


POWER = {'A': 1, 'B': 2, '-': 3}
_WANT = {}


def answers(k, nm, c, j, trained, Z):
    """predictions of classifier c, trained with one of the data sets (given predictions: with that of the quantifier)"""
    m = Echo(power=POWER[c]).fit(*data(k, j if c == '-' else trained))
    return m.predict(Z) if nm in ('CC', 'AC') else m.predict_proba(Z)


def wanted(k, nm, t, e, j, st, se, b):
    key = (k, nm, t, e, j, st, se, b)
    if key not in _WANT:
        Xj, yj = data(k, j)
        w = KINDS[nm]()
        w.fit(Xj, yj, **(dict(predictions_train=answers(k, nm, t, j, st, Xj)) if t else {}))
        _WANT[key] = np.array(w.predict(None, predictions_test=answers(k, nm, e, j, se, bag(b))))
    return _WANT[key]


def share_check(case, ob):
    k, pre, seq = case
    stubs.LOG[:] = []
    cl = dict(A=Echo(tag='A', power=1), B=Echo(tag='B', power=2))
    state = {}
    for c, p in zip('AB', pre):
        if p >= 0:
            cl[c].fit(*data(k, p))
            state[c] = p
    stubs.LOG[:] = []
    live = []
    for step, (name, tr, te, i) in enumerate(seq):
        X, y = data(k, i)
        what = 'classes %d, fitted beforehand %s, %s' % (k, pre, seq[:step + 1])
        kw = {}
        if tr in ('A', 'B'):
            kw['estimator_train'] = cl[tr]
        if te in ('A', 'B'):
            kw['estimator_test'] = cl[te]
        q = KINDS[name](**kw)
        before = log()
        P = Echo(power=3).fit(X, y).predict_proba(X) if tr == '-' else None
        q.fit(X, y, **(dict(predictions_train=P) if tr == '-' else {}))
        ob.op()
        expected = []
        for c in (tr, te):
            if c in ('A', 'B') and c not in state:
                state[c] = i
                expected.append(('fit', c, len(X)))
        new = log()[len(before):]
        ob.expect(new == expected, '%s: the classifiers received %s, expected %s', what, new, expected)
        live.append((name, tr, te, i, q))
        # every quantifier alive still answers with its own classifiers
        for nm, t, e, j, qq in live:
            for b in range(2):
                given = dict(predictions_test=answers(k, nm, '-', j, None, bag(b))) if e == '-' else {}
                p = qq.predict(bag(b), **given)
                ob.op()
                ob.close(p, wanted(k, nm, t, e, j, state.get(t), state.get(e), b), 1e-7,
                         '%s: %s on bag %d' % (what, (nm, t, e, j), b))
                ob.state(p)
        ob.expect(log()[len(before):] == expected, '%s: predict trained a classifier: %s', what, log())
        for c in state:
            ob.expect(cl[c].X_.shape == data(k, state[c])[0].shape and np.array_equal(cl[c].X_, data(k, state[c])[0])
                      and np.array_equal(cl[c].y_, data(k, state[c])[1]), '%s: classifier %s trained with other data', what, c)


# --- refits of the same quantifier and of decompositions
def refit_cases(tier):
    for s in specs():
        for k in (2, 3):
            if s.kmin <= k <= s.kmax:
                for same in (0, 1):
                    for seq in itertools.product(range(2), repeat=3):
                        yield (s.name, k, same) + seq


def refit_check(case, ob):
    name, k, same = case[:3]
    seq = case[3:]
    s = zoo.BY_NAME[name]
    stubs.LOG[:] = []
    q = s.make()
    e2 = wrapped(s, 2)
    e1 = e2 if same else wrapped(s, 1)
    q.set_params(estimator_test=e2)
    has = 'estimator_train' in q.get_params(deep=False)
    if has:
        q.set_params(estimator_train=e1)
    models = 1 if not name.startswith(('OVR', 'FH')) else k - 1 if name.startswith('FH') else k
    total = models * (2 if has and not same else 1)
    for step, i in enumerate(seq):
        X, y = data(k, i)
        q.fit(X, y)
        ob.op()
        ob.expect(len(log()) == total, '%s fitted with %s: its classifiers were fitted %d times, expected %d', name,
                  seq[:step + 1], len(log()), total)
        X0, y0 = data(k, seq[0])
        w = s.make()
        w.fit(X, y, **(dict(predictions_train=predictions(s, 2 if same else 1, X0, y0, X)) if has else {}))
        for b in range(2):
            r, p = call(q.predict, bag(b))
            ob.op()
            r2, p2 = call(w.predict, None, predictions_test=predictions(s, 2, X0, y0, bag(b)))
            if r == 'exc' or r2 == 'exc':
                ob.expect(r == r2 and type(p) is type(p2), '%s fitted with %s: %r, expected %r', name, seq[:step + 1], p, p2)
                continue
            ob.state(p)
            ob.close(p, p2, 1e-7, '%s fitted with %s, bag %d' % (name, seq[:step + 1], b))
    ob.expect(len(log()) == total, '%s: predict trained a classifier', name)


FAMILIES = [Family('ways', way_cases, way_check, 'every quantifier with classifiers x training and test predictions given by '
                   'classifiers, directly, or both x classifiers fitted before or not x label sets'),
            Family('refusals', refuse_cases, refuse_check, 'every quantifier without the predictions it needs'),
            Family('sharing', share_cases, share_check, 'all the histories of 1-2 quantifiers (and many of 3) that share two '
                   'classifiers, fitted beforehand or not, over two data sets'),
            Family('refits', refit_cases, refit_check, 'every quantifier fitted three times with all the sequences of two data '
                   'sets, one or two classifiers')]
