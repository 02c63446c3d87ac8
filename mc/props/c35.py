"""C35 mixtures of the training classes are recovered (Fisher consistency)."""
import itertools
import math

import numpy as np
from quantificationlib.binary.debias import DeBias
from quantificationlib.multiclass.em import EM

from mc import domains as D, zoo
from mc.core import Family, call
from mc.props.c02 import build
from mc.props.c03 import degenerate

ASSUMPTIONS = ['two of every three examples of each class are classified with certainty, so the classes are different enough '
               'for the problem to have only one solution',
               'methods that are not consistent by design are excluded: CC, PCC, regression over few bags, '
               'decompositions (the rest changes with the prevalences) and ensembles']
TOL = {'closed': 1e-7, 'L2': 2e-5, 'L1': 1e-4, 'HD': 1e-3, 'search': 3e-4}
NOT = ('CC', 'PCC', 'REG', 'OVR', 'FH', 'EoQ', 'EM', 'DeBias')


def consistent(s, k):
    return not s.name.startswith(NOT) and not degenerate(s, k)


def mix_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        n = len(D.simplex(k, 4))
        noises = list(itertools.product(range(n), repeat=k)) if k == 2 else [tuple((i * (c + 2) + c * c + i // n) % n
                                                                                 for c in range(k)) for i in range(4 * n)]
        for s in zoo.SPECS:
            if s.kmin <= k <= s.kmax and consistent(s, k):
                for nz in D.thin(noises, (4 if s.slow else 12) if q else (20 if s.slow else 140)):
                    for mult in ((1,) * k, (1, 3, 1, 2)[:k], (4,) + (1,) * (k - 1)):
                        yield (s.name, k, nz, mult)


def mix_check(case, ob):
    name, k, noise, mult = case
    s = zoo.BY_NAME[name]
    y, P = build(k, noise, mult, 4)
    labels = D.LABELS[k][sum(noise) % len(D.LABELS[k])]
    q = s.make()
    s.fit(q, labels, y, P)
    ob.op()
    # the whole sample of each class, repeated until all the classes have as many examples
    part = [np.vstack([P[[i for i in range(len(y)) if y[i] == c]]] * (math.lcm(*mult) // mult[c])) for c in range(k)]
    if s.name.startswith('PWK') and not separable(P, y):
        return
    if ('equal_count' in name or 'normal' in name) and np.linalg.svd(q.train_distrib_, compute_uv=False)[-1] < 0.15:
        return          # bins that merge the classes
    mixes = D.simplex(k, 4) if k < 4 else D.simplex(k, 3)
    for w in D.thin(mixes, 6 if s.slow else 35):
        bag = np.vstack([part[c] for c in range(k) for _ in range(w[c])])
        want = np.array(w) / sum(w)
        for o in (slice(None), slice(None, None, -1)):
            st, p = call(s.predict, q, labels, bag[o])
            ob.op()
            if st == 'exc':
                raise p
            ob.state(p)
            ob.close(np.asarray(p, float), want, TOL[s.loss], '%s, training labels %s rows %s, bag with %s times the examples of '
                     'each class' % (name, list(y), P.tolist(), w))


def separable(P, y):
    """no two examples of different classes with the same features (nearest neighbours would be tied)"""
    F = zoo.feats(P)
    return not any((F[i] == F[j]).all() for i in range(len(y)) for j in range(i) if y[i] != y[j])


# --- methods that are consistent when the posteriors are exact
def cal_cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        cells = 3 if k == 2 else 4
        rows = D.simplex(cells, 4) if k == 2 else [r for r in D.simplex(cells, 5) if max(r) >= 3]
        for i, t in enumerate(itertools.product(rows, repeat=k)):
            if k == 2 or i % (37 if q else 5) == 0:
                M = np.array(t, float)
                s = np.linalg.svd(M / M.sum(axis=1, keepdims=True), compute_uv=False)
                if s[-1] > 0.3:
                    for mult in ((1,) * k, (1, 3, 2)[:k]):
                        yield (k, t, mult)


def cal_check(case, ob):
    """values of the only feature 0..cells-1; counts[c][x] examples of class c with the value x"""
    k, counts, mult = case
    y = [c for c in range(k) for x in range(len(counts[c])) for _ in range(counts[c][x] * mult[c])]
    x = [x for c in range(k) for x in range(len(counts[c])) for _ in range(counts[c][x] * mult[c])]
    tot = np.array([[counts[c][v] * mult[c] for c in range(k)] for v in range(len(counts[0]))], float)
    post = tot / np.maximum(tot.sum(axis=1, keepdims=True), 1)
    labels = np.array(D.LABELS[k][0])
    for make in ([DeBias] if k == 2 else []) + [lambda: EM(epsilon=1e-12, max_iter=5000)]:
        q = make()
        q.fit(X=np.zeros((len(y), 1)), y=labels[y], predictions_train=post[x])
        ob.op()
        for w in D.simplex(k, 3):
            if isinstance(q, EM) and min(w) == 0:
                continue        # convergence to the border is slow
            b = [v for c in range(k) for v in range(len(counts[c])) for _ in range(counts[c][v] * w[c])]
            p = q.predict(None, predictions_test=post[b])
            ob.op()
            ob.state(p)
            ob.close(np.asarray(p, float), np.array(w) / sum(w), 1e-7 if isinstance(q, DeBias) else 1e-3,
                     '%s, examples of each class with each posterior %s times %s, bag with %s times the classes' % (
                         type(q).__name__, counts, mult, w))


# --- many classes, many examples
MANY = {2: [(-1, 1), (7, 1000)], 5: [(-3, -2, 0, 5, 70), ('a', 'b', 'c', 'd', 'e')],
        7: [tuple(range(7)), ('1', '10', '2', '20', '3', '4', '5')], 11: [tuple(range(-5, 6)), tuple('k%02d' % i for i in range(11))]}


def many_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        for k in (2, 5, 7, 11):
            if s.kmin <= k <= s.kmax and (consistent(s, k) or s.name.startswith('EoQ-PAC')) and not (
                    k > 2 and s.name.startswith(('DFy-equal_count', 'DFX-equal_count', 'DFX-normal', 'DFy-normal'))):
                for big in ((1, 1), (40, 30)) if k < 11 or not q else ((8, 20),):
                    for v in range(1 if q else 3):
                        yield (s.name, k, big[0], big[1], v)


def many_check(case, ob):
    """class c: two certain examples and one that the next class shares"""
    name, k, times, rep, v = case
    s = zoo.BY_NAME[name]
    eye = np.eye(k)
    y = [c for c in range(k) for _ in range(3)] * times
    P = np.array([r for c in range(k) for r in (eye[c], eye[c], (eye[c] + 3 * eye[(c + 1 + v) % k]) / 4)] * times)
    order = sorted(range(len(y)), key=lambda i: (i * 7919) % 10007)
    P, y = P[order], [y[i] for i in order]
    for labels in MANY[k]:
        q = s.make()
        s.fit(q, labels, y, P)
        ob.op()
        if s.name.startswith('PWK') and not separable(P[:3 * k], y[:3 * k]):
            return
        for w in ([1] * k, [c % 3 for c in range(k)], [(c + 1) % k * (c % 2) for c in range(k)], [0] * (k - 1) + [1]):
            if not sum(w):
                continue
            bag = np.vstack([P[[i for i in range(len(y)) if y[i] == c][:3 if times == 1 else None]] for c in range(k)
                             for _ in range(w[c])] * (rep if times == 1 else 2))
            p = s.predict(q, labels, bag)
            ob.op()
            ob.state(p)
            ob.close(np.asarray(p, float), np.array(w) / sum(w), TOL[s.loss], '%s, %d classes, %d training examples, bag of %d '
                     'examples with %s times the examples of each class' % (name, k, len(y), len(bag), w))


FAMILIES = [
    Family('mixtures', mix_cases, mix_check, 'consistent quantifiers x problems of 2-4 classes x all the mixtures of 3-4 parts'),
    Family('many', many_cases, many_check, 'up to 11 classes, hundreds of examples and bags of thousands'),
    Family('posteriors', cal_cases, cal_check, 'EM and DeBias with the exact posteriors of every small sample'),
]
