"""Every quantifier of the library, in its configurations, on one common finite domain.

A problem is a set of labelled rows of class probabilities. Each quantifier receives it in its own format: the probabilities,
the predicted classes, the probabilities of the binary problems of a decomposition, or features derived from the rows."""
import itertools

import numpy as np
from quantificationlib.bag_generator import BagGenerator, PriorShift_BagGenerator
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.metrics import multiclass as M
from quantificationlib.multiclass.df import DFX, DFy, HDX, HDy, MMy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import CvMy, EDX, EDy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.knn import PWKQuantifier
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from quantificationlib.ordinal.pdf import PDFOrdinaly
from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances

from mc import domains as D
from mc.stubs import Lin


class FixedBags(BagGenerator):
    """bags: every rotation of the training set without its last examples, so each bag is different"""

    def __init__(self, n_bags=6):
        self.n_bags = n_bags

    def generate_bags(self, X, y):
        n = len(y)
        classes = np.unique(y)
        idx = np.array([[(b * (b + 1) // 2 + i * (1 + b % 2)) % n for b in range(self.n_bags)] for i in range(max(1, n - 1))])
        prev = np.array([[(y[idx[:, b]] == c).mean() for b in range(self.n_bags)] for c in classes])
        return prev, idx


class Spec:
    """kind: 'prob' | 'crisp' | 'x' (features) | 'left' (probabilities of the left groups)
    loss: 'closed' (formula or iteration), 'L1', 'L2', 'HD' (solvers), 'search', 'reg'
    order: the order of the classes is meaningful
    slow: uses cvxpy"""

    def __init__(self, name, make, kind, loss='closed', kmin=2, kmax=9, order=False, refuse=(), joint=False):
        self.name, self.make, self.kind, self.loss = name, make, kind, loss
        self.kmin, self.kmax, self.order, self.refuse, self.joint = kmin, kmax, order, refuse, joint
        self.slow = loss in ('L1', 'HD', 'search')
        self.tol = {'closed': 1e-9, 'L2': 1e-6, 'L1': 1e-4, 'HD': 2e-3, 'search': 1e-4, 'reg': 1e-6}[loss]

    def __repr__(self):
        return self.name

    # --- the data in the format of the quantifier
    def train(self, labels, y, P):
        lab = np.array(labels)[list(y)]
        if self.kind == 'x':
            return dict(X=feats(P), y=lab)
        return dict(X=np.zeros((len(lab), 1)), y=lab, predictions_train=self.preds(labels, P))

    def preds(self, labels, P):
        if self.kind == 'crisp':
            return np.array(labels)[P.argmax(axis=1)]
        if self.kind == 'left':
            return np.cumsum(P, axis=1)[:, :-1]
        return P

    def fit(self, q, labels, y, P):
        return q.fit(**self.train(labels, y, P))

    def predict(self, q, labels, P):
        if self.kind == 'x':
            return q.predict(feats(P))
        return q.predict(None, predictions_test=self.preds(labels, P))


def feats(P):
    return P[:, :max(1, P.shape[1] - 1)].copy()


FUNCS = dict(hd=M.hd, l1=M.l1, l2=M.l2, topsoe=M.topsoe)
SPECS = []


def S(name, make, kind, loss='closed', **k):
    SPECS.append(Spec(name, make, kind, loss, **k))


S('CC', CC, 'crisp')
S('PCC', PCC, 'prob')
for _d in ('HD', 'L1', 'L2'):
    S('AC-' + _d, lambda d=_d: AC(distance=d), 'crisp', _d)
    S('PAC-' + _d, lambda d=_d: PAC(distance=d), 'prob', _d)
for _d in ('L2', 'HD', 'L1'):
    for _f in ('PDF', 'CDF'):
        S('DFy-%s-%s' % (_f, _d), lambda d=_d, f=_f: DFy(distribution_function=f, distance=d, n_bins=4), 'prob', _d)
        S('DFX-%s-%s' % (_f, _d), lambda d=_d, f=_f: DFX(distribution_function=f, distance=d, n_bins=4), 'x', _d)
for _s in ('equal_count', 'normal', 'binormal'):
    for _n in (1, 2, 5):
        _k = dict(kmax=2 if _s == 'binormal' else 9)
        S('DFy-%s-%d' % (_s, _n), lambda s=_s, n=_n: DFy(bin_strategy=s, n_bins=n, distance='L2'), 'prob', 'L2', **_k)
        S('DFX-%s-%d' % (_s, _n), lambda s=_s, n=_n: DFX(bin_strategy=s, n_bins=n, distance='L2'), 'x', 'L2', **_k)
for _d in sorted(FUNCS):
    S('DFy-' + _d, lambda d=_d: DFy(distance=FUNCS[d], n_bins=4), 'prob', 'search', kmax=2, refuse=(ValueError,))
    S('DFX-' + _d, lambda d=_d: DFX(distance=FUNCS[d], n_bins=4), 'x', 'search', kmax=2, refuse=(ValueError,))
    S('FriedmanME-' + _d, lambda d=_d: FriedmanME(distance=FUNCS[d]), 'prob', 'search', kmax=2, refuse=(ValueError,))
    if _d in ('l1', 'l2'):
        S('QUANTy-' + _d, lambda d=_d: QUANTy(distance=FUNCS[d]), 'prob', 'search', kmax=2, refuse=(ValueError,))
S('QUANTy-3', lambda: QUANTy(n_quantiles=3), 'prob', 'search', kmax=2, refuse=(ValueError,))
S('QUANTy-1', lambda: QUANTy(n_quantiles=1), 'prob', 'search', kmax=2, refuse=(ValueError,))
S('SORDy', SORDy, 'prob', 'search', kmax=2)
S('DeBias', DeBias, 'prob', kmax=2)
S('HDy', HDy, 'prob', 'HD')
S('HDX', HDX, 'x', 'HD')
S('MMy', MMy, 'prob', 'L1')
for _d in ('L2', 'HD', 'L1'):
    S('FriedmanME-' + _d, lambda d=_d: FriedmanME(distance=d), 'prob', _d)
S('EM', EM, 'prob', 'reg')
S('EDy', EDy, 'prob', 'L2')
S('EDy-euclidean', lambda: EDy(distance=euclidean_distances), 'prob', 'L2')
S('CvMy', CvMy, 'prob', 'L2', joint=True)
S('EDX', EDX, 'x', 'L2')
S('EDX-manhattan', lambda: EDX(distance=manhattan_distances), 'x', 'L2')
S('PWK-1', lambda: PWKQuantifier(n_neighbors=1), 'x', 'L1', joint=True)
S('PWK-2', lambda: PWKQuantifier(n_neighbors=2, p=1), 'x', 'L1', joint=True)
S('REGy-lin', lambda: REGy(bag_generator=FixedBags(), n_bins=4, regression_estimator=Lin()), 'prob', 'reg',
  refuse=(ValueError,), joint=True)
S('REGX-lin', lambda: REGX(bag_generator=FixedBags(), n_bins=4, regression_estimator=Lin()), 'x', 'reg',
  refuse=(ValueError,), joint=True)
S('REGy-glm', lambda: REGy(bag_generator=PriorShift_BagGenerator(n_bags=12, bag_size=8, random_state=3), n_bins=2), 'prob',
  'reg', joint=True)
S('REGX-glm', lambda: REGX(bag_generator=PriorShift_BagGenerator(n_bags=12, bag_size=8, random_state=3), n_bins=2), 'x',
  'reg', joint=True)
S('ACOrdinal', ACOrdinal, 'crisp', 'L1', order=True)
for _d in ('L2', 'HD', 'EMD'):
    for _m in ('full_probabilistic', 'winner_node'):
        S('PDFOrdinaly-%s-%s' % (_d, _m[:4]), lambda d=_d, m=_m: PDFOrdinaly(n_bins=3, distance=d, method=m), 'prob',
          'L1' if _d == 'EMD' else _d, kmin=3, order=True)
for _b, _q, _l in (('AC', AC, 'closed'), ('PAC', PAC, 'closed'), ('CC', CC, 'closed'), ('DFy-L2', lambda: DFy(
        distance='L2', n_bins=4), 'L2'), ('EDy', EDy, 'L2'), ('EM', EM, 'reg'), ('HDy', lambda: HDy(n_bins=4), 'HD'),
        ('DeBias', DeBias, 'closed')):
    S('OVR-' + _b, lambda q=_q: OneVsRestQuantifier(q()), 'prob', _l, kmin=3)
    S('FH-' + _b, lambda q=_q: FrankAndHallQuantifier(q()), 'left', _l, kmin=3, order=True)
for _b, _q, _l in (('EDX', EDX, 'L2'), ('DFX-L2', lambda: DFX(distance='L2', n_bins=4), 'L2')):
    S('OVR-' + _b, lambda q=_q: OneVsRestQuantifier(q()), 'x', _l, kmin=3)
    S('FH-' + _b, lambda q=_q: FrankAndHallQuantifier(q()), 'x', _l, kmin=3, order=True)


class EoQFixed(EoQ):
    """EoQ whose bags are given explicitly: the training set without its i-th example when every class remains"""

    def fit(self, X, y, predictions_train=None):
        n = len(y)
        idx = []
        for i in range(n):
            keep = [j for j in range(n) if j != i]
            if len(set(y[keep])) < len(set(y)):
                keep = keep[:i] + [i] + keep[i:]
            idx.append((keep + [i])[:n] if len(keep) < n else keep)
        idx = np.array(idx).T
        prev = np.array([[(y[idx[:, b]] == c).mean() for b in range(n)] for c in np.unique(y)])
        self.n_quantifiers = n
        return super().fit(X, y, predictions_train=predictions_train, prevalences=prev, indexes=idx)


for _b, _q, _kd, _l in (('PAC', PAC, 'prob', 'L2'), ('CC', CC, 'crisp', 'closed'), ('DFy-L2', lambda: DFy(
        distance='L2', n_bins=4), 'prob', 'L2'), ('EDX', EDX, 'x', 'L2')):
    for _c in ('mean', 'median', 'prevalence_similarity', 'distribution_similarity'):
        if (_kd, _c) != ('crisp', 'distribution_similarity'):
            S('EoQ-%s-%s' % (_b, _c[:5]), lambda q=_q, c=_c: EoQFixed(base_quantifier=q(), combination_strategy=c, n_bins=5),
              _kd, _l, joint=True)

BY_NAME = {s.name: s for s in SPECS}
assert len(BY_NAME) == len(SPECS)


def rows(k, d):
    return np.array(D.simplex(k, d), dtype=float) / d


# --- problems: (k, d, labels of the training examples, rows of the training examples)
def problems(k, d, n, limit=None):
    """all the problems with n examples (or limit of them, evenly spread; they are numbered, never listed)"""
    R = len(D.simplex(k, d))
    ys = D.surjections(n, k)
    total = len(ys) * R ** n
    if limit is None or total <= limit:
        idx = range(total)
    else:
        idx = sorted({(i * (total - 1)) // (limit - 1) for i in range(limit)})
    res = []
    for i in idx:
        i, yi = divmod(i, len(ys))
        r = []
        for _ in range(n):
            i, v = divmod(i, R)
            r.append(v)
        res.append((k, d, ys[yi], tuple(reversed(r))))
    return res
