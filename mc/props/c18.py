"""C18 quantification as regression over bags: REGX and REGy."""
import itertools

import numpy as np
import statsmodels.api as sm
from sklearn.linear_model import LinearRegression
from quantificationlib.bag_generator import CovariateShift_BagGenerator, PriorShift_BagGenerator
from quantificationlib.multiclass.regression import REGX, REGy

from mc import domains as D, large, refs
from mc.core import Family, call
from mc.stubs import Lin

ASSUMPTIONS = ['the default regressor is the binomial GLM of statsmodels, whose fit is trusted']


class FixedBags:
    """a bag generator whose bags are decided by the harness"""

    def __init__(self, bags, y, classes, random_state=None):
        self.n_bags = len(bags)
        self.bags, self.y, self.classes = bags, y, classes

    def generate_bags(self, X, y):
        idx = np.array(self.bags, dtype=np.uint32).T
        prev = np.array([[np.mean(np.array(self.y)[list(b)] == c) for b in self.bags] for c in self.classes])
        return prev, idx


class Nested(Lin):
    """its coefficients are in an object inside it: the copies must not share it"""

    def __init__(self, tag=None):
        super().__init__(tag)
        self.learned_ = {}

    def fit(self, X, y):
        super().fit(X, y)
        self.learned_['w'] = self.w_
        return self

    def predict(self, X):
        return np.asarray(X, dtype=float).dot(self.learned_['w'])


REGRESSORS = {'lin': Nested, 'lr': LinearRegression, 'glm': lambda: None}


def reference(Z, y, classes, bags, cuts, bag, reg):
    """prevalences according to the documentation (before the normalisation)"""
    rep = lambda M: np.concatenate([refs.represent(M[:, f], cuts[f]) for f in range(M.shape[1])])
    R = np.array([rep(Z[list(b)]) for b in bags])
    Y = np.array([[np.mean(y[list(b)] == c) for c in classes] for b in bags])
    t = rep(bag)
    cols = [1] if len(classes) == 2 else range(len(classes))
    out = []
    for c in cols:
        if reg == 'glm':
            m = sm.GLM(endog=Y[:, c], exog=R, family=sm.families.Binomial())
            out.append(float(np.ravel(m.predict(params=m.fit().params, exog=t.reshape(1, -1)))[0]))
        else:
            out.append(float(np.ravel(REGRESSORS[reg]().fit(R, Y[:, c]).predict(t.reshape(1, -1)))[0]))
    if len(classes) == 2:
        out = [1 - out[0], out[0]]
    return np.clip(out, 0, 1)


def judge(ob, q, args, kw, ref, k, what, reg):
    st, p = call(q.predict, *args, **kw)
    ob.op()
    if ref.sum() < 1e-9 or st == 'exc':
        ob.expect(st == 'exc' and isinstance(p, ValueError) and ref.sum() < 1e-6 or (st == 'ok' and ref.sum() > 0),
                  '%s: %r, expected %s', what, p, ref)
        ob.state('refused')
        return
    ob.distribution(p, k, what, 1e-9)
    if ref.sum() > 1e-6:
        ob.close(p, ref / ref.sum(), 1e-4 if reg == 'glm' else 1e-7, what)
    ob.state(p)


POINTS = [(0, 1), (1, 6), (3, 2), (4, 5), (7, 3), (8, 8)]
BAGS = [[(0, 1)], [(3, 2), (9, 9)], [(1, 6), (1, 6), (7, 3), (4, 0)]]


def usable(cols, cuts, exact):
    """no value so close to a cut point that rounding decides"""
    if any(c is None for c in cuts):
        return False
    return exact or all(refs.margin(v, c) > 1e-9 for v, c in zip(cols, cuts))


def bag_sets(n, y, tier):
    """sets of bags over n examples"""
    q = tier == 'quick'
    pairs = list(itertools.combinations_with_replacement(range(n), 2))
    two = list(itertools.combinations(pairs, 2))
    three = list(itertools.combinations(pairs, 3))
    four = [tuple(itertools.islice(itertools.cycle(pairs), s, s + 4)) for s in range(len(pairs))]
    return D.thin(two, 12 if q else 40) + D.thin(three, 12 if q else 60) + (four if not q else D.thin(four, 8))


def x_cases(tier):
    q = tier == 'quick'
    for k, y in ((2, (0, 1, 1, 0)), (2, (1, 1, 0, 0, 1)), (3, (2, 0, 1, 1)), (3, (0, 0, 1, 2, 2)), (4, (3, 1, 0, 2, 2))):
        for nb, st in ((2, 'normal'), (4, 'equal_width'), (3, 'equal_count'), (8, 'normal'), (2, 'binormal')):
            if st == 'binormal' and k > 2:
                continue
            for nf in (1, 2):
                for reg in ('lin', 'lr', 'glm'):
                    bs = bag_sets(len(y), y, tier)
                    for b in D.thin(bs, 6 if q and reg == 'glm' else 14) if q else bs:
                        yield (k, y, nb, st, nf, reg, b)


def x_check(case, ob):
    k, yy, nb, st, nf, reg, bags = case
    classes = D.LABELS[k][(nb + nf) % len(D.LABELS[k])]
    y = np.array(classes)[list(yy)]
    X = np.array([p[:nf] for p in POINTS[:len(yy)]], dtype=float)
    cuts = [refs.inner_cuts(X[:, f], list(y), classes, nb, st) for f in range(nf)]
    vals = [list(X[:, f]) + [float(v[f]) for b in BAGS for v in b] for f in range(nf)]
    if not usable(vals, cuts, False):
        return
    q = REGX(bag_generator=FixedBags(bags, y, classes), n_bins=nb, bin_strategy=st, regression_estimator=REGRESSORS[reg]())
    q.fit(X, y)
    ob.op()
    ob.expect(reg != 'lin' or not q.regression_estimator.learned_, 'the regressor given was fitted')
    for b in BAGS:
        B = np.array([v[:nf] for v in b], dtype=float)
        ref = reference(X, y, classes, bags, cuts, B, reg)
        judge(ob, q, (B,), {}, ref, k, 'REGX(%s, %d %s bins) y %s bags %s, bag %s' % (reg, nb, st, list(y), bags, b), reg)


PR = {2: [(0.9, 0.1), (0.7, 0.3), (0.45, 0.55), (0.2, 0.8), (1.0, 0.0), (0.0, 1.0)],
      3: [(0.8, 0.1, 0.1), (0.3, 0.6, 0.1), (0.2, 0.2, 0.6), (0.4, 0.3, 0.3), (0.0, 1.0, 0.0), (0.1, 0.0, 0.9)],
      4: [(0.7, 0.1, 0.1, 0.1), (0.1, 0.6, 0.2, 0.1), (0.3, 0.3, 0.4, 0.0), (0.0, 0.1, 0.2, 0.7), (0.2, 0.3, 0.1, 0.4),
          (1.0, 0.0, 0.0, 0.0)]}


def y_cases(tier):
    q = tier == 'quick'
    for k, y in ((2, (0, 1, 1, 0)), (2, (1, 1, 0, 0, 1)), (3, (2, 0, 1, 1)), (3, (0, 0, 1, 2, 2)), (4, (3, 1, 0, 2, 2))):
        for nb, st in ((2, 'equal_width'), (4, 'equal_width'), (3, 'equal_count'), (8, 'equal_width'), (2, 'normal')):
            for reg in ('lin', 'lr', 'glm'):
                bs = bag_sets(len(y), y, tier)
                for b in D.thin(bs, 8 if q and reg == 'glm' else 16) if q else bs:
                    yield (k, y, nb, st, reg, b)


def y_check(case, ob):
    k, yy, nb, st, reg, bags = case
    classes = D.LABELS[k][nb % len(D.LABELS[k])]
    y = np.array(classes)[list(yy)]
    P = np.array(PR[k][:len(yy)])
    Z = P[:, :1] if k == 2 else P
    tests = [(0,), (5, 1), (4, 5, 5, 2)]
    cuts = [refs.inner_cuts(Z[:, f], list(y), classes, nb, st, rng=(0, 1)) for f in range(Z.shape[1])]
    vals = [list(Z[:, f]) + [p[f] for p in PR[k]] for f in range(Z.shape[1])]
    if not usable(vals, cuts, False):
        return
    q = REGy(bag_generator=FixedBags(bags, y, classes), n_bins=nb, bin_strategy=st, regression_estimator=REGRESSORS[reg]())
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    ob.op()
    ob.expect(reg != 'lin' or not q.regression_estimator.learned_, 'the regressor given was fitted')
    for b in tests:
        B = np.array([PR[k][i] for i in b])
        ref = reference(Z, y, classes, bags, cuts, B[:, :1] if k == 2 else B, reg)
        judge(ob, q, (None,), dict(predictions_test=B), ref, k,
              'REGy(%s, %d %s bins) y %s bags %s, bag %s' % (reg, nb, st, list(y), bags, b), reg)


# --- bags of the generators of the library: what is learned is the relation between bags and their prevalences
def gen_cases(tier):
    q = tier == 'quick'
    for gen in ('prior', 'covariate'):
        for m in ('REGX', 'REGy'):
            for k in (2, 3, 4):
                for reg in ('lr', 'glm'):
                    for seed in range(4 if q else 25):
                        yield (gen, m, k, reg, seed)


def gen_check(case, ob):
    gen, m, k, reg, seed = case
    G = PriorShift_BagGenerator if gen == 'prior' else CovariateShift_BagGenerator
    mk = lambda: G(n_bags=20 + seed, bag_size=8, random_state=seed)
    classes = D.LABELS[k][seed % len(D.LABELS[k])]
    idx = [0, 2, 1, 3, 5, 4, 0, 3] if k < 4 else [0, 1, 2, 3, 4, 2, 0, 3]
    P = np.array([PR[k][i] for i in idx])
    y = np.array(classes)[P.argmax(axis=1)]
    y[:k] = classes
    if m == 'REGX':
        q = REGX(bag_generator=mk(), n_bins=4, bin_strategy='equal_width', regression_estimator=REGRESSORS[reg]())
        q.fit(P, y)
        Z, rng = P, None
    else:
        q = REGy(bag_generator=mk(), n_bins=4, bin_strategy='equal_width', regression_estimator=REGRESSORS[reg]())
        q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
        Z, rng = (P[:, :1] if k == 2 else P), (0, 1)
    cuts = [refs.inner_cuts(Z[:, f], list(y), classes, 4, 'equal_width', rng=rng) for f in range(Z.shape[1])]
    if not usable([list(Z[:, f]) for f in range(Z.shape[1])], cuts, False):
        return
    ob.op()
    bags = [tuple(int(v) for v in b) for b in mk().generate_bags(Z, y)[1].T]
    for b in ((0, 1), (2, 2, 3), (5, 4, 1, 0)):
        B = np.array([PR[k][i] for i in b])
        ref = reference(Z, y, classes, bags, cuts, B if m == 'REGX' or k > 2 else B[:, :1], reg)
        args, kw = ((B,), {}) if m == 'REGX' else ((None,), dict(predictions_test=B))
        judge(ob, q, args, kw, ref, k, '%s %s' % (case, b), reg)


# --- many classes, bags and bins
def large_cases(tier):
    q = tier == 'quick'
    for m in ('REGX', 'REGy'):
        for k in (2, 3, 8):
            for nbags, size in ((30, 20), (250, 60)):
                for nb, st in ((8, 'equal_width'), (16, 'equal_count'), (30, 'normal')) + (((8, 'binormal'),) if k == 2 else ()):
                    for reg in ('lin', 'lr') + (('glm',) if nb == 8 and k < 4 else ()):
                        for nf in (1, 5) if m == 'REGX' else (0,):
                            for seed in range(1 if q else 5):
                                yield (m, k, nbags, size, nb, st, reg, nf, seed)


def large_check(case, ob):
    m, k, nbags, size, nb, st, reg, nf, seed = case
    g = large.Gen(seed + nbags)
    classes = large.labels(k, (seed + nb) % 4)
    yi, Z = large.features(k, 150, nf, seed) if m == 'REGX' else large.problem(k, 150, seed, 1 << 20)
    if m == 'REGX':
        Z = Z + 0.001 * np.array([[g(500) for _ in range(nf)] for _ in range(len(yi))])
    y = np.array(classes)[yi]
    by = [np.where(yi == c)[0] for c in range(k)]
    bags = []
    for _ in range(nbags):
        w = [c for c in range(k) for _ in range(g(6))] or [0]
        bags.append(tuple(int(by[c][g(len(by[c]))]) for c in (w[g(len(w))] for _ in range(size))))
    mk = dict(bag_generator=FixedBags(bags, y, classes), n_bins=nb, bin_strategy=st, regression_estimator=REGRESSORS[reg]())
    used = Z[:, :1] if m == 'REGy' and k == 2 else Z
    cuts = [refs.inner_cuts(used[:, f], list(y), classes, nb, st, rng=(0, 1) if m == 'REGy' else None) for f in range(used.shape[1])]
    if m == 'REGX':
        q = REGX(**mk)
        q.fit(Z, y)
    else:
        q = REGy(**mk)
        q.fit(np.zeros((len(y), 1)), y, predictions_train=Z)
    ob.op()
    for b in (1, 20, 300):
        B = large.feature_bag(k, b, nf, seed) + 0.0003 if m == 'REGX' else large.bag(k, b, seed, 1 << 20)
        U = B[:, :1] if m == 'REGy' and k == 2 else B
        if not usable([list(used[:, f]) + list(U[:, f]) for f in range(used.shape[1])], cuts, False):
            continue
        ref = reference(used, y, classes, bags, cuts, U, reg)
        args, kw = ((B,), {}) if m == 'REGX' else ((None,), dict(predictions_test=B))
        judge(ob, q, args, kw, ref, k, '%s(%s, %d %s bins) %d classes, %d bags of %d, bag of %d' % (m, reg, nb, st, k, nbags, size, b), reg)


FAMILIES = [
    Family('features', x_cases, x_check, 'sets of 2-4 bags over 4-5 examples, 2-4 classes, 5 binnings, 3 regressors'),
    Family('predictions', y_cases, y_check, 'sets of 2-4 bags over 4-5 examples, 2-4 classes, 5 binnings, 3 regressors'),
    Family('generators', gen_cases, gen_check, 'bags of the prior and covariate shift generators, several seeds'),
    Family('large', large_cases, large_check, '2-8 classes, 150 examples, 30-250 bags of 20-60 examples, 8-30 bins')]
