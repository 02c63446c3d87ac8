"""C24 ensembles of quantifiers (EoQ)."""
import itertools

import numpy as np
from quantificationlib.bag_generator import BagGenerator
from quantificationlib.base import WithoutClassifiers
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import EDX, EDy
from sklearn.exceptions import NotFittedError

from mc import domains as D, large, refs
from mc.core import CheckFailed, Family, call
from mc.stubs import Echo, Through

ASSUMPTIONS = ['when several members are equally similar any of them may be selected',
               'the base quantifiers are checked by their own properties', 'every bag has examples of every class, except in '
               'the family missing_class']


class Bags(BagGenerator):
    """bag generator whose bags are decided by the harness"""

    def __init__(self, bags, prevalences):
        self.bags, self.prev = bags, prevalences
        self.n_bags = None

    def generate_bags(self, X, y):
        if self.n_bags != len(self.bags):
            raise CheckFailed('%s bags requested, expected %d' % (self.n_bags, len(self.bags)))
        return self.prev, np.array(self.bags, dtype=np.uint32).T


class Decided(WithoutClassifiers):
    """member that recognises its bag (first feature of the examples) and answers what the harness decided"""

    def __init__(self, answers=None):
        super().__init__()
        self.answers = answers
        self.learned_ = {}        # nested, as the objects that many models contain: the copies must not share it

    def fit(self, X, y):
        key = tuple(int(v) for v in np.asarray(X)[:, 0]), tuple(str(v) for v in y)
        if key not in self.answers:
            raise CheckFailed('a member is fitted with %s, expected one of %s' % (key, sorted(self.answers)))
        self.learned_['key'] = key
        return self

    def predict(self, X):
        return np.array(self.answers[self.learned_['key']], dtype=float)


def norm(v):
    return [a / sum(v) for a in v]


def avg(P):
    return [sum(c) / len(P) for c in zip(*P)]


def med(P):
    res = []
    for c in zip(*P):
        s = sorted(c)
        n = len(s)
        res.append(s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2)
    return res


def best(score, n):
    """positions of the n smallest, None when the selection is ambiguous"""
    o = sorted(range(len(score)), key=lambda i: score[i])
    if n < len(o) and score[o[n]] - score[o[n - 1]] < 1e-9:
        return None
    return o[:n]


def n_selected(nq, pct):
    return max(1, round(nq * pct))


def combine(P, strategy, pct, dists):
    """P: prevalences of the members; dists: distance of each bag to the test bag. None when ambiguous"""
    n = n_selected(len(P), pct)
    if strategy == 'mean':
        return norm(avg(P))
    if strategy == 'median':
        m = med(P)
        return norm(m) if sum(m) > 0 else norm(avg(P))
    if strategy == 'prevalence_similarity':
        m = avg(P)
        s = best([sum(abs(a - b) for a, b in zip(r, m)) / len(m) for r in P], n)
    else:
        s = best(dists, n)
    return None if s is None else norm(avg([P[i] for i in s]))


STRATS = ('mean', 'median', 'prevalence_similarity', 'distribution_similarity', 'all')


def judge(ob, p, P, strategy, pct, dists, what):
    k = len(P[0])
    if strategy == 'all':
        want = {s: combine(P, s, pct, dists) for s in STRATS[:4]}
        ob.expect(isinstance(p, dict) and set(p) == set(STRATS), '%s: %s', what, p)
        for s in STRATS[:4]:
            ob.distribution(p[s], k, what + ' ' + s, 1e-9)
            if want[s] is not None:
                ob.close(p[s], want[s], 1e-9, '%s: %s of %s' % (what, s, P))
        ob.close(p['all'], avg([p[s] for s in STRATS[:4]]), 1e-9, what + ': all')
        ob.state([p[s] for s in STRATS])
    else:
        ob.distribution(p, k, what, 1e-9)
        want = combine(P, strategy, pct, dists)
        if want is not None:
            ob.close(p, want, 1e-9, '%s: %s of %s' % (what, strategy, P))
        ob.state(p)


# --- members decided by the harness
XS = [(0, 3.2), (1, 1.0), (2, 7.0), (3, 2.5), (4, 5.1)]
BAGX = [(0, 1), (2, 3), (3, 4), (1, 2), (0, 4)]
TEST = [[(0, 3.3), (9, 1.5)], [(4, 6.5)], [(2, 7.0), (3, 2.0), (-5, 5.5)]]


def comb_cases(tier):
    q = tier == 'quick'
    for k, d, nq in ((2, 4, 1), (2, 4, 2), (2, 4, 3), (2, 3, 4), (2, 2, 5), (3, 2, 2), (3, 2, 3), (3, 2, 4), (4, 1, 3)):
        S = D.simplex(k, d)
        sp = list(itertools.product(S, repeat=nq))
        for P in D.thin(sp, 60 if q else 1200):
            for s in STRATS:
                for pct in (0.5, 0.2, 1.0) if s not in ('mean', 'median') else (0.5,):
                    for df in ('PDF', 'CDF') if s in STRATS[3:] else ('PDF',):
                        yield (k, d, P, s, pct, df)


def hist_dist(train_bags, test, cuts, cdf):
    """euclidean distance between the representation of each bag and that of the test bag; one column per descriptor"""
    rep = lambda M: np.concatenate([refs.represent(M[:, f], cuts[f], cdf) for f in range(M.shape[1])])
    t = rep(test)
    return [float(np.sqrt(((rep(b) - t) ** 2).sum())) for b in train_bags]


def comb_check(case, ob):
    k, d, P, s, pct, df = case
    nq = len(P)
    P = [[v / d for v in r] for r in P]
    y = [i % k for i in range(5)]
    labels = D.LABELS[k][(nq + d) % len(D.LABELS[k])]
    yl = np.array(labels)[y]
    X = np.array(XS, dtype=float)
    bags = BAGX[:nq]
    prev = np.zeros((k, nq))
    nb = 4 if nq % 2 else 3
    answers = {(b, tuple(str(yl[i]) for i in b)): r for b, r in zip(bags, P)}
    kw = dict(n_quantifiers=nq, combination_strategy=s, percentage_of_selected_models=pct, distribution_function=df,
              n_bins=nb)
    given = (nq + int(4 * pct)) % 2
    e = EoQ(Decided(answers), bag_generator=Bags(bags, prev), **kw)
    if given:
        e.fit(X, yl, prevalences=prev, indexes=np.array(bags).T)
    else:
        e.fit(X, yl)
    ob.op()
    cuts = [refs.inner_cuts(X[:, f], y, range(k), nb, 'equal_width') for f in range(2)]
    for t in TEST:
        T = np.array(t, dtype=float)
        p = e.predict(T)
        ob.op()
        if nb == 3 and any(refs.margin(list(T[:, f]) + list(X[:, f]), cuts[f]) < 1e-9 for f in range(2)):
            raise AssertionError('badly chosen points')
        judge(ob, p, P, s, pct, hist_dist([X[list(b)] for b in bags], T, cuts, df == 'CDF'), str(case))


# --- real members
PTS = [(0.0, 1.0), (1.5, 0.0), (2.0, 4.0), (5.0, 1.0), (6.5, 2.0), (9.0, 9.0), (3.0, 3.0)]
NEW = [[(0.5, 0.5), (4.0, 2.0), (8.0, 8.0)], [(2.5, 7.0)], [(0.0, 1.0), (6.0, 2.0), (1.0, 0.2), (5.0, 5.0)]]
BASES = {'CC': CC, 'PCC': PCC, 'AC': AC, 'PAC': PAC, 'EM': EM, 'EDy': EDy, 'EDX': EDX, 'nested': lambda: Through(PAC())}
WAYS = ('ensemble', 'regular', 'predictions', 'member_predictions', 'crisp', 'repeated', 'mixed', 'fitted')


def member_cases(tier):
    q = tier == 'quick'
    for b in BASES:
        for w in WAYS if b != 'EDX' else ('features',):
            if w == 'crisp' and b not in ('CC', 'AC'):
                continue
            if w == 'repeated' and b in ('CC', 'PCC'):
                continue
            for k in (2, 3):
                for s in STRATS:
                    if s in STRATS[3:] and b in ('CC', 'AC') and w in ('ensemble', 'regular', 'crisp', 'fitted', 'mixed'):
                        continue      # refused: needs probabilities
                    for v in range(3 if q else 30):
                        yield (b, w, k, s, v)


def bag_sets(k, y, v):
    """three bags of five examples where every class appears"""
    n = len(y)
    good = [b for b in itertools.combinations_with_replacement(range(n), 5) if {y[i] for i in b} == set(range(k))]
    return [good[(v * 17 + j * 29) % len(good)] for j in range(3)]


def member_check(case, ob):
    b, w, k, s, v = case
    y = [0, 1, 1, 0, 1, 0, 1] if k == 2 else [2, 0, 1, 0, 2, 1, 0]
    y = y[v % 7:] + y[:v % 7]
    labels = D.LABELS[k][v % len(D.LABELS[k])]
    yl = np.array(labels)[y]
    X = np.array(PTS)
    n = len(y)
    bags = bag_sets(k, y, v)
    idx = np.array(bags).T
    nb = 3
    df = 'CDF' if v % 2 else 'PDF'
    kw = dict(n_quantifiers=3, combination_strategy=s, n_bins=nb, distribution_function=df,
              percentage_of_selected_models=(0.3, 0.7)[v % 2])
    prob = b not in ('CC', 'AC')
    whole = Echo(power=2).fit(X, yl)
    members = [Echo(power=2).fit(X[list(g)], yl[list(g)]) for g in bags]
    base = BASES[b]()
    kw['bag_generator'] = Bags(bags, None)

    def reference(T, e):
        """prevalences of the members, representation of the bags and of T"""
        res = []
        if w == 'features':
            for g in bags:
                res.append([float(a) for a in EDX().fit(X[list(g)], yl[list(g)]).predict(T)])
            return res, [X[list(g)] for g in bags], T, X
        if w in ('ensemble', 'member_predictions'):
            ptr = np.stack([m.predict_proba(X) for m in members], axis=1)
            pte = np.stack([m.predict_proba(T) for m in members], axis=1)
        elif w in ('mixed', 'fitted'):
            ptr, pte = whole.predict_proba(X), np.stack([m.predict_proba(T) for m in members], axis=1)
            if w == 'fitted':
                ptr, pte = np.stack([m.predict_proba(X) for m in members], axis=1), whole.predict_proba(T)
        else:
            ptr, pte = whole.predict_proba(X), whole.predict_proba(T)
        rep = 1
        if w == 'repeated':
            ptr = np.vstack([ptr, ptr[:, ::-1]])
            rep = 2
        yy = np.tile(yl, rep)
        for i, g in enumerate(bags):
            ii = [j + r * n for r in range(rep) for j in g]
            tr = ptr[ii, i] if ptr.ndim == 3 else ptr[ii]
            te = pte[:, i] if pte.ndim == 3 else pte
            q = BASES[b]()
            q.fit(None, yy[ii], predictions_train=tr)
            res.append([float(a) for a in q.predict(None, predictions_test=te)])
        flat = lambda M: M.mean(axis=1) if M.ndim == 3 else M
        A, B = flat(ptr), flat(pte)
        if k == 2:
            A, B = A[:, :1], B[:, :1]
        return res, [A[[j + r * n for r in range(rep) for j in g]] for g in bags], B, A

    if w == 'features':
        e = EoQ(base, **kw)
        e.fit(X, yl)
    elif w == 'ensemble':
        est = EnsembleOfClassifiers(Echo(power=2))
        e = EoQ(base, ensemble_estimator_train=est, ensemble_estimator_test=est, **kw)
        e.fit(X, yl)
    elif w == 'regular':
        est = Echo(power=2)
        e = EoQ(base, ensemble_estimator_train=est, ensemble_estimator_test=est, **kw)
        e.fit(X, yl)
    elif w == 'mixed':
        e = EoQ(base, ensemble_estimator_train=Echo(power=2), ensemble_estimator_test=EnsembleOfClassifiers(Echo(power=2)), **kw)
        e.fit(X, yl)
    elif w == 'fitted':
        est = EnsembleOfClassifiers(Echo(power=2)).fit(X, yl, idx)
        e = EoQ(base, ensemble_estimator_train=est, ensemble_estimator_test=whole, **kw)
        e.fit(X, yl)
    else:
        e = EoQ(base, **kw)
        ptr = whole.predict_proba(X)
        if w == 'member_predictions':
            ptr = np.stack([m.predict_proba(X) for m in members], axis=1)
        elif w == 'repeated':
            ptr = np.vstack([ptr, ptr[:, ::-1]])
        elif w == 'crisp':
            ptr = whole.predict(X)
        e.fit(X, yl, predictions_train=ptr)
    ob.op()
    for t in NEW:
        T = np.array(t)
        if w in ('features', 'ensemble', 'regular', 'mixed', 'fitted'):
            p = e.predict(T)
        elif w == 'member_predictions':
            p = e.predict(None, predictions_test=np.stack([m.predict_proba(T) for m in members], axis=1))
        elif w == 'crisp':
            p = e.predict(None, predictions_test=whole.predict(T))
        else:
            p = e.predict(None, predictions_test=whole.predict_proba(T))
        ob.op()
        P, G, B, A = reference(T, e)
        dists = None
        if s in STRATS[3:]:
            cuts = [refs.inner_cuts(A[:, f], y, range(k), nb, 'equal_width') for f in range(A.shape[1])]
            if any(refs.margin(list(B[:, f]) + list(A[:, f]), cuts[f]) < 1e-9 for f in range(A.shape[1])):
                continue
            dists = hist_dist(G, B, cuts, df == 'CDF')
        P = [norm([max(a, 0.0) for a in r]) for r in P]
        judge(ob, p, P, s, kw['percentage_of_selected_models'], dists, str(case))


# --- configurations that cannot be used
def refuse_cases(tier):
    for i in range(6):
        for k in (2, 3):
            yield (i, k)


def refuse_check(case, ob):
    i, k = case
    y = np.array([0, 1, 1, 0, 1, 0, 1] if k == 2 else [2, 0, 1, 0, 2, 1, 0])
    X = np.array(PTS)
    bags = bag_sets(k, list(y), 0)
    kw = dict(n_quantifiers=3, bag_generator=Bags(bags, None))
    P = Echo().fit(X, y).predict_proba(X)
    if i == 0:
        st, r = call(EoQ(Echo(), **kw).fit, X, y)
    elif i == 1:
        st, r = call(EoQ(AC(), **kw).fit, X, y)
    elif i == 2:
        st, r = call(EoQ(AC(), n_quantifiers=3, bag_generator=None, ensemble_estimator_train=Echo()).fit, X, y)
    elif i == 3:
        e = EoQ(PAC(), ensemble_estimator_train=Echo(), **kw).fit(X, y)
        st, r = call(e.predict, X)
    elif i == 4:
        e = EoQ(AC(), combination_strategy='distribution_similarity', ensemble_estimator_train=Echo(),
                ensemble_estimator_test=Echo(), **kw).fit(X, y)
        st, r = call(e.predict, X)
    else:
        e = EoQ(CC(), combination_strategy='all', **kw).fit(X, y, predictions_train=y)
        st, r = call(e.predict, None, predictions_test=y)
    ob.op()
    ob.state(st)
    ob.expect(st == 'exc' and isinstance(r, ValueError), 'accepted: %r', r)


# --- a bag without examples of one class
def missing_cases(tier):
    yield ('EDX', 2, 'mean', ((0, 3), (0, 1)))


def missing_check(case, ob):
    b, k, s, bags = case
    X, y = np.array(PTS[:4]), np.array([0, 1, 1, 0])
    e = EoQ(EDX(), n_quantifiers=2, bag_generator=Bags(bags, None), combination_strategy=s).fit(X, y)
    p = e.predict(X[:2])
    ob.op(2)
    ob.state(p)
    full = EDX().fit(X[[0, 1]], y[[0, 1]]).predict(X[:2])
    ob.close(p, [(1 + full[0]) / 2, full[1] / 2], 1e-6, 'first member only knows the first class, %s' % (case,))


# --- many members and classes
def large_cases(tier):
    q = tier == 'quick'
    for k in (2, 4, 9):
        for nq in (7, 20, 61):
            for s in STRATS:
                for pct in (0.5, 0.2, 0.9) if s not in ('mean', 'median') else (0.5,):
                    for df in ('PDF', 'CDF') if s in STRATS[3:] else ('PDF',):
                        for kind in ('decided', 'PAC', 'EDX'):
                            for seed in range(1 if q else 5):
                                if kind == 'decided' or nq == 20:
                                    yield (k, nq, s, pct, df, kind, seed)


def large_check(case, ob):
    k, nq, s, pct, df, kind, seed = case
    g = large.Gen(seed * 11 + nq + k)
    labels = np.array(large.labels(k, (seed + nq) % 4))
    n = 120
    y, X = large.features(k, n, 2, seed)
    n = len(y)
    X = np.hstack([np.arange(n, dtype=float).reshape(-1, 1), X + 0.07])
    by = [np.where(y == c)[0] for c in range(k)]
    # every class in every bag
    bags = [tuple(int(by[c][g(len(by[c]))]) for c in g.shuffle(list(range(k)) * 2 + [g(g(k) + 1) for _ in range(20)])) for _ in range(nq)]
    nb = 16
    kw = dict(n_quantifiers=nq, combination_strategy=s, percentage_of_selected_models=pct, distribution_function=df, n_bins=nb,
              bag_generator=Bags(bags, np.zeros((k, nq))))
    yl = labels[y]
    if kind == 'decided':
        P = []
        for _ in range(nq):
            w = [g(50) * (g(3) > 0) + (g(k) == 0) for _ in range(k)]
            w[g(k)] += 1
            P.append([a / sum(w) for a in w])
        e = EoQ(Decided({(b, tuple(str(yl[i]) for i in b)): r for b, r in zip(bags, P)}), **kw)
        e.fit(X, yl)
    elif kind == 'EDX':
        e = EoQ(EDX(), **kw)
        e.fit(X, yl)
    else:
        e = EoQ(PAC(), **kw)
        whole = Echo(power=2).fit(X[:, 1:], yl)
        pt = whole.predict_proba(X[:, 1:])
        e.fit(X, yl, predictions_train=pt)
    ob.op()
    for m in (1, 60):
        T = np.hstack([np.array([[float(g(n))] for _ in range(m)]), large.feature_bag(k, m, 2, seed) + 0.19])
        if kind == 'PAC':
            te = whole.predict_proba(T[:, 1:])
            p = e.predict(None, predictions_test=te)
            P = []
            for b in bags:
                r = PAC()
                r.fit(None, yl[list(b)], predictions_train=pt[list(b)])
                P.append([float(a) for a in r.predict(None, predictions_test=te)])
            A, B = (pt[:, :1], te[:, :1]) if k == 2 else (pt, te)
        else:
            p = e.predict(T)
            A, B = X, T
            if kind == 'EDX':
                P = [[float(a) for a in EDX().fit(X[list(b)], yl[list(b)]).predict(T)] for b in bags]
        ob.op()
        cuts = [refs.inner_cuts(A[:, f], y, range(k), nb, 'equal_width') for f in range(A.shape[1])]
        if any(abs(v - c) < 1e-9 for f in range(A.shape[1]) for c in cuts[f] for v in set(A[:, f]) | set(B[:, f])) and s in STRATS[3:]:
            ob.state('ambiguous')
            continue
        judge(ob, p, P, s, pct, hist_dist([A[list(b)] for b in bags], B, cuts, df == 'CDF'), str(case))


FAMILIES = [
    Family('strategies', comb_cases, comb_check, '1-5 members with every prevalence on a grid, 5 strategies, 3 percentages'),
    Family('members', member_cases, member_check, 'eight base quantifiers, nine ways of providing classifiers or predictions'),
    Family('refusals', refuse_cases, refuse_check, 'configurations that cannot be used'),
    Family('missing_class', missing_cases, missing_check, 'a training bag without examples of one class'),
    Family('large', large_cases, large_check, '2-9 classes, 7-61 members')]
