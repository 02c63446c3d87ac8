"""C17 the solvers: constrained least squares, least absolute deviations, Hellinger, energy; positive definiteness."""
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib import optimization as O

from mc import domains as D, large, refs
from mc.core import Family

ASSUMPTIONS = ['objective gaps accepted: 1e-5 (L1, L2), 4e-5 (half squared Hellinger distance), 1e-6 (energy)']


def columns(d, n, k):
    """every set of k class distributions over n bins, coordinates multiples of 1/d"""
    return list(itertools.product(D.simplex(n, d), repeat=k))


def targets(A, n):
    k = A.shape[1]
    ts = [A.dot(np.array(p) / 4) for p in D.thin(D.simplex(k, 4), 4)]          # exact mixtures
    ts += [np.eye(n)[0], np.eye(n)[-1], np.ones(n) / n, np.append([0.5, 0.5], np.zeros(n - 2)) if n > 1 else np.ones(1)]
    return ts


def solver_cases(tier):
    q = tier == 'quick'
    for k, n, d, m in ((2, 2, 4, 40), (2, 3, 2, 36), (3, 3, 2, 60), (4, 4, 1, 60), (3, 2, 4, 40), (5, 3, 1, 20)):
        cs = columns(d, n, k)
        for cols in D.thin(cs, m if q else 4 * m):
            for s in ('L2', 'L1', 'HD'):
                yield (s, d, cols)
        for cols in D.thin(cs, m // 2 if q else 2 * m):
            for s in ('L1 ECOS', 'L1 CLARABEL', 'L1 SCIPY', 'HD CLARABEL'):
                yield (s, d, cols)


def solver_check(case, ob):
    s, d, cols = case
    s, *opt = s.split()         # the solver chosen by the caller, if any
    opt = dict(solver=opt[0]) if opt else {}
    A = np.array(cols, dtype=float).T / d
    n, k = A.shape
    ts = targets(A, n)
    keep = A.copy()
    problem = None
    if s == 'L2':
        G, C, b = O.compute_l2_param_train(A, list(range(k)))
    first = None
    for i, t in enumerate(ts):
        shaped = t if i % 2 else t.reshape(-1, 1)
        if s == 'L2':
            p = O.solve_l2(A, shaped, G=G, C=C, b=b)
        elif s == 'L1':
            problem, p = O.solve_l1(A, shaped, k, problem=problem, **opt)
        else:
            problem, p = O.solve_hd(A, shaped, k, problem=problem, **opt)
        ob.op()
        what = '%s classes %s target %s (call %d)' % (case[0], cols, np.round(t, 4).tolist(), i)
        refs.judge_match(ob, p, A, t, s, what)
        ob.state(np.round(p, 3))
    ob.expect(np.array_equal(A, keep), 'the training distributions were modified')


# --- every symmetric integer matrix
def det(M):
    """exact determinant (fraction-free elimination over the rationals)"""
    M = [[F(int(v)) for v in r] for r in M]
    n, res = len(M), F(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return F(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            res = -res
        res *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return res


def sym(n, vals):
    A = np.zeros((n, n))
    it = iter(vals)
    for i in range(n):
        for j in range(i, n):
            A[i, j] = A[j, i] = next(it)
    return A


def pd_cases(tier):
    q = tier == 'quick'
    for v in itertools.product(range(-3, 4), repeat=1):
        yield (1, v)
    for v in itertools.product(range(-3, 4), repeat=3):
        yield (2, v)
    for v in itertools.product(range(-1, 3) if q else range(-2, 4), repeat=6):
        yield (3, v)
    for off in itertools.product((-1, 0, 1), repeat=6):
        for dg in ((2, 2, 2, 2), (1, 2, 3, 2), (1, 1, 1, 1)):
            it = iter(off)
            yield (4, tuple(dg[i] if i == j else next(it) for i in range(4) for j in range(i, 4)))


def pd_check(case, ob):
    n, vals = case
    A = sym(n, vals)
    keep = A.copy()
    minors = [det(A[:i, :i]) for i in range(1, n + 1)]
    r = O.is_pd(A)
    ob.op()
    if all(m > 0 for m in minors):
        ob.expect(r, '%s is positive definite', A.tolist())
    elif minors[-1] != 0 or any(m < 0 for m in minors):
        # not even semidefinite (a negative leading minor) or singular only before the last minor
        w = np.linalg.eigvalsh(A)[0]
        if w < -1e-9:
            ob.expect(not r, '%s is not positive definite', A.tolist())
    N = O.nearest_pd(A)
    ob.op()
    ob.expect(np.array_equal(A, keep), 'nearest_pd modified its argument')
    ob.expect(O.is_pd(N), 'nearest_pd(%s) is not positive definite', A.tolist())
    ob.close(N, N.T, 1e-12, 'symmetric')
    w, V = np.linalg.eigh(A)
    want = (V * np.maximum(w, 0)).dot(V.T)
    ob.close(N, want, 1e-6, 'nearest_pd(%s)' % A.tolist())
    ob.state(bool(r), np.round(N, 3))


# --- solve_ed with the parameters of compute_ed_param_*
def ed_cases(tier):
    q = tier == 'quick'
    vals = (0.0, 1.0, 2.5, 7.0)
    for k in (2, 3, 4):
        sizes = {2: [(1, 1), (1, 2), (2, 2), (3, 1)], 3: [(1, 1, 1), (2, 1, 1), (1, 2, 2)], 4: [(1, 1, 1, 1), (1, 1, 2, 1)]}
        for sz in sizes[k]:
            sp = list(itertools.product(*[D.multisets(range(4), s) for s in sz]))
            for g in D.thin(sp, 80 if q else 400):
                yield (k, g)


def ed_check(case, ob):
    k, groups = case
    vals = (0.0, 1.0, 2.5, 7.0)
    labels = D.LABELS[k][len(groups[0]) % 3]
    dist = lambda A, B: np.abs(A[:, None, :] - B[None, :, :]).sum(axis=2)
    train = {labels[c]: np.array([[vals[i]] for i in g]) for c, g in enumerate(groups)}
    n = np.array([[float(len(g))] for g in groups])
    K, G, C, b = O.compute_ed_param_train(dist, train, np.array(labels), n)
    ob.op()
    mean = lambda g, h: sum(abs(a - b) for a in g for b in h) / (len(g) * len(h))
    gv = [[vals[i] for i in g] for g in groups]
    ob.close(K, [[mean(a, c) for c in gv] for a in gv], 1e-12, 'average distances')
    for bag in ((0.0,), (7.0, 1.0), (1.0, 2.5, 2.5), (-3.0, 20.0)):
        a = O.compute_ed_param_test(dist, train, np.array([[v] for v in bag]), K, np.array(labels), n)
        p = O.solve_ed(G=G, a=a, C=C, b=b)
        ob.op(2)
        what = 'energy groups %s bag %s' % (gv, bag)
        ob.distribution(p, k, what)
        Kt = np.array([mean(g, bag) for g in gv])
        f = lambda q: float(2 * q.dot(Kt) - q.dot(K).dot(q))
        best, bp = refs.best_on_simplex(f, k, d0=20 if k < 4 else 8)
        got = f(np.clip(p, 0, 1))
        ob.expect(got <= best + 1e-6 * max(1, K.max()), '%s: %s has %.8f, %s has %.8f', what, np.round(p, 5).tolist(), got,
                  np.round(bp, 5).tolist(), best)
        ob.state(p)


# --- many classes and bins
def large_cases(tier):
    q = tier == 'quick'
    for s in ('L2', 'L1', 'HD', 'ED'):
        for k in (2, 3, 6, 12, 20):
            for n in (10, 100):
                for seed in range(3 if q else 15):
                    yield (s, k, n, seed)
    for n in (5, 8, 15, 30):
        for seed in range(4 if q else 20):
            yield ('PD', n, 0, seed)


def large_check(case, ob):
    s, k, n, seed = case
    g = large.Gen(seed * 13 + k * 3 + n)
    if s == 'PD':
        n = k
        A = np.array([[g(9) - 4.0 for _ in range(n)] for _ in range(n)])
        A = A + A.T + np.eye(n) * (seed % 3) * 3 * n ** 0.5
        w, V = np.linalg.eigh(A)
        keep = A.copy()
        r, N = O.is_pd(A), O.nearest_pd(A)
        ob.op(2)
        ob.state(bool(r), round(float(w[0]), 3))
        ob.expect(np.array_equal(A, keep), 'nearest_pd modified its argument')
        ob.expect(abs(w[0]) < 1e-9 or r == (w[0] > 0), 'is_pd is %s with minimum eigenvalue %g', r, w[0])
        ob.expect(O.is_pd(N), 'nearest_pd is not positive definite')
        ob.close(N, (V * np.maximum(w, 0)).dot(V.T), 1e-6, 'nearest_pd of a matrix of size %d' % n)
        return
    A = np.array([[g(50) * (1 + 3 * (i % k == j)) for j in range(k)] for i in range(n)], dtype=float) + 0.01
    A /= A.sum(axis=0)
    if s == 'ED':
        pts = np.array([[g(100) / 10.0 + 2 * (i % k)] for i in range(max(n, 3 * k))])
        y = np.array([i % k for i in range(len(pts))])
        dist = lambda a, b: np.abs(a[:, None, :] - b[None, :, :]).sum(axis=2)
        cl = np.array(range(k))
        tr = {c: pts[y == c] for c in range(k)}
        cnt = np.array([[float((y == c).sum())] for c in range(k)])
        K, G, C, b = O.compute_ed_param_train(dist, tr, cl, cnt)
        for m in (1, 30):
            T = np.array([[g(200) / 10.0] for _ in range(m)])
            p = O.solve_ed(G=G, a=O.compute_ed_param_test(dist, tr, T, K, cl, cnt), C=C, b=b)
            ob.op()
            ob.state(p)
            ob.distribution(p, k, 'energy', 1e-6)
            Kt = np.array([dist(tr[c], T).mean() for c in range(k)])
            ob.expect(large.quadratic_gap(K, Kt, np.asarray(p, float)) <= 1e-5 * K.max(), 'energy, %d classes: %s can be improved '
                      'by %g', k, p, large.quadratic_gap(K, Kt, np.asarray(p, float)))
        return
    problem = None
    if s == 'L2':
        G, C, b = O.compute_l2_param_train(A, list(range(k)))
    for i in range(5):
        w = np.array([g(5) + (j == i) for j in range(k)], dtype=float)
        t = A.dot(w / w.sum()) if i < 3 else np.array([g(20) + 1.0 for _ in range(n)])
        t = t / t.sum()
        if s == 'L2':
            p = O.solve_l2(A, t, G=G, C=C, b=b)
        elif s == 'L1':
            problem, p = O.solve_l1(A, t.reshape(-1, 1), k, problem=problem)
        else:
            problem, p = O.solve_hd(A, t.reshape(-1, 1), k, problem=problem)
        ob.op()
        ob.state(np.round(p, 3))
        large.judge(ob, p, A, t, s, '%s, %d classes, %d bins, target %d' % (s, k, n, i))


FAMILIES = [
    Family('solvers', solver_cases, solver_check, '2-5 classes, 2-4 bins, three solvers (and others chosen by the caller), 8 targets solved in a row'),
    Family('positive_definite', pd_cases, pd_check, 'every symmetric integer matrix of size 1-4 within bounds'),
    Family('energy', ed_cases, ed_check, '2-4 classes of 1-3 points on 4 values, 4 bags each'),
    Family('large', large_cases, large_check, '2-20 classes, 10-100 bins, matrices of size 5-30')]
