"""C27 error measures and distances."""
import itertools
import math

import numpy as np
from quantificationlib.metrics import binary as B, multiclass as M, ordinal as O

from mc import domains as D
from mc.core import Family, call

ASSUMPTIONS = ['the smoothing constants of the documentation (1e-12 for divergences, 1e-20 for the symmetric distances)']


def log2(x):
    return math.log2(x)


def xlog(p, x):
    return p * math.log(x) if p > 0 else 0.0


# each measure written from its definition, p is the truth
REF = {
    'kld': lambda p, q: sum(a * log2((a + 1e-12) / (b + 1e-12)) for a, b in zip(p, q)),
    'mean_absolute_error': lambda p, q: sum(abs(a - b) for a, b in zip(p, q)) / len(p),
    'l1': lambda p, q: sum(abs(a - b) for a, b in zip(p, q)),
    'mean_squared_error': lambda p, q: sum((a - b) ** 2 for a, b in zip(p, q)) / len(p),
    'l2': lambda p, q: math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))),
    'hd': lambda p, q: math.sqrt(sum((math.sqrt(a) - math.sqrt(b)) ** 2 for a, b in zip(p, q))),
    'bray_curtis': lambda p, q: sum(abs(a - b) for a, b in zip(p, q)) / (sum(p) + sum(q)),
    'topsoe': lambda p, q: sum(xlog(a, 2 * a / (a + b)) if a else 0.0 for a, b in zip(p, q)) + sum(
        xlog(b, 2 * b / (a + b)) if b else 0.0 for a, b in zip(p, q)),
    'jensenshannon': lambda p, q: sum(xlog(a, a) + xlog(b, b) - xlog(a + b, (a + b) / 2) for a, b in zip(p, q)) / 2,
    'probsymmetric': lambda p, q: 2 * sum((a - b) ** 2 / (a + b) for a, b in zip(p, q) if a + b > 0),
}
SYMMETRIC = set(REF) - {'kld'}


def emd(p, q):
    s = d = 0.0
    for a, b in zip(p, q):
        d += a - b
        s += abs(d)
    return s


def vec_cases(tier):
    for k, d in ((1, 1), (2, 12), (3, 5), (4, 3), (5, 2)) if tier == 'quick' else ((1, 1), (2, 40), (3, 10), (4, 6), (5, 4), (6, 3)):
        S = D.simplex(k, d)
        for p in S:
            yield (k, d, p)


def forms(p):
    return [list(p), np.array(p), np.array(p).reshape(-1, 1)]


def vec_check(case, ob):
    k, d, pi = case
    p = [v / d for v in pi]
    for n, qi in enumerate(D.simplex(k, d)):
        q = [v / d for v in qi]
        P, Q = forms(p)[n % 3], forms(q)[(n // 3) % 3]
        for name, f in REF.items():
            lib = getattr(M, name)
            v, want = lib(P, Q), f(p, q)
            ob.op()
            ob.state(name, v)
            ob.close(v, want, 1e-9 * max(1, abs(want)), '%s(%s, %s)' % (name, p, q))
            if name in SYMMETRIC:
                ob.close(lib(Q, P), v, 1e-9, '%s is not symmetric for %s %s' % (name, p, q))
            ob.expect(v >= -1e-9, '%s(%s, %s) = %r is negative', name, p, q, v)
            # zero only for equal prevalences
            ob.expect((v < 1e-7) == (pi == qi), '%s(%s, %s) = %r', name, p, q, v)
            r = [k - 1 - i for i in range(k)]
            ob.close(lib([p[i] for i in r], [q[i] for i in r]), v, 1e-9, '%s depends on the order of the classes' % name)
        ob.close(O.emd(P, Q), emd(p, q), 1e-9, 'emd(%s, %s)' % (p, q))
        ob.op()
        if k > 1:
            far = max(emd(p, [1.0] + [0.0] * (k - 1)), emd(p, [0.0] * (k - 1) + [1.0]))
            ob.close(O.emd_score(P, Q), (far - emd(p, q)) / far, 1e-9, 'emd_score(%s, %s)' % (p, q))
            ob.op()
        if k == 1:
            continue
    if k > 2:      # lengths that do not match are refused
        for name in REF:
            st, r = call(getattr(M, name), p, p[:-1])
            ob.expect(st == 'exc' and isinstance(r, ValueError), '%s accepts vectors of different lengths', name)


# --- earth mover's distance between the rows of two matrices
def mat_cases(tier):
    for k, d in ((2, 4), (3, 3), (4, 2), (5, 2)) if tier == 'quick' else ((2, 10), (3, 6), (4, 4), (5, 3), (6, 2)):
        S = D.simplex(k, d)
        for n in (1, 2, 3):
            for s in range(0, len(S)):
                yield (k, d, n, s)


def mat_check(case, ob):
    k, d, n, s = case
    S = [[v / d for v in p] for p in D.simplex(k, d)]
    A = [S[(s + i * 3) % len(S)] for i in range(n)]
    R = O.emd_distances(np.array(A), np.array(S))
    ob.op()
    ob.state(R)
    ob.close(R, [[emd(a, b) for b in S] for a in A], 1e-9, 'emd_distances of %s' % A)
    # Brier score of every pair of predictions
    T = np.eye(k)[[i % k for i in range(n)]]
    v = M.brier_multi(T, np.array(A))
    ob.op()
    ob.close(v, sum(sum((a - b) ** 2 for a, b in zip(x, y)) for x, y in zip(T.tolist(), A)) / n, 1e-9, 'brier %s' % A)


# --- binary measures
def bin_cases(tier):
    n = 20 if tier == 'quick' else 100
    for i in range(n + 1):
        yield (i, n)


def bin_check(case, ob):
    i, n = case
    p = i / n
    for j in range(n + 1):
        q = j / n
        m = max(p, 1 - p)
        want = dict(bias=q - p, absolute_error=abs(q - p), squared_error=(q - p) ** 2,
                    relative_absolute_error=abs(q - p) / p if p > 0 else q / 1e-12,
                    symmetric_absolute_percentage_error=abs(q - p) / (p + q) if p + q > 0 else 0.0,
                    normalized_absolute_score=1 - abs(q - p) / m, normalized_squared_score=1 - (abs(q - p) / m) ** 2,
                    binary_kld=p * log2((p + 1e-12) / (q + 1e-12)) + (1 - p) * log2((1 - p + 1e-12) / (1 - q + 1e-12)))
        for name, w in want.items():
            v = getattr(B, name)(p, q)
            ob.op()
            ob.state(name, v)
            ob.close(v, w, 1e-9 * max(1, abs(w)), '%s(%g, %g)' % (name, p, q))
            if name not in ('bias',):
                ob.expect(v >= -1e-9, '%s(%g, %g) = %g is negative', name, p, q, v)


# --- geometric mean of the recalls
def gm_cases(tier):
    q = tier == 'quick'
    for k, n in ((1, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)) + (() if q else ((2, 5), (3, 4), (4, 3))):
        for y in itertools.product(range(k), repeat=n):
            yield (k, y)


def gm_check(case, ob):
    k, y = case
    n = len(y)
    labels = D.LABELS.get(k, [(3,)])
    labels = labels[sum(y) % len(labels)]
    for h in itertools.product(range(k), repeat=n):
        for corr in (0.0, 0.01):
            cl = sorted(set(y) | set(h))
            rec = []
            for c in cl:
                t = [a for a, b in zip(h, y) if b == c]
                r = t.count(c) / len(t) if t else 0.0
                rec.append(r if r > 0 else corr)
            want = 0.0 if min(rec) == 0 else math.exp(sum(math.log(r) for r in rec) / len(rec))
            v = M.geometric_mean([labels[c] for c in y], [labels[c] for c in h], correction=corr)
            ob.op()
            ob.state(v)
            ob.close(v, want, 1e-9, 'geometric_mean(%s, %s, %g)' % (y, h, corr))


FAMILIES = [
    Family('prevalences', vec_cases, vec_check, 'every pair of prevalence vectors on a grid, 1-6 classes, three shapes'),
    Family('matrices', mat_cases, mat_check, 'rows of prevalences on a grid'),
    Family('binary', bin_cases, bin_check, 'every pair of prevalences on a grid'),
    Family('geometric_mean', gm_cases, gm_check, 'every pair of labellings of 1-5 examples with 1-4 labels'),
]
