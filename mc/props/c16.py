"""C16 one-dimensional search: global_search and golden_section_search."""
import itertools

import numpy as np
from quantificationlib.search import global_search, golden_section_search, mixture_of_pdfs

from mc import domains as D, refs
from mc.core import Family, call

ASSUMPTIONS = ['losses have no structure narrower than the 0.01 grid of the search, except at isolated minima']


class Loss:
    """loss of a prevalence given by its values at knots (linear between them), or constant by cells"""

    def __init__(self, knots, values, step):
        self.knots, self.values, self.step = list(knots), list(values), step
        self.calls = []

    def __call__(self, p):
        p = float(p)
        if self.step:
            i = 0
            while i < len(self.knots) and p >= self.knots[i]:
                i += 1
            return float(self.values[i])
        return float(np.interp(p, self.knots, self.values))


def run(ob, loss, tol, how):
    """the mixture is the prevalence, the distance is the loss of the mixture"""
    seen = []

    def mixture(prevalence, tag=None):
        seen.append((float(prevalence), tag))
        return np.array([prevalence])

    def dist(m, t):
        ob.expect(np.shape(m) == np.shape(t), 'distance called with shapes %s and %s', np.shape(m), np.shape(t))
        return loss(np.ravel(m)[0])

    t = np.zeros(1)
    if how == 'golden':
        r = golden_section_search(dist, mixture, t, tol, 0.0, 1.0, tag='k')
        ob.op()
        ob.expect(all(tag == 'k' and -1e-12 <= p <= 1 + 1e-12 for p, tag in seen), 'mixtures out of the interval %s',
                  seen[:5])
        return 'ok', r[1]
    st, r = call(global_search, dist, mixture, t, tol, None, how != 'plain', tag='k')
    ob.op()
    ob.expect(all(tag == 'k' and -1e-12 <= p <= 1 + 1e-12 for p, tag in seen), 'mixtures out of the interval %s', seen[:5])
    if st == 'exc':
        return st, r
    mix, p = r
    if how == 'plain':
        ob.expect(mix is None, 'mixtures returned')
    else:
        ob.close(np.ravel(mix), np.arange(101) / 100, 1e-9, 'mixtures precomputed')
        st2, r2 = call(global_search, dist, mixture, t, tol, mix, True, tag='k')
        ob.op()
        ob.expect(st2 == 'ok', 'second search failed: %r', r2)
        ob.close(r2[1], p, 1e-12, 'search with precomputed mixtures')
    return 'ok', p


def judge(ob, loss, st, p, tol, minimum, where, flat, what):
    if st == 'exc':
        ob.expect(isinstance(p, ValueError) and flat, '%s: %r', what, p)
        ob.state('refused')
        return
    ob.expect(not flat, '%s: all the prevalences are equally good but %s is returned', what, p)
    ob.distribution(p, 2, what, 1e-9)
    ob.state(p)
    best = min(abs(float(p[1]) - w) for w in where) if where else 0
    near = min(loss(float(p[1]) + e) for e in (0, tol, -tol) if 0 <= p[1] + e <= 1)
    ob.expect(near <= minimum + 1e-9 or best <= tol + 1e-9, '%s: prevalence %.7f has loss %.6f, minimum is %.6f (at %s)',
              what, p[1], near, minimum, where[:3])


# --- piecewise linear: every function with values on a grid at the knots
def lin_cases(tier):
    q = tier == 'quick'
    for off in (0.0, 0.003, 0.0071):
        for vals in itertools.product(range(3 if q else 4), repeat=5 if q else 6):
            yield (off, vals)


def lin_check(case, ob):
    off, vals = case
    n = len(vals) - 1
    knots = [0.0] + [i / n + off for i in range(1, n)] + [1.0]
    loss = Loss(knots, [1.0 + v for v in vals], False)
    lo = min(vals)
    where = [k for k, v in zip(knots, vals) if v == lo]
    flat = len(set(vals)) == 1
    for how, tol in (('plain', 1e-5), ('mixtures', 1e-4)):
        st, p = run(ob, loss, tol, how)
        judge(ob, loss, st, p, tol, 1.0 + lo, where, flat, 'knots %s values %s' % (knots, vals))


# --- piecewise constant: every function with values on a grid in each cell
def step_cases(tier):
    q = tier == 'quick'
    for off in (0.0, 0.004):
        for vals in itertools.product(range(3), repeat=5 if q else 7):
            yield (off, vals)


def step_check(case, ob):
    off, vals = case
    n = len(vals)
    knots = [i / n + off for i in range(1, n)]
    loss = Loss(knots, [1.0 + v for v in vals], True)
    flat = len(set(vals)) == 1
    st, p = run(ob, loss, 1e-5, 'plain')
    if st == 'ok' and not flat:
        ob.distribution(p, 2, str(case), 1e-9)
        ob.state(p)
        lo = 1.0 + min(vals)
        near = min(loss(float(p[1]) + e) for e in (0, 2e-5, -2e-5) if 0 <= p[1] + e <= 1)
        ob.expect(near == lo, 'cells at %s values %s: prevalence %.6f has loss %g', knots, vals, p[1], loss(p[1]))
    else:
        judge(ob, loss, st, p, 1e-5, 0, [], flat, 'cells at %s values %s' % (knots, vals))


# --- unimodal losses with the minimum anywhere
def uni_cases(tier):
    n = 300 if tier == 'quick' else 3000
    for i in range(n + 1):
        yield (i, n)


def uni_check(case, ob):
    i, n = case
    x = i / n
    for name, f in (('abs', lambda p: abs(p - x)), ('square', lambda p: (p - x) ** 2),
                    ('skewed', lambda p: (p - x) * 3 if p > x else (x - p) * 0.2),
                    ('peak', lambda p: -float(np.exp(-40 * abs(p - x))))):
        for how, tol in (('plain', 1e-3), ('mixtures', 1e-5), ('golden', 1e-4), ('golden', 1e-6)):
            if name == 'square' and tol < 1e-5:
                continue
            st, p = run(ob, f, tol, how)
            ob.expect(st == 'ok', '%s minimum at %g: %r', name, x, p)
            ob.distribution(p, 2, '%s minimum at %g' % (name, x), 1e-9)
            ob.state(p)
            ob.expect(abs(p[1] - x) <= tol + 1e-9, '%s(%s): minimum of %s is at %.7f but %.7f is returned', how, tol, name, x,
                      p[1])


# --- two valleys: the deepest one has to be found
def dip_cases(tier):
    q = tier == 'quick'
    step = 5 if q else 2
    pos = [i / 100 + o for o in (0.0, 0.0037) for i in range(1, 99, step)]
    for a in pos:
        for b in pos:
            if abs(a - b) >= 0.05:
                yield (round(a, 6), round(b, 6))


def dip_check(case, ob):
    a, b = case

    def f(p):
        return min(1.0, 0.5 + 12 * abs(p - a), 0.3 + 12 * abs(p - b))
    st, p = run(ob, f, 1e-5, 'plain')
    ob.expect(st == 'ok', '%r', p)
    ob.state(p)
    ob.distribution(p, 2, 'two valleys', 1e-9)
    ob.expect(abs(p[1] - b) <= 1.1e-5, 'valleys at %g (0.5) and %g (0.3): %.6f is returned', a, b, p[1])


# --- mixtures of distributions
def pdf_cases(tier):
    d = 4 if tier == 'quick' else 6
    S = D.simplex(3, d)
    for a in S:
        for b in S:
            yield (d, a, b)


def pdf_check(case, ob):
    d, a, b = case
    neg, pos = np.array(a) / d, np.array(b) / d
    for i in range(21):
        p = i / 20
        m = mixture_of_pdfs(prevalence=p, pos_distrib=pos, neg_distrib=neg)
        ob.op()
        ob.close(m, [(1 - p) * u / d + p * v / d for u, v in zip(a, b)], 1e-12, 'mixture')
        if a != b and i % 5 == 0:
            for shape in ((3,), (3, 1)):
                dist = lambda m, t: float(np.abs(np.ravel(m) - np.ravel(t)).sum()) + (0 if np.shape(m) == np.shape(t) else 9)
                _, r = global_search(dist, mixture_of_pdfs, m.reshape(shape), 1e-5, None, True,
                                     pos_distrib=pos.reshape(shape), neg_distrib=neg.reshape(shape))
                ob.op()
                ob.close(r, [1 - p, p], 1.1e-5, 'mixture of %s and %s with prevalence %g' % (a, b, p))
        ob.state(m)


FAMILIES = [
    Family('piecewise_linear', lin_cases, lin_check, 'every piecewise linear loss with integer values at 5-6 knots'),
    Family('piecewise_constant', step_cases, step_check, 'every piecewise constant loss with values 0-2 in 5-7 cells'),
    Family('unimodal', uni_cases, uni_check, 'four shapes, minimum at every point of a grid, three tolerances'),
    Family('valleys', dip_cases, dip_check, 'two valleys at every pair of positions'),
    Family('mixtures', pdf_cases, pdf_check, 'every pair of distributions on a grid, 21 prevalences'),
]
