"""C10 bins partition the real line as each strategy says."""
import itertools
import math

import numpy as np
from quantificationlib.multiclass.df import compute_bincuts

from mc import domains as D, large, refs
from mc.core import Family, call

ASSUMPTIONS = ['quantiles of the normal distribution compared within 1e-8']


def well_formed(ob, cuts, nb, what):
    c = np.asarray(cuts, dtype=float)
    ob.expect(c.shape == (nb + 1,), '%s: %d cut points for %d bins', what, len(c), nb)
    ob.expect(not np.isnan(c).any() and all(c[i] <= c[i + 1] for i in range(nb)), '%s: not increasing: %s', what, c)
    ob.expect(c[0] == -np.inf and c[-1] == np.inf, '%s: the bins do not cover the real line: %s', what, c)
    probe = np.array([-1e300, -5.0, 0.0, 0.3, 1.0, 7.7, 1e300])
    ob.expect(np.histogram(probe, bins=c)[0].sum() == len(probe), '%s: values lost by the bins %s', what, c)
    return c


def cases(tier):
    q = tier == 'quick'
    vals = (0.0, 0.25, 1.0, 3.0) if q else (0.0, 0.25, 0.5, 1.0, 3.0)
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        for m in D.multisets(range(len(vals)), n):
            for nb in (1, 2, 3, 4, 5, 8, 16):
                yield (tuple(vals[i] for i in m), nb)
    for n in (7, 8, 9, 15, 16, 17, 31, 100):
        for nb in (1, 2, 4, 7, 8, 15, 20):
            yield (tuple(float((i * 7) % n) for i in range(n)), nb)
            yield (tuple(round(i * i / n, 3) for i in range(n)), nb)
    for off in (-1e3, 1e3):
        for nb in (2, 8):
            yield (tuple(off + v for v in (0.0, 1.0, 2.5)), nb)


def check(case, ob):
    x, nb = case
    n = len(x)
    # unsorted input
    xs = np.array(x[::-1][: n // 2] + x[: n - n // 2])
    for rng in (None, [0, 1], [-1.0, 3.0]):
        c = well_formed(ob, compute_bincuts(x=xs, n_bins=nb, bin_strategy='equal_width', att_range=rng), nb, 'equal_width')
        ob.close(c[1:-1], refs.inner_cuts(xs, None, None, nb, 'equal_width', rng), 1e-9, 'equal_width %s %s' % (xs, rng))
        ob.op()
        ob.state(c)
    c = well_formed(ob, compute_bincuts(x=xs, n_bins=nb, bin_strategy='equal_count'), nb, 'equal_count')
    ob.close(c[1:-1], refs.inner_cuts(xs, None, None, nb, 'equal_count'), 1e-9, 'equal_count %s' % xs)
    ob.op()
    # the bins of distinct values hold the same number of examples, up to rounding
    if len(set(xs.tolist())) == n and n >= nb:
        h = np.histogram(xs, bins=c)[0]
        ob.expect(h.max() - h.min() <= 1 + (n % nb != 0), 'equal_count bins of %s hold %s', xs, h)
    for k in (2, 3):
        if n < k:
            continue
        for cut in D.thin(range(1, n - k + 2), 3):
            y = np.array([0] * cut + [1] * (n - cut)) if k == 2 else np.array([0] * cut + [1] + [2] * (n - cut - 1))
            labels = np.array((3, 5, 9))[:k]
            for st in ('normal', 'binormal'):
                r, c = call(compute_bincuts, x=xs, y=labels[y], classes=labels, n_bins=nb, bin_strategy=st)
                ob.op()
                if st == 'binormal' and k == 3:
                    ob.expect(r == 'exc' and isinstance(c, ValueError), 'binormal with 3 classes: %r', c)
                    continue
                if r == 'exc':
                    raise c
                c = well_formed(ob, c, nb, '%s %s %s' % (st, xs, y))
                ob.state(c)
                want = refs.inner_cuts(xs, y, range(k), nb, st)
                if want is not None:
                    ob.close(c[1:-1], want, 1e-8 * max(1, abs(xs).max()), '%s bins of %s, classes %s' % (st, xs, y))


def bad_cases(tier):
    yield ('unknown',)
    yield ('equal',)
    yield ('',)


def bad_check(case, ob):
    r, e = call(compute_bincuts, x=np.array([0.0, 1.0]), y=np.array([0, 1]), classes=np.array([0, 1]), n_bins=4,
                bin_strategy=case[0])
    ob.op()
    ob.state(r)
    ob.expect(r == 'exc' and isinstance(e, ValueError), 'strategy %r accepted: %r', case[0], e)


def large_cases(tier):
    for n in (200, 1000) if tier == 'quick' else (200, 257, 1000, 5000):
        for k in (2, 3, 7, 12):
            for nb in (10, 33, 100, 150):
                for seed in range(2 if tier == 'quick' else 8):
                    yield (n, k, nb, seed)


def large_check(case, ob):
    n, k, nb, seed = case
    g = large.Gen(seed * 7 + n)
    lab = np.array(large.labels(k, seed % 4))
    x = np.array([g(1 << 20) / 4096.0 * (-1 if g(3) == 0 else 1) for _ in range(n)])
    y = np.array(list(range(k)) * 2 + [g(g(k) + 1) for _ in range(n - 2 * k)])
    for st in ('equal_width', 'equal_count', 'normal') + (('binormal',) if k == 2 else ()):
        c = well_formed(ob, compute_bincuts(x=x, y=lab[y], classes=lab, n_bins=nb, bin_strategy=st), nb, st)
        ob.op()
        ob.state(c)
        ob.close(c[1:-1], refs.inner_cuts(x, y, range(k), nb, st), 1e-7, '%s, %d values, %d classes, %d bins' % (st, n, k, nb))


FAMILIES = [
    Family('strategies', cases, check, 'every multiset of values (ties, constants, fewer examples than bins), every class '
           'split, 1-20 bins, all strategies and ranges'),
    Family('unknown', bad_cases, bad_check, 'unknown strategies are refused'),
    Family('large', large_cases, large_check, '200-1000 (5000) values, 2-12 classes, 10-150 bins')]
