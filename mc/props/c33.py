"""C33 plots and data helpers."""
import io
import itertools
import os
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.colors as mcolors
import numpy as np
from matplotlib.figure import Figure
from quantificationlib.data_utils import load_data, normalize
from quantificationlib.plot import qlplot

from mc import domains as D
from mc.core import Family

ASSUMPTIONS = ['rows with the same first prevalence may be drawn in any order', 'what is drawn is read from the artists of the '
               'axes, nothing is rendered']


# --- lines of prevalences
def line_cases(tier):
    q = tier == 'quick'
    for k, d, n in ((2, 4, 1), (2, 3, 2), (3, 3, 1), (3, 2, 2), (2, 2, 3), (4, 2, 1)) + (() if q else (
            (3, 3, 2), (2, 4, 3), (3, 1, 4), (2, 2, 4), (12, 1, 1), (5, 2, 2))):
        S = D.simplex(k, d)
        for rows in D.thin(itertools.product(S, repeat=n), 100 if q else 1500):
            for order in (None, 'ascending', 'descending'):
                for colors in (None, ('red', 'blue', 'green', 'black'), ('k',)):
                    if n < 3 or colors is None:
                        yield (k, d, rows, order, colors)


def drawn(ax):
    """(y, x0, x1, colour) of all the segments that have some length"""
    res = []
    for c in ax.collections:
        cols = c.get_colors()
        for i, s in enumerate(c.get_segments()):
            (x0, y0), (x1, y1) = s[0], s[-1]
            if abs(x1 - x0) > 1e-12:
                res.append((round(float(y0), 9), round(float(y1), 9), float(x0), float(x1), tuple(cols[i % len(cols)])))
    return res


def line_check(case, ob):
    k, d, rows, order, colors = case
    M = D.mat(rows, d)
    keep = M.copy()
    ax = Figure().add_subplot()
    col = None if colors is None else list(colors)
    qlplot.plot_line_prevalences(ax, M, order=order, colors=col)
    ob.op()
    what = 'prevalences %s, order %s, colours %s' % (M.tolist(), order, colors)
    ob.expect(np.array_equal(M, keep) and (col is None or col == list(colors)), '%s: the arguments were modified', what)
    segs = drawn(ax)
    ob.expect(ax.get_xlim() == (0, 100) and ax.get_ylim() == (0, len(rows) + 1), '%s: limits %s %s', what, ax.get_xlim(),
              ax.get_ylim())
    names = [mcolors.to_rgba(c) for c in (colors or list(mcolors.TABLEAU_COLORS))]
    seen = []
    for y in range(1, len(rows) + 1):
        line = sorted(s[2:] for s in segs if s[0] == s[1] == y)
        cuts = [0.0] + [s[1] for s in line]
        ob.close([s[0] for s in line], cuts[:-1], 1e-9, '%s: start of the segments of line %d' % (what, y))
        got = np.zeros(k)
        # the colour tells the class when there are enough of them
        if len(names) >= k and len(set(names[:k])) == k:
            for x0, x1, c in line:
                ob.expect(c in names[:k], '%s: colour %s', what, c)
                got[names.index(c)] += (x1 - x0) / 100
            lens = [x1 - x0 for x0, x1, _ in line]
            want_order = [names.index(c) for _, _, c in line]
            ob.expect(want_order == sorted(want_order), '%s: classes of line %d in the order %s', what, y, want_order)
            seen.append(tuple(np.round(got, 9)))
        else:
            seen.append(tuple(np.round([x1 - x0 for x0, x1, _ in line], 9) / 100))
    ob.expect(len(segs) == sum(1 for r in rows for v in r if v), '%s: %d segments', what, len(segs))
    ob.state(seen)
    if len(names) >= k and len(set(names[:k])) == k:
        full = [tuple(np.round(np.array(r) / d, 9)) for r in rows]
    else:
        full = [tuple(np.round(np.array([v for v in r if v]) / d, 9)) for r in rows]
    if order is None:
        ob.close(np.concatenate(seen), np.concatenate(full), 1e-8, what + ': lines')
    else:
        ob.expect(sorted(map(str, np.round(np.concatenate(seen), 6))) == sorted(map(str, np.round(np.concatenate(full), 6))),
                  '%s: lines %s', what, seen)
        if len(names) >= k and len(set(names[:k])) == k:
            ob.expect(sorted(tuple(np.round(s, 6) + 0.0) for s in seen) == sorted(tuple(np.round(s, 6) + 0.0) for s in full),
                      '%s: lines %s', what, seen)
            first = [s[0] for s in seen]
            ob.close(first, sorted(first, reverse=order == 'descending'), 0, what + ': first prevalences')


# --- sorting of rows
def sort_cases(tier):
    q = tier == 'quick'
    for k, n in ((1, 3), (2, 2), (2, 3), (3, 2)) + (() if q else ((2, 4), (3, 3))):
        for rows in D.thin(itertools.product(itertools.product(range(3), repeat=k), repeat=n), 750 if q else 20000):
            yield (k, rows)


def sort_check(case, ob):
    k, rows = case
    f = getattr(qlplot, '_sort_rows_bycolumns', None)
    if f is None:
        return
    for r in range(1, k + 1):
        for cols in itertools.permutations(range(k), r):
            for order in ('ascending', 'descending'):
                M, c = np.array(rows, dtype=float), list(cols)
                S = f(M, columns=c, order=order)
                ob.op()
                what = 'rows %s by columns %s %s' % (rows, cols, order)
                ob.expect(np.array_equal(M, np.array(rows)) and c == list(cols), '%s: arguments modified (%s)', what, c)
                ob.expect(sorted(map(tuple, S)) == sorted(map(tuple, M)), '%s: %s', what, S)
                keys = [tuple(v[i] for i in cols) for v in S]
                ob.expect(keys == sorted(keys, reverse=order == 'descending'), '%s: %s', what, S.tolist())
                ob.state(S)


# --- boxes
def box_cases(tier):
    q = tier == 'quick'
    for k in (1, 2, 3):
        for n in (1, 3, 4):
            vals = list(itertools.product(range(3), repeat=n))
            for i, cols in enumerate(D.thin(itertools.product(vals, repeat=k), 25 if q else 300)):
                for vert in (None, True, False):
                    for colors in (None, ('red', 'blue', 'green')):
                        yield (cols, vert, colors, i % 2)


def box_check(case, ob):
    cols, vert, colors, as_list = case
    E = np.array(cols, dtype=float).T / 4
    keep = E.copy()
    arg = [E[:, i] for i in range(E.shape[1])] if as_list else E
    names = ['m%d' % i for i in range(len(cols))]
    ax = Figure().add_subplot()
    qlplot.plot_boxes(ax, arg, vert=vert, y_title='yy', x_title='xx', labels=names, colors=None if colors is None else list(colors))
    ob.op()
    what = 'errors %s vert=%s colours=%s' % (cols, vert, colors)
    ob.expect(np.array_equal(E, keep), '%s: arguments modified', what)
    ob.expect(ax.get_xlabel() == 'xx' and ax.get_ylabel() == 'yy', '%s: titles %s %s', what, ax.get_xlabel(), ax.get_ylabel())
    tick = ax.get_yticklabels() if vert is False else ax.get_xticklabels()
    ob.expect([t.get_text() for t in tick] == names, '%s: labels %s', what, [t.get_text() for t in tick])
    lines = [(l.get_ydata(), l.get_xdata()) if vert is False else (l.get_xdata(), l.get_ydata()) for l in ax.lines]
    for i in range(len(cols)):
        med = np.median(E[:, i])
        near = [(np.asarray(p, dtype=float), np.asarray(v, dtype=float)) for p, v in lines if len(p) and
                abs(np.mean(p) - (i + 1)) < 0.3]
        ob.expect(any(len(v) == 2 and np.ptp(v) == 0 and abs(v[0] - med) < 1e-12 and np.ptp(p) > 0 for p, v in near),
                  '%s: no line at the median %s of column %d', what, med, i)
        top = max([v.max() for p, v in near] + [-1])
        ob.expect(abs(top - E[:, i].max()) < 1e-12, '%s: values of column %d up to %s', what, i, top)
    if colors is not None:
        ob.expect([p.get_facecolor() for p in ax.patches] == [mcolors.to_rgba(c) for c in colors[:len(cols)]],
                  '%s: colours %s', what, [p.get_facecolor() for p in ax.patches])
    ob.state([l[1].tolist() if hasattr(l[1], 'tolist') else list(l[1]) for l in lines])


# --- normalisation
def norm_cases(tier):
    q = tier == 'quick'
    for n, m in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2)) + (() if q else ((4, 1), (4, 2), (2, 3))):
        for v in D.thin(itertools.product((-2, 0, 1, 5), repeat=n * m), 300 if q else 4096):
            yield (n, m, v)


def norm_check(case, ob):
    n, m, v = case
    X = np.array(v, dtype=float).reshape(n, m)
    T = np.array([[i * 2.5 - j for j in range(m)] for i in range(3)])
    kx, kt = X.copy(), T.copy()
    a, b = normalize(X, T)
    ob.op()
    ob.state(a, b)
    ob.expect(np.array_equal(X, kx) and np.array_equal(T, kt), 'arguments modified')
    for j in range(m):
        col = [float(x) for x in X[:, j]]
        mu = sum(col) / n
        sd = (sum((x - mu) ** 2 for x in col) / n) ** 0.5
        sd = sd if sd > 1e-9 else 1.0
        ob.close(a[:, j], [(x - mu) / sd for x in col], 1e-9, 'training column %s' % col)
        ob.close(b[:, j], [(x - mu) / sd for x in T[:, j]], 1e-9, 'test column with training column %s' % col)


# --- loading
def load_cases(tier):
    for n, m in ((2, 1), (3, 1), (2, 2), (3, 3), (5, 2)):
        for shift in (0, 1, -3):
            for form in ('%g', '%.6e', ' %g '):
                for classes in (1, 2, 3):
                    yield (n, m, shift, form, classes)


def load_check(case, ob):
    n, m, shift, form, classes = case
    rows = [[(i * 7 + j * 3) % 5 / 4 + shift for j in range(m)] + [(i * 2) % classes + shift] for i in range(n)]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'data.csv')
        with open(f, 'w') as o:
            o.write('\n'.join(','.join(form % v for v in r) for r in rows) + '\n')
        X, y = load_data(f)
    ob.op()
    ob.state(X, y)
    ob.close(X, [r[:-1] for r in rows], 1e-5, 'features')
    ob.expect(np.issubdtype(y.dtype, np.integer) and y.tolist() == [r[-1] for r in rows], 'labels %s', y)


FAMILIES = [
    Family('lines', line_cases, line_check, 'prevalence matrices of 1-4 rows and 2-12 classes on a grid, three orders, three '
           'sets of colours'),
    Family('sorting', sort_cases, sort_check, 'matrices of 2-4 rows with ties, every list of columns, two orders'),
    Family('boxes', box_cases, box_check, '1-3 systems with 1-4 errors on a grid, orientations and colours'),
    Family('normalize', norm_cases, norm_check, 'training matrices of 1-4 rows on a grid, constant columns included'),
    Family('load', load_cases, load_check, 'files of 2-5 rows, three number formats'),
]
