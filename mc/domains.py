"""Finite domains: everything is exact and enumerated completely, simplest elements first."""
import itertools
from fractions import Fraction as F

import numpy as np


def compositions(n, k):
    """all k-tuples of non-negative integers with sum n"""
    if k == 1:
        yield (n,)
        return
    for i in range(n, -1, -1):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def simplex(k, d):
    """all points of the simplex with k coordinates multiple of 1/d, as integer tuples (numerators)"""
    return list(compositions(d, k))


def multisets(items, n):
    return list(itertools.combinations_with_replacement(items, n))


def surjections(n, k):
    """all label vectors of length n over {0..k-1} where every class appears"""
    return [y for y in itertools.product(range(k), repeat=n) if len(set(y)) == k]


def sorted_surjections(n, k):
    return [tuple(i for i, c in enumerate(cs) for _ in range(c)) for cs in compositions(n, k) if min(cs) > 0]


def perms(n):
    return list(itertools.permutations(range(n)))


def mat(rows, d=1):
    return np.array(rows, dtype=float) / d


LABELS = {
    2: [(0, 1), (1, 2), (-1, 1), (3, 9), ('a', 'b')],
    3: [(0, 1, 2), (1, 2, 3), (-2, 0, 4), (3, 5, 9), ('a', 'b', 'c')],
    4: [(0, 1, 2, 3), (1, 2, 3, 4), (-7, -1, 2, 10), ('a', 'b', 'c', 'd')],
    5: [(0, 1, 2, 3, 4), (2, 3, 5, 7, 11)],
}


def thin(seq, n):
    """at most n elements, evenly spread, first and last kept (deterministic)"""
    seq = list(seq)
    if len(seq) <= n:
        return seq
    idx = sorted({int(round(i * (len(seq) - 1) / (n - 1))) for i in range(n)})
    return [seq[i] for i in idx]
