"""C04 histories of fits and predictions: only the last training set counts."""
import copy
import itertools
import pickle
import warnings

import numpy as np

from mc import domains as D, zoo
from mc.core import Family, call
from mc.props.c02 import build
from mc.props.c03 import TOL, degenerate, same

ASSUMPTIONS = ['training sets whose problems have only one solution; solvers compared within their precision',
               'predictions are given: classifiers are fitted only once by design (C05)']


def trainings(s):
    """three training sets (k, labels, y, rows); the second one has the same classes, the third one another number"""
    k = max(2, s.kmin)
    k3 = k + 1 if s.kmax > k else k
    n, n3 = len(D.simplex(k, 4)), len(D.simplex(k3, 4))
    res = []
    for i, (kk, m) in enumerate(((k, (1,) * k), (k, (1, 3, 1, 1)[:k]), (k3, (2, 1, 1, 2, 1)[:k3]))):
        nn = n3 if i == 2 else n
        y, P = build(kk, tuple((3 * i + c * (i + 2) + 1) % nn for c in range(kk)), m, 4)
        res.append((kk, D.LABELS[kk][(2 * i + 1) % len(D.LABELS[kk])], y, P))
    return res


def bags(s, tr):
    """three bags; what they contain depends on the number of classes of the training set used at that moment"""
    k, _, y, P = tr
    part = [P[[i for i in range(len(y)) if y[i] == c]][:3] for c in range(k)]
    b = [part[0], np.vstack(part[1:] + part[-1:]), np.vstack([part[0], part[0], part[1]])]
    if s.loss in ('closed', 'L2', 'reg'):
        R = zoo.rows(k, 4)
        b[0] = R[[1, 0]]
        b[1] = np.vstack([part[-1], R])
    return b


def sequences(s, q):
    """every sequence that starts with a fit and ends with a prediction"""
    fits, preds = ('F0', 'F1', 'F2'), ('P0', 'P1', 'P2')
    if s.slow:
        preds = preds[:2]
    depth = (4 if q else 5) + (s.loss == 'closed' and not s.name.startswith('EoQ'))
    ops = fits + preds
    for seq in itertools.product(*([fits] + [ops] * (depth - 2) + [preds])):
        yield seq


def cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        if degenerate(s, 2) or s.name.startswith('EoQ') and q and not s.name.endswith(('mean', 'distr')):
            continue
        seqs = list(sequences(s, q))
        for c in seqs:
            yield (s.name,) + c


_TR, _FRESH = {}, {}


def fresh(s, t, b):
    key = (s.name, t, b)
    if key not in _FRESH:
        tr = _TR[s.name][t]
        q = s.make()
        s.fit(q, tr[1], tr[2], tr[3])
        r, p = call(s.predict, q, tr[1], bags(s, tr)[b])
        _FRESH[key] = type(p).__name__ if r == 'exc' else np.array(p, dtype=float)
    return _FRESH[key]


def check(case, ob):
    s = zoo.BY_NAME[case[0]]
    if s.name not in _TR:
        _TR[s.name] = trainings(s)
    q = s.make()
    t = None
    for i, op in enumerate(case[1:]):
        j = int(op[1])
        ob.op()
        if op[0] == 'F':
            t = j
            s.fit(q, *_TR[s.name][t][1:])
            continue
        tr = _TR[s.name][t]
        r, p = call(s.predict, q, tr[1], bags(s, tr)[j])
        got = type(p).__name__ if r == 'exc' else np.array(p, dtype=float)
        ob.state(t, j, got)
        same(ob, got, fresh(s, t, j), TOL[s.loss], '%s after %s, training set %s' % (
            s.name, ' '.join(case[1:i + 2]), [list(tr[1]), tr[2], tr[3].tolist()]))
        if isinstance(p, np.ndarray) and p.flags.writeable:
            p[...] = 7.0       # the caller owns the answer


# --- operations that fail, and copies
def bad_predict(s, q, tr, j):
    """a bag that cannot be used: empty, without columns, nothing; whatever happens must not matter later"""
    k, labels, y, P = tr
    t = bags(s, tr)[0]
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if j == 2:
            return call(q.predict, None)
        t = zoo.feats(t) if s.kind == 'x' else s.preds(labels, t)
        t = t[:0] if j == 0 else t[:, :0] if t.ndim == 2 else np.array([None, 'x'])
        return call(q.predict, t) if s.kind == 'x' else call(q.predict, None, predictions_test=t)


def bad_fit(s, q, tr, j):
    """training data that cannot be used: predictions of other examples, examples without labels"""
    d = s.train(tr[1], tr[2], tr[3])
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if j == 0:
            n = 'predictions_train' if 'predictions_train' in d else 'X'
            d[n] = d[n][:-1]
        else:
            d['y'] = d['y'][:0]
        return call(q.fit, **d)


def fail_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        if degenerate(s, 2) or s.name.startswith('EoQ') and q and not s.name.endswith(('mean', 'distr')):
            continue
        bad = ['E0', 'E1', 'E2', 'G0', 'G1']
        copies = ['C', 'K']
        for x in bad + copies:
            for seq in (('F0', x, 'P0'), ('F0', 'P1', x, 'P1', 'P0'), (x, 'F0', 'P0'), ('F1', x, 'F0', 'P1'),
                        ('F0', 'P0', x, 'F1', 'P0', 'P1')):
                yield (s.name,) + seq
        if not s.slow or not q:
            for x, z in itertools.product(bad + copies, repeat=2):
                yield (s.name, 'F0', x, 'P0', z, 'P1')
                yield (s.name, 'F1', 'P1', x, z, 'F0', 'P0')


def fail_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    if s.name not in _TR:
        _TR[s.name] = trainings(s)
    q = s.make()
    t, old = None, None
    for i, op in enumerate(case[1:]):
        ob.op()
        if op in ('C', 'K'):
            if t is not None:
                old = q, t
            q = copy.deepcopy(q) if op == 'C' else pickle.loads(pickle.dumps(q))
            continue
        j = int(op[1])
        if op[0] == 'F':
            t = j
            s.fit(q, *_TR[s.name][t][1:])
        elif op[0] == 'E':
            bad_predict(s, q, _TR[s.name][t or 0], j)
        elif op[0] == 'G':
            bad_fit(s, q, _TR[s.name][2], j)
            t = None
            if not any(o[0] == 'F' for o in case[2 + i:]):
                return      # a training that failed: only another training makes it useful again
        else:
            what = '%s after %s, training set %s' % (s.name, ' '.join(case[1:i + 2]), [list(_TR[s.name][t][1]), _TR[s.name][t][2],
                                                                                   _TR[s.name][t][3].tolist()])
            for obj, tt in [(q, t)] + ([old] if old else []):
                tr = _TR[s.name][tt]
                r, p = call(s.predict, obj, tr[1], bags(s, tr)[j])
                got = type(p).__name__ if r == 'exc' else np.array(p, dtype=float)
                ob.state(tt, j, got)
                same(ob, got, fresh(s, tt, j), TOL[s.loss], what + ('' if obj is q else ' (the original of the copy)'))


FAMILIES = [Family('histories', cases, check, 'every quantifier x all the sequences of 4-5 (5-6 thorough) operations over 3 training '
                   'sets (other labels, sizes and number of classes) and 3 bags (2 with slow solvers); returned arrays '
                   'are overwritten by the caller'),
            Family('failures', fail_cases, fail_check, 'every quantifier x histories with one or two predictions or trainings that '
                   'fail, copies (deepcopy, pickle) of the object and the original after copying it')]
