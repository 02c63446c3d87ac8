"""C40 the environment of the process neither influences the answers nor is changed."""
import contextlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

import joblib
import numpy as np
import sklearn
from quantificationlib import bag_generator as B
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.metrics import binary as MB
from quantificationlib.metrics import multiclass as M
from quantificationlib.metrics import ordinal as MO

from mc import core, domains as D, zoo
from mc.core import Family, call
from mc.props import c39
from mc.state import snapshot
from mc.props.c02 import build
from mc.stubs import Echo

ASSUMPTIONS = ['generators of bags with an integer seed (the default); the classifiers of the user do not use the environment',
               'warnings turned into exceptions and floating point errors turned into exceptions are not considered']


# --- everything that is answered: name -> function without arguments
def zoo_run(s, k, v, li):
    def f():
        y, P = build(k, tuple((v + c * (v + 1)) % len(D.simplex(k, 4)) for c in range(k)), (1,) * k if v else (1, 3, 1, 2)[:k], 4)
        lab = D.LABELS[k][li]
        q = s.make()
        s.fit(q, lab, y, P)
        R = P[[0, 1, -1, len(P) // 2]]
        r = [call(s.predict, q, lab, X) for X in (R, P[1:])]
        return [type(x).__name__ if a == 'exc' else x for a, x in r]
    return f


def fit_predict(q, X, y, T):
    q.fit(X, y)
    return [q.predict(T), q.predict(X)]


def jobs():
    J = {}
    for s in zoo.SPECS:
        for k in (2, 3, 4):
            if s.kmin <= k <= s.kmax and (k < 4 or not s.slow):
                for v in (0, 1):
                    J['%s, %d classes, %d' % (s.name, k, v)] = zoo_run(s, k, v, 4 if k < 4 and v == 0 else 3 if k == 4 else v)
    for k in (2, 3):
        X, y, bags = c39.data(k, 0)
        lab = np.array(D.LABELS[k][4])[y]
        for n, (q, es, ks) in c39.SHARED.items():
            for e in es:
                if k in ks and (k > 2 or e not in c39.ORD):
                    J['%s with %s, %d classes' % (n, e, k)] = lambda q=q, e=e, X=X, lab=lab, b=bags: fit_predict(
                        q(c39.ESTS[e]()), X, lab, b[1])
        for n, (q, ks) in c39.OWN.items():
            if k in ks:
                J['%s, %d classes' % (n, k)] = lambda q=q, X=X, lab=lab, b=bags: fit_predict(q(), X, lab, b[1])
        for n, g in list(c39.GENS.items()) + [('default ' + c.__name__, lambda s, c=c: c(n_bags=3)) for c in (
                B.PriorShift_BagGenerator, B.CovariateShift_BagGenerator, B.PriorAndCovariateShift_BagGenerator)]:
            J['generator %s, %d classes' % (n, k)] = lambda g=g, X=X, lab=lab: list(g(5).generate_bags(X, lab))
        for c in (FrankAndHallClassifier, FrankAndHallMonotoneClassifier, FrankAndHallTreeClassifier):
            if k > 2:
                J['%s with parameters' % c.__name__] = lambda c=c, X=X, lab=lab, b=bags: list(
                    [c(Echo(), params_fit=[dict(power=1), dict(power=2)]).fit(X, lab).predict_proba(b[1])])
    a, b = np.array([.2, .3, .5]), np.array([.25, .5, .25])
    for m, ns in ((M, ('kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe', 'jensenshannon',
                       'probsymmetric')), (MO, ('emd', 'emd_score'))):
        for n in ns:
            J['metric ' + n] = lambda f=getattr(m, n): [f(a, b), f(b, a)]
    J['metric geometric_mean'] = lambda: [M.geometric_mean(np.array([0, 1, 1, 2]), np.array([0, 1, 2, 2]))]
    J['metric absolute_error'] = lambda: [MB.absolute_error(.2, .5)]
    return J


JOBS = jobs()
_WANT = {}


def values(v):
    return [x if isinstance(x, str) else {n: np.asarray(t, float).tolist() for n, t in x.items()} if isinstance(x, dict)
            else np.asarray(x, dtype=float).tolist() for x in v]


def want(n):
    if n not in _WANT:
        with contextlib.redirect_stdout(io.StringIO()):
            _WANT[n] = values(JOBS[n]())
    return _WANT[n]


def compare(ob, n, got, how):
    w = want(n)
    ob.expect(len(got) == len(w), '%s, %s: %s instead of %s', n, how, got, w)
    for a, b in zip(got, w):
        if isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
            ob.expect(a == b, '%s, %s: %s instead of %s', n, how, a, b)
        else:
            a, b = np.array(a, float), np.array(b, float)
            ob.expect(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-7), '%s, %s: %s instead of %s', n, how, a.tolist(), b.tolist())


@contextlib.contextmanager
def ambient(e):
    """a change of the environment made by the user before using the library"""
    old = np.random.get_state(), random.getstate(), np.geterr(), np.get_printoptions(), os.getcwd(), dict(os.environ)
    scratch = tempfile.mkdtemp(prefix='c40-')
    try:
        with contextlib.ExitStack() as st:
            os.chdir(scratch)
            if e.startswith('seed'):
                np.random.seed(int(e[5:]))
                random.seed(int(e[5:]))
            elif e == 'numpy prints':
                np.set_printoptions(precision=1, threshold=2, edgeitems=1, suppress=True, linewidth=10)
            elif e == 'numpy ignores':
                np.seterr(all='ignore')
            elif e == 'numpy warns':
                np.seterr(all='warn')
            elif e == 'warnings':
                st.enter_context(warnings.catch_warnings())
                warnings.simplefilter('always')
            elif e == 'sklearn':
                st.enter_context(sklearn.config_context(assume_finite=True, display='text', working_memory=1))
            elif e == 'joblib':
                st.enter_context(joblib.parallel_config(backend='threading', n_jobs=2))
            elif e == 'home':
                os.environ.update(HOME='/nonexistent', TMPDIR=scratch, USER='nobody', TZ='Asia/Tokyo', LANG='tr_TR.UTF-8')
            with contextlib.redirect_stderr(io.StringIO()):
                yield
    finally:
        np.random.set_state(old[0])
        random.setstate(old[1])
        np.seterr(**old[2])
        np.set_printoptions(**old[3])
        os.chdir(old[4])
        os.environ.clear()
        os.environ.update(old[5])
        shutil.rmtree(scratch)


ENVS = ('seed 0', 'seed 1', 'seed 2032', 'numpy prints', 'numpy ignores', 'numpy warns', 'warnings', 'sklearn', 'joblib', 'home')


def ambient_cases(tier):
    for n in JOBS:
        yield (n,)


def ambient_check(case, ob):
    n, = case
    for e in ('nothing changed',) + ENVS:
        with ambient(e):
            out = io.StringIO()
            before = snapshot()
            with contextlib.redirect_stdout(out):
                r = values(JOBS[n]())
            after = snapshot()
        ob.op(3)
        for a in before:
            ob.expect(before[a] == after[a], '%s (%s): the %s changed', n, e, a)
        ob.expect(out.getvalue() == '', '%s in silent mode prints %r', n, out.getvalue()[:200])
        if e not in ENVS:
            _WANT[n] = r
            continue
        compare(ob, n, r, 'environment "%s"' % e)
        ob.trace()
    ob.state(n, [np.round(x, 6).tolist() if not isinstance(x, (str, dict)) else str(x) for x in want(n)])


# --- another process
PROCESSES = {'hash 1': dict(PYTHONHASHSEED='1'), 'hash 2': dict(PYTHONHASHSEED='2'), 'hash 77': dict(PYTHONHASHSEED='77'),
             'optimized': '-O', 'without docstrings': '-OO', 'C locale': dict(LC_ALL='C', LANG='C', PYTHONUTF8='0'),
             'time zone': dict(TZ='Pacific/Kiritimati'), 'four threads': dict(OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='4'),
             'no home': dict(HOME='/nonexistent'), 'isolated': '-s', 'reversed': 'reversed'}


def process_cases(tier):
    for e in PROCESSES:
        for part in range(4):
            yield (e, part)


def dump(part, backwards):
    ns = list(JOBS)[part::4]
    res = {}
    for n in reversed(ns) if backwards else ns:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res[n] = values(JOBS[n]())
        except Exception as e:
            res[n] = 'exception: %r' % e
    print(json.dumps(res))


def process_check(case, ob):
    e, part = case
    how = PROCESSES[e]
    env = dict(os.environ, PYTHONPATH=core.ROOT + os.pathsep + core.REPO, PYTHONDONTWRITEBYTECODE='1')
    if isinstance(how, dict):
        env.update(how)
    flag = [how] if isinstance(how, str) and how.startswith('-') else []
    scratch = tempfile.mkdtemp(prefix='c40-')
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore'] + flag + ['-c', 'from mc.props import c40; c40.dump(%d, %r)' % (
            part, how == 'reversed')], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        left = os.listdir(scratch)
    finally:
        shutil.rmtree(scratch)
    if r.returncode != 0 and b'MemoryError' in r.stderr:
        raise core.HarnessError(r.stderr.decode()[-400:])
    ob.expect(r.returncode == 0, 'process "%s" fails: %s', e, r.stderr.decode()[-600:])
    ob.expect(left == [], 'process "%s" leaves the files %s', e, left)
    got = json.loads(r.stdout.decode().splitlines()[-1])
    for n in list(JOBS)[part::4]:
        ob.op(3)
        ob.expect(not isinstance(got[n], str), '%s, process "%s": %s', n, e, got[n])
        compare(ob, n, got[n], 'process "%s"' % e)
        ob.trace()
    ob.state(case, len(got))


# --- loading the library
MODULES = sorted(os.path.relpath(os.path.join(d, f), core.REPO)[:-3].replace(os.sep, '.') for d, _, fs in os.walk(os.path.join(
    core.REPO, 'quantificationlib')) for f in fs if f.endswith('.py') and f != '__init__.py')
KEEP = ('global random generators', 'numpy error settings', 'numpy print options', 'warning filters', 'working directory', 'environment variables',
        'sklearn configuration', 'files', 'recursion limit', 'locale')
LOAD = """
import os, sys, importlib, contextlib, io
import numpy, scipy.stats, sklearn.multiclass, sklearn.model_selection, joblib, cvxpy, quadprog, statsmodels.api, matplotlib.pyplot, pandas
numpy.random.seed(7)
from mc.state import snapshot
before = snapshot()
with contextlib.redirect_stdout(io.StringIO()):
    importlib.import_module(%r)
after = snapshot()
print([n for n in %r if before[n] != after[n]])
"""


def import_cases(tier):
    for m in MODULES:
        yield (m,)


def import_check(case, ob):
    m, = case
    scratch = tempfile.mkdtemp(prefix='c40-')
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', LOAD % (m, KEEP)], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=300, env=dict(os.environ, PYTHONPATH=core.ROOT + os.pathsep + core.REPO, PYTHONDONTWRITEBYTECODE='1'))
    finally:
        shutil.rmtree(scratch)
    ob.op()
    if r.returncode != 0:       # modules of the repository that need something that is not installed
        if b'ModuleNotFoundError' in r.stderr:
            return
        ob.expect(False, '%s cannot be loaded: %s', m, r.stderr.decode()[-400:])
    out = r.stdout.decode().splitlines()[-1]
    ob.state(out)
    ob.expect(out == '[]', 'loading %s changes %s', m, out)
    ob.trace()


FAMILIES = [Family('ambient', ambient_cases, ambient_check, 'every quantifier, classifier, generator and measure x 10 environments of the process'),
            Family('processes', process_cases, process_check, 'the same operations in 11 other processes, in another order too'),
            Family('imports', import_cases, import_check, 'every module of the library, loaded in a new process')]
