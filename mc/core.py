"""Exploration core shared by every check.

A property module (mc/props/cXX.py) lists *families*.  A family is a finite, completely enumerated space of *cases*
(an input, an operation history, a tree of environment answers, a schedule ...) plus a `check(case, ob)` function that
drives the real code of /repo on that case and compares every observation with a reference model.  This module
enumerates every case of every family (in parallel processes, deterministic order), merges the counts, writes the
evidence file and turns the first failing case (the simplest one, families enumerate simplest first) into a replay file.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')   # the override is only for trying planted bugs in scratch copies
CPU_LIMIT = 150       # seconds of CPU time that one case may use before it counts as "does not terminate"
MAX_FAILS = 5         # failures kept per family and chunk


class CheckFailed(Exception):
    """Raised by Observer.expect: the case violates the property."""


class Stuck(BaseException):
    """A case used all its CPU time or all its steps (horizon)."""


class HarnessError(Exception):
    """Something wrong in the harness itself, never reported as a violation."""


def canon(x):
    """Canonical, hashable form of an observation. Floats are rounded, so equal observations merge."""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, (float, np.floating)):
        return round(float(x), 6) + 0.0 if np.isfinite(x) else str(x)
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (int, np.integer, str, bool, type(None))):
        return x
    return str(x)


class Observer:
    """What a case reports: operations applied to the implementation, observed states, comparisons."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.states = set()

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, *obs):
        self.states.add(hashlib.blake2b(repr(canon(obs)).encode(), digest_size=8).digest())

    def expect(self, cond, msg, *args):
        self.comparisons += 1
        if not cond:
            raise CheckFailed(msg % args if args else msg)

    def close(self, got, want, tol, msg):
        """|got - want| <= tol for every entry and same shape; NaN never passes."""
        self.comparisons += 1
        got_ = np.asarray(got, dtype=float)
        want_ = np.asarray(want, dtype=float)
        if got_.shape != want_.shape:
            raise CheckFailed('%s: shape %s, expected %s (got %s, expected %s)' % (msg, got_.shape, want_.shape,
                                                                                short(got_), short(want_)))
        if got_.size and not np.all(np.abs(got_ - want_) <= tol):
            raise CheckFailed('%s: got %s, expected %s (tolerance %g)' % (msg, short(got_), short(want_), tol))

    def distribution(self, p, k, msg, tol=1e-6):
        """p is a probability distribution over k classes"""
        self.comparisons += 1
        try:
            p_ = np.asarray(p, dtype=float)
        except (TypeError, ValueError):
            raise CheckFailed('%s: not a numeric vector: %r' % (msg, p))
        if p_.shape != (k,):
            raise CheckFailed('%s: shape %s, expected (%d,): %s' % (msg, p_.shape, k, short(p_)))
        if not np.all(np.isfinite(p_)):
            raise CheckFailed('%s: not finite: %s' % (msg, short(p_)))
        if p_.min() < -tol or p_.max() > 1 + tol or abs(p_.sum() - 1) > tol:
            raise CheckFailed('%s: not a distribution: %s (sum %.9g)' % (msg, short(p_), p_.sum()))


def short(a):
    s = np.array2string(np.asarray(a), precision=7, threshold=40, separator=', ') if not np.isscalar(a) else repr(a)
    return ' '.join(s.split())[:400]


class Family:
    def __init__(self, name, cases, check, note=''):
        self.name, self.cases, self.check, self.note = name, cases, check, note


def call(f, *a, **k):
    """Run a library call; returns ('ok', value) or ('exc', exception)."""
    try:
        return 'ok', f(*a, **k)
    except (CheckFailed, HarnessError):
        raise
    except Exception as e:
        return 'exc', e


def _alarm(signum, frame):
    raise Stuck('case used more than %d s of CPU time' % CPU_LIMIT)


def in_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def run_case(family, case, ob):
    """None when the property holds on the case, otherwise the failure message."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            family.check(case, ob)
        ob.trace()
        return None
    except CheckFailed as e:
        return str(e)
    except Stuck as e:
        return 'no termination: %s' % e
    except HarnessError:
        raise
    except Exception as e:
        if not in_repo(e.__traceback__):
            if isinstance(e, (MemoryError, OSError, ImportError)):
                raise
            # what the library returned has not even the form that the reference compares (None, a missing attribute ...)
            last = traceback.extract_tb(e.__traceback__)[-1]
            return 'the outcome cannot be judged, %s in %s:%d: %s' % (type(e).__name__, os.path.basename(last.filename),
                                                                     last.lineno, ' '.join(str(e).split())[:200])
        last = [fr for fr in traceback.extract_tb(e.__traceback__) if fr.filename.startswith(REPO + '/')][-1]
        return 'unexpected %s in %s:%d: %s' % (type(e).__name__, os.path.relpath(last.filename, REPO), last.lineno,
                                               ' '.join(str(e).split())[:200])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


# ---------------------------------------------------------------------------------------------------------------------
_FAMS = None
_CASES = None


def _work(task):
    fam_i, lo, hi = task
    fam = _FAMS[fam_i]
    ob = Observer()
    fails = []
    samples = []
    done = 0
    try:
        for i in range(lo, hi):
            case = _CASES[fam_i][i]
            msg = run_case(fam, case, ob)
            done += 1
            if msg is not None and len(fails) < MAX_FAILS:
                fails.append((i, msg))
                if len(fails) == MAX_FAILS:
                    break
            if i == lo:
                samples.append(i)
        return fam_i, done, ob.transitions, ob.traces, ob.comparisons, ob.states, fails, None
    except BaseException:
        return fam_i, done, ob.transitions, ob.traces, ob.comparisons, ob.states, fails, traceback.format_exc()


def known_findings(prop):
    """known: property=<id> family=<name> case=<json> :: <what fails>"""
    res = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                head, desc = line.split(' :: ', 1)
                fam = head.split(' family=', 1)[1].split(' case=', 1)[0]
                case = head.split(' case=', 1)[1]
                res[(fam, json.dumps(json.loads(case)))] = desc
    return res


def jcase(case):
    return json.dumps(json.loads(json.dumps(case, default=_jd)))


def _jd(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


def explore(prop, module, tier, seed, only=None, procs=None):
    global _FAMS, _CASES
    t0 = time.time()
    _FAMS = [f for f in module.FAMILIES if only is None or f.name in only]
    _CASES = [list(f.cases(tier)) for f in _FAMS]
    procs = procs or int(os.environ.get('MC_PROCS', 0)) or min(8, os.cpu_count() or 1)
    stop = bool(os.environ.get('MC_STOP'))      # only for trying many planted bugs: end at the first failing chunk
    tasks = []
    for i, cs in enumerate(_CASES):
        size = max(1, min(200, len(cs) // (procs * 6) + 1))
        tasks += [(i, lo, min(lo + size, len(cs))) for lo in range(0, len(cs), size)]
    # the order in which chunks are dispatched depends on the seed, what is explored does not
    order = np.random.RandomState(seed).permutation(len(tasks))
    per = {f.name: dict(cases=0, enumerated=len(cs), transitions=0, traces=0, comparisons=0, outcomes=0)
           for f, cs in zip(_FAMS, _CASES)}
    states = {f.name: set() for f in _FAMS}
    fails = []
    errors = []
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as pool:
        for fam_i, done, tr, tc, cmp_, st, fl, err in pool.imap_unordered(_work, [tasks[j] for j in order]):
            n = _FAMS[fam_i].name
            per[n]['cases'] += done
            per[n]['transitions'] += tr
            per[n]['traces'] += tc
            per[n]['comparisons'] += cmp_
            states[n] |= st
            fails += [(fam_i, i, msg) for i, msg in fl]
            if err:
                errors.append((n, err))
            if stop and (fl or err):
                break
    for n in per:
        per[n]['outcomes'] = len(states[n])
    return dict(per=per, fails=sorted(fails), errors=errors, wall=time.time() - t0)


def main(prop, tier, seed, only=None):
    import importlib
    sys.path.insert(0, REPO)
    module = importlib.import_module('mc.props.' + prop.lower())
    r = explore(prop, module, tier, seed, only)
    known = known_findings(prop)
    shown, new = set(), []
    for fam_i, i, msg in r['fails']:
        fam = _FAMS[fam_i]
        key = (fam.name, jcase(_CASES[fam_i][i]))
        if key in known:
            if key not in shown:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
                shown.add(key)
        else:
            new.append((fam, key[1], msg))
    samples = []
    for f, cs in zip(_FAMS, _CASES):
        for j in sorted({0, len(cs) // 2, len(cs) - 1} if cs else ()):
            samples.append(dict(family=f.name, index=j, case=json.loads(jcase(cs[j]))))
    per = r['per']
    complete = all(v['cases'] == v['enumerated'] for v in per.values()) and not r['errors']
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=sum(v['outcomes'] for v in per.values()),
                            transitions=sum(v['transitions'] for v in per.values()),
                            traces_validated_against_impl=sum(v['traces'] for v in per.values()),
                            comparisons_with_reference=sum(v['comparisons'] for v in per.values()),
                            exhaustive=bool(complete),
                            samples=samples,
                            families={f.name: dict(per[f.name], space=f.note) for f in _FAMS},
                            explanation='states: distinct canonical observations reached; transitions: operations '
                                        'applied to the implementation; traces: executions of the implementation '
                                        'compared from beginning to end with the reference model; every family is '
                                        'enumerated completely within its bounds'),
              assumptions=getattr(module, 'ASSUMPTIONS', []),
              wall_s=round(r['wall'], 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for n, v in per.items():
        print('%s %-28s cases=%d transitions=%d outcomes=%d comparisons=%d' % (prop, n, v['cases'], v['transitions'],
                                                                              v['outcomes'], v['comparisons']))
    print('%s tier=%s wall=%.1fs' % (prop, tier, r['wall']))
    if new:
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for fam, case, msg in new:
            if fam.name in seen:
                continue
            seen.add(fam.name)
            h = hashlib.blake2b(case.encode(), digest_size=5).hexdigest()
            path = os.path.join('replays', '%s-%s-%s.json' % (prop, fam.name, h))
            with open(os.path.join(ROOT, path), 'w') as f:
                json.dump(dict(property=prop, family=fam.name, case=json.loads(case), message=msg), f, indent=1)
            print('  %s: %s' % (fam.name, msg))
            print('  case: %s' % case[:600])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if r['errors']:
        for n, e in r['errors'][:3]:
            print('HARNESS ERROR in family %s\n%s' % (n, e))
        return 2
    return 0
