"""A joblib backend whose schedule is decided by the explorer.

It is a pool of `n_jobs` workers that take the jobs in the order in which they are dispatched (as the real pools do). The
worker threads only advance one at a time, when the explorer says so, from one *point* to the next one. The points are the
calls to the models (the stubs call `point`) and, when `lines` is set, every source line of the library executed by the job
(or every call to a function of the library, when it is 'calls').
So a schedule is a sequence of decisions (which running worker advances, or whether an idle worker takes the next job), and
`explore` runs all of them, up to a number of preemptions (changes of worker while the previous one could continue).

With `isolated` the jobs and their results are pickled, as with processes."""
import sys
import threading

import cloudpickle

from joblib import parallel_config, register_parallel_backend
from joblib._parallel_backends import ParallelBackendBase


from mc import core

_local = threading.local()


def point():
    """called by the stubs: the worker may be suspended here"""
    w = getattr(_local, 'worker', None)
    if w is not None and not w.atomic:
        w.pause()


class _Worker:
    def __init__(self, ctl, func, callback, future):
        self.ctl, self.func, self.callback, self.future = ctl, func, callback, future
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done = self.atomic = False
        self.thread = threading.Thread(target=self.run, daemon=True)

    def pause(self):
        self.back.release()
        self.go.acquire()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO + '/quantificationlib/'):
            return None
        if self.ctl.lines == 'calls':
            if not self.atomic:
                self.pause()
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line' and not self.atomic:
            self.pause()
        return self.line

    def run(self):
        self.go.acquire()
        _local.worker = self
        if self.ctl.lines:
            sys.settrace(self.trace)
        try:
            try:
                if self.ctl.isolated:
                    v = cloudpickle.loads(cloudpickle.dumps(cloudpickle.loads(self.func)()))
                else:
                    v = self.func()
                self.future.value = ('ok', v)
            except BaseException as e:
                self.future.value = ('exc', e)
            self.atomic = True          # joblib locks itself while it dispatches the next job
            if not self.ctl.aborted:
                self.callback(self.future)
        except BaseException as e:
            self.ctl.trouble = e
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def advance(self):
        self.go.release()
        self.back.acquire()


class _Future:
    def __init__(self, ctl):
        self.ctl, self.value = ctl, None

    def get(self, timeout=None):
        while self.value is None:
            self.ctl.step()
        if self.value[0] == 'exc':
            raise self.value[1]
        return self.value[1]


class Controller:
    """one execution: follows `prefix` and then the default decision (go on with the same worker, otherwise the first one)"""

    def __init__(self, prefix, n_workers, preemptions, lines, isolated):
        self.prefix, self.n_workers, self.preemptions = prefix, n_workers, preemptions
        self.lines, self.isolated = lines, isolated
        self.queue, self.running, self.last = [], [], None
        self.trail = []           # (decision, options)
        self.used = 0
        self.aborted, self.trouble, self.jobs = False, None, 0

    def submit(self, func, callback):
        f = _Future(self)
        if self.isolated:
            func = cloudpickle.dumps(func)
        self.queue.append(_Worker(self, func, callback, f))
        self.jobs += 1
        return f

    def step(self):
        if self.trouble is not None:
            raise self.trouble
        options = list(self.running)
        if self.queue and len(self.running) < self.n_workers:
            options.append(None)
        if not options:
            raise core.HarnessError('no worker can advance')
        if self.last in options:      # first option: to go on
            options.remove(self.last)
            options = [self.last] + (options if self.used < self.preemptions else [])
        i = self.prefix[len(self.trail)] if len(self.trail) < len(self.prefix) else 0
        i = min(i, len(options) - 1)       # (the same decisions always give the same options in the unchanged library)
        self.trail.append((i, len(options)))
        w = options[i]
        if i and options[0] is self.last:
            self.used += 1
        if w is None:
            w = self.queue.pop(0)
            self.running.append(w)
            w.thread.start()
        w.advance()
        self.last = w
        if w.done:
            self.running.remove(w)
            self.last = None

    def drain(self):
        """the call has finished (or failed): the running jobs end, the others never start"""
        self.aborted = True
        self.queue = []
        while self.running:
            w = self.running[0]
            w.advance()
            if w.done:
                self.running.remove(w)


class Backend(ParallelBackendBase):
    supports_retrieve_callback = False
    supports_sharedmem = True
    uses_threads = True
    control = None

    def effective_n_jobs(self, n_jobs):
        if n_jobs is None:
            return 1
        return 4 if n_jobs < 0 else n_jobs

    def configure(self, n_jobs=1, parallel=None, **k):
        self.parallel = parallel
        n = self.effective_n_jobs(n_jobs)
        Backend.control.n_workers = n
        return n

    def submit(self, func, callback=None):
        return Backend.control.submit(func, callback)

    apply_async = submit

    def retrieve_result(self, out, timeout=None):
        return out.get()

    def abort_everything(self, ensure_ready=True):
        Backend.control.drain()

    def terminate(self):
        Backend.control.drain()
        Backend.control.aborted = False


register_parallel_backend('explorer', Backend)


def run(f, prefix=(), preemptions=99, lines=False, isolated=False):
    """f() under one schedule; returns (outcome, controller)"""
    c = Controller(prefix, 1, preemptions, lines, isolated)
    Backend.control = c
    with parallel_config(backend='explorer'):
        out = core.call(f)
    c.drain()
    if isinstance(c.trouble, Exception):
        raise core.HarnessError('joblib failed: %r' % c.trouble)
    return out, c


def explore(f, judge, preemptions=99, lines=False, isolated=False, limit=None):
    """every schedule of f(); judge(outcome, decisions, controller) after each one. Returns the number of schedules and of
    steps; limit only bounds the time on changed code (on the unchanged tree there are always less schedules)."""
    prefix, n, steps = [], 0, 0
    while True:
        out, c = run(f, prefix, preemptions, lines, isolated)
        n += 1
        steps += len(c.trail)
        judge(out, [i for i, _ in c.trail], c)
        t = c.trail
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return n, steps
        if limit is not None and n >= limit:
            return n, steps
        prefix = [i for i, _ in t[:-1]] + [t[-1][0] + 1]
