"""Deterministic scheduler: runs python threads one bytecode at a time, in an order chosen by the caller.

Threads are preempted at every bytecode of the code of Patro.  Locks created while `cooperative_locks` is
active are replaced by cooperative ones; a thread which blocks on anything else is detected by a timeout.
"""
import contextlib
import os
import sys
import threading
import _thread

REPO = os.environ.get('VF_REPO', '/repo')
_RealLock = threading.Lock
_RealRLock = threading.RLock


class Abort(BaseException):
    pass


class CoopLock:
    """Lock and RLock"""

    current = None   # scheduler

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        scheduler = CoopLock.current
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if scheduler is None:
                raise RuntimeError('deadlock: the lock is still held')
            scheduler.blocked(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


@contextlib.contextmanager
def cooperative_locks(*modules):
    make_lock = lambda: CoopLock(False)
    make_rlock = lambda: CoopLock(True)
    saved = [(threading, 'Lock', threading.Lock), (threading, 'RLock', threading.RLock)]
    for module in modules:
        for name, value in list(vars(module).items()):
            if value is _RealLock or value is _RealRLock:
                saved.append((module, name, value))
    for module, name, value in saved:
        setattr(module, name, make_rlock if value is _RealRLock else make_lock)
    try:
        yield
    finally:
        for module, name, value in saved:
            setattr(module, name, value)


class Worker:

    def __init__(self, scheduler, function):
        self.scheduler = scheduler
        self.function = function
        self.go = _RealLock()
        self.go.acquire()
        self.done = False
        self.waiting_lock = None
        self.stuck = False
        self.arrived = False
        self.result = None
        self.steps = 0

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.scheduler.prefix):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            self.pause()
        return self.local

    def pause(self):
        self.scheduler.report(self)
        self.go.acquire()
        if self.scheduler.aborted:
            raise Abort()

    def main(self):
        self.go.acquire()
        try:
            sys.settrace(self.trace)
            try:
                self.result = self.function()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as exception:
            self.result = exception
        self.done = True
        self.scheduler.report(self)


class Scheduler:

    """Run the functions under the schedule given by choose(runnable indexes, previous) -> index"""

    def __init__(self, functions, choose, prefix=None, max_steps=20000):
        self.prefix = prefix or os.path.join(REPO, 'Patro')
        self.choose = choose
        self.event = threading.Semaphore(0)
        self.aborted = False
        self.workers = [Worker(self, function) for function in functions]
        self.by_ident = {}
        self.max_steps = max_steps
        self.trace = []
        self.deadlock = False

    def report(self, worker):
        worker.arrived = True
        self.event.release()

    def blocked(self, lock):
        worker = self.by_ident[_thread.get_ident()]
        worker.waiting_lock = lock
        worker.pause()
        worker.waiting_lock = None

    def run(self):
        CoopLock.current = self
        threads = []
        for worker in self.workers:
            def body(worker=worker):
                self.by_ident[_thread.get_ident()] = worker
                worker.main()
            thread = threading.Thread(target=body, daemon=True)
            threads.append(thread)
            thread.start()
        previous = None
        try:
            while True:
                if all(w.done for w in self.workers):
                    break
                for w in self.workers:
                    if w.stuck and w.arrived:
                        w.stuck = False
                runnable = [i for i, w in enumerate(self.workers)
                            if not w.done and not w.stuck
                            and not (w.waiting_lock is not None and w.waiting_lock.locked())]
                if not runnable:
                    if any(w.stuck for w in self.workers):
                        if not self.event.acquire(timeout=2):
                            self.deadlock = True
                            break
                        continue
                    self.deadlock = True
                    break
                index = self.choose(runnable, previous)
                previous = index
                self.trace.append(index)
                worker = self.workers[index]
                worker.arrived = False
                worker.steps += 1
                worker.go.release()
                if not self.wait(worker, .5):
                    worker.stuck = True
                if len(self.trace) > self.max_steps:
                    raise RuntimeError('too many steps')
        finally:
            if self.deadlock:
                self.aborted = True
                for w in self.workers:
                    if not w.done:
                        try:
                            w.go.release()
                        except RuntimeError:
                            pass
            for thread in threads:
                thread.join(timeout=2)
            CoopLock.current = None
        return [w.result for w in self.workers]

    def wait(self, worker, timeout):
        while not worker.arrived:
            if not self.event.acquire(timeout=timeout):
                return worker.arrived
        return True


def random_schedule(rng, switch=.3):
    def choose(runnable, previous):
        if previous in runnable and rng.random() > switch:
            return previous
        return rng.choice(runnable)
    return choose


def explore(make, preemptions, limit=None):
    """Enumerate the schedules with at most `preemptions` preemptive switches.

    `make()` returns (functions, finish): finish(results, scheduler) is called after each execution.
    """
    stack = [[]]     # prefixes of choices
    executed = 0
    while stack:
        prefix = stack.pop()
        functions, finish = make()
        log = []     # (runnable, chosen, previous, preemptions used before)
        used = [0]

        def choose(runnable, previous):
            k = len(log)
            if k < len(prefix):
                chosen = prefix[k]
                if chosen not in runnable:
                    chosen = runnable[0]
            elif previous in runnable:
                chosen = previous
            else:
                chosen = runnable[0]
            log.append((list(runnable), chosen, previous, used[0]))
            if previous in runnable and chosen != previous:
                used[0] += 1
            return chosen
        scheduler = Scheduler(functions, choose)
        results = scheduler.run()
        finish(results, scheduler)
        executed += 1
        if limit is not None and executed >= limit:
            break
        choices = [x[1] for x in log]
        for k in range(len(prefix), len(log)):
            runnable, chosen, previous, before = log[k]
            for other in runnable:
                if other == chosen:
                    continue
                cost = before + (1 if previous in runnable and other != previous else 0)
                if cost <= preemptions:
                    stack.append(choices[:k] + [other])
    return executed
