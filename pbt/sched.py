"""Runs threads one at a time, switching between them at chosen bytecode instructions of the code in /repo.

The schedule (which thread next, for how many instructions) is generated data, so that a failing interleaving replays.
Locks made through threading.Lock / threading.RLock while `coop_locks()` is active take part in the scheduling; a thread
that blocks on anything else is noticed by a timeout and left alone until it comes back.  Either way every execution is
one that real threads could produce.
"""
import contextlib, os, sys, threading, time, traceback

REPO_PREFIX = os.environ.get("PBT_REPO", "/repo") + "/"
_RealRLock, _RealLock = threading.RLock, threading.Lock
_local = threading.local()


class Deadlock(Exception):
    pass


class CoopLock:
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return getattr(_local, "task", None) or threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            task = getattr(_local, "task", None)
            if task is None:
                raise Deadlock("the main thread blocks on a lock held by a scheduled thread")
            task.waiting = self
            task.hand_back()
            task.waiting = None
            if timeout is not None and timeout >= 0 and self.count:
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or (self.reentrant and self.owner != self._me()):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    def _is_owned(self):
        return self.count > 0 and self.owner == self._me()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


@contextlib.contextmanager
def coop_locks():
    rlock, lock = (lambda: CoopLock(True)), (lambda: CoopLock(False))
    saved = []
    # also names imported from threading into the modules under test
    spaces = [vars(threading)] + [vars(m) for n, m in list(sys.modules.items()) if m is not None and n.startswith("nion.")]
    for space in spaces:
        for name, value in list(space.items()):
            if value is _RealRLock or value is _RealLock:
                if space is vars(threading) and name not in ("RLock", "Lock"):
                    continue
                saved.append((space, name, value))
                space[name] = rlock if value is _RealRLock else lock
    try:
        yield
    finally:
        for space, name, value in saved:
            space[name] = value


class Task:
    def __init__(self, scheduler, fn):
        self.scheduler, self.fn = scheduler, fn
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.steps = 0
        self.finished = False
        self.stuck = False
        self.waiting = None
        self.error = None
        self.abandoned = False
        self.thread = threading.Thread(target=self.run, daemon=True)

    def hand_back(self):
        if self.abandoned:
            raise SystemExit
        self.back.release()
        self.go.acquire()
        if self.abandoned:
            raise SystemExit

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO_PREFIX):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == "opcode":
            self.steps -= 1
            if self.steps <= 0:
                self.hand_back()
        return self.local_trace

    def run(self):
        _local.task = self
        self.go.acquire()
        if self.abandoned:
            return
        sys.settrace(self.trace)
        try:
            self.fn()
        except SystemExit:
            pass
        except BaseException as e:
            self.error = e
            self.error_text = traceback.format_exc()
        finally:
            sys.settrace(None)
            self.finished = True
            self.back.release()


def yield_point():
    """Lets harness code called by the code under test be interrupted, too."""
    task = getattr(_local, "task", None)
    if task is not None:
        task.steps -= 3
        if task.steps <= 0:
            task.hand_back()


def run(fns, schedule):
    """Runs the functions as threads under the schedule: a list of [thread, instructions]. Returns the tasks."""
    tasks = [Task(None, fn) for fn in fns]
    for t in tasks:
        t.thread.start()
    switches = 0
    pos = 0
    try:
        while True:
            for t in tasks:
                if t.stuck and t.back.acquire(blocking=False):
                    t.stuck = False
            todo = [t for t in tasks if not t.finished]
            if not todo:
                return tasks, switches
            ready = [t for t in todo if not t.stuck and (t.waiting is None or not t.waiting.count or t.waiting.owner == t and t.waiting.reentrant)]
            if not ready:
                stuck = [t for t in todo if t.stuck]
                if not stuck:
                    raise Deadlock("every thread waits for a lock: deadlock")
                deadline = time.monotonic() + 20
                while time.monotonic() < deadline:
                    if stuck[0].back.acquire(timeout=0.01):
                        stuck[0].stuck = False
                        break
                    stuck.append(stuck.pop(0))
                else:
                    raise Deadlock("no thread makes progress: deadlock")
                continue
            if pos < len(schedule):
                k, steps = schedule[pos]
                pos += 1
            else:
                k, steps = pos, 10 ** 9
                pos += 1
            t = ready[k % len(ready)]
            t.steps = max(1, steps)
            t.go.release()
            switches += 1
            if not t.back.acquire(timeout=0.25):
                t.stuck = True
    finally:
        for t in tasks:
            if not t.finished:
                t.abandoned = True
                t.go.release()
