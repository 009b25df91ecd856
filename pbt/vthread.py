"""Virtual threads and virtual time for modules of /repo that start threads of their own.

virtualise(module) replaces, in the module's globals only, the threading, queue and time modules (and names imported from
them) by stand-ins whose blocking operations take part in the scheduling.  A Scheduler then runs all threads one at a time,
switching at generated bytecode instructions of the code in /repo; the clock jumps when every thread waits, so intervals
cost nothing.  The stand-ins keep the documented meaning of the originals; every execution is one that real threads, on a
machine of some speed, could produce.  A thread that blocks on something that is not virtualised is noticed by a timeout
and left alone until it comes back.
"""
import contextlib, os, queue, sys, threading, time, traceback, types

REPO_PREFIX = os.environ.get("PBT_REPO", "/repo") + "/"
_local = threading.local()


class Deadlock(Exception):
    pass


class Abandon(SystemExit):
    pass


def current():
    return getattr(_local, "task", None)


class Task:
    def __init__(self, scheduler, fn, name, service):
        self.scheduler, self.fn, self.name, self.service = scheduler, fn, name, service
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.steps = 0
        self.finished = self.stuck = self.abandoned = False
        self.blocked = None     # predicate that ends the wait
        self.deadline = None
        self.error = None
        self.error_text = ""
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def hand_back(self):
        if self.abandoned:
            raise Abandon
        self.back.release()
        self.go.acquire()
        if self.abandoned:
            raise Abandon

    def wait_until(self, predicate, timeout=None):
        """Blocks this task until the predicate holds (True) or the virtual time is over (False)."""
        self.deadline = None if timeout is None else self.scheduler.now() + max(0.0, timeout)
        while not predicate():
            if self.deadline is not None and self.scheduler.now() >= self.deadline:
                self.blocked = self.deadline = None
                return False
            self.blocked = predicate
            self.hand_back()
        self.blocked = self.deadline = None
        return True

    @property
    def runnable(self):
        return self.blocked is None or self.blocked() or (self.deadline is not None and self.scheduler.now() >= self.deadline)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO_PREFIX):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == "opcode":
            self.steps -= 1
            if self.steps <= 0:
                self.hand_back()
        return self.local_trace

    def run(self):
        _local.task = self
        self.go.acquire()
        if not self.abandoned:
            sys.settrace(self.trace)
            try:
                self.fn()
            except SystemExit:
                pass
            except BaseException as e:
                self.error = e
                self.error_text = traceback.format_exc()
            finally:
                sys.settrace(None)
        self.finished = True
        self.back.release()


def yield_point(cost=3):
    t = current()
    if t is not None:
        t.steps -= cost
        if t.steps <= 0:
            t.hand_back()


class Scheduler:
    """schedule: a list of [thread, instructions]; a negative thread lets the clock advance by that many milliseconds instead."""

    def __init__(self, schedule):
        self.schedule, self.pos = list(schedule), 0
        self.tasks = []
        self.offset = 0.0
        self.t0 = time.monotonic()
        self.switches = 0

    def now(self):
        return 1.0e9 + (time.monotonic() - self.t0) + self.offset

    def spawn(self, fn, name="", service=False):
        task = Task(self, fn, name, service)
        self.tasks.append(task)
        return task

    def run(self):
        """Runs until every task that is no service has finished and every service is at rest."""
        while True:
            for t in self.tasks:
                if t.stuck and t.back.acquire(blocking=False):
                    t.stuck = False
            todo = [t for t in self.tasks if not t.finished]
            if not todo:
                return
            ready = [t for t in todo if not t.stuck and t.runnable]
            if not ready:
                deadlines = [t.deadline for t in todo if t.deadline is not None and not t.stuck]
                stuck = [t for t in todo if t.stuck]
                if stuck and self._wait_stuck(stuck, 2.0 if deadlines or all(t.service for t in todo) else 20.0):
                    continue
                if deadlines:
                    self.offset += max(0.0, min(deadlines) - self.now()) + 1e-6
                    continue
                if all(t.service for t in todo):
                    return
                raise Deadlock("waits for ever: " + ", ".join(t.name for t in todo if not t.service))
            if self.pos < len(self.schedule):
                k, steps = self.schedule[self.pos]
            else:
                k, steps = self.pos, 40 + 7 * (self.pos % 13)
            self.pos += 1
            if k < 0:
                self.offset += steps / 1000.0
                continue
            t = ready[k % len(ready)]
            t.steps = max(1, steps)
            t.go.release()
            self.switches += 1
            if not t.back.acquire(timeout=0.5):
                t.stuck = True

    def _wait_stuck(self, stuck, limit):
        deadline = time.monotonic() + limit
        while time.monotonic() < deadline:
            for t in stuck:
                if t.back.acquire(timeout=0.01):
                    t.stuck = False
                    return True
        return False

    def abandon(self):
        for t in self.tasks:
            if not t.finished:
                t.abandoned = True
                t.go.release()


_scheduler = None


class VLock:
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        me = t or threading.get_ident()

        def free():
            return not self.count or (self.reentrant and self.owner == me)

        if not free():
            if not blocking:
                return False
            if t is None:
                raise Deadlock("the main thread blocks on a lock held by a scheduled thread")
            if not t.wait_until(free, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or (self.reentrant and self.owner != (current() or threading.get_ident())):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    def _is_owned(self):
        return self.count > 0 and self.owner == (current() or threading.get_ident())

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


class VRLock(VLock):
    reentrant = True


class VCondition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else VRLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *args):
        return self.lock.__exit__(*args)

    def wait(self, timeout=None):
        if not self.lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        t = current()
        if t is None:
            raise Deadlock("the main thread waits on a condition")
        token = [False]
        self.waiters.append(token)
        count = self.lock.count
        self.lock.count, self.lock.owner = 0, None
        try:
            got = t.wait_until(lambda: token[0], timeout)
        finally:
            if token in self.waiters and not token[0]:
                self.waiters = [w for w in self.waiters if w is not token]
        self.lock.acquire()
        self.lock.count = count
        return got

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else _scheduler.now() + timeout
        result = predicate()
        while not result:
            left = None if end is None else end - _scheduler.now()
            if left is not None and left <= 0:
                break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        if not self.lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for token in self.waiters[:n]:
            token[0] = True
        self.waiters = self.waiters[n:]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class VEvent:
    def __init__(self):
        self.flag = False
        self.tokens = []

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        for token in self.tokens:
            token[0] = True
        self.tokens = []

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if self.flag:
            return True
        t = current()
        if t is None:
            raise Deadlock("the main thread waits for an event")
        token = [False]
        self.tokens.append(token)
        return t.wait_until(lambda: token[0], timeout)


class VSemaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if self.value <= 0:
            if not blocking or not current().wait_until(lambda: self.value > 0, timeout):
                return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    def __enter__(self):
        self.acquire()

    def __exit__(self, *args):
        self.release()


class VThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name, self.daemon = name or "thread", bool(daemon)
        self.task = None

    def start(self):
        if self.task is not None:
            raise RuntimeError("threads can only be started once")
        self.task = _scheduler.spawn(self.run, self.name, service=True)
        self.task.vthread = self

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        if self.task is None:
            raise RuntimeError("cannot join thread before it is started")
        if self.task is current():
            raise RuntimeError("cannot join current thread")
        current().wait_until(lambda: self.task.finished, timeout)

    def is_alive(self):
        return self.task is not None and not self.task.finished

    @property
    def ident(self):
        return id(self.task) if self.task else None

    def setDaemon(self, d):
        self.daemon = d


class VQueue(queue.Queue):
    def __init__(self, maxsize=0):
        super().__init__(maxsize)
        self.mutex = VLock()
        self.not_empty, self.not_full, self.all_tasks_done = VCondition(self.mutex), VCondition(self.mutex), VCondition(self.mutex)


def v_time():
    return _scheduler.now()


def v_sleep(seconds):
    t = current()
    if t is None:
        return time.sleep(seconds)
    t.wait_until(lambda: False, seconds)


class Proxy(types.ModuleType):
    def __init__(self, module, **names):
        super().__init__(module.__name__)
        self.__dict__["_module"] = module
        self.__dict__.update(names)

    def __getattr__(self, name):
        return getattr(self._module, name)


THREADING = Proxy(threading, Lock=VLock, RLock=VRLock, Condition=VCondition, Event=VEvent, Semaphore=VSemaphore, BoundedSemaphore=VSemaphore, Thread=VThread)
QUEUE = Proxy(queue, Queue=VQueue)
def v_time_ns():
    return int(_scheduler.now() * 1e9)


TIME = Proxy(time, time=v_time, monotonic=v_time, perf_counter=v_time, time_ns=v_time_ns, monotonic_ns=v_time_ns, perf_counter_ns=v_time_ns, sleep=v_sleep)
REPLACE = [(m._module, m) for m in (THREADING, QUEUE, TIME)] + [(getattr(m._module, n), getattr(m, n)) for m in (THREADING, QUEUE, TIME) for n in list(m.__dict__) if not n.startswith("_") and hasattr(m._module, n)]


@contextlib.contextmanager
def virtualise(module, schedule):
    """Yields a Scheduler; while active, what the module creates is virtual."""
    global _scheduler
    saved = {}
    for name, value in list(vars(module).items()):
        for old, new in REPLACE:
            if value is old:
                saved[name] = value
                setattr(module, name, new)
                break
    _scheduler = Scheduler(schedule)
    try:
        yield _scheduler
    finally:
        _scheduler.abandon()
        for name, value in saved.items():
            setattr(module, name, value)
