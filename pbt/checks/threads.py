"""C32 thread pool, C33 thread dispatcher."""
import threading, time
from hypothesis import strategies as st

import vthread
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import ThreadPool as TP

RULES["C32"] = ("explicit: histories of queueing, run_one, run_all and close on one thread, with functions that raise or queue further functions; schedules: pools with one to four threads (or a thread calling run_one/run_all) and other threads queueing and closing, "
                "switched at generated bytecode instructions; real: the same on real threads; the oracle is the log of queued, started and ended functions; non-trivial: at least two functions queued and at least one executed")
ASSUMPTIONS["C32"] = ["the pool is closed at most once, not from one of its own functions, and is not started after that", "functions are run explicitly by one thread at a time, and not beside started threads"]
RULES["C33"] = ("schedules: one to three threads triggering (waiting or not) and pausing in virtual time, functions that take time, raise or trigger again, then closing at the end or in the middle, switched at generated bytecode instructions; real: the same on real threads; "
                "the oracle is the log of triggers, starts and ends; non-trivial: at least two triggers and at least one invocation")
ASSUMPTIONS["C33"] = ["the dispatcher is started before it is triggered and closed at most once, not from its own function",
                      "a waiting trigger made while an invocation is coming to its end may be answered by that invocation"]

STEP = st.tuples(st.integers(0, 5), one_of(st.integers(1, 12), st.integers(1, 60), st.integers(1, 400)))
TIME_STEP = st.tuples(st.just(-1), st.sampled_from([50, 500, 1000, 5000, 20000]))


FINE = st.tuples(st.integers(0, 5), one_of(st.just(1), st.integers(1, 9)))


def schedule(thorough, timed=False):
    """Switches at any distance, or (half of the cases) after a few instructions each."""
    def steps(step, n):
        return st.lists(one_of(step, step, step, step, step, TIME_STEP) if timed else step, min_size=4, max_size=n)
    return one_of(steps(STEP, 120 if thorough else 60), steps(FINE, 300 if thorough else 150))


# -- pool ----------------------------------------------------------------------------------------------------------------

class PoolBoom(Exception):
    pass


FN = st.fixed_dictionaries({"raises": st.booleans(), "more": one_of(st.just(0), st.just(0), st.integers(0, 2)), "yields": st.integers(0, 3)})


class PoolLog:
    def __init__(self, pool):
        self.pool = pool
        self.queued, self.started, self.ended, self.log = [], [], [], []
        self.running = 0
        self.overlap = 0
        self.close_begun = self.close_done = False
        self.lock = threading.Lock()
        self.gate = None

    def queue(self, spec, gated=False):
        with self.lock:
            n = len(self.queued)
            # queued before, during or after closing
            self.queued.append("late" if self.close_done else ("maybe" if self.close_begun else "early"))

        def fn():
            with self.lock:
                self.started.append(n)
                if self.close_done:
                    self.log.append(f"function {n} started after closing")
                self.running += 1
                self.overlap = max(self.overlap, self.running)
            for _ in range(spec["yields"]):
                vthread.yield_point()
            if gated:
                self.gate.wait(60)
            for _ in range(spec["more"]):
                self.queue({"raises": False, "more": 0, "yields": 0})
            vthread.yield_point()
            with self.lock:
                self.running -= 1
                self.ended.append(n)
                if self.close_done:
                    self.log.append(f"function {n} ended after closing")
            if spec["raises"]:
                raise PoolBoom()

        self.pool.queue_fn(fn, "task %d" % n if n % 2 else None)

    def close(self):
        self.close_begun = True
        self.pool.close()
        self.close_done = True
        if self.running:
            self.log.append("closing returned while a function was running")

    def verify(self, complete, in_order):
        for m in self.log:
            raise Violation(m)
        check(len(set(self.started)) == len(self.started), "a function was executed twice", self.started)
        eq(sorted(self.ended), sorted(self.started), "functions ended")
        check(all(self.queued[n] != "late" for n in self.started), "a function queued after closing ran", self.started, self.queued)
        if complete:
            eq(sorted(self.started), list(range(len(self.queued))), "functions executed")
        if in_order:
            check(self.started == sorted(self.started), "functions executed out of order", self.started)


def explicit_cases(thorough):
    op = one_of(st.tuples(st.just("queue"), FN), st.tuples(st.just("queue"), FN), st.tuples(st.just("queue"), FN), st.tuples(st.sampled_from(["one", "one", "all", "close"])))
    op = one_of(*[op] * 15, st.tuples(st.just("crowd"), st.integers(5, 60)))
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=3, max_size=24)})


@sub("C32", "explicit", explicit_cases, quick=3000, shards=2)
def run_explicit(case, ctx):
    ctx.expect_tracebacks = True
    pool = TP.ThreadPool()
    log = PoolLog(pool)
    dropped = set()
    for op in case["ops"]:
        before = len(log.started)
        pending = [n for n in range(len(log.queued)) if n not in set(log.started) and n not in dropped]
        if op[0] == "queue":
            log.queue(op[1])
            if log.close_done:
                dropped.add(len(log.queued) - 1)
            eq(len(log.started), before, "functions run by queueing")
        elif op[0] == "crowd":
            for i in range(op[1]):
                log.queue({"raises": i % 9 == 8, "more": 0, "yields": 0})
                if log.close_done:
                    dropped.add(len(log.queued) - 1)
            ctx.label("many functions")
        elif op[0] == "one":
            pool.run_one()
            eq(log.started[before:], pending[:1], "function run by run_one")
            ctx.label("run_one")
        elif op[0] == "all":
            pool.run_all()
            check(log.started[before:before + len(pending)] == pending, "functions run by run_all", log.started[before:], pending)
            eq(len(log.started) + len(dropped), len(log.queued), "functions left after run_all")
            ctx.label("run_all")
        elif not log.close_done:
            log.close()
            eq(len(log.started), before, "functions run by closing")
            dropped.update(pending)
            ctx.label("closed")
            ctx.label("closed with functions waiting" if pending else "closed empty")
    log.verify(False, True)
    ctx.nontrivial(len(log.queued) >= 2 and len(log.started) >= 1)


def pool_cases(thorough):
    queue_op = st.tuples(st.just("queue"), FN)
    return st.fixed_dictionaries({"threads": st.integers(0, 4), "first": st.lists(FN, max_size=3), "queuers": st.lists(st.lists(FN, min_size=1, max_size=4), min_size=1, max_size=2),
                                  "runner": st.lists(st.sampled_from(["one", "all"]), min_size=1, max_size=4), "close": st.sampled_from(["no", "beside", "beside", "end"]), "pause": st.integers(0, 8), "crowd": st.sampled_from([0] * 15 + [10, 25]), "schedule": schedule(thorough)})


@sub("C32", "schedules", pool_cases, quick=4200, shards=7)
def run_pool(case, ctx):
    ctx.expect_tracebacks = True
    with vthread.virtualise(TP, case["schedule"]) as sch:
        pool = TP.ThreadPool()
        log = PoolLog(pool)
        threads = case["threads"]
        if threads:
            pool.start(threads)
        services = len(sch.tasks)
        if services != threads:
            ctx.label("not virtual")
            return
        for spec in case["first"] + [{"raises": False, "more": 0, "yields": 0}] * case.get("crowd", 0):
            log.queue(spec)

        def queuer(specs):
            def body():
                for spec in specs:
                    log.queue(spec)
                    vthread.yield_point()
            return body

        def runner():
            for op in case["runner"]:
                pool.run_one() if op == "one" else pool.run_all()

        def closer():
            for _ in range(case["pause"]):
                vthread.yield_point(30)
            log.close()

        for specs in case["queuers"]:
            sch.spawn(queuer(specs), "a queueing thread")
        if not threads:
            sch.spawn(runner, "the running thread")
        if case["close"] == "beside":
            sch.spawn(closer, "closing")
        try:
            sch.run()
        except vthread.Deadlock as e:
            raise Violation(str(e))
        for t in sch.tasks:
            check(t.error is None, "a thread ended with an error", t.error_text)
        if case["close"] != "beside":
            if not threads:
                t = sch.spawn(pool.run_all, "running all")
                try:
                    sch.run()
                except vthread.Deadlock as e:
                    raise Violation(str(e))
                check(t.error is None, "run_all failed", t.error_text)
            log.verify(True, False)
        if case["close"] == "end":
            sch.spawn(log.close, "closing at the end")
            try:
                sch.run()
            except vthread.Deadlock as e:
                raise Violation(str(e))
        if case["close"] != "no":
            n = len(log.started)
            check(log.close_done, "closing did not return")
            for t in sch.tasks[:services]:
                check(t.finished, "a thread of the pool is left after closing")
            log.queue({"raises": False, "more": 0, "yields": 0})
            if not threads:
                pool.run_all()
            sch.run()
            eq(len(log.started), n, "functions run after closing")
        # functions of one queuer start in order on one thread; several queuers queue in the order of their calls only
        log.verify(False, False)
        if threads <= 1:
            order = log.started
            place = {}
            for k, n in enumerate(order):
                place[n] = k
            if len(case["queuers"]) == 1 and not any(s["more"] for s in case["first"] + case["queuers"][0]):
                check(order == sorted(order), "functions executed out of order", order)
                ctx.label("order checked")
        ctx.nontrivial(len(log.queued) >= 2 and len(log.started) >= 1)
        ctx.label("%d threads" % threads)
        ctx.label("close: " + case["close"])
        if log.overlap > 1:
            ctx.label("functions overlap")
        if any(q == "maybe" for q in log.queued):
            ctx.label("queued while closing")


def real_pool_cases(thorough):
    return st.fixed_dictionaries({"threads": one_of(st.integers(1, 4), st.integers(1, 4), st.integers(15, 20)), "specs": st.lists(FN, min_size=1, max_size=20), "gated": st.integers(0, 3), "close": st.booleans()})


@sub("C32", "real", real_pool_cases, quick=40, thorough=600, shards=1, shrink=False)
def run_real_pool(case, ctx):
    ctx.expect_tracebacks = True
    pool = TP.ThreadPool()
    log = PoolLog(pool)
    log.gate = threading.Event()
    ctx.defer(log.gate.set)
    gated = min(case["gated"], case["threads"])
    others = set(threading.enumerate())
    pool.start(case["threads"])
    pool_threads = set(threading.enumerate()) - others
    for i, spec in enumerate(case["specs"]):
        log.queue(spec, gated=i < gated)
    if case["close"]:
        # closing waits for what is running: the gated functions are let go only after a while
        c = threading.Thread(target=log.close, daemon=True)
        c.start()
        if any(n < gated for n in list(log.started)) and set(log.started) - set(log.ended):
            time.sleep(0.01)
            if log.close_done and set(log.started) - set(log.ended):
                raise Violation("closing returned while a function was running")
            ctx.label("closed while running")
        log.gate.set()
        c.join(25)
        check(not c.is_alive(), "closing does not return")
        n = len(log.started)
        log.queue({"raises": False, "more": 0, "yields": 0})
        time.sleep(0.005)
        eq(len(log.started), n, "functions run after closing")
        log.verify(False, False)
    else:
        log.gate.set()
        deadline = time.monotonic() + 60
        while time.monotonic() < deadline and len(log.ended) < len(log.queued):
            time.sleep(0.001)
        log.verify(True, case["threads"] == 1)
        pool.close()
    deadline = time.monotonic() + 20
    while any(t.is_alive() for t in pool_threads) and time.monotonic() < deadline:
        time.sleep(0.001)
    check(not any(t.is_alive() for t in pool_threads), "threads of a closed pool do not end", len(pool_threads))
    ctx.nontrivial(len(log.queued) >= 2 and len(log.started) >= 1)


# -- dispatcher ----------------------------------------------------------------------------------------------------------

class DispatchBoom(Exception):
    pass


CALL = st.fixed_dictionaries({"takes": st.sampled_from([0, 0, 0, 0.5, 3.0]), "raises": one_of(st.just(False), st.booleans()), "trigger": one_of(st.just(False), st.just(False), st.booleans()), "yields": st.integers(0, 3)})
TRIG = one_of(st.just(["trigger"]), st.just(["trigger"]), st.just(["wait"]), st.tuples(st.just("pause"), st.sampled_from([0.1, 0.9, 1.0, 1.1, 2.5, 12.0])))


def dispatcher_cases(thorough):
    return st.fixed_dictionaries({"interval": st.sampled_from([0, 0.001, 1.0, 1.0, 10.0]), "calls": st.lists(CALL, min_size=1, max_size=4), "threads": st.lists(st.lists(TRIG, min_size=1, max_size=6), min_size=1, max_size=3),
                                  "close": st.sampled_from(["end", "end", "beside"]), "pause": st.sampled_from([0, 0.5, 1.0, 3.0]), "schedule": schedule(thorough, True)})


class DispatchLog:
    """seq orders everything that happened."""

    def __init__(self, calls, now, sleep):
        self.calls, self.now, self.sleep = calls, now, sleep
        self.seq = 0
        self.triggers, self.invocations, self.log = [], [], []
        self.retriggers = 0
        self.running = False
        self.closed = False
        self.closing = None
        self.lock = threading.Lock()
        self.d = None

    def tick(self):
        with self.lock:
            self.seq += 1
            return self.seq

    def fn(self):
        inv = {"start": self.tick(), "t0": self.now(), "end": None, "t1": None, "thread": vthread.current() or threading.get_ident()}
        if self.running:
            self.log.append("the function was invoked while it was running")
        if self.closed:
            self.log.append("the function was invoked after closing")
        self.running = True
        spec = self.calls[len(self.invocations) % len(self.calls)]
        self.invocations.append(inv)
        for _ in range(spec["yields"]):
            vthread.yield_point()
        if spec["takes"]:
            self.sleep(spec["takes"])
        if spec["trigger"] and self.retriggers < 5:
            self.retriggers += 1
            self.trigger(False)
        vthread.yield_point()
        if self.closed:
            self.log.append("closing returned while the function was running")
        self.running = False
        inv["end"], inv["t1"] = self.tick(), self.now()
        if spec["raises"]:
            raise DispatchBoom()

    def trigger(self, wait, busy=lambda: False):
        with self.lock:
            t = {"begin": self.seq + 1, "wait": wait, "busy": busy(), "end": None}
            self.seq += 1
            self.triggers.append(t)
        self.d.trigger(wait)if wait else self.d.trigger()
        t["end"] = self.tick()

    def verify(self, interval, complete, tolerance):
        for m in self.log:
            raise Violation(m)
        begins = sorted(t["begin"] for t in self.triggers)
        for n, inv in enumerate(self.invocations):
            made = sum(1 for b in begins if b < inv["start"])
            check(made > n, "invoked more often than triggered", n + 1, made)
            check(inv["thread"] == self.invocations[0]["thread"], "invoked on different threads")
            if n:
                gap = inv["t0"] - self.invocations[n - 1]["t1"]
                check(gap >= interval - tolerance, "invoked before the minimum interval was over", gap, interval)
        for t in self.triggers:
            if complete:
                check(any(i["start"] > t["begin"] for i in self.invocations), "no invocation after a trigger", t, len(self.invocations))
            # closing the dispatcher answers a waiting trigger, too
            if t["wait"] and t["end"] is not None and (self.closing is None or t["end"] < self.closing):
                done = [i for i in self.invocations if i["end"] is not None and i["end"] < t["end"]]
                if not t["busy"]:
                    done = [i for i in done if i["end"] > t["begin"]]
                check(done, "a waiting trigger returned before an invocation finished", t, self.invocations)


@sub("C33", "schedules", dispatcher_cases, quick=7000, shards=7)
def run_dispatcher(case, ctx):
    ctx.expect_tracebacks = True
    with vthread.virtualise(TP, case["schedule"]) as sch:
        log = DispatchLog(case["calls"], sch.now, vthread.v_sleep)
        interval = case["interval"]
        d = log.d = TP.ThreadDispatcher(log.fn, interval)
        d.start()
        if len(sch.tasks) != 1:
            ctx.label("not virtual")
            sch.tasks.clear()
            return
        service = sch.tasks[0]
        beside = case["close"] == "beside"

        def triggerer(ops):
            def body():
                for op in ops:
                    if op[0] == "pause":
                        vthread.v_sleep(op[1])
                    else:
                        log.trigger(op[0] == "wait", lambda: service.blocked is None)
                        vthread.yield_point()
            return body

        def close():
            log.closing = log.tick()
            d.close()
            log.closed = True
            if log.running:
                log.log.append("closing returned while the function was running")

        def closer():
            vthread.v_sleep(case["pause"])
            close()

        for ops in case["threads"]:
            sch.spawn(triggerer(ops), "a triggering thread")
        if beside:
            sch.spawn(closer, "closing")
        try:
            sch.run()
            if not beside:
                log.verify(interval, True, 1e-5)
                sch.spawn(close, "closing")
                sch.run()
        except vthread.Deadlock as e:
            raise Violation(str(e))
        for t in sch.tasks:
            check(t.error is None, "a thread ended with an error", t.error_text)
        check(service.finished, "the dispatcher's thread is left after closing")
        log.verify(interval, False, 1e-5)
        ctx.nontrivial(len(log.triggers) >= 2 and len(log.invocations) >= 1)
        if len(log.invocations) < len(log.triggers):
            ctx.label("triggers merged")
        if any(t["wait"] for t in log.triggers):
            ctx.label("waiting triggers")
        if beside:
            ctx.label("closed beside triggers")
            if any(t["wait"] and t["end"] > log.closing > t["begin"] for t in log.triggers):
                ctx.label("closed beside a waiting trigger")
        if any(i["start"] < t["begin"] < (i["end"] or 0) for i in log.invocations for t in log.triggers):
            ctx.label("triggered during an invocation")
        if any(c["raises"] for c in case["calls"]):
            ctx.label("raising function")


def real_dispatcher_cases(thorough):
    op = one_of(st.just(["trigger"]), st.just(["trigger"]), st.just(["wait"]), st.tuples(st.just("pause"), st.sampled_from([0.002, 0.02, 0.03])))
    call = st.fixed_dictionaries({"takes": st.sampled_from([0, 0.005]), "raises": st.booleans(), "trigger": st.booleans(), "yields": st.just(0)})
    return st.fixed_dictionaries({"interval": st.sampled_from([0, 0.02]), "calls": st.lists(call, min_size=1, max_size=3), "threads": st.lists(st.lists(op, min_size=1, max_size=5), min_size=1, max_size=2)})


@sub("C33", "real", real_dispatcher_cases, quick=24, thorough=500, shards=1, shrink=False)
def run_real_dispatcher(case, ctx):
    ctx.expect_tracebacks = True
    log = DispatchLog(case["calls"], time.time, time.sleep)
    d = log.d = TP.ThreadDispatcher(log.fn, case["interval"])
    d.start()

    def body(ops):
        for op in ops:
            if op[0] == "pause":
                time.sleep(op[1])
            else:
                log.trigger(op[0] == "wait", lambda: True)

    threads = [threading.Thread(target=body, args=(ops,), daemon=True) for ops in case["threads"]]
    for t in threads:
        t.start()
    for t in threads:
        t.join(25)
        check(not t.is_alive(), "a waiting trigger does not return")
    deadline = time.monotonic() + 60
    while time.monotonic() < deadline and not all(any(i["start"] > t["begin"] for i in list(log.invocations)) for t in list(log.triggers)):
        time.sleep(0.001)
    log.verify(case["interval"], True, 0.001)
    log.closing = log.tick()
    c = threading.Thread(target=d.close, daemon=True)
    c.start()
    c.join(25)
    check(not c.is_alive(), "closing does not return")
    log.closed = True
    check(not log.running, "closing returned while the function was running")
    n = len(log.invocations)
    d.trigger()
    time.sleep(0.005)
    eq(len(log.invocations), n, "invocations after closing")
    log.verify(case["interval"], False, 0.001)
    ctx.nontrivial(len(log.triggers) >= 2 and len(log.invocations) >= 1)
