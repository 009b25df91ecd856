"""C31 task queues and task sets, C36 closing an event loop."""
import asyncio, concurrent.futures, threading, time

from hypothesis import strategies as st

import sched
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Process

RULES["C31"] = ("histories of putting, performing and clearing tasks that put tasks or raise, on a queue or on a set with keys; schedules: one or two performing and one or two adding threads, switched at generated bytecode "
                "instructions; non-trivial: a performed batch had two or more tasks and a task queued a task or raised, or a key was overwritten (schedules: at least four switches)")
ASSUMPTIONS["C31"] = ["tasks do not perform the queue recursively, and a task that clears the queue does not also put tasks", "tasks of task sets do not raise and do not clear keys",
                      "whether performing a queue passes a task's exception on, and then stops until the next time, is left open"]
I = st.integers(0, 9)


class Boom(Exception):
    pass


def queues(thorough):
    act = one_of(st.just(["ok"]), st.just(["ok"]), st.just(["ok"]), st.just(["raise"]), st.tuples(st.just("put"), st.integers(1, 2)), st.just(["clear"]))
    op = one_of(st.tuples(st.just("put"), act), st.tuples(st.just("put"), act), st.tuples(st.just("put"), act), st.just(("perform",)), st.just(("clear",)))
    op = one_of(*[op] * 11, st.tuples(st.just("put many"), st.integers(6, 70)))
    return st.lists(op, min_size=3, max_size=40 if thorough else 20)


@sub("C31", "queue", queues, quick=3500, shards=3)
def run_queue(case, ctx):
    q = Process.TaskQueue()
    ran = []
    model = []      # ids queued
    actions = {}
    count = [0]
    raises = False

    def put(action):
        i = count[0]
        count[0] += 1
        actions[i] = action

        def task():
            ran.append(i)
            if action[0] == "raise":
                raise Boom(i)
            if action[0] == "put":
                for _ in range(action[1]):
                    put(["ok"])
            if action[0] == "clear":
                q.clear_tasks()
                model.clear()
        model.append(i)
        q.put(task)

    for op in case:
        if op[0] == "put":
            put(op[1])
        elif op[0] == "put many":
            for i in range(op[1]):
                put(["put", 1] if i % 16 == 15 else ["ok"])
            ctx.label("many tasks")
        elif op[0] == "clear":
            before = len(ran)
            q.clear_tasks()
            eq(len(ran), before, "clearing the queue ran tasks")
            model.clear()
        else:
            batch = list(model)
            interesting = len(batch) >= 2 and any(actions[i][0] != "ok" for i in batch)
            while True:
                # what is to run of the batch: everything up to a clearing task; a raising task may end the performing
                expected = []
                for i in batch:
                    expected.append(i)
                    if actions[i][0] == "clear":
                        break
                before = len(ran)
                del model[:len(batch)]
                raised = False
                try:
                    q.perform_tasks()
                except Boom as e:
                    raised = True
                    check(ran[before:] and e.args[0] == ran[-1], "exception passed on", e)
                got = ran[before:]
                if not raised:
                    eq(got, expected, f"tasks performed of {[(i, actions[i]) for i in batch]}")
                    break
                eq(got, expected[:len(got)], f"tasks performed of {[(i, actions[i]) for i in batch]} before one raised")
                ctx.label("raised")
                # the tasks after it are still queued, before those queued meanwhile
                batch = batch[len(got):]
                if not batch:
                    break
                cleared = any(actions[i][0] == "clear" for i in got)
                check(not cleared, "tasks ran after the queue was cleared", got)
                model[:0] = batch
                batch = list(model)
            ctx.nontrivial(interesting)
        eq(q.empty(), not model, f"emptiness of the queue after {op}")
        eq(q.qsize(), len(model), f"number of tasks queued after {op}")
        raises = raises or op[0] == "perform" and any(actions[i][0] == "raise" for i in ran)
        if not raises:
            eq(q.unfinished_tasks, len(model), f"number of tasks that joining the queue would wait for after {op}")


def sets(thorough):
    key = st.sampled_from(["a", "b", "c", 1, None])
    op = one_of(st.tuples(st.just("add"), key, st.lists(key, max_size=2)), st.tuples(st.just("add"), key, st.just([])), st.tuples(st.just("add"), key, st.just([])), st.tuples(st.just("clear"), key), st.just(("perform",)))
    op = one_of(*[op] * 11, st.tuples(st.just("add many"), st.integers(6, 70)))
    return st.lists(op, min_size=3, max_size=40 if thorough else 20)


@sub("C31", "set", sets, quick=3000, shards=2)
def run_set(case, ctx):
    s = Process.TaskSet()
    ran = []
    model = {}
    count = [0]
    overwritten = False

    def add(key, more):
        i = count[0]
        count[0] += 1

        def task():
            ran.append(i)
            for k in more:
                add(k, [])
        s.add_task(key, task)
        model[key] = i

    for op in case:
        if op[0] == "add":
            overwritten = overwritten or op[1] in model
            add(op[1], op[2])
        elif op[0] == "add many":
            for i in range(op[1]):
                overwritten = overwritten or ("key", i) in model
                add(("key", i), ["a"] if i % 16 == 15 else [])
        elif op[0] == "clear":
            s.clear_task(op[1])
            model.pop(op[1], None)
        else:
            expected = sorted(model.values())
            model.clear()
            before = len(ran)
            s.perform_tasks()
            eq(sorted(ran[before:]), expected, "tasks performed")
            ctx.nontrivial(overwritten and len(expected) >= 2)
    expected = sorted(model.values())
    before = len(ran)
    s.perform_tasks()
    eq(sorted(ran[before:]), expected, "tasks performed at the end")


STEP = st.tuples(st.integers(0, 3), one_of(st.integers(1, 15), st.integers(1, 80)))


def schedules(thorough):
    return st.fixed_dictionaries({"kind": st.sampled_from(["set", "queue"]), "adders": st.lists(st.lists(one_of(st.integers(0, 1), st.just("clear")), min_size=1, max_size=5), min_size=1, max_size=2),
                                  "performs": st.integers(1, 3), "performers": st.sampled_from([1, 1, 2]), "schedule": st.lists(STEP, min_size=4, max_size=80 if thorough else 40)})


@sub("C31", "schedules", schedules, quick=1200, shards=4)
def run_schedules(case, ctx):
    ran = []
    with sched.coop_locks():
        s = Process.TaskSet() if case["kind"] == "set" else Process.TaskQueue()
    added = {}      # key -> ids in order; None marks a clearing

    def adder(i, ops):
        def run():
            last = 0
            for n, op in enumerate(ops):
                if case["kind"] == "queue":
                    added.setdefault(i, []).append(n)
                    s.put(lambda n=n: ran.append((i, n)))
                elif op == "clear":
                    s.clear_task((i, last))
                    added.setdefault((i, last), []).append(None)
                else:
                    last = op
                    added.setdefault((i, op), []).append(n)
                    s.add_task((i, op), lambda n=n, op=op: ran.append(((i, op), n)))
        return run

    def performer():
        for _ in range(case["performs"]):
            s.perform_tasks()

    try:
        performers = case.get("performers", 1)
        tasks, switches = sched.run([performer] * performers + [adder(i, ops) for i, ops in enumerate(case["adders"])], case["schedule"])
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
    during = len(ran)
    s.perform_tasks()
    check(len(set(ran)) == len(ran), "a task was performed twice", ran)
    for key, ids in added.items():
        mine = [n for k, n in ran if k == key]
        check(performers > 1 or mine == sorted(mine), "tasks performed out of order", mine)
        if case["kind"] == "queue":
            eq(sorted(mine), ids, "tasks performed of those put by one thread")
        elif ids[-1] is not None:
            check(ids[-1] in mine, "the newest task of a key was not performed", key, ids, ran)
        else:
            late = [n for k, n in ran[during:] if k == key]
            check(not late, "a task cleared before was performed", key, ids, ran)
    ctx.nontrivial(switches >= 4)
    ctx.label(case["kind"])


# ---------------------------------------------------------------------------------------------------------------- C36
RULES["C36"] = ("cases are sets of outstanding tasks (sleeping, chained, on executor threads, waiting for a thread, raising, cancelled, already done) on a fresh event loop that is then closed; "
                "non-trivial: at least two tasks were unfinished when closing began")
ASSUMPTIONS["C36"] = ["tasks come to an end by themselves and start no tasks that they do not wait for"]


def loops(thorough):
    # every task: delay in ms, what it does at the end
    end = st.sampled_from(["value", "value", "raise", "cancel self"])
    task = one_of(st.tuples(st.just("sleep"), st.integers(0, 12), end), st.tuples(st.just("spin"), st.integers(0, 30), end), st.tuples(st.just("executor"), st.integers(0, 15), end),
                  st.tuples(st.just("executor twice"), st.integers(0, 8), end), st.tuples(st.just("thread"), st.integers(0, 10), end), st.tuples(st.just("child"), st.integers(0, 8), end),
                  st.tuples(st.just("cancelled"), st.integers(0, 10), st.sampled_from(["plain", "stubborn"])), st.tuples(st.just("after"), st.integers(0, 3), end))
    return st.fixed_dictionaries({"tasks": st.lists(task, max_size=6), "pre": st.sampled_from([0, 0, 1, 3]), "own_executor": st.booleans(), "plain": st.integers(0, 2), "soon": st.integers(0, 2)})


@sub("C36", "closing", loops, quick=500, shards=8)
def run_loops(case, ctx):
    ctx.expect_tracebacks = True     # asyncio reports exceptions of its own accord
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda l, c: None)
    executor = concurrent.futures.ThreadPoolExecutor(2)
    ctx.defer(lambda: executor.shutdown(wait=False))
    ctx.defer(lambda: loop.is_closed() or loop.close())
    if case["own_executor"]:
        loop.set_default_executor(executor)
    finished = set()
    threads_done = []

    def end(i, how):
        finished.add(i)
        if how == "raise":
            raise Boom(i)
        if how == "cancel self":
            raise asyncio.CancelledError()
        return ["result", i]

    async def work(i, kind, ms, how):
        if kind == "sleep":
            await asyncio.sleep(ms / 1000)
        elif kind == "spin":
            for _ in range(ms):
                await asyncio.sleep(0)
        elif kind.startswith("executor"):
            for _ in range(2 if kind == "executor twice" else 1):
                def fn():
                    time.sleep(ms / 1000)
                    threads_done.append(i)
                await loop.run_in_executor(None, fn)
        elif kind == "thread":
            f = loop.create_future()
            t = threading.Timer(ms / 1000, lambda: loop.call_soon_threadsafe(f.set_result, 1))
            t.start()
            await f
        elif kind == "child":
            await loop.create_task(asyncio.sleep(ms / 1000))
        elif kind == "cancelled":
            try:
                await asyncio.sleep(5)
            except asyncio.CancelledError:
                if how == "plain":
                    finished.add(i)
                    raise
                await asyncio.sleep(ms / 1000)
                how = "value"
        elif kind == "after":
            if i > 0:
                await asyncio.wait([tasks[i - 1]])
        return end(i, how)

    tasks = []
    for i, (kind, ms, how) in enumerate(case["tasks"]):
        tasks.append(loop.create_task(work(i, kind, ms, how)))
    expected_threads = sum({"executor": 1, "executor twice": 2}.get(k, 0) for k, ms, how in case["tasks"])
    for _ in range(case["pre"]):
        loop.call_soon(loop.stop)
        loop.run_forever()
    for i, (kind, ms, how) in enumerate(case["tasks"]):
        if kind == "cancelled":
            if case["pre"] == 0:
                # let it start, so that it can see its cancellation
                loop.call_soon(loop.stop)
                loop.run_forever()
            tasks[i].cancel()
    ran_plain = []
    for k in range(case["plain"]):
        (executor.submit if case["own_executor"] else (lambda f: loop.run_in_executor(None, f)))(lambda: (time.sleep(0.003), ran_plain.append(1)))
    soon = []
    for k in range(case["soon"]):
        loop.call_soon(soon.append, k)
    unfinished = sum(not t.done() for t in tasks)
    Process.close_event_loop(loop)
    check(loop.is_closed(), "the loop is not closed")
    eq(soon, list(range(case["soon"])), "callbacks that were due")
    for i, ((kind, ms, how), t) in enumerate(zip(case["tasks"], tasks)):
        check(t.done(), f"task {i} ({kind}, {how}) was not finished before the loop was closed", t)
        check(i in finished, f"task {i} ({kind}, {how}) did not run to its end")
        if kind == "cancelled":
            how = "cancel self" if how == "plain" else "value"
        if how == "cancel self":
            check(t.cancelled(), f"task {i} ({kind}) is cancelled", t)
        elif how == "raise":
            check(isinstance(t.exception(), Boom), f"exception of task {i}", t)
        else:
            eq(t.result(), ["result", i], f"result of task {i} ({kind})")
        ctx.label(kind)
    eq(len(threads_done), expected_threads, "functions run on executor threads")
    eq(len(ran_plain), case["plain"], "functions given to the executor directly")
    if case["own_executor"]:
        try:
            executor.submit(int)
        except RuntimeError:
            pass
        else:
            raise Violation("the executor was not stopped")
    ctx.nontrivial(unfinished >= 2)
