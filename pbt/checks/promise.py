"""C34 promises."""
from hypothesis import strategies as st

import sched
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Promise

RULES["C34"] = ("histories: sequences of accesses of a promise whose function fails a generated number of times; schedules: two or three threads accessing it, switched at generated bytecode instructions; "
                "non-trivial: the value was requested at least twice (schedules: by two threads, with at least four switches)")
ASSUMPTIONS["C34"] = ["the function does not itself ask for the promise's value"]

VALUE = one_of(st.none(), st.integers(-1, 3), st.just(0), st.text(max_size=2), st.lists(st.integers(), max_size=1), st.booleans())


class Boom(Exception):
    pass


class BigBoom(BaseException):
    """Like KeyboardInterrupt or a cancellation."""


def histories(thorough):
    return st.fixed_dictionaries({"value": VALUE, "failures": st.integers(0, 4), "big": st.booleans(), "ops": st.lists(st.sampled_from(["value", "value", "opt", "has"]), min_size=1, max_size=14)})


@sub("C34", "history", histories, quick=3000, shards=2)
def run_history(case, ctx):
    calls = []
    the_value = case["value"] if not isinstance(case["value"], list) else list(case["value"])

    boom = BigBoom if case.get("big") else Boom

    def fn():
        calls.append(1)
        if len(calls) <= case["failures"]:
            raise boom(len(calls))
        return the_value

    p = Promise.Promise(fn)
    requests = 0
    done = False
    check(not calls, "the function was called when the promise was made")
    for op in case["ops"]:
        n = len(calls)
        if op == "value":
            requests += 1
            try:
                v = p.value
            except (Boom, BigBoom) as e:
                check(not done and n < case["failures"], "the exception of an earlier request came again")
                eq(e.args[0], n + 1, "exception passed on")
                eq(len(calls), n + 1, "calls of the function")
            else:
                eq(len(calls), n + (0 if done else 1), "calls of the function by a request")
                check(done or n >= case["failures"], "a failing request gave a value", v)
                check(v is the_value, "value", v, the_value)
                done = True
        else:
            r = p.opt_value if op == "opt" else p.has_value
            eq(len(calls), n, f"calls of the function by {op}")
            if op == "opt":
                check(r is (the_value if done else None), "optional value", r)
            else:
                check(r is (done and the_value is not None), "has_value", r)
    ctx.nontrivial(requests >= 2)
    if case["failures"] and requests > 1:
        ctx.label("failed first")


STEP = st.tuples(st.integers(0, 2), one_of(st.integers(1, 12), st.integers(1, 50)))


def schedules(thorough):
    return st.fixed_dictionaries({"value": VALUE, "failures": st.integers(0, 2), "threads": st.lists(st.lists(st.sampled_from(["value", "value", "opt", "has"]), min_size=1, max_size=4), min_size=2, max_size=3),
                                  "schedule": st.lists(STEP, min_size=4, max_size=60 if thorough else 30)})


@sub("C34", "schedules", schedules, quick=2000, shards=6)
def run_schedules(case, ctx):
    calls, finished, inside, log = [], [], [0], []
    the_value = case["value"]

    def fn():
        calls.append(1)
        n = len(calls)
        inside[0] += 1
        if inside[0] > 1:
            log.append("the function was called while it was running")
        sched.yield_point()
        inside[0] -= 1
        if n <= case["failures"]:
            raise Boom(n)
        finished.append(1)
        sched.yield_point()
        return the_value

    with sched.coop_locks():
        p = Promise.Promise(fn)
    failures = []

    def body(ops):
        def run():
            mine = False
            for op in ops:
                if op == "value":
                    try:
                        v = p.value
                        mine = True
                        if v is not the_value:
                            log.append(f"request returned {v!r} instead of {the_value!r}")
                    except Boom as e:
                        failures.append(e.args[0])
                        if mine:
                            log.append("a request failed after one had succeeded")
                elif op == "opt":
                    r = p.opt_value
                    if r is not the_value and (r is not None or mine):
                        log.append(f"optional value {r!r}")
                else:
                    r = p.has_value
                    if r is not (the_value is not None) and (r is not False or mine):
                        log.append(f"has value {r!r}")
        return run

    try:
        tasks, switches = sched.run([body(ops) for ops in case["threads"]], case["schedule"])
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
    check(not log, "; ".join(log))
    requests = sum(ops.count("value") for ops in case["threads"])
    eq(len(calls), min(requests, case["failures"] + 1), f"calls of the function for {requests} requests, {case['failures']} of which fail")
    check(len(finished) <= 1, "the function was evaluated successfully more than once", len(finished))
    eq(sorted(failures), list(range(1, min(requests, case["failures"]) + 1)), "exceptions passed on")
    ctx.nontrivial(switches >= 4 and sum("value" in ops for ops in case["threads"]) >= 2)
