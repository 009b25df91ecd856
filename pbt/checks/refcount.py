"""C19 reference counting."""
from hypothesis import strategies as st

import sched
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import ReferenceCounting

RULES["C19"] = ("histories: add, checked and unchecked remove, reference contexts (also left by an exception), also from inside about-to-delete; schedules: two or three threads adding and removing their own references, "
                "switched at generated bytecode instructions; non-trivial: the count came back to zero at least once (schedules: at least four switches between threads)")
ASSUMPTIONS["C19"] = ["each thread removes only references it owns"]


class Boom(Exception):
    pass


def histories(thorough):
    op = one_of(st.just(("add",)), st.just(("add",)), st.tuples(st.just("remove"), st.sampled_from(["default", "default", True, False])), st.tuples(st.just("remove"), st.sampled_from(["default", True])),
                st.tuples(st.just("ctx"), st.booleans(), st.integers(0, 2)), st.tuples(st.just("nested"), st.booleans()))
    many = one_of(st.tuples(st.just("add many"), st.integers(3, 70)), st.tuples(st.just("remove many"), st.integers(3, 70)))
    op = one_of(*[op] * 9, many)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=40 if thorough else 20), "inside": st.sampled_from(["none", "none", "addremove", "ctx", "raise on extra"])})


@sub("C19", "history", histories, quick=4000, shards=3)
def run_history(case, ctx):
    log = []

    class Counted(ReferenceCounting.ReferenceCounted):
        def about_to_delete(self):
            log.append(self.ref_count)
            if case["inside"] == "addremove" and len(log) < 3:
                self.add_ref()
                self.remove_ref()
            elif case["inside"] == "ctx" and len(log) < 3:
                with self.ref():
                    pass

    o = Counted()
    count, finalised = 0, False
    eq(o.ref_count, 0, "count of a new object")

    def removed(checked):
        nonlocal count, finalised
        count -= 1
        if count == 0 and checked and not finalised:
            finalised = True

    for op in case["ops"]:
        before = len(log)
        was_final = finalised
        if op[0] == "add":
            check(o.add_ref() is o, "add_ref returns the object")
            count += 1
        elif op[0] == "add many":
            for _ in range(op[1]):
                o.add_ref()
                count += 1
                eq(o.ref_count, count, "reference count")
        elif op[0] == "remove many":
            for _ in range(min(op[1], count)):
                eq(len(log), before, "calls of about_to_delete while there are references")
                o.remove_ref()
                removed(True)
                eq(o.ref_count, count, "reference count")
            ctx.label("many references")
        elif op[0] == "remove":
            checked = op[1] is not False
            if count == 0:
                try:
                    o.remove_ref() if op[1] == "default" else o.remove_ref(check=checked)
                except Exception:
                    ctx.label("removal without a reference")
                else:
                    raise Violation("removing a reference that does not exist is not an error")
            else:
                o.remove_ref() if op[1] == "default" else o.remove_ref(check=checked)
                removed(checked)
        elif op[0] == "ctx":
            try:
                with o.ref():
                    count += 1
                    eq(o.ref_count, count, "count inside a reference context")
                    for _ in range(op[2]):
                        o.add_ref()
                        count += 1
                    if op[1]:
                        raise Boom
            except Boom:
                check(op[1], "exception")
            else:
                check(not op[1], "the exception inside a reference context was swallowed")
            removed(True)
        else:
            with o.ref():
                count += 1
                with o.ref():
                    count += 1
                    eq(o.ref_count, count, "count inside nested reference contexts")
                removed(True)
                eq(o.ref_count, count, "count inside a reference context")
            removed(True)
        eq(o.ref_count, count, f"reference count after {op}")
        eq(len(log) - before, 1 if finalised and not was_final else 0, f"calls of about_to_delete by {op}")
        if count == 0:
            ctx.nontrivial(before > 0 or finalised)
    check(all(c == 0 for c in log), "count when about_to_delete is called", log)
    if finalised:
        ctx.label("finalised")


STEP = st.tuples(st.integers(0, 2), one_of(st.integers(1, 12), st.integers(1, 60)))


def schedules(thorough):
    op = st.sampled_from(["add", "remove", "remove", "ctx", "unchecked"])
    return st.fixed_dictionaries({"threads": st.lists(st.lists(op, min_size=1, max_size=6), min_size=2, max_size=3), "hold": st.booleans(), "release_in": st.integers(0, 2),
                                  "schedule": st.lists(STEP, min_size=4, max_size=80 if thorough else 40)})


@sub("C19", "schedules", schedules, quick=1600, shards=5)
def run_schedules(case, ctx):
    calls = []

    class Counted(ReferenceCounting.ReferenceCounted):
        def about_to_delete(self):
            calls.append(1)
            sched.yield_point()

    with sched.coop_locks():
        o = Counted()
    o.add_ref()     # released by one of the threads unless held
    leftover = [0]

    def body(i, ops):
        def fn():
            own = 0
            for op in ops:
                if op == "add":
                    o.add_ref()
                    own += 1
                elif op == "ctx":
                    with o.ref():
                        sched.yield_point()
                elif own:
                    o.remove_ref(check=op != "unchecked") if op == "unchecked" else o.remove_ref()
                    own -= 1
            while own:
                o.remove_ref()
                own -= 1
            if not case["hold"] and i == case["release_in"] % len(case["threads"]):
                o.remove_ref()
        return fn

    try:
        tasks, switches = sched.run([body(i, ops) for i, ops in enumerate(case["threads"])], case["schedule"])
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
    eq(o.ref_count, 1 if case["hold"] else 0, "reference count after all threads are done")
    if case["hold"]:
        eq(len(calls), 0, "calls of about_to_delete although a reference was held throughout")
        o.remove_ref()
        eq(len(calls), 1, "calls of about_to_delete")
    else:
        # an unchecked removal may have been the one that brought the count to zero
        if not any("unchecked" in ops for ops in case["threads"]):
            eq(len(calls), 1, "calls of about_to_delete after the last reference was removed")
        check(len(calls) <= 1, "about_to_delete was called more than once", len(calls))
    ctx.nontrivial(switches >= 4)
    ctx.label("held" if case["hold"] else "released")
