"""C18 models fed by a stream of functions."""
import asyncio, concurrent.futures, threading, time
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Model, Stream

RULES["C18"] = ("cases are two to seven functions sent to a model, whose evaluations the harness lets finish in a generated order, interleaved with the sending and with turns of the event loop; "
                "non-trivial: a function finished after a newer one had, or two evaluations were running at the same time")
ASSUMPTIONS["C18"] = ["a function that raises says so by an exception of its own, which the event loop reports"]

V = one_of(st.integers(-2, 2), st.none(), st.sampled_from(["a", "b"]))
FN = st.fixed_dictionaries({"value": V, "raises": st.sampled_from([False, False, False, False, True])})
OP = one_of(st.tuples(st.just("finish"), st.integers(0, 6)), st.just(("send",)), st.just(("send",)), st.just(("turn",)))


def cases(thorough):
    return st.fixed_dictionaries({"fns": st.lists(FN, min_size=2, max_size=7), "initial": st.sampled_from([None, 0, "x"]), "ops": st.lists(OP, max_size=16), "last": st.lists(st.integers(0, 6), min_size=7, max_size=7),
                                  "map": st.booleans()})


class Boom(Exception):
    pass


class Fn:
    def __init__(self, spec, log, raises):
        self.spec, self.log, self.raises = spec, log, raises
        self.loop_thread = threading.get_ident()
        self.gate = threading.Event()
        self.started = threading.Event()
        self.finished = threading.Event()
        self.calls = 0
        self.threads = set()

    def __call__(self):
        self.calls += 1
        self.threads.add(threading.get_ident())
        self.started.set()
        if threading.get_ident() != self.loop_thread and not self.gate.wait(120):
            raise RuntimeError("never released")
        self.finished.set()
        if self.raises:
            raise Boom()
        return self.spec["value"]


@sub("C18", "history", cases, quick=4000, shards=6)
def run(case, ctx):
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *a: None)
    executor = concurrent.futures.ThreadPoolExecutor(12)
    loop.set_default_executor(executor)
    me = threading.get_ident()
    n = len(case["fns"])
    fns = [Fn(s, None, s["raises"]) for i, s in enumerate(case["fns"])]
    source = Stream.ValueStream(fns[0])
    source.add_ref()
    notes = []
    order = []

    def turns(k):
        for _ in range(k):
            loop.stop()
            loop.run_forever()

    def wait_for(predicate, seconds):
        deadline = time.monotonic() + seconds
        while not predicate():
            turns(2)
            if predicate():
                return True
            if time.monotonic() > deadline:
                return False
            time.sleep(0.0003)
        return True

    stream = Stream.MapStream(source, lambda f: f) if case["map"] else source
    model = Model.FuncStreamValueModel(stream, loop, value=case["initial"]) if case["initial"] is not None else Model.FuncStreamValueModel(stream, loop)
    listener = model.property_changed_event.listen(lambda k: notes.append((k, model.value, threading.get_ident())))
    changed = []
    model.on_value_changed = lambda v: changed.append(v)
    sent = 1
    try:
        eq(model.value, case["initial"], "value before any evaluation is done")

        def finish(f):
            nonlocal overlap
            if not wait_for(f.started.is_set, 30):
                raise Violation("a function is not evaluated")
            overlap = overlap or sum(1 for g in fns[:sent] if g.started.is_set() and not g.finished.is_set()) >= 2
            order.append(fns.index(f))
            tasks = len(asyncio.all_tasks(loop))
            f.gate.set()
            if not wait_for(f.finished.is_set, 30):
                raise Violation("a function's evaluation does not come to its end")
            # give the result a chance to arrive before the next one does
            wait_for(lambda: len(asyncio.all_tasks(loop)) < tasks, 0.2)
            turns(3)

        overlap = False
        for op in case["ops"]:
            waiting = [f for f in fns[:sent] if not f.gate.is_set()]
            if op[0] == "finish" and waiting:
                finish(waiting[op[1] % len(waiting)])
            elif op[0] == "send" and sent < n:
                source.value = fns[sent]
                sent += 1
            elif op[0] == "turn":
                turns(2)
        while sent < n:
            source.value = fns[sent]
            sent += 1
        for k in case["last"]:
            waiting = [f for f in fns if not f.gate.is_set()]
            if waiting:
                finish(waiting[k % len(waiting)])
        wait_for(lambda: not asyncio.all_tasks(loop), 30)
        turns(5)
        done = [f for f in fns if not f.raises]
        expected = done[-1].spec["value"] if done else case["initial"]
        if not done:
            eq(notes, [], "notifications although every function raised")
            ctx.label("every function raises")
        eq(model.value, expected, f"value after all evaluations, which finished in the order {order}")
        for i, f in enumerate(fns):
            eq(f.calls, 1, f"evaluations of function {i}")
            check(me not in f.threads, "a function was evaluated on the event loop's thread")
        for k, v, t in notes:
            eq(k, "value", "name of the property notified")
            check(t == me, "notification on a thread other than the event loop's")
        if case["initial"] != expected:
            check(notes, "no notification of the change")
        if notes:
            eq(notes[-1][1], expected, "value at the time of the last notification")
        if changed:
            eq(changed[-1], expected, "value passed to on_value_changed last")
        # waiting for the evaluations ends when there are none left, and when another one is done
        deadline = time.monotonic() + 20
        stop = loop.stop
        waits = [0]

        def stop_with_limit():
            waits[0] += 1
            if waits[0] > 1000 and time.monotonic() > deadline:
                raise Violation("waiting for the evaluations does not end")
            stop()
        loop.stop = stop_with_limit
        model._run_until_complete()
        eq(model.value, expected, "value after waiting although all evaluations were done")
        source.value = lambda: ["one more"]
        model._run_until_complete()
        eq(model.value, ["one more"], "value after waiting for one more evaluation")
        eq(model._evaluate_immediate(), ["one more"], "value of the latest function evaluated at once")
        ctx.nontrivial(overlap or order != sorted(order))
        if order != sorted(order):
            ctx.label("finished out of order")
        if any(f.raises for f in fns):
            ctx.label("a function raises")
        model.close()
        eq(source.ref_count, 1, "references on the stream after closing the model")
    finally:
        for f in fns:
            f.gate.set()
        executor.shutdown(wait=True)
        turns(3)
        loop.close()
