"""C16 debounced and sampled streams, on virtual time."""
from hypothesis import strategies as st

import sched
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Stream
from vloop import Loop

RULES["C16"] = ("cases are one to three debounced or sampled streams on one event loop with virtual time, and a history of input changes, time steps (multiples of 1/8, so that ends of periods are hit exactly), listeners that change the input during an announcement, "
                "and releases, also from inside an announcement; non-trivial: at least three announcements, one of them after two or more changes or after a change by a listener; threads: inputs set by a thread while the loop samples")
ASSUMPTIONS["C16"] = ["a change made exactly at the end of a period counts for the next one", "debounced inputs change on the loop's thread"]

BIG = st.integers(0, 60)
V = one_of(st.integers(-3, 3), st.none(), st.integers(4, 99))
PERIOD = st.sampled_from([1, 1, 2, 3, 4, 5, 8, 12])   # eighths
STREAM = st.fixed_dictionaries({"kind": st.sampled_from(["debounce", "sample"]), "period": PERIOD, "initial": V,
                                "react": st.lists(st.tuples(st.integers(0, 5), one_of(st.tuples(st.just("set"), V), st.tuples(st.just("set"), V), st.tuples(st.just("twice"), V), st.just(("close",)))), max_size=3)})
OP = one_of(st.tuples(st.just("set"), BIG, V), st.tuples(st.just("set"), BIG, V), st.tuples(st.just("step"), st.integers(1, 6)), st.tuples(st.just("step"), st.integers(1, 6)), st.tuples(st.just("step"), st.integers(7, 40)))
OPS = one_of(OP, OP, OP, OP, OP, OP, OP, st.tuples(st.just("release"), BIG))


def cases(thorough):
    return st.fixed_dictionaries({"streams": st.lists(STREAM, min_size=1, max_size=3), "ops": st.lists(OPS, min_size=6, max_size=50 if thorough else 25)})


class Watched:
    """One stream and its model; the model keeps the announcements that have to be made."""

    def __init__(self, loop, spec, ctx):
        self.loop, self.spec, self.ctx = loop, spec, ctx
        self.period = spec["period"] / 8
        self.input = Stream.ValueStream(spec["initial"])
        self.input.add_ref()
        cls = Stream.DebounceStream if spec["kind"] == "debounce" else Stream.SampleStream
        self.stream = cls(self.input, self.period, loop)
        self.stream.add_ref()
        self.react = {k: a for k, a in reversed(spec["react"])}
        self.closed = False
        self.seen = []              # (time, value) announced
        self.expected = []          # as the model has it
        self.latest = spec["initial"]
        self.dirty = True
        self.start = loop.now
        self.due = loop.now + self.period
        self.changes = 0
        self.rich = False
        self.listener = self.stream.value_stream.listen(self.announced)
        eq(self.stream.value, spec["initial"], "value of a new stream")

    def set(self, v):
        if v != self.latest:
            self.latest = v
            if not self.closed:
                self.changes += 1
                self.dirty = True
                if self.due is None:
                    self.due = self.loop.now + self.period
        self.input.value = v

    def release(self):
        if not self.closed:
            self.closed = True
            self.stream.remove_ref()

    def announced(self, value):
        n = len(self.seen)
        self.seen.append((self.loop.now, value))
        eq(self.stream.value, value, "value of the stream during its announcement")
        # the model must have this announcement due right now
        check(not self.closed, "announcement of a closed stream", value)
        check(self.due == self.loop.now and self.dirty, "announcement that is not due", self.loop.now - self.start, value)
        eq(value, self.latest, "announced value")
        self.rich = self.rich or self.changes >= 2
        self.done_announcing()
        action = self.react.get(n)
        if action:
            self.ctx.label("listener " + action[0])
            if action[0] == "set":
                self.rich = True
                self.set(action[1])
            elif action[0] == "twice":
                self.set(action[1])
                self.set(-7)
            else:
                self.release()

    def done_announcing(self):
        self.changes = 0
        self.dirty = False
        self.due = None if self.spec["kind"] == "debounce" else self.due + self.period

    def passed(self, t):
        """After the loop has run up to time t nothing may be overdue."""
        if self.closed:
            return
        if self.spec["kind"] == "sample":
            while self.due <= t:
                check(not self.dirty, "no announcement at the end of a period in which the input changed", self.due - self.start)
                self.due += self.period
        elif self.due is not None:
            check(self.due > t, "no announcement one period after the first change", self.due - self.start)


def passed_until(ws, loop, t):
    # stop at every multiple of 1/8 so that sampled streams' idle periods are accounted for as they pass
    while loop.now < t:
        loop.advance_to(loop.now + 0.125)
        for w in ws:
            w.passed(loop.now)
            for e in w.loop.errors:
                raise Violation(f"exception in the event loop: {e}")


@sub("C16", "history", cases, quick=5000, shards=6)
def run_history(case, ctx):
    loop = Loop()
    errors = []

    ws = [Watched(loop, s, ctx) for s in case["streams"]]
    for w in ws:
        original = w.announced

        def guarded(value, original=original):
            try:
                original(value)
            except Violation as e:      # events swallow exceptions of listeners
                errors.append(e)
        w.listener = w.stream.value_stream.listen(guarded)

    def verify():
        if errors:
            raise errors[0]
        for w in ws:
            eq(w.input.ref_count, 1 if w.closed else 2, "references on the input")
            if not w.closed:
                if w.spec["kind"] == "debounce":
                    eq(w.stream.value, w.latest, "value of a debounced stream")
                else:
                    eq(w.stream.value, w.seen[-1][1] if w.seen else w.spec["initial"], "value of a sampled stream")

    try:
        for op in case["ops"]:
            if op[0] == "set":
                w = ws[op[1] % len(ws)]
                w.set(op[2])
            elif op[0] == "step":
                passed_until(ws, loop, loop.now + op[1] / 8)
            else:
                ws[op[1] % len(ws)].release()
                ctx.label("released")
            verify()
        passed_until(ws, loop, loop.now + 3)
        verify()
        for w in ws:
            w.release()
        counts = [len(w.seen) for w in ws]
        for w in ws:
            w.input.value = object()
        passed_until(ws, loop, loop.now + 4)
        verify()
        eq([len(w.seen) for w in ws], counts, "announcements after all streams were closed")
    finally:
        loop.close()
    ctx.nontrivial(any(len(w.seen) >= 3 and w.rich for w in ws))


STEP = st.tuples(st.integers(0, 1), one_of(st.integers(1, 12), st.integers(1, 80)))


def thread_cases(thorough):
    return st.fixed_dictionaries({"values": st.lists(st.integers(1, 50), min_size=1, max_size=4, unique=True), "periods": st.integers(1, 5), "schedule": st.lists(STEP, min_size=4, max_size=80 if thorough else 40)})


@sub("C16", "threads", thread_cases, quick=1000, shards=2)
def run_threads(case, ctx):
    loop = Loop()
    with sched.coop_locks():
        source = Stream.ValueStream(0)
        source.add_ref()
        stream = Stream.SampleStream(source, 1.0, loop)
    stream.add_ref()
    seen = []
    listener = stream.value_stream.listen(seen.append)

    def setter():
        for v in case["values"]:
            source.value = v

    def sampler():
        for _ in range(case["periods"]):
            loop.advance_to(loop.now + 1.0)

    try:
        try:
            tasks, switches = sched.run([setter, sampler], case["schedule"])
        except sched.Deadlock as e:
            raise Violation(str(e))
        for t in tasks:
            if t.error:
                raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
        loop.advance_to(loop.now + 2.0)
        check(seen and seen[-1] == case["values"][-1], "the latest value was not announced", seen, case["values"])
        eq(stream.value, case["values"][-1], "value of the stream")
        order = [0] + case["values"]
        positions = [order.index(v) if v in order else -1 for v in seen]
        check(-1 not in positions and positions == sorted(positions), "announcements are not in the order of the changes", seen, case["values"])
        check(len(seen) <= case["periods"] + 2, "more announcements than periods", seen)
    finally:
        stream.remove_ref()
        loop.advance_to(loop.now + 2.0)
        loop.close()
    ctx.nontrivial(switches >= 4)
