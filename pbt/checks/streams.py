"""C15 values and announcements of derived streams, C17 their lifetimes."""
import copy

from hypothesis import strategies as st

from core import one_of, check, eq, sub, RULES, ASSUMPTIONS
from vloop import Loop
from nion.utils import Model, Observable, Stream

RULES["C15"] = ("cases are graphs of value, constant, mapped, combined, property and concatenating streams and stream models with shared inputs, built partly during a history of value, property, source and choice changes; "
                "non-trivial: a derived stream two or more steps from a source changed its value, or a concatenating or property stream was switched to another source")
RULES["C17"] = ("cases are the same graphs with references released in any order, interleaved with value changes; non-trivial: closing one stream closed another one through its released reference, "
                "or a concatenating stream released a stream it had made")
ASSUMPTIONS["C15"] = ["values have a proper equality", "inputs of a concatenating stream are None or true values", "the value of a property stream while its source stream has no object is left open"]
ASSUMPTIONS["C17"] = ["a stream is not used after its last reference is given up"]

V = st.integers(-3, 3)
L = one_of(V, V, V, V, V, V, st.lists(V, max_size=1), st.sampled_from([True, False, 1.0]))     # lists: equal values that are different objects; values of different types that are equal
BIG = st.integers(0, 60)
FN = st.sampled_from(["wrap", "odd", "neg", "const", "text"])


def f_wrap(x):
    return ["w", x]


def f_odd(x):
    return x % 2 if isinstance(x, int) else None


def f_neg(x):
    return -x if isinstance(x, int) else x


FNS = {"wrap": f_wrap, "odd": f_odd, "neg": f_neg, "const": lambda x: 7, "text": repr}
def both(f):
    return lambda a, b: f(a, b) if isinstance(a, int) and isinstance(b, int) else a == b


CMPS = {None: None, "parity": both(lambda a, b: a % 2 == b % 2), "close": both(lambda a, b: abs(a - b) <= 1), "never": lambda a, b: False}
CFNS = {None: lambda *x: tuple(x), "count": lambda *x: sum(1 for y in x if y), "first": lambda *x: x[0] if x else None, "list": lambda *x: list(x)}

SPEC = one_of(st.tuples(st.just("value"), one_of(V, st.none())), st.tuples(st.just("const"), V),
              st.tuples(st.just("map"), BIG, FN), st.tuples(st.just("map"), BIG, FN), st.tuples(st.just("combine"), st.lists(BIG, max_size=3), st.sampled_from(list(CFNS))),
              st.tuples(st.just("combine"), one_of(st.lists(BIG, min_size=1, max_size=3), st.lists(BIG, min_size=1, max_size=3), st.lists(BIG, min_size=1, max_size=3), st.lists(BIG, min_size=5, max_size=12)), st.sampled_from(list(CFNS))),
              st.tuples(st.just("prop"), st.booleans(), BIG, st.sampled_from("pq"), st.sampled_from([None, None, "parity", "close", "never"])),
              st.tuples(st.just("concat"), st.sampled_from([None, 1, 2, 3]), V, BIG, FN), st.tuples(st.just("model"), BIG, st.booleans()))
VOP = one_of(st.tuples(st.just("set"), BIG, one_of(L, L, st.none())), st.tuples(st.just("set"), BIG, L), st.tuples(st.just("prop"), BIG, st.sampled_from("pq"), L), st.tuples(st.just("switch"), BIG, BIG),
             st.tuples(st.just("choose"), BIG, st.sampled_from([None, 1, 1, 2, 3])), st.tuples(st.just("fresh"), BIG, V), st.just(("build",)), st.tuples(st.just("other"), BIG))
TIMED = st.tuples(st.just("timed"), BIG, st.sampled_from(["debounce", "sample"]), st.integers(1, 3))
ROP = one_of(st.tuples(st.just("step"), st.integers(1, 4)), st.tuples(st.just("release"), BIG), st.tuples(st.just("release"), BIG), st.tuples(st.just("addref"), BIG))


def graphs(release):
    def make(thorough):
        return st.fixed_dictionaries({"specs": st.lists(one_of(SPEC, SPEC, SPEC, SPEC, SPEC, SPEC, SPEC, SPEC, SPEC, TIMED) if release else SPEC, min_size=2, max_size=14 if thorough else 9), "early": st.integers(1, 9),
                                      "ops": st.lists(one_of(VOP, ROP) if release else VOP, min_size=3, max_size=40 if thorough else 18), "order": st.lists(BIG, min_size=24, max_size=24) if release else st.just([])})
    return make


class Obj(Observable.Observable):
    def __init__(self, p, q):
        super().__init__()
        self._v = {"p": p, "q": q}

    p = property(lambda self: self._v["p"])
    q = property(lambda self: self._v["q"])

    def set(self, k, v):
        self._v[k] = copy.copy(v)
        self.notify_property_changed(k)

    def __bool__(self):
        return self.q != 0     # says nothing about whether there is an object


class Alike(Obj):
    """All of them are equal."""

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 1


class Node:
    def __init__(self, kind, stream, inputs=(), **kw):
        self.kind, self.stream, self.inputs = kind, stream, list(inputs)
        self.refs = 0            # the harness' own references
        self.closed = False      # as the model sees it
        self.closes = 0          # as observed
        self.log = []            # (announced value, readable value)
        self.seen = None
        self.listener = None
        self.__dict__.update(kw)


class Graph:
    def __init__(self, case, ctx, values, lifetimes):
        self.ctx, self.values, self.lifetimes = ctx, values, lifetimes
        self.objs = [Obj(i, -i) for i in range(3)]
        self.nodes = []
        self.objstreams = []
        self.choices = []
        self.made = []           # streams made by concatenating streams
        self.specs = list(case["specs"])
        self.loop = None
        self.keep = [self.leaf(0), self.leaf(1)]
        for _ in range(min(case["early"], len(self.specs))):
            self.build()

    # -- construction --------------------------------------------------------------------------------------------
    def register(self, node):
        node.stream.add_ref()
        node.refs += 1
        original = node.stream.close

        def close():
            node.closes += 1
            original()
        node.stream.close = close
        node.listener = node.stream.value_stream.listen(lambda v: node.log.append((v, node.stream.value)))
        node.seen = node.stream.value
        self.nodes.append(node)
        return node

    def leaf(self, v):
        return self.register(Node("value", Stream.ValueStream(v)))

    def pick(self, i):
        """An open stream built earlier."""
        alive = [n for n in self.nodes if not n.closed and n.kind not in ("model", "objs", "choice")]
        return alive[i % len(alive)]

    def build(self):
        if not self.specs:
            return
        spec = self.specs.pop(0)
        kind = spec[0]
        if kind == "value":
            self.leaf(spec[1])
        elif kind == "const":
            self.register(Node("const", Stream.ConstantStream(spec[1]), value=spec[1]))
        elif kind == "map":
            n = self.pick(spec[1])
            self.register(Node("map", Stream.MapStream(n.stream, FNS[spec[2]]), [n], fn=FNS[spec[2]]))
        elif kind == "combine":
            ns = [self.pick(i) for i in spec[1]]
            s = Stream.CombineLatestStream([n.stream for n in ns], CFNS[spec[2]]) if spec[2] else Stream.CombineLatestStream([n.stream for n in ns])
            self.register(Node("combine", s, ns, fn=CFNS[spec[2]]))
        elif kind == "prop":
            o = self.objs[spec[2] % 3]
            if spec[1]:
                vs = self.register(Node("objs", Stream.ValueStream(o)))
                self.objstreams.append(vs)
                self.register(Node("prop", Stream.PropertyChangedEventStream(vs.stream, spec[3], CMPS[spec[4]]), [vs], name=spec[3], obj=None, cmp=CMPS[spec[4]], kept=None))
            else:
                self.register(Node("prop", Stream.PropertyChangedEventStream(o, spec[3], CMPS[spec[4]]), [], name=spec[3], obj=o, cmp=CMPS[spec[4]], kept=None))
        elif kind == "concat":
            ch = self.register(Node("choice", Stream.ValueStream(spec[1])))
            self.choices.append(ch)
            node = Node("concat", None, [ch], current=None)
            base = self.keep[spec[3] % 2]

            def concat_fn(item):
                if item == 1:
                    s = Stream.ValueStream(spec[2])
                    m = Node("made", s, fresh=True)
                elif item == 2:
                    m = base
                    node.current = m
                    return base.stream
                else:
                    s = Stream.MapStream(base.stream, FNS[spec[4]])
                    m = Node("made", s, [base], fn=FNS[spec[4]], fresh=False)
                original = s.close

                def close():
                    m.closes += 1
                    original()
                s.close = close
                m.listener = s.value_stream.listen(lambda v: m.log.append((v, s.value)))
                self.made.append(m)
                node.current = m
                return s
            node.stream = Stream.ConcatStream(ch.stream, concat_fn)
            self.register(node)
        elif kind == "timed":
            n = self.pick(spec[1])
            if self.loop is None:
                self.loop = Loop()
            cls = Stream.DebounceStream if spec[2] == "debounce" else Stream.SampleStream
            self.register(Node("timed", cls(n.stream, spec[3] / 8, self.loop), [n]))
            self.ctx.label("timed stream")
        elif kind == "model":
            n = self.pick(spec[1])
            m = Model.StreamValueModel(n.stream, value=99) if spec[2] else Model.StreamValueModel(n.stream)
            node = Node("model", m, [n], refs=1)
            node.listener = m.property_changed_event.listen(lambda k: node.log.append((k, m.value)))
            node.seen = m.value
            self.nodes.append(node)

    # -- oracle --------------------------------------------------------------------------------------------------
    def expected(self, n):
        if n.kind in ("value", "const", "objs", "choice", "timed"):
            return n.stream.value if n.kind != "const" else n.value
        if n.kind == "made":
            return n.stream.value if n.fresh else n.fn(n.inputs[0].stream.value)
        # the inputs are checked themselves: of values that are equal, either may be shown
        if n.kind == "map":
            return n.fn(n.inputs[0].stream.value)
        if n.kind == "combine":
            return n.fn(*[i.stream.value for i in n.inputs])
        if n.kind == "prop":
            o = n.obj if n.obj is not None else n.inputs[0].stream.value
            v = getattr(o, n.name)
            if n.cmp is None:
                return v
            if not n.cmp(v, n.kept):      # a value that compares equal to the one shown does not replace it
                n.kept = v
            return n.kept
        if n.kind == "concat":
            return None if n.inputs[0].stream.value is None else self.expected(n.current)
        if n.kind == "model":
            return self.expected(n.inputs[0])

    def depth(self, n):
        return 0 if not n.inputs else 1 + max(self.depth(i) for i in n.inputs)

    def verify(self, op):
        for k, n in enumerate(self.nodes):
            who = f"{n.kind} stream {k} after {op}"
            if n.closed:
                check(not n.log, f"closed {who} made announcements", n.log)
                continue
            e = self.expected(n)
            v = n.stream.value
            if self.values:
                check(v == e, f"value of {who}", v, e)
                if n.kind == "model":
                    for key, readable in n.log:
                        eq(key, "value", f"notification of {who}")
                    n.log = [(readable, readable) for key, readable in n.log]
                for announced, readable in n.log:
                    check(announced == readable, f"{who} announced a value while another was readable", announced, readable)
                if n.log:
                    check(n.log[-1][0] == v, f"last announcement of {who}", n.log[-1][0], v)
                if not (n.seen == v):
                    check(len(n.log) >= 1, f"the change of {who} from {n.seen!r} to {v!r} was not announced")
                sequence = [n.seen] + [a for a, r in n.log]
                if n.kind == "prop" and n.cmp is CMPS["never"]:
                    # every announcement of this very property is passed on, once
                    o = n.obj if n.obj is not None else n.inputs[0].stream.value
                    count = 0
                    if op[0] == "prop":
                        count = int(self.objs[op[1] % 3] is o and op[2] == n.name)
                    elif op[0] == "switch" and n.inputs:
                        count = len(n.inputs[0].log_count)
                    check(len(n.log) == count, f"announcements of {who}, none of whose values compare equal", n.log, count)
                elif n.kind in ("value", "map", "prop", "model", "objs", "choice"):
                    for a, b in zip(sequence, sequence[1:]):
                        check(a != b, f"{who} announced although its value stayed", sequence)
                if n.kind == "combine":
                    limit = sum(len(i.log_count) for i in n.inputs)
                    check(len(n.log) <= limit, f"{who} announced more often than its inputs", n.log, limit)
                if n.kind == "concat":
                    limit = len(n.inputs[0].log_count) + sum(len(m.log) for m in self.made) + sum(len(b.log_count) for b in self.keep)
                    check(len(n.log) <= limit, f"{who} announced more often than its inputs", n.log, limit)
                if n.log and self.depth(n) >= 2:
                    self.ctx.nontrivial()
            n.seen = v
            n.log_count = n.log
            n.log = []
        if self.lifetimes:
            self.verify_lifetimes(op)
        for m in self.made:
            m.log = []

    def verify_lifetimes(self, op):
        held = {}
        for n in self.nodes:
            if not n.closed:
                for i in n.inputs:
                    held[id(i)] = held.get(id(i), 0) + 1
                if n.kind == "concat" and n.inputs[0].stream.value is not None:
                    held[id(n.current)] = held.get(id(n.current), 0) + 1
        for m in self.made:
            if held.get(id(m), 0):
                for i in m.inputs:
                    held[id(i)] = held.get(id(i), 0) + 1
        for k, n in enumerate(self.nodes):
            if n.kind == "model":
                continue
            who = f"{n.kind} stream {k} after {op}"
            count = n.refs + held.get(id(n), 0)
            eq(n.stream.ref_count, count, f"reference count of {who}")
            eq(n.closes, 1 if n.closed else 0, f"times {who} was closed")
        for m in self.made:
            count = held.get(id(m), 0)
            eq(m.stream.ref_count, count, f"reference count of a stream made by a concatenating stream after {op}")
            eq(m.closes, 0 if count else 1, f"times a stream made by a concatenating stream was closed after {op}")

    # -- operations ----------------------------------------------------------------------------------------------
    def release(self, n):
        """Give up one of the harness' references of n and work out which streams this closes."""
        held = sum(x.inputs.count(n) for x in self.nodes if not x.closed)
        held += sum(1 for x in self.nodes if not x.closed and x.kind == "concat" and x.current is n and x.inputs[0].stream.value is not None)
        held += sum(m.inputs.count(n) for m in self.made if m.stream.ref_count)
        n.refs -= 1
        closing = n.refs + held == 0
        closed = []
        if closing:
            self.mark_closed(n, closed)
        if n.kind == "model":
            n.stream.close()
        else:
            n.stream.remove_ref()
        for x in closed:
            x.log = []        # a stream may announce its last value while it closes
        self.ctx.nontrivial(self.lifetimes and len(closed) >= 2)

    def mark_closed(self, n, closed):
        n.closed = True
        closed.append(n)
        inputs = list(n.inputs)
        if n.kind == "concat" and n.inputs[0].stream.value is not None:
            inputs.append(n.current)
            self.ctx.label("closed while concatenated")
        for i in inputs:
            if i.kind == "made":
                inputs.extend(i.inputs)
        for i in inputs:
            if i.kind == "made" or i.closed:
                continue
            held = sum(x.inputs.count(i) for x in self.nodes if not x.closed)
            held += sum(1 for x in self.nodes if not x.closed and x.kind == "concat" and x.current is i and x.inputs[0].stream.value is not None)
            held += sum(1 for x in self.nodes if not x.closed and x.kind == "concat" and x.current is not None and x.current.kind == "made" and i in x.current.inputs and x.inputs[0].stream.value is not None)
            if i.refs + held == 0:
                self.mark_closed(i, closed)

    def do(self, op):
        kind = op[0]
        if kind == "set":
            leaves = [n for n in self.nodes if n.kind == "value" and not n.closed]
            leaves[op[1] % len(leaves)].stream.value = copy.copy(op[2])
        elif kind == "prop":
            self.objs[op[1] % 3].set(op[2], op[3])
        elif kind == "other":
            self.objs[op[1] % 3].notify_property_changed("r")
        elif kind == "switch":
            alive = [n for n in self.objstreams if not n.closed]
            if alive:
                n = alive[op[1] % len(alive)]
                before = n.stream.value
                n.stream.value = self.objs[op[2] % 3]
                if before is not n.stream.value:
                    self.ctx.nontrivial(self.values)
                    self.ctx.label("property source switched")
        elif kind == "choose":
            alive = [n for n in self.choices if not n.closed]
            if alive:
                n = alive[op[1] % len(alive)]
                before = n.stream.value
                n.stream.value = op[2]
                if before != op[2] and before is not None:
                    self.ctx.nontrivial()
                    self.ctx.label("concatenation switched")
        elif kind == "step":
            if self.loop:
                self.loop.advance_to(self.loop.now + op[1] / 8)
                check(not self.loop.errors, "exception in the event loop", self.loop.errors)
        elif kind == "fresh":
            fresh = [m for m in self.made if m.fresh]
            if fresh:
                fresh[op[1] % len(fresh)].stream.value = op[2]
        elif kind == "build":
            self.build()
        elif kind == "addref":
            alive = [n for n in self.nodes if not n.closed and n.kind != "model"]
            n = alive[op[1] % len(alive)]
            n.stream.add_ref()
            n.refs += 1
        elif kind == "release":
            alive = [n for n in self.nodes if n.refs > 0 and n not in self.keep]
            if alive:
                self.release(alive[op[1] % len(alive)])

    def run(self, case):
        for n in self.nodes:
            n.log_count = []
        self.verify("construction")
        for op in case["ops"]:
            self.do(op)
            for n in self.nodes:
                if not hasattr(n, "log_count"):
                    n.log_count, n.log = [], []
            self.verify(op)
        if self.lifetimes:
            for i in case["order"] + [0] * 60:
                alive = [n for n in self.nodes if n.refs > 0 and n not in self.keep]
                if not alive:
                    break
                self.release(alive[i % len(alive)])
                self.verify("release")
            for n in self.keep:
                check(not n.closed and n.stream.ref_count == n.refs, "references left on an input after everything derived from it was closed", n.stream.ref_count, n.refs)
                n.stream.value = 3 if n.stream.value != 3 else 4
            for o in self.objs:
                o.set("p", 9), o.set("q", 9)
            self.do(("step", 8))
            for n in self.nodes + self.made:
                if n not in self.keep:
                    check(not n.log, f"a closed {n.kind} stream made announcements", n.log)
                    if n.kind != "model":
                        eq(n.stream.ref_count, 0, f"references of a released {n.kind} stream")
                        eq(n.closes, 1, f"times a released {n.kind} stream was closed")


@sub("C15", "graphs", graphs(False), quick=4000, shards=6)
def run_values(case, ctx):
    Graph(case, ctx, True, False).run(case)


@sub("C17", "graphs", graphs(True), quick=4000, shards=6)
def run_lifetimes(case, ctx):
    g = Graph(case, ctx, False, True)
    try:
        g.run(case)
    finally:
        if g.loop:
            g.loop.settle()
            g.loop.close()


# -- property streams whose source is absent at times ---------------------------------------------------------------
WHO = one_of(st.integers(0, 2), st.integers(0, 2), st.none())
ABSENT = lambda thorough: st.fixed_dictionaries({
    "start": WHO, "cmp": st.sampled_from([None, None, "parity", "close"]), "map": st.sampled_from([False, True, "alike"]),
    "ops": st.lists(one_of(st.tuples(st.just("switch"), WHO), st.tuples(st.just("prop"), st.integers(0, 2), st.sampled_from("ppq"), L)), min_size=2, max_size=30 if thorough else 14)})


@sub("C15", "absent source", ABSENT, quick=800, shards=2)
def run_absent(case, ctx):
    objs = [(Alike if case["map"] == "alike" else Obj)(i, -i) for i in range(3)]
    get = lambda i: None if i is None else objs[i]
    source = Stream.ValueStream(get(case["start"]))
    if case["map"]:
        # the object at one remove
        source = Stream.ValueStream(case["start"])
        # (a combined stream also announces an object that is equal to the one before)
        objects = Stream.MapStream(source, get) if case["map"] is True else Stream.CombineLatestStream([source], get)
    else:
        objects = source
    cmp = CMPS[case["cmp"]]
    s = Stream.PropertyChangedEventStream(objects, "p", cmp).add_ref()
    log = []
    listener = s.value_stream.listen(lambda v: log.append((v, s.value)))
    current, shown = case["start"], s.value
    kept = [None]

    def expected():
        v = objs[current].p
        if cmp is None:
            return v
        if not cmp(v, kept[0]):
            kept[0] = v
        return kept[0]

    if current is not None:
        eq(s.value, expected(), "value of the property stream")
    left = returned = False
    for op in case["ops"]:
        log.clear()
        if op[0] == "switch":
            left |= current is not None and op[1] is None
            returned |= left and op[1] is not None
            source.value = op[1] if case["map"] else get(op[1])
            current = op[1]
        else:
            objs[op[1]].set(op[2], op[3])
            if current is None:
                eq(log, [], "announcements although the object was switched away from")
                check(s.value == shown, "value changed by an object that was switched away from", s.value, shown)
        if current is None and cmp is not None:
            kept[0] = s.value
        if current is not None:
            e = expected()
            check(s.value == e, f"value of the property stream after {op}", s.value, e)
            check(len(log) == (0 if s.value == shown else 1), f"announcements after {op}", log, shown, s.value)
        for a, r in log:
            check(a == r, "announced value while another was readable", a, r)
        shown = s.value
    ctx.nontrivial(returned)
    ctx.label("source absent") if left else None
    listener = None
    s.remove_ref()
    for o in objs:
        o.set("p", 17)
