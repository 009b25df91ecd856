"""C01 events, C02 observables and property models."""
import contextlib, gc, io, weakref

from hypothesis import strategies as st

import sched
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Event, Model, Observable, Stream

RULES["C01"] = ("cases are generated histories of listen/close/drop/fire operations, with listeners that themselves close, listen or fire, "
                "run against a model of live registrations; non-trivial: at least one fire reached two or more live listeners after some listener had been closed or dropped "
                "(raising sub-check: a raising listener was called and a later fire was checked; threads sub-check: a listener came or went during a fire of another thread)")
ASSUMPTIONS["C01"] = ["whether listeners after a raising one are still called in the same fire is left open (they may be called, in order, at most once)",
                      "tokens dropped (not closed) by a listener during a fire are outside the domain; closing during a fire is inside"]

RET = st.sampled_from([None, True, False, 1, 0, "x", ""])
OWNER = one_of(st.none(), st.none(), st.integers(0, 2))
IDX = st.integers(0, 30)
ACTION = one_of(st.none(), st.none(), st.none(),
                   st.tuples(st.just("close"), IDX), st.just(("close_self",)), st.tuples(st.just("drop_owner"), st.integers(0, 2)),
                   st.tuples(st.just("listen"), RET, OWNER), st.tuples(st.sampled_from(["fire", "fire_any", "fire_all"])))
ARGS = st.lists(one_of(st.none(), st.integers(), st.text(max_size=3)), max_size=3)
KW = st.dictionaries(st.sampled_from(["a", "key", "value"]), st.integers(), max_size=2)
FIRE = one_of(st.tuples(st.just("fire"), ARGS, KW), st.tuples(st.just("fire_any"), ARGS, KW), st.tuples(st.just("fire_all"), ARGS, KW))
LISTEN = st.tuples(st.just("listen"), RET, OWNER, ACTION)


def history(thorough):
    op = one_of(LISTEN, LISTEN, LISTEN, FIRE, FIRE, st.tuples(st.just("close"), IDX), st.tuples(st.just("drop"), IDX),
                   st.tuples(st.just("drop_owner"), st.integers(0, 2)), st.tuples(st.just("with"), RET, ARGS))
    return st.fixed_dictionaries({"falsy_owner": st.booleans(), "trace": st.booleans(), 
                                  "first": one_of(st.lists(LISTEN, min_size=1, max_size=5), st.lists(LISTEN, min_size=1, max_size=5), st.lists(LISTEN, min_size=8, max_size=14)), "ops": st.lists(op, min_size=3, max_size=40 if thorough else 20)})


class Owner:
    def __init__(self, falsy):
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy


class M:  # model of one registration
    def __init__(self, id, ret, owner, action):
        self.id, self.ret, self.owner, self.action = id, ret, owner, action
        self.closed = False
        self.token_held = True
        self.acted = False


def live(m):
    return not m.closed and (m.owner is not None or m.token_held)


class Machine:
    """Drives the real event and, separately, predicts its calls."""

    def __init__(self, case):
        self.event = Event.Event(trace=case["trace"])
        self.falsy = case["falsy_owner"]
        self.tokens = {}
        self.weak_cbs = {}
        self.owners = {}
        self.owner_generation = {}
        self.log = []
        self.ids = 0
        # model
        self.ms = []
        self.m_ids = 0
        self.m_log = []

    # -- real side -------------------------------------------------------------------------------------------
    def owner(self, k):
        if k not in self.owners:
            self.owners[k] = Owner(self.falsy)
        return self.owners[k]

    def real_listen(self, ret, owner, action):
        id = self.ids
        self.ids += 1
        machine = self
        state = {"acted": False}

        class Callback:
            def __call__(self, *args, **kwargs):
                machine.log.append((id, list(args), kwargs))
                if action and not state["acted"]:
                    state["acted"] = True
                    machine.real_action(id, action)
                return ret

        cb = Callback()
        self.weak_cbs[id] = weakref.ref(cb)
        if owner is not None:
            self.tokens[id] = self.event.listen(cb, owner=self.owner(owner))
        else:
            self.tokens[id] = self.event.listen(cb)

    def real_action(self, id, action):
        kind = action[0]
        if kind == "close_self":
            if id in self.tokens:
                self.tokens[id].close()
        elif kind == "close":
            t = self.tokens.get(action[1] % self.ids)
            if t is not None:
                t.close()
        elif kind == "drop_owner":
            self.owners.pop(action[1], None)
        elif kind == "listen":
            self.real_listen(action[1], action[2], None)
        else:
            r = getattr(self.event, kind)("nested", id)
            self.log.append(("result", kind, r if kind != "fire" else None))

    # -- model side ------------------------------------------------------------------------------------------
    def model_listen(self, ret, owner, action):
        m = M(self.m_ids, ret, owner, action)
        self.m_ids += 1
        self.ms.append(m)
        return m

    def model_drop_owner(self, k):
        for m in self.ms:
            if m.owner == k:
                m.closed = True

    def model_action(self, m, action):
        kind = action[0]
        if kind == "close_self":
            if m.token_held:
                m.closed = True
        elif kind == "close":
            other = self.ms[action[1] % len(self.ms)]
            if other.token_held:
                other.closed = True
        elif kind == "drop_owner":
            self.model_drop_owner(action[1])
        elif kind == "listen":
            self.model_listen(action[1], action[2], None)
        else:
            r = self.model_fire(kind, ["nested", m.id], {})
            self.m_log.append(("result", kind, r if kind != "fire" else None))

    def model_fire(self, kind, args, kw):
        called = 0
        for m in [m for m in self.ms if live(m)]:
            if m.closed:
                continue
            called += 1
            self.m_log.append((m.id, list(args), kw))
            if m.action and not m.acted:
                m.acted = True
                self.model_action(m, m.action)
            if kind == "fire_any" and m.ret:
                return True
            if kind == "fire_all" and not m.ret:
                return False
        self.called = called
        return {"fire": None, "fire_any": False, "fire_all": True}[kind]

    def verify(self, what):
        eq(self.log, self.m_log, f"calls made by {what}")
        for m in self.ms:
            if not live(m) and self.weak_cbs[m.id]() is not None:
                gc.collect()
                check(self.weak_cbs[m.id]() is None, "listener function still referenced although its listener was closed or dropped", m.id)


@sub("C01", "history", history, quick=7000, shards=4)
def run_history(case, ctx):
    mc = Machine(case)
    removed = False
    for op in case["first"] + case["ops"]:
        kind = op[0]
        mc.called = 0
        if kind in ("close", "drop"):
            op = [kind, op[1] % len(mc.ms)]
        if kind == "listen":
            mc.real_listen(*op[1:])
            mc.model_listen(*op[1:])
        elif kind == "close":
            if op[1] in mc.tokens:
                mc.tokens[op[1]].close()
                mc.ms[op[1]].closed = True
                removed = True
                ctx.label("close")
        elif kind == "drop":
            if op[1] in mc.tokens:
                del mc.tokens[op[1]]
                mc.ms[op[1]].token_held = False
                removed = True
                ctx.label("drop owned" if mc.ms[op[1]].owner is not None else "drop")
        elif kind == "drop_owner":
            mc.owners.pop(op[1], None)
            mc.model_drop_owner(op[1])
            ctx.label("drop owner")
        elif kind == "with":
            mc.real_listen(op[1], None, None)
            m = mc.model_listen(op[1], None, None)
            with mc.tokens[m.id] as token:
                check(token is mc.tokens[m.id], "a listener's with block gives the listener")
                mc.event.fire(*op[2])
                mc.model_fire("fire", op[2], {})
                del token
            m.closed = True
            mc.event.fire(*op[2])
            mc.model_fire("fire", op[2], {})
        else:
            r = getattr(mc.event, kind)(*op[1], **op[2])
            expected = mc.model_fire(kind, op[1], op[2])
            if kind != "fire":
                check(r is expected, f"result of {kind}", r, expected)
                ctx.label(f"{kind} {expected}")
            if mc.called >= 2 and removed:
                ctx.nontrivial()
            if any(m.acted for m in mc.ms):
                ctx.label("listener acted during fire")
        mc.verify(kind)


def raising(thorough):
    spec = st.sampled_from(["ok", "ok", "ok", "raise", "true", "closed", "dropped"])
    return st.fixed_dictionaries({"kind": st.sampled_from(["fire", "fire_any", "fire_all"]), "trace": st.booleans(),
                                  "listeners": st.lists(spec, min_size=1, max_size=8), "args": ARGS,
                                  "exc": st.sampled_from(["ValueError", "KeyError", "AssertionError", "RuntimeError", "StopIteration", "RecursionError"])})


@sub("C01", "raising", raising, quick=2500, shards=2)
def run_raising(case, ctx):
    ctx.expect_tracebacks = True
    exc = __builtins__[case["exc"]] if isinstance(__builtins__, dict) else getattr(__builtins__, case["exc"])
    event = Event.Event(trace=case["trace"])
    log = []
    raising_on = [True]
    tokens = []

    def make(i, spec):
        def fn(*args, **kwargs):
            log.append((i, list(args)))
            if spec == "raise" and raising_on[0]:
                raise exc("on purpose")
            return True if (case["kind"] == "fire_all" or spec == "true") else False
        return fn

    for i, spec in enumerate(case["listeners"]):
        t = event.listen(make(i, spec))
        if spec == "closed":
            t.close()
        if spec != "dropped":
            tokens.append(t)
        del t
    order = [i for i, s in enumerate(case["listeners"]) if s not in ("closed", "dropped")]
    specs = case["listeners"]

    def expected(raising):
        must = []
        for i in order:
            must.append(i)
            if raising and specs[i] == "raise":
                return must, True
            if case["kind"] == "fire_any" and specs[i] == "true":
                return must, False
        return must, False

    for raising in (True, False, True):
        raising_on[0] = raising
        log.clear()
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                r = getattr(event, case["kind"])(*case["args"])
        except Exception as e:
            raise Violation(f"the exception of a listener reached the code that fires: {e!r}")
        must, open_end = expected(raising)
        if open_end:
            check(case["exc"] in err.getvalue() and "on purpose" in err.getvalue(), "the exception of a listener was not reported", err.getvalue())
        else:
            check(not err.getvalue(), "something was reported although no listener raised", err.getvalue())
        called = [i for i, a in log]
        for i, a in log:
            eq(a, case["args"], "arguments")
        eq(called[:len(must)], must, "listeners called up to the raising one")
        if open_end:
            rest = called[len(must):]
            check(rest == sorted(set(rest)) and all(i in order and i > must[-1] for i in rest), "calls after the raising listener", called)
            ctx.nontrivial()
            ctx.label("raised in " + case["kind"])
        else:
            eq(len(called), len(must), "number of calls")
            if case["kind"] == "fire_all":
                check(r is True, "fire_all result", r)
            if case["kind"] == "fire_any":
                check(r is any(specs[i] == "true" for i in order), "fire_any result", r)



# -- several threads ---------------------------------------------------------------------------------------------
STEP = st.tuples(st.integers(0, 2), one_of(st.integers(1, 12), st.integers(1, 80)))


def event_threads(thorough):
    op = one_of(st.tuples(st.sampled_from(["fire", "fire", "fire_any", "fire_all"])), st.tuples(st.sampled_from(["fire", "fire", "fire_any", "fire_all"])),
                st.just(("listen",)), st.tuples(st.sampled_from(["close", "drop"]), st.integers(0, 5)), st.tuples(st.sampled_from(["close", "drop"]), st.integers(0, 5)))
    return st.fixed_dictionaries({"first": st.lists(st.integers(0, 3), min_size=1, max_size=6), "threads": st.lists(st.lists(op, min_size=1, max_size=5), min_size=2, max_size=3),
                                  "schedule": st.lists(STEP, min_size=4, max_size=80 if thorough else 40)})


@sub("C01", "threads", event_threads, quick=1500, shards=3)
def run_event_threads(case, ctx):
    """Listeners come and go in some threads while others fire: who must and who must not be called follows from the order of beginnings and ends."""
    with sched.coop_locks():
        event = Event.Event()
    clock = [0]
    fires = []      # [thread, kind, begin, end, calls]
    regs = []       # [owning thread, listen begin, listen end, how, end begin, end end]
    tokens = {}
    running = {}

    def now():
        clock[0] += 1
        return clock[0]

    def listen(owner):
        i = len(regs)
        regs.append([owner, now(), None, None, None, None])

        def fn(k):
            fires[k][4].append(i)
            sched.yield_point()
            return fires[k][1] == "fire_all"
        tokens[i] = event.listen(fn)
        regs[i][2] = now()

    for owner in case["first"]:
        listen(owner)       # owner 3: nobody touches it

    def body(me, ops):
        def fn():
            for op in ops:
                if op[0] == "listen":
                    listen(me)
                elif op[0] in ("close", "drop"):
                    mine = [i for i, r in enumerate(regs) if r[0] == me and i in tokens]
                    if mine:
                        i = mine[op[1] % len(mine)]
                        t = tokens.pop(i)
                        regs[i][3], regs[i][4] = op[0], now()
                        if op[0] == "close":
                            t.close()
                        del t
                        regs[i][5] = now()
                else:
                    k = len(fires)
                    fires.append([me, op[0], now(), None, []])
                    r = getattr(event, op[0])(k)
                    fires[k][3] = now()
                    if op[0] != "fire":
                        check(r is (op[0] == "fire_all"), f"result of {op[0]}", r)
        return fn

    try:
        tasks, switches = sched.run([body(i, ops) for i, ops in enumerate(case["threads"])], case["schedule"])
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
    fires.append([-1, "fire", now(), None, []])
    event.fire(len(fires) - 1)
    fires[-1][3] = now()
    raced = False
    for me, kind, s, e, calls in fires:
        check(len(set(calls)) == len(calls), "a listener was called twice by one fire", calls)
        for i, (owner, lb, le, how, cb, ce) in enumerate(regs):
            if le < s and (cb is None or cb > e):
                check(i in calls, "a listener that was there throughout was not called", i, calls, regs)
            elif lb > e or (ce is not None and ce < s and (how == "close" or not any(f is not None and f[2] < ce < f[3] for f in fires))):
                check(i not in calls, "a listener that was not there was called", i, calls, regs)
            else:
                raced = True
        for a, b in zip(calls, calls[1:]):
            check(not (regs[b][2] < regs[a][1]), "listeners were not called in the order they were added", calls, regs)
    ctx.nontrivial(raced and switches >= 4)
    ctx.label("raced" if raced else "apart")


def again_cases(thorough):
    op = one_of(st.tuples(st.just("listen"), st.integers(0, 2), OWNER), st.tuples(st.just("listen"), st.integers(0, 2), OWNER), st.tuples(st.just("drop"), IDX), st.tuples(st.just("close"), IDX),
                st.tuples(st.just("drop_owner"), st.integers(0, 2)), st.just(("fire",)))
    return st.fixed_dictionaries({"functions": st.sampled_from(["function", "method", "equal"]), "ops": st.lists(op, min_size=4, max_size=40 if thorough else 20)})


@sub("C01", "same function", again_cases, quick=3000, shards=2)
def run_again(case, ctx):
    """The same function, or functions that compare equal, registered several times, with and without owners."""
    event = Event.Event()
    log = []

    class Equal:
        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return isinstance(other, Equal)

        def __hash__(self):
            return 1

        def __call__(self, x):
            log.append((self.n, x))

        def call(self, x):
            log.append((self.n, x))

    objects = [Equal(n) for n in range(3)]
    functions = [lambda x, n=n: log.append((n, x)) for n in range(3)]
    owners, regs, tokens = {}, [], []
    fires = several = 0
    for op in case["ops"] + [("fire",)]:
        if op[0] == "listen":
            n = op[1]
            fn = {"function": functions[n], "method": objects[n].call, "equal": objects[n]}[case["functions"]]
            if op[2] is None:
                tokens.append(event.listen(fn))
            else:
                if op[2] not in owners:
                    owners[op[2]] = Owner(False)
                tokens.append(event.listen(fn, owner=owners[op[2]]))
            regs.append([n, op[2], True])
        elif op[0] in ("drop", "close") and tokens:
            i = op[1] % len(tokens)
            if op[0] == "close" and tokens[i] is not None:
                tokens[i].close()
                regs[i][2] = False
            elif op[0] == "drop" and tokens[i] is not None:
                tokens[i] = None
                if regs[i][1] is None:
                    regs[i][2] = False
        elif op[0] == "drop_owner":
            owners.pop(op[1], None)
            for r in regs:
                if r[1] == op[1]:
                    r[2] = False
        elif op[0] == "fire":
            log.clear()
            fires += 1
            event.fire(fires)
            wanted = [(r[0], fires) for r in regs if r[2]]
            several = max(several, max([wanted.count(x) for x in wanted], default=0))
            eq(log, wanted, "calls of functions that are registered several times")
    ctx.nontrivial(several >= 2)
    ctx.label(case["functions"])


# ---------------------------------------------------------------------------------------------------------------
RULES["C02"] = ("cases are sequences of notifications to an observable with listeners on every event, and sequences of assignments to property models; "
                "non-trivial: at least two different notification kinds with a listener closed midway, or at least one assignment that differs and one that does not")
ASSUMPTIONS["C02"] = ["custom comparisons are symmetric"]
NOTES = {"notify_property_changed": ("property_changed_event", 1), "notify_set_item": ("item_set_event", 2), "notify_clear_item": ("item_cleared_event", 1),
         "notify_insert_item": ("item_inserted_event", 3), "notify_remove_item": ("item_removed_event", 3), "notify_add_item": ("item_added_event", 2),
         "notify_discard_item": ("item_discarded_event", 2), "notify_item_content_changed": ("item_content_changed_event", 3)}
ANY = one_of(st.none(), st.integers(-3, 3), st.text(max_size=2), st.booleans(), st.floats(allow_nan=False), st.lists(st.integers(), max_size=2))


def observable(thorough):
    def note(n):
        return st.tuples(st.just("note"), st.just(n), *([ANY] * NOTES[n][1]))
    ops = one_of(*[note(n) for n in NOTES], st.tuples(st.just("listen"), st.sampled_from(sorted(NOTES))), st.tuples(st.just("close"), st.integers(0, 30)))
    return st.lists(ops, min_size=3, max_size=25)


@sub("C02", "observable", observable, quick=3000, shards=2)
def run_observable(case, ctx):
    class Sub(Observable.Observable):
        pass
    o = Sub()
    log, expected, listeners = [], [], []

    def add(n):
        i = len(listeners)
        t = getattr(o, NOTES[n][0]).listen(lambda *a, **k: log.append([i, list(a), k]))
        listeners.append([n, t, True])

    for n in sorted(NOTES):
        add(n)
    kinds, closed = set(), False
    for op in case:
        if op[0] == "listen":
            add(op[1])
        elif op[0] == "close":
            if op[1] < len(listeners):
                listeners[op[1]][1].close()
                listeners[op[1]][2] = False
                closed = True
        else:
            n, args = op[1], op[2:]
            log.clear()
            getattr(o, n)(*args)
            eq(log, [[i, args, {}] for i, (n2, t, alive) in enumerate(listeners) if alive and n2 == n], f"notifications sent by {n}")
            kinds.add(n)
    ctx.nontrivial(len(kinds) >= 2 and closed)


VALUES = one_of(st.none(), st.integers(-4, 4), st.sampled_from([0.0, 1.0, -1.0, 2.5, "a", "b", "", True, False]), st.lists(st.integers(0, 1), max_size=2))


def seldom_none(values):
    return one_of(values, values, values, values, values, st.none())


def models(thorough):
    vals = {"eq": VALUES, "mod": seldom_none(st.integers(-6, 6)), "near": seldom_none(st.integers(-3, 3)), "lower": seldom_none(st.text("aAbB", max_size=2)), "never": VALUES}
    return st.sampled_from(sorted(vals)).flatmap(lambda k: st.fixed_dictionaries({
        "cmp": st.just(k), "start": vals[k], "on_changed": st.booleans(), "stream": st.booleans(),
        "ops": st.lists(one_of(*[st.tuples(st.just("set"), vals[k])] * 5, st.just(("same",)), st.tuples(st.just("listen")),
                                  st.tuples(st.just("close"), st.integers(0, 4)), st.just(("on",)), st.just(("off",))), min_size=1, max_size=15)}))


CMPS = {"eq": None, "mod": lambda a, b: a % 3 == b % 3, "near": lambda a, b: abs(a - b) <= 1, "lower": lambda a, b: a.lower() == b.lower(), "never": lambda a, b: False}


@sub("C02", "property_model", models, quick=3500, shards=2)
def run_models(case, ctx):
    cmp = CMPS[case["cmp"]]
    if case.get("stream"):
        # a model which follows a stream
        source = Stream.ValueStream(case["start"]).add_ref()
        m = Model.StreamValueModel(source, cmp=cmp) if cmp else Model.StreamValueModel(source)
        target = source
    else:
        m = Model.PropertyModel(case["start"], cmp) if cmp else Model.PropertyModel(case["start"])
        target = m
    log, listeners = [], []
    current = case["start"]
    eq(m.value, current, "initial value")

    def on_changed(v):
        log.append(["on", v, m.value])

    on = [case["on_changed"]]
    m.on_value_changed = on_changed if on[0] else None

    def listen():
        i = len(listeners)
        listeners.append([m.property_changed_event.listen(lambda key: log.append([i, key, m.value])), True])
    listen()
    changed = unchanged = 0
    for op in case["ops"]:
        if op[0] == "listen":
            listen()
        elif op[0] == "close":
            if op[1] < len(listeners):
                listeners[op[1]][0].close()
                listeners[op[1]][1] = False
        elif op[0] in ("on", "off"):
            on[0] = op[0] == "on"
            m.on_value_changed = on_changed if on[0] else None
        else:
            new = op[1] if op[0] == "set" else current
            if current is None or new is None:
                differs = not (current is None and new is None)
            else:
                differs = not (cmp(new, current) if cmp else new == current)
            if target is not m and target.value == new:
                differs = False      # the stream does not announce it
            log.clear()
            target.value = new
            if differs:
                current = new
                changed += 1
                expected = [[i, "value", new] for i, l in enumerate(listeners) if l[1]]
                eq([x for x in log if x[0] != "on"], expected, "property changed notifications")
                eq([x for x in log if x[0] == "on"], [["on", new, new]] if on[0] else [], "on value changed calls")
            else:
                unchanged += 1
                eq(log, [], "notifications although the value did not change")
            check(m.value is current or (m.value == current and type(m.value) is type(current)), "value", m.value, current)
    ctx.nontrivial(changed > 0 and unchanged > 0)
    ctx.label("cmp " + case["cmp"])
    m.close()
    if target is not m:
        log.clear()
        target.value = "another value" if case["cmp"] == "lower" else 77
        eq([log, target.ref_count], [[], 1], "notifications of a closed model of a stream, references of the stream")
        target.remove_ref()
    log.clear()
    m.value = None if current is not None else ("x" if case["cmp"] == "lower" else 1)
    check(not [x for x in log if x[0] == "on"], "on value changed called after closing the model")
