"""C03 property, attribute and tuple bindings."""
from hypothesis import strategies as st

from core import one_of, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Binding, Observable

RULES["C03"] = ("cases are one source object with one to three bindings (property, attribute or tuple element; converter, validator, fallback) and a sequence of source changes, "
                "announcements, updates through a binding and closings; non-trivial: at least one source change reached a target and at least one update through a binding reached the source")
ASSUMPTIONS["C03"] = ["updating an attribute of an absent (None) object is outside the domain, unless an update function is given",
                      "converters' convert is never given None: what the binding shows for a missing value is the fallback"]


class Source(Observable.Observable):
    def __init__(self, quiet):
        super().__init__()
        self._v = {"a": None, "b": None}
        self._quiet = quiet   # announce only values that differ

    def _set(self, k, v):
        same = self._v[k] == v
        self._v[k] = v
        if not (same and self._quiet):
            self.notify_property_changed(k)

    a = property(lambda self: self._v["a"], lambda self, v: self._set("a", v))
    b = property(lambda self: self._v["b"], lambda self, v: self._set("b", v))


class Box:
    """An object with the given attributes."""

    def __init__(self, d):
        for k, v in d.items():
            setattr(self, k, v)

    def __eq__(self, other):
        return type(other) is Box and vars(self) == vars(other)

    def __bool__(self):     # some of them count as false
        return "z" not in vars(self)

    def __repr__(self):
        return f"Box{vars(self)}"


class Str:
    def convert(self, v):
        if v is None:
            raise ValueError("convert(None)")
        return f"<{v}>"

    def convert_back(self, s):
        return int(s)


class Tenfold:
    def convert(self, v):
        return v * 10

    def convert_back(self, v):
        return None if v is None else v // 10


class Clamp:
    def validate(self, v):
        return None if v is None else min(max(v, 0), 5)


class Partial:
    """Shows nothing for some values, and makes something of nothing."""

    def convert(self, v):
        return None if v % 2 else f"{type(v).__name__}{v}"

    def convert_back(self, v):
        return 9 if v is None else None if v % 3 == 0 else v


class Required:
    """Does not let None pass."""

    def validate(self, v):
        return 4 if v is None else v if type(v) is int else int(v)


CONVERTERS = {"none": None, "str": Str(), "ten": Tenfold(), "partial": Partial()}
VALIDATORS = {True: Clamp, "required": Required}
VAL = one_of(st.none(), st.integers(-3, 40), st.integers(0, 1), st.booleans(), st.sampled_from([0.0, 1.0, 2.0]))
BOX = one_of(st.none(), st.dictionaries(st.sampled_from(["x", "y", "z"]), VAL, max_size=3))
TUP = one_of(st.none(), st.lists(VAL, max_size=4))


def cases(thorough):
    def make(kind):
        val = {"property": VAL, "attribute": BOX, "tuple": TUP}[kind]
        binding = st.fixed_dictionaries({"converter": st.sampled_from(sorted(CONVERTERS)), "validator": st.sampled_from([False, True, "required"]), "fallback": one_of(st.none(), st.just("fb"), st.integers(0, 3)),
                                         "prop": st.sampled_from(["a", "a", "a", "b"]), "attr": st.sampled_from(["x", "y"]), "index": st.integers(0, 4), "fn": st.booleans()})
        op = one_of(st.tuples(st.just("set"), st.sampled_from("ab"), val), st.tuples(st.just("set"), st.just("a"), val), st.tuples(st.just("notify"), st.sampled_from(["a", "b", "c"])),
                       st.tuples(st.just("update"), st.integers(0, 2), one_of(st.integers(-3, 90), st.none())), st.tuples(st.just("update"), st.integers(0, 2), st.integers(-3, 90)),
                       st.tuples(st.just("close"), st.integers(0, 2)), st.tuples(st.just("mute"), st.integers(0, 2)), st.tuples(st.just("fallback"), st.integers(0, 2), st.sampled_from([None, "other", 0])))
        return st.fixed_dictionaries({"kind": st.just(kind), "quiet": st.booleans(), "start": val, "bindings": st.lists(binding, min_size=1, max_size=3),
                                      "ops": st.lists(op, min_size=2, max_size=25 if thorough else 12)})
    return st.sampled_from(["property", "attribute", "tuple"]).flatmap(make)


@sub("C03", "bindings", cases, quick=4500, shards=6)
def run(case, ctx):
    kind = case["kind"]
    wrap = {"property": lambda v: v, "attribute": lambda v: None if v is None else Box(v), "tuple": lambda v: None if v is None else tuple(v)}[kind]
    source = Source(case["quiet"])
    source.a = wrap(case["start"])
    bs = []
    ctx.label(kind)

    def element(spec, value):
        """What the binding is to show of a source value: None stands for missing."""
        if kind == "property" or value is None:
            return value
        if kind == "attribute":
            return vars(value).get(spec["attr"])
        return value[spec["index"]] if spec["index"] < len(value) else None

    def shown(spec, value):
        e = element(spec, value)
        if e is None:
            return spec["fallback"]
        return CONVERTERS[spec["converter"]].convert(e) if CONVERTERS[spec["converter"]] else e

    def replace_attribute(value, name, v):
        d = dict(vars(value)) if value is not None else {}
        d[name] = v
        return Box(d)

    for spec in map(dict, case["bindings"]):
        conv = CONVERTERS[spec["converter"]]
        validator = None
        if kind == "property":
            validator = VALIDATORS[spec["validator"]]() if spec["validator"] else None
            b = Binding.PropertyBinding(source, spec["prop"], converter=conv, validator=validator, fallback=spec["fallback"])
            check(b.validator is validator, "validator of a binding")
        elif kind == "attribute":
            b = Binding.PropertyAttributeBinding(source, spec["prop"], spec["attr"], converter=conv, fallback=spec["fallback"], update_attribute_fn=replace_attribute if spec["fn"] else None)
        else:
            b = Binding.TuplePropertyBinding(source, spec["prop"], spec["index"], converter=conv, fallback=spec["fallback"])
        check(b.source is source and b.converter is conv, "source and converter of a binding")
        e = {"b": b, "spec": spec, "log": [], "open": True, "muted": False, "validator": validator}
        b.target_setter = e["log"].append
        bs.append(e)
    reached = updated = False

    def expect_announcement(prop, n, what):
        """Each open binding of prop was given its value n times, no other binding anything."""
        nonlocal reached
        for i, e in enumerate(bs):
            if e["open"] and not e["muted"] and e["spec"]["prop"] == prop:
                expected = [shown(e["spec"], getattr(source, prop))] * n
                eq(e["log"], expected, f"target values of binding {i} after {what}")
                eq(list(map(type, e["log"])), list(map(type, expected)), f"types of the target values of binding {i} after {what}")
                reached = reached or n > 0
            else:
                eq(e["log"], [], f"target values of uninvolved binding {i} after {what}")
            e["log"].clear()

    for op in case["ops"]:
        if op[0] == "set":
            new = wrap(op[2])
            n = 0 if case["quiet"] and getattr(source, op[1]) == new else 1
            setattr(source, op[1], new)
            expect_announcement(op[1], n, op)
        elif op[0] == "notify":
            source.notify_property_changed(op[1])
            if op[1] == "c":
                for e in bs:
                    eq(e["log"], [], "target values after an announcement of another property")
            else:
                expect_announcement(op[1], 1, op)
        elif op[0] == "close":
            e = bs[op[1] % len(bs)]
            if e["open"]:
                e["b"].close()
                e["open"] = False
                ctx.label("closed")
                e["b"].update_target_direct("after closing")
                eq(e["log"], [], "target values of a closed binding")
        elif op[0] == "fallback":
            e = bs[op[1] % len(bs)]
            e["b"].fallback = e["spec"]["fallback"] = op[2]
            eq(e["log"], [], "target values after setting the fallback")
        elif op[0] == "mute":
            e = bs[op[1] % len(bs)]
            if e["open"]:
                e["muted"] = not e["muted"]
                e["b"].target_setter = None if e["muted"] else e["log"].append
        else:
            e = bs[op[1] % len(bs)]
            spec, b = e["spec"], e["b"]
            prop = spec["prop"]
            target = op[2]
            conv = CONVERTERS[spec["converter"]]
            if spec["converter"] == "str":
                target = str(target or 0)
            before = getattr(source, prop)
            if kind == "attribute" and before is None and not spec["fn"]:
                continue
            before_copy = Box(vars(before)) if kind == "attribute" and before is not None else before
            stored = conv.convert_back(target) if conv else target
            if e["validator"]:
                stored = e["validator"].validate(stored)
            if not e["open"]:
                expected, n = before, 0
            elif kind == "property":
                expected, n = stored, 0 if case["quiet"] and stored == before else 1
            elif kind == "attribute":
                expected = replace_attribute(before, spec["attr"], stored)
                # without an update function the very object is changed and set again
                n = 1 if not case["quiet"] else (1 if spec["fn"] and expected != before else 0)
            else:
                l = list(before or ())
                l += [None] * (spec["index"] + 1 - len(l))
                l[spec["index"]] = stored
                expected = tuple(l)
                n = 0 if case["quiet"] and expected == before else 1
            other = "b" if prop == "a" else "a"
            other_before = getattr(source, other)
            b.update_source(target)
            eq(getattr(source, prop), expected, f"source property after updating the source with {target!r}")
            check(getattr(source, other) is other_before, "another property was changed by updating the source")
            if kind == "attribute" and spec["fn"]:
                eq(before, before_copy, "the object that was replaced through the update function")
            expect_announcement(prop, n, op)
            updated = updated or e["open"]
        for i, e in enumerate(bs):
            if e["open"]:
                eq(e["b"].get_target_value(), shown(e["spec"], getattr(source, e["spec"]["prop"])), f"get_target_value of binding {i}")
    ctx.nontrivial(reached and updated)
    for e in bs:
        if e["open"]:
            e["b"].close()
