"""C25 values and copies, C26 announcements of structured models."""
import collections.abc, copy, json
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import StructuredModel as S

_H = "cases are a description (strings, booleans, ints, floats, nested records and arrays to depth four, with defaults), a value of it with some fields left to their defaults, and a history of field assignments, array edits, updates from dicts and copies; "
RULES["C25"] = _H + "non-trivial: the description nests a record or array and the model was read, copied or deep copied after an edit"
RULES["C26"] = _H + "non-trivial: a change at depth two or more, or an edit of an item inserted into or removed from an array"
ASSUMPTIONS["C25"] = ["fields are not assigned None", "a record's default is overridden field by field by a flat value, or by a complete value"]
ASSUMPTIONS["C26"] = ["an item is in one array at a time", "updates from a dict or copy announce at least once if they change anything, and nothing if they change nothing"]

BIG = st.integers(0, 60)
TAPE = st.lists(st.integers(0, 40), min_size=2, max_size=8)
SIMPLE = st.sampled_from(["string", "boolean", "int", "float"])


def types(depth):
    if depth == 0:
        return SIMPLE
    inner = types(depth - 1)
    field = st.fixed_dictionaries({"type": inner, "default": one_of(st.none(), TAPE), "wrap": st.sampled_from([False, False, True])})
    return one_of(SIMPLE, st.fixed_dictionaries({"record": st.lists(field, min_size=1, max_size=3)}), st.fixed_dictionaries({"array": inner, "wrap": st.sampled_from([False, False, True])}))


def roots(depth):
    inner = types(depth - 1)
    field = st.fixed_dictionaries({"type": inner, "default": one_of(st.none(), TAPE), "wrap": st.sampled_from([False, False, True])})
    return one_of(st.fixed_dictionaries({"record": st.lists(field, min_size=1, max_size=4)}), st.fixed_dictionaries({"record": st.lists(field, min_size=1, max_size=4)}), st.fixed_dictionaries({"array": inner, "wrap": st.sampled_from([False, False, True])}))


OP = one_of(st.tuples(st.just("set"), BIG, BIG, TAPE), st.tuples(st.just("set"), BIG, BIG, TAPE), st.tuples(st.just("same"), BIG, BIG), st.tuples(st.just("insert"), BIG, BIG, TAPE, st.integers(0, 5)), st.tuples(st.just("insert"), BIG, BIG, TAPE, st.integers(0, 5)),
            st.tuples(st.just("delete"), BIG, BIG, st.integers(0, 3)), st.tuples(st.just("delete"), BIG, BIG, st.integers(0, 5)), st.tuples(st.just("loose"), BIG, BIG, TAPE))
BURST = st.tuples(st.just("burst"), BIG, st.lists(st.tuples(BIG, TAPE, st.integers(0, 5)), min_size=3, max_size=7), st.lists(st.tuples(BIG, st.integers(0, 3)), max_size=5))
BULK = one_of(st.tuples(st.just("from_dict"), BIG, TAPE), st.tuples(st.just("copy_from"), BIG, TAPE), st.tuples(st.just("deepcopy"), BIG), st.tuples(st.just("from_same"), BIG))


def cases(bulk):
    def make(thorough):
        op = one_of(OP, OP, BULK) if bulk else one_of(OP, OP, OP, OP, OP, OP, BULK, BURST)
        return st.fixed_dictionaries({"type": roots(4 if thorough else 3), "value": TAPE, "gaps": st.lists(st.booleans(), min_size=4, max_size=4), "ops": st.lists(op, min_size=4, max_size=40 if thorough else 16), "default": st.sampled_from([False, False, True]), "long": st.sampled_from([0] * 9 + [6, 15, 30])})
    return make


# -- descriptions and values ----------------------------------------------------------------------------------------

def describe(t, names="f"):
    if isinstance(t, str):
        return {"string": S.STRING, "boolean": S.BOOLEAN, "int": S.INT, "float": S.FLOAT}[t]
    if "array" in t:
        return S.define_array(item_type(t))
    fields = []
    for i, f in enumerate(t["record"]):
        kw = {} if f["default"] is None else {"default": value(f["type"], Tape(f["default"]))}
        d = describe(f["type"])
        if isinstance(d, str) and f.get("wrap"):
            d = {"type": "float" if d == S.FLOAT else d}
        fields.append(S.define_field(f"f{i}", d, **kw))
    return S.define_record("R", fields)


def item_type(t):
    d = describe(t["array"])
    return {"type": d} if isinstance(d, str) and t.get("wrap") else d


LONG = [0]      # further items of some arrays, per case


class Tape:
    def __init__(self, numbers):
        self.numbers, self.pos = numbers, 0

    def next(self, n):
        v = self.numbers[self.pos % len(self.numbers)] + self.pos // len(self.numbers)
        self.pos += 1
        return v % n


def value(t, tape):
    """A complete value."""
    if t == "string":
        return ["", "a", "b", "long", "é"][tape.next(5)]
    if t == "boolean":
        return bool(tape.next(2))
    if t == "int":
        return [0, 1, -1, 7, 10 ** 12, 3][tape.next(6)]
    if t == "float":
        return [0.0, 0.5, -2.25, 1e300, 3.0][tape.next(5)]
    if "array" in t:
        n = tape.next(4)
        if n == 3 and (isinstance(t["array"], str) or "record" in t["array"] and flat(t["array"])):
            n += LONG[0]
        return [value(t["array"], tape) for _ in range(n)]
    return {f"f{i}": value(f["type"], tape) for i, f in enumerate(t["record"])}


def flat(t):
    return all(isinstance(f["type"], str) for f in t["record"])


def given(t, tape, gaps, may_gap=True):
    """A value with some fields left out; None stands for nothing given at all."""
    if isinstance(t, str) or "array" in t:
        return value(t, tape)
    d = {}
    for i, f in enumerate(t["record"]):
        leave = may_gap and gaps.next(2)
        if leave:
            continue
        ft = f["type"]
        record = isinstance(ft, dict) and "record" in ft
        d[f"f{i}"] = given(ft, tape, gaps, may_gap and (f["default"] is None or flat(ft))) if record else value(ft, tape)
    return d


def state(t, v, default=None):
    """What a model built from v holds."""
    if isinstance(t, str):
        return v if v is not None else default
    if "array" in t:
        v = v if v is not None else default
        return [state(t["array"], x) for x in (v or [])]
    merged = dict(default or {})
    merged.update(v or {})
    return {f"f{i}": state(f["type"], merged.get(f"f{i}"), None if f["default"] is None else value(f["type"], Tape(f["default"]))) for i, f in enumerate(t["record"])}


def complete(s):
    if isinstance(s, dict):
        return all(complete(x) for x in s.values())
    return all(complete(x) for x in s) if isinstance(s, list) else s is not None


def dicted(s):
    """The dict form of a state."""
    if isinstance(s, dict):
        return {k: dicted(v) for k, v in s.items() if v is not None}
    return [dicted(x) for x in s] if isinstance(s, list) else s


def strict(a, b):
    return type(a) is type(b) and (a.keys() == b.keys() and all(strict(a[k], b[k]) for k in a) if isinstance(a, dict) else len(a) == len(b) and all(map(strict, a, b)) if isinstance(a, list) else a == b)


# -- driving -------------------------------------------------------------------------------------------------------

class Node:
    """A model (record or array) in the tree, with its type and state."""

    def __init__(self, world, t, model, s, parent=None, name=None):
        self.world, self.type, self.model, self.state, self.parent, self.name = world, t, model, s, parent, name
        self.kids = {}
        self.is_array = "array" in t

    def depth(self):
        return self.parent.depth() + 1 if self.parent else 0


class World:
    def __init__(self, prop, case, ctx):
        self.prop, self.ctx, self.case = prop, ctx, case
        self.type = case["type"]
        self.schema = describe(self.type)
        self.again = None
        gaps = Tape([int(g) for g in case["gaps"]])
        if case["default"]:
            v = None
            default = value(self.type, Tape(case["value"]))
            kept = copy.deepcopy(default)
            self.root = S.build_model(self.schema, default_value=default)
            self.state = state(self.type, None, kept)
            eq(default, kept, "default that was passed to build a model")
            self.scribble(default)
        else:
            v = given(self.type, Tape(case["value"]), gaps)
            kept = copy.deepcopy(v)
            self.root = S.build_model(self.schema, value=v)
            self.state = state(self.type, v)
            eq(v, kept, "value that was passed to build a model")
            self.again = kept
            self.initial = copy.deepcopy(self.state)
            self.scribble(v)
        self.loose = []         # (type, model, state) removed from arrays
        self.watch = {}         # id(model) -> counters
        self.keep = []
        self.edited = False
        self.observe_all()

    # -- observation ---------------------------------------------------------------------------------------------
    def walk(self, t, model, s, parents=()):
        """All record and array models: (type, model, state, chain of enclosing models, path)."""
        yield t, model, s, parents
        if "array" in t:
            if not isinstance(t["array"], str):
                for item, x in zip(model.items, s):
                    yield from self.walk(t["array"], item, x, parents + (model,))
        else:
            for i, f in enumerate(t["record"]):
                if not isinstance(f["type"], str):
                    m = getattr(model, f"f{i}_model")
                    yield from self.walk(f["type"], m, s[f"f{i}"], parents + (model,))

    def everything(self):
        yield from self.walk(self.type, self.root, self.state)
        for t, m, s in self.loose:
            yield from self.walk(t, m, s)

    def observe(self, t, model):
        if id(model) in self.watch:
            return
        w = {"changed": 0, "properties": [], "model": model, "mirror": {}, "fields": {}, "told": {}}
        self.watch[id(model)] = w

        def changed():
            w["changed"] += 1
        self.keep.append(model.model_changed_event.listen(changed))
        if "array" in t:
            mirror = w["mirror"]
            mirror["items"] = list(model.items)
        else:
            mirror = w["mirror"]
            self.keep.append(model.property_changed_event.listen(w["properties"].append))
            for i, f in enumerate(t["record"]):
                if isinstance(f["type"], dict) and "array" in f["type"]:
                    mirror[f"f{i}"] = list(getattr(model, f"f{i}"))
                if isinstance(f["type"], str):
                    counts = w["fields"].setdefault(f"f{i}", [])
                    field = getattr(model, f"f{i}_model")
                    self.keep.append(field.model_changed_event.listen(lambda counts=counts: counts.append(1)))
                    told = w["told"].setdefault(f"f{i}", [])
                    self.keep.append(field.property_changed_event.listen(lambda key, told=told, field=field: told.append((key, field.value))))
        w["edits"] = edits = []

        def inserted(key, v, index):
            edits.append(("+", key, v, index))
            mirror[key].insert(index, v)

        def removed(key, v, index):
            edits.append(("-", key, v, index))
            old = mirror[key].pop(index)
            if old is not v and not (old == v):
                self.errors.append(f"removal of {v!r} announced at {index}, where {old!r} is")
        self.keep.append(model.item_inserted_event.listen(inserted))
        self.keep.append(model.item_removed_event.listen(removed))

    errors = ()
    unset = False

    def observe_all(self):
        for t, m, s, parents in self.everything():
            self.observe(t, m)

    # -- oracle --------------------------------------------------------------------------------------------------
    def verify_values(self, what):
        for t, m, s, parents in self.everything():
            if "array" in t:
                eq(len(m.items), len(s), f"length of an array {what}")
                if isinstance(t["array"], str):
                    check(strict(list(m.items), s), f"items of an array {what}", list(m.items), s)
            else:
                for i, f in enumerate(t["record"]):
                    name = f"f{i}"
                    got = getattr(m, name)
                    if isinstance(f["type"], str):
                        check(got == s[name] and type(got) is type(s[name]), f"field {what}", name, got, s[name])
                        check(getattr(m, name + "_model").value == s[name], f"value of a field model {what}", name)
                        check(not hasattr(m, name + "_other") and not hasattr(m, "other_model") and not hasattr(m, "other"), "a record has attributes that are not described")
                    elif "array" in f["type"]:
                        self.verify_sequence(f["type"], got, getattr(m, name + "_model"), s[name], what)
        check(strict(self.root.to_dict_value(), dicted(self.state)), f"dict of the model {what}", self.root.to_dict_value(), dicted(self.state))

    def verify_sequence(self, t, seq, model, s, what):
        check(isinstance(seq, collections.abc.Sequence), "an array field is not a sequence")
        eq(len(seq), len(s), f"length of an array field {what}")
        if isinstance(t["array"], str):
            check(strict(list(seq), s), f"items of an array field {what}", list(seq), s)
            for x in s:
                check(x in seq, f"membership of an item {what}", x)
                y = "".join(list(x)) if isinstance(x, str) else complex(x)      # equal, but another object
                check(y in seq, f"membership of something equal to an item {what}", y)
            check("not there" not in seq, f"membership of something else {what}")
        else:
            for i, x in enumerate(model.items):
                check(seq[i] is x and x in seq, f"item of an array field {what}", i)
            check(object() not in seq, f"membership of something else {what}")
        if s:
            check(seq[-1] is model.items[-1] or seq[-1] == model.items[-1], f"last item of an array field {what}")
            try:
                seq[0] = seq[0]
            except IndexError:
                pass
            else:
                raise Violation("assigning an item of an array field was not refused")

    # -- operations ----------------------------------------------------------------------------------------------
    focus = None

    def pick_array(self, number):
        arrays = [m for t, m, _, _ in self.everything() if "array" in t]
        return arrays[number % len(arrays)] if arrays else None

    def sequence(self, parents, t, model):
        """The sequence of an array that is a field of a record, or None."""
        if parents and isinstance(parents[-1], S.RecordModel):
            rec = parents[-1]
            for i in range(10):
                if getattr(rec, f"f{i}_model", None) is model:
                    return f"f{i}", getattr(rec, f"f{i}")
        return None, None

    def run(self, op):
        for w in self.watch.values():
            w["changed"] = 0
            w["properties"].clear()
            w["edits"].clear()
            for c in list(w["fields"].values()) + list(w["told"].values()):
                c.clear()
        self.errors = []
        expected = {}           # id(model) -> count (exact), or None: at least one
        properties = {}         # id(record) -> names
        edits = {}              # id(model) -> list
        kind = op[0]
        bulk = False
        nodes = list(self.everything())
        in_tree = list(self.walk(self.type, self.root, self.state))
        if kind in ("set", "same", "loose"):
            pool = nodes if kind != "loose" else [n for n in nodes if all(n[1] is not x[1] for x in in_tree)]
            fields = [(n, i) for n in pool if "record" in n[0] for i, f in enumerate(n[0]["record"]) if isinstance(f["type"], str)]
            if kind == "loose" and not fields:
                return
            if not fields:
                return
            (t, m, s, parents), i = fields[op[1] % len(fields)]
            name = f"f{i}"
            v = s[name] if kind == "same" else value(t["record"][i]["type"], Tape(op[3] if kind == "set" else op[3]))
            if kind == "set" and self.prop == "C26" and op[3][0] == 40:
                v = None
                self.unset = True
            elif v is None:
                return
            if v != s[name]:
                properties[id(m)] = [name]
                for x in (m,) + parents:
                    expected[id(x)] = 1
                self.edited = True
                if len(parents) >= 2 or kind == "loose":
                    self.ctx.nontrivial(self.prop == "C26")
            if op[2] % 3 == 2:
                getattr(m, name + "_model").value = v
            else:
                setattr(m, name, v)
            if v != s[name]:        # an equal value of another type need not replace
                s[name] = v
        elif kind in ("insert", "delete"):
            arrays = [n for n in nodes if "array" in n[0] and (self.focus is None or id(n[1]) == self.focus)]
            if kind == "delete":
                arrays = [n for n in arrays if n[2]]
            if not arrays:
                return
            t, m, s, parents = arrays[op[1] % len(arrays)]
            field, seq = self.sequence(parents, t, m)
            n = len(s)
            many = None
            if kind == "insert":
                index = op[2] % (n + 1)
                how = op[4]
                it = t["array"]
                inside = {id(x) for x in (m,) + parents}
                reuse = [x for x in self.loose if x[0] == it and id(x[1]) not in inside and not any(id(p) in inside for _, p, _, _ in self.walk(*x))] if not isinstance(it, str) else []
                if reuse and how % 2:
                    entry = reuse[op[2] % len(reuse)]
                    self.loose = [x for x in self.loose if x is not entry]
                    item, x = entry[1], entry[2]
                    self.ctx.label("removed item inserted again")
                    self.ctx.nontrivial(self.prop == "C26")
                else:
                    x = value(it, Tape(op[3]))
                    item = S.build_value(item_type(t), value=copy.deepcopy(x)) if how % 3 else (x if isinstance(it, str) else S.build_model(item_type(t), value=copy.deepcopy(x)))
                    x = state(it, x)
                if how == 5 and seq is not None:
                    index = n
                    seq.append(item)
                elif how == 4:
                    index = n
                    m.append_item(item)
                elif how == 3 and seq is not None:
                    index = n
                    seq.extend([item])
                elif seq is not None and how < 2:
                    seq.insert(index, item)
                else:
                    m.insert_item(index, item)
                s.insert(index, x)
                edit = ("+", item, index)
            elif op[3] == 5 and seq is not None:
                # several items, as a slice; the order in which they go is left open
                index = op[2] % n
                part = (slice(index, None), slice(None, index + 1), slice(index, None, 2), slice(None, None, -2), slice(index, index + 2), slice(-2, None))[op[2] // n % 6]
                gone = set(range(n)[part])
                many = [("-", m.items[i], i) for i in sorted(gone)]
                del seq[part]
                if not isinstance(t["array"], str):
                    self.loose.extend((t["array"], item, s[i]) for _, item, i in many)
                s[:] = [x for i, x in enumerate(s) if i not in gone]
                self.ctx.label("several deleted as a slice" if len(gone) > 1 else "deleted as a slice")
            else:
                index = op[2] % n
                how = op[3]
                item = m.items[index]
                if how == 0 and seq is not None:
                    del seq[index]
                elif how == 1 and seq is not None:
                    index = n - 1
                    item = m.items[index]
                    seq.pop()
                elif how == 2 and seq is not None and not isinstance(item, (str, int, float)):
                    seq.remove(item)
                elif how == 3 and seq is not None:
                    del seq[index - n]
                elif how == 4 and seq is not None:
                    # as a slice that has just this item
                    stop = index + 1 if index + 1 < n else None
                    del seq[(slice(index, stop), slice(index - n, stop), slice(index, stop, n), slice(index, index - 1 if index else None, -1))[op[2] // n % 4]]
                    self.ctx.label("deleted as a slice")
                else:
                    m.remove_item(index)
                x = s.pop(index)
                if not isinstance(t["array"], str):
                    self.loose.append((t["array"], item, x))
                edit = ("-", item, index)
            self.edited = True
            if many is None:
                many = [edit]
            for x in (m,) + parents:
                expected[id(x)] = len(many)
            edits[id(m)] = [(edit[0], "items", edit[1], edit[2]) for edit in many]
            if field:
                edits[id(parents[-1])] = [(edit[0], field, edit[1], edit[2]) for edit in many]
            if len(parents) >= 2:
                self.ctx.nontrivial(self.prop == "C26")
        elif kind in ("from_dict", "copy_from", "from_same"):
            bulk = True
            t, m, s, parents = in_tree[op[1] % len(in_tree)]
            inside = {id(x) for _, x, _, _ in self.walk_models(t, m)}
            if kind == "from_same":
                new = copy.deepcopy(s)
                m.from_dict_value(json.loads(json.dumps(m.to_dict_value())))
                inside = set()      # nothing changes, so nothing is announced by any model
            else:
                v = value(t, Tape(op[2]))
                new = state(t, v)
                if kind == "copy_from":
                    other = S.build_model(describe(t), value=copy.deepcopy(v))
                    m.copy_from(other)
                    check(strict(other.to_dict_value(), dicted(new)), "dict of a model that was copied from")
                    self.change(t, other)       # independence, verified below
                else:
                    m.from_dict_value(v)
                    self.scribble(v)
            if kind != "from_same":
                self.ctx.nontrivial(self.prop == "C25" and self.edited and not self.is_flat())
            if s != new:
                for x in (m,) + parents:
                    expected[id(x)] = None
                self.edited = True
            target = id(m)
            if "record" in t:
                properties[id(m)] = [f"f{i}" for i, f in enumerate(t["record"]) if isinstance(f["type"], str) and s[f"f{i}"] != new[f"f{i}"]]
            if isinstance(s, dict):
                s.clear()
                s.update(new)
            else:
                s[:] = new
            if kind != "from_same":
                inside |= {id(x) for _, x, _, _ in self.walk_models(t, m)}
        elif kind == "deepcopy":
            if self.unset:          # a field without value is left to its default in a copy
                return
            t, m, s, parents = in_tree[op[1] % len(in_tree)]
            c = copy.deepcopy(m)
            check(type(c) is type(m) and c is not m, "a deep copy is of another class", c)
            check(strict(c.to_dict_value(), dicted(s)), "dict of a deep copy", c.to_dict_value(), dicted(s))
            mine = {id(x) for _, x, _, _ in in_tree}
            check(all(id(x) not in mine for _, x, _, _ in self.walk_models(t, c)), "a deep copy shares a model with the original")
            self.change(t, c)
            self.ctx.nontrivial(self.prop == "C25" and self.edited and not self.is_flat())
        if self.prop == "C25":
            self.verify_values(f"after {op}")
        else:
            if self.errors:
                raise Violation(self.errors[0] + f" after {op}")
            current = {id(m): (t, m) for t, m, s, parents in self.everything()}
            for k, w in self.watch.items():
                m = w["model"]
                if bulk:
                    if k == target:
                        eq(sorted(w["properties"]), sorted(properties.get(k, [])), f"properties announced by the record after {op}")
                    if k in inside and k not in expected:
                        continue
                    if expected.get(k, 0) is None:
                        check(w["changed"] >= 1, f"no model-changed event of an enclosing model after {op}")
                        continue
                eq(w["changed"], expected.get(k, 0), f"model-changed events of {'an enclosing model' if k in expected else 'another model'} after {op}")
                eq(w["properties"], properties.get(k, []), f"properties announced by {'the' if k in properties else 'another'} record after {op}")
                for f, c in w["fields"].items():
                    eq(len(c), 1 if f in properties.get(k, []) else 0, f"model-changed events of field {f} after {op}")
                for f, c in w["told"].items():
                    eq(c, [("value", getattr(m, f))] if f in properties.get(k, []) else [], f"notifications of the model of field {f} after {op}")
                got, wanted = w["edits"], edits.get(k, [])
                if len(wanted) > 1:
                    got, wanted = sorted(got, key=lambda e: id(e[2])), sorted(wanted, key=lambda e: id(e[2]))
                check(len(got) == len(wanted) and all(a[0] == b[0] and a[1] == b[1] and (a[2] is b[2] or a[2] == b[2]) for a, b in zip(got, wanted)), f"array edits announced after {op}", got, wanted)
            for k, (t, m) in current.items():
                w = self.watch.get(k)
                if w is None:
                    continue
                for name, mirror in w["mirror"].items():
                    actual = list(m.items) if "array" in t else list(getattr(m, name))
                    check(len(mirror) == len(actual) and all(a is b or a == b for a, b in zip(mirror, actual)), f"array as mirrored from announcements after {op}", mirror, actual)
                if bulk and k in inside and "record" in t:
                    # names announced are of fields only, each once
                    eq(sorted(w["properties"]), sorted(set(w["properties"])), f"properties announced after {op}")
            self.observe_all()

    def is_flat(self):
        t = self.type
        return isinstance(t.get("array"), str) if "array" in t else flat(t)

    def walk_models(self, t, model):
        """Like walk, for a model whose state is not known."""
        yield t, model, None, ()
        if "array" in t:
            if not isinstance(t["array"], str):
                for item in model.items:
                    yield from self.walk_models(t["array"], item)
        else:
            for i, f in enumerate(t["record"]):
                if not isinstance(f["type"], str):
                    yield from self.walk_models(f["type"], getattr(model, f"f{i}_model"))

    def change(self, t, model):
        """Changes a model everywhere."""
        for t, m, _, _ in list(self.walk_models(t, model)):
            self.change_one(t, m)

    def change_one(self, t, m):
        if "array" in t:
            m.append_item(S.build_value(item_type(t), value=value(t["array"], Tape([3]))))
        else:
            for i, f in enumerate(t["record"]):
                if isinstance(f["type"], str):
                    setattr(m, f"f{i}", "changed")

    def scribble(self, v):
        if isinstance(v, dict):
            for x in v.values():
                self.scribble(x)
            v["scribble"] = 1
        elif isinstance(v, list):
            for x in v:
                self.scribble(x)
            v.append("scribble")


def driver(prop):
    def run(case, ctx):
        LONG[0] = case.get("long", 0)
        w = World(prop, case, ctx)
        if prop == "C25":
            w.verify_values("after building")
        for op in case["ops"]:
            if op[0] == "burst":
                # an array grows by several items and some of them are removed
                array = w.pick_array(op[1])
                if array is None:
                    continue
                w.focus = id(array)
                for index, tape, how in op[2]:
                    w.run(("insert", 0, index, tape, how))
                for index, how in op[3]:
                    w.run(("delete", 0, index, how))
                    w.run(("set", index, 0, [how, index]))
                    w.run(("loose", index, 0, [index, how]))
                w.focus = None
                ctx.label("array of several items")
            else:
                w.run(op)
        if prop == "C25":
            # a fresh model of the same description reads the dict
            d = w.root.to_dict_value()
            if complete(w.state):
                fresh = S.build_model(describe(w.type))
                fresh.from_dict_value(d)
                check(strict(fresh.to_dict_value(), dicted(w.state)), "dict of a model that read a dict", fresh.to_dict_value(), dicted(w.state))
                fresh = S.build_model(describe(w.type), value=d)
                check(strict(fresh.to_dict_value(), dicted(w.state)), "dict of a model built from a dict", fresh.to_dict_value(), dicted(w.state))
                ctx.label("read by a fresh model")
            w.scribble(d)
            w.verify_values("after the dict was changed")
            eq(w.schema, describe(w.type), "description that a model was built from")
            if "record" in w.type:
                w.root.note = "note"        # an attribute that is not a field
                eq(w.root.note, "note", "an attribute that is not a field")
                w.verify_values("after an attribute that is not a field was set")
            if w.again is not None:
                second = S.build_model(w.schema, value=w.again)
                check(strict(second.to_dict_value(), dicted(w.initial)), "dict of a second model built from the same description and value", second.to_dict_value(), dicted(w.initial))
        entries = list(w.everything())
        if prop == "C26":
            # closed models keep quiet about their parts
            t, top = w.type, w.root
            parts = [(x, m) for x, m, _, parents in w.walk(t, top, w.state) if m is not top]
            fields = [getattr(top, f"f{i}_model") for i, f in enumerate(t["record"]) if isinstance(f["type"], str)] if "record" in t else []
            top.close()
            if id(top) in w.watch:
                counts = w.watch[id(top)]
                counts["changed"] = 0
                counts["properties"].clear()
                counts["edits"].clear()
                for x, m in parts:
                    w.change_one(x, m)
                for m in fields:
                    m.value = "changed after closing"
                eq([counts["changed"], counts["properties"], counts["edits"]], [0, [], []], "announcements of a closed model about its parts")
            entries = [e for e in entries if e[1] is not top]
        for _, m, _, _ in entries:
            m.close()
    return run


sub("C25", "history", cases(True), quick=3500, shards=6)(driver("C25"))
sub("C26", "history", cases(False), quick=4000, shards=6)(driver("C26"))
