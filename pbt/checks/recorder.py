"""C35 recording changes of an object tree and applying them to a copy."""
import copy
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Observable, Persistence, Recorder

RULES["C35"] = ("cases are a start tree and a history over it and its descendants: properties (recordable, not recordable, read-only, hidden behind an attribute), items set, replaced and cleared, objects inserted and removed anywhere, changes to objects inserted since or removed, "
                "applying in between and at the end to copies taken at the start, changes after closing; the oracle is a second tree kept beside, in which only the recordable changes are made; non-trivial: the recording holds at least three changes, one of them below the root")
ASSUMPTIONS["C35"] = ["objects announce their changes, as observable persistent objects do, and can be copied", "a hidden property has an attribute of its own", "the recording is applied to a copy of the tree as it was when recording started"]

BIG = st.integers(0, 60)
VALUE = one_of(st.integers(-3, 3), st.integers(-3, 3), st.sampled_from(["", "a"]), st.none(), st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.sampled_from("xy"), st.integers(0, 3), max_size=2))
PROPS = ["a", "b", "silent", "fixed", "veiled"]
RECORDED = ["a", "b", "veiled"]


class Object(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("a", changed=self.__changed)
        self.define_property("b", [1], copy_on_read=True, changed=self.__changed)
        self.define_property("silent", 0, recordable=False, changed=self.__changed)
        self.define_property("fixed", 0, read_only=True, changed=self.__changed)
        self.define_property("veiled", 7, hidden=True, changed=self.__changed)
        self.define_item("item", lambda lookup: Object(), self.__item_changed)
        self.define_item("cellar", lambda lookup: Object(), self.__item_changed, hidden=True)
        self.define_relationship("r", lambda lookup: Object(), self.__inserted, self.__removed)
        self.define_relationship("s", lambda lookup: Object(), self.__inserted, self.__removed, key="elsewhere")

    def __len__(self):
        return len(self.r)

    def __changed(self, name, value):
        self.notify_property_changed(name)

    def __item_changed(self, name, old, new):
        if new is not None:
            self.notify_set_item(name, new)
        else:
            self.notify_clear_item(name)

    def __inserted(self, name, index, item):
        self.notify_insert_item(name, item, index)

    def __removed(self, name, index, item):
        self.notify_remove_item(name, item, index)

    @property
    def veiled(self):
        return self._get_persistent_property_value("veiled")

    @veiled.setter
    def veiled(self, value):
        self._set_persistent_property_value("veiled", value)


ITEMS, RELS = ["item", "cellar"], ["r", "s"]


def build(spec):
    """spec: [seed value, {item name: spec}, {relationship: [spec]}] as nested lists."""
    o = Object()
    value, item, cellar, r, s = spec
    o.a = copy.deepcopy(value)
    if item:
        o.set_item("item", build(item))
    if cellar:
        o.set_item("cellar", build(cellar))
    for x in r:
        o.append_item("r", build(x))
    for x in s:
        o.append_item("s", build(x))
    return o


def trees(depth):
    if not depth:
        return st.tuples(VALUE, st.none(), st.none(), st.just([]), st.just([]))
    sub_tree = trees(depth - 1)
    return st.tuples(VALUE, one_of(st.none(), sub_tree), one_of(st.none(), st.none(), sub_tree), st.lists(sub_tree, max_size=2 + (depth == 1)), one_of(st.just([]), st.lists(sub_tree, max_size=1)))


TREE, SMALL_TREE = trees(2), trees(1)
EDIT = one_of(st.tuples(st.just("prop"), BIG, st.sampled_from(PROPS + ["a", "b"]), VALUE), st.tuples(st.just("prop"), BIG, st.sampled_from(PROPS), VALUE),
              st.tuples(st.just("insert"), BIG, st.sampled_from(["r", "r", "s"]), BIG, SMALL_TREE), st.tuples(st.just("insert"), BIG, st.sampled_from(["r", "r", "s"]), BIG, SMALL_TREE),
              st.tuples(st.just("remove"), BIG, st.sampled_from(["r", "r", "s"]), BIG), st.tuples(st.just("item"), BIG, st.sampled_from(["item", "item", "cellar"]), one_of(st.none(), SMALL_TREE, SMALL_TREE)),
              st.tuples(st.just("reinsert"), BIG, st.sampled_from(RELS), BIG, BIG), st.tuples(st.just("removed_prop"), BIG, VALUE))


def cases(thorough):
    op = one_of(EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, st.just(["apply"]))
    return st.fixed_dictionaries({"tree": TREE, "ops": st.lists(op, min_size=4, max_size=40 if thorough else 18), "after": st.lists(EDIT, max_size=4), "wide": one_of(*[st.just(0)] * 7, st.integers(9, 30)), "logger": st.booleans(), "accessor": st.booleans()})


class Shadow:
    """What the copy of an object should hold."""

    def __init__(self, obj):
        self.props = {n: copy.deepcopy(obj._get_persistent_property_value(n)) for n in PROPS}
        self.items = {n: Shadow(obj.get_item(n)) if obj.get_item(n) is not None else None for n in ITEMS}
        self.rels = {n: [Shadow(x) for x in getattr(obj, n)] for n in RELS}

    def dump(self):
        return {"props": self.props, "items": {n: s.dump() if s else None for n, s in self.items.items()}, "rels": {n: [s.dump() for s in l] for n, l in self.rels.items()}}


def dump(obj):
    return Shadow(obj).dump()


def compare(got, expected, path="root"):
    for n in PROPS:
        eq(got["props"][n], expected["props"][n], f"property {n} of {path} in the copy")
    for n in ITEMS:
        g, e = got["items"][n], expected["items"][n]
        check((g is None) == (e is None), f"item {n} of {path} in the copy", g, e)
        if g is not None:
            compare(g, e, f"{path}.{n}")
    for n in RELS:
        eq(len(got["rels"][n]), len(expected["rels"][n]), f"number of objects in {n} of {path} in the copy")
        for i, (g, e) in enumerate(zip(got["rels"][n], expected["rels"][n])):
            compare(g, e, f"{path}.{n}[{i}]")


def walk(obj, shadow, depth=0):
    yield obj, shadow, depth
    for n in ITEMS:
        if obj.get_item(n) is not None:
            yield from walk(obj.get_item(n), shadow.items[n] if shadow else None, depth + 1)
    for n in RELS:
        for i, x in enumerate(getattr(obj, n)):
            yield from walk(x, shadow.rels[n][i] if shadow else None, depth + 1)


def set_prop(obj, name, value):
    if name == "fixed":
        obj._set_persistent_property_value(name, copy.deepcopy(value))
    else:
        setattr(obj, name, copy.deepcopy(value))


@sub("C35", "recording", cases, quick=4000, shards=8)
def run(case, ctx):
    root = build(case["tree"])
    for i in range(case.get("wide", 0)):
        root.append_item("rs"[i % 2], build([i, None, None, [], []]))
    start = dump(root)
    copies = [copy.deepcopy(root) for _ in range(3)]
    for c in copies:
        compare(dump(c), start)
    logger = list() if case["logger"] else None
    accessor = (lambda x: x["tree"]) if case.get("accessor") else None
    recorder = Recorder.Recorder(root, accessor, logger) if case["logger"] else Recorder.Recorder(root, accessor) if accessor else Recorder.Recorder(root)
    shadow = Shadow(root)
    removed = []
    recorded = deep = 0

    def edit(op, shadow):
        nonlocal recorded, deep
        nodes = list(walk(root, shadow))
        if op[0] == "removed_prop":
            if removed:
                removed[op[1] % len(removed)].a = copy.deepcopy(op[2])
                ctx.label("removed object changed")
            return
        obj, s, depth = nodes[op[1] % len(nodes)]
        counts = True
        if op[0] == "prop":
            set_prop(obj, op[2], op[3])
            if op[2] in RECORDED:
                if s:
                    s.props[op[2]] = copy.deepcopy(op[3])
            else:
                counts = False
                ctx.label("not recordable")
        elif op[0] in ("insert", "reinsert"):
            if op[0] == "insert":
                new = build(op[4])
            else:
                if not removed:
                    return
                new = removed.pop(op[4] % len(removed))
                ctx.label("removed object put back")
            if len(nodes) > 80:
                return
            index = op[3] % (len(getattr(obj, op[2])) + 1)
            obj.insert_item(op[2], index, new)
            if s:
                s.rels[op[2]].insert(index, Shadow(new))
        elif op[0] == "remove":
            items = getattr(obj, op[2])
            if not items:
                return
            index = op[3] % len(items)
            obj.remove_item(op[2], items[index])
            removed.append(items[index])
            if s:
                s.rels[op[2]].pop(index)
        elif op[0] == "item":
            old = obj.get_item(op[2])
            new = build(op[3]) if op[3] else None
            obj.set_item(op[2], new)
            if old is not None:
                removed.append(old)
                ctx.label("item replaced" if new is not None else "item cleared")
            if s:
                s.items[op[2]] = Shadow(new) if new is not None else None
        ctx.label(op[0])
        if s and counts:
            recorded += 1
            deep += depth > 0

    def apply(what):
        target = copies.pop()
        live = dump(root)
        recorder.apply({"tree": target} if accessor else target)
        compare(dump(target), shadow.dump(), what)
        eq(dump(root), live, "the recorded tree after applying")
        return target

    targets = []
    for op in case["ops"]:
        if op[0] == "apply":
            if len(copies) > 2:
                targets.append(apply("root (applied while recording)"))
                ctx.label("applied while recording")
        else:
            edit(op, shadow)
    recorder.close()
    for op in case["after"]:
        edit(op, None)
        ctx.label("changed after closing")
    first = apply("root")
    targets.append(first)
    # the copies are independent of the recording and of each other
    for obj, _, _ in list(walk(first, None)):
        for n in ("a", "veiled"):
            v = obj._get_persistent_property_value(n)
            if isinstance(v, list):
                v.append("mutated")
            elif isinstance(v, dict):
                v["mutated"] = 1
        obj.append_item("r", Object())
    live = dump(root)
    second = apply("root (second copy)")
    eq(dump(root), live, "the recorded tree after changing a copy")
    ids = {id(o) for o, _, _ in walk(root, None)} | {id(o) for r in removed for o, _, _ in walk(r, None)}
    for t in targets + [second]:
        for o, _, _ in walk(t, None):
            check(id(o) not in ids, "an object of the recorded tree was put into the copy")
    ctx.nontrivial(recorded >= 3 and deep >= 1)
