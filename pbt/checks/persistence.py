"""C20 writing, reading, copying; C21 storage; C22 registration; C23 property rules and modification of persistent objects."""
import copy, datetime, gc, uuid
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Persistence

_H = "cases are up to three classes of persistent objects (properties of all kinds, items, relationships, storage keys colliding with other names) and a history over trees of them: property, item and relationship changes at any depth, also of detached objects, removal, re-insertion, attaching and detaching; "
RULES["C20"] = _H + "non-trivial: a tree with a child was written and read back, or deep copied"
RULES["C21"] = _H + "non-trivial: an object at depth one or more was changed while stored, and an object had been removed or replaced"
RULES["C22"] = _H + "also histories of bare registrations, subscriptions and deletions; non-trivial: a subtree of two or more objects was registered or unregistered at once, or a subscription was told something"
RULES["C23"] = _H + "non-trivial: an object with an ancestor was changed"
ASSUMPTIONS["C20"] = ["a None value is only written for properties whose default is None", "custom readers, converters and validators are inverses of their counterparts and idempotent"]
ASSUMPTIONS["C21"] = ["the storage handler behaves as documented: it stores what it is given under the key it is given, finds objects through get_accessor_in_parent, and sets the context of items it stores",
                      "custom writers always write the same key", "an object is not added twice"]
ASSUMPTIONS["C22"] = ASSUMPTIONS["C21"][:1] + ["identifiers are unique", "objects are not read while attached"]
ASSUMPTIONS["C23"] = ["callbacks do not change further objects"]

BIG = st.integers(0, 60)
LEAF = one_of(st.integers(-3, 3), st.sampled_from(["", "a", "é"]), st.booleans(), st.sampled_from([0.5, -2.25]))
VALUE = one_of(LEAF, LEAF, st.none(), st.lists(st.integers(-2, 2), max_size=3), st.lists(st.lists(st.integers(0, 2), max_size=2), max_size=2), st.dictionaries(st.sampled_from("xyz"), one_of(LEAF, st.lists(st.integers(0, 2), max_size=2)), max_size=2))
PROP = st.fixed_dictionaries({"kind": st.sampled_from(["plain", "plain", "converter", "validate", "make", "rw", "copy", "copy"]), "keyed": st.booleans(), "default": one_of(st.none(), VALUE),
                              "access": st.sampled_from(["normal", "normal", "normal", "hidden", "readonly"]), "changed": st.booleans()})
CLASS = st.fixed_dictionaries({"typed": st.booleans(), "props": st.lists(PROP, min_size=1, max_size=4), "items": st.lists(st.tuples(BIG, st.sampled_from([False, False, True])), max_size=2),
                               "rels": st.lists(st.tuples(BIG, st.sampled_from([False, False, True])), min_size=0, max_size=2)})
EDIT = one_of(st.tuples(st.just("prop"), BIG, BIG, VALUE), st.tuples(st.just("prop"), BIG, BIG, VALUE), st.tuples(st.just("insert"), BIG, BIG, BIG, BIG), st.tuples(st.just("insert"), BIG, BIG, BIG, BIG), st.tuples(st.just("extend"), BIG, BIG, one_of(*[st.integers(1, 3)] * 7, st.integers(8, 20))),
              st.tuples(st.just("item"), BIG, BIG, BIG), st.tuples(st.just("item"), BIG, BIG, BIG), st.tuples(st.just("clear"), BIG, BIG), st.tuples(st.just("remove"), BIG, BIG, BIG), st.tuples(st.just("custom"), BIG, BIG), st.tuples(st.just("own"), BIG, BIG, VALUE), st.tuples(st.just("adopt"), BIG, BIG))
CTX = one_of(EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, EDIT, st.tuples(st.just("attach"), BIG), st.tuples(st.just("detach"), BIG))
OPS = {
    "C20": one_of(EDIT, EDIT, EDIT, st.tuples(st.just("roundtrip"), BIG), st.tuples(st.just("roundtrip"), BIG), st.tuples(st.just("partial"), BIG, BIG), st.tuples(st.just("deepcopy"), BIG), st.tuples(st.just("deepcopy"), BIG)),
    "C21": one_of(CTX, CTX, CTX, CTX, CTX, CTX, CTX, CTX, st.tuples(st.just("service"), BIG, st.integers(0, 6), VALUE)),
    "C22": one_of(CTX, CTX, CTX, st.tuples(st.just("subscribe"), BIG, st.integers(0, 3))),
    "C23": one_of(CTX, CTX, CTX, CTX, st.tuples(st.just("readonly"), BIG, BIG, VALUE), st.tuples(st.just("alias"), BIG, BIG), st.tuples(st.just("attributes"), BIG, VALUE), st.tuples(st.just("readtime"), BIG, st.integers(0, 10 ** 15)), st.tuples(st.just("settime"), BIG, st.integers(0, 5 * 10 ** 15))),
}


def cases(prop):
    def make(thorough):
        return st.fixed_dictionaries({"classes": st.lists(CLASS, min_size=1, max_size=3), "attached": st.integers(0, 2) if prop in ("C20", "C23") else st.integers(1, 2),
                                      "ops": st.lists(OPS[prop], min_size=8, max_size=60 if thorough else 30)})
    return make


class Conv:
    def convert(self, value):
        return None if value is None else ["conv", copy.deepcopy(value)]

    def convert_back(self, value):
        return None if value is None else copy.deepcopy(value[1])


class Made:
    """A property value that knows how to read and write itself."""

    def __init__(self, data=None):
        self.data = data

    def read_dict(self, d):
        self.data = copy.deepcopy(d["data"])

    def write_dict(self):
        return {"data": copy.deepcopy(self.data)}

    def __eq__(self, other):
        return isinstance(other, Made) and self.data == other.data

    def __bool__(self):
        return bool(self.data)

    def __repr__(self):
        return f"Made({self.data!r})"


def validate(v):
    if type(v) is int:
        return abs(v)
    return sorted(v) if isinstance(v, list) else copy.deepcopy(v)


def reader(prop, properties):
    return copy.deepcopy(properties.get(prop.key, {}).get("w"))


def writer(prop, properties, value):
    properties[prop.key] = {"w": copy.deepcopy(value)}


def raw(cfg, v):
    """The value to assign for a generated value."""
    return Made(copy.deepcopy(v)) if cfg["kind"] == "make" and v is not None else copy.deepcopy(v)


def stored(cfg, v):
    return validate(v) if cfg["kind"] == "validate" else copy.deepcopy(v)


def recordable(c):
    return not (c["keyed"] and c["changed"])


def mutate(v):
    """Changes a mutable value and everything mutable in it in place; returns whether it could."""
    if isinstance(v, Made):
        mutate(v.data)
        v.data = ["mutated"]
    elif isinstance(v, list):
        for x in v:
            mutate(x)
        v.append("mutated")
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v["mutated"] = 1
    else:
        return False
    return True


class Cls:
    """A generated class definition."""

    def __init__(self, world, index, spec):
        self.index, self.spec = index, spec
        self.props = {f"p{i}": dict(c) for i, c in enumerate(spec["props"])}
        keyed = [n for n, c in self.props.items() if c["keyed"]]
        self.keys = {n: n for n in self.props}
        for i, n in enumerate(keyed):
            self.keys[n] = keyed[(i + 1) % len(keyed)] if len(keyed) > 1 else "k"
        self.items = {f"i{i}": c % world.n for i, (c, _) in enumerate(spec["items"])}
        self.hidden_items = {f"i{i}" for i, (_, h) in enumerate(spec["items"]) if h}
        self.rels = {f"r{i}": c % world.n for i, (c, _) in enumerate(spec["rels"])}
        keyed = [f"r{i}" for i, (_, k) in enumerate(spec["rels"]) if k]
        self.rel_keys = {n: n for n in self.rels}
        for i, n in enumerate(keyed):
            self.rel_keys[n] = keyed[(i + 1) % len(keyed)] if len(keyed) > 1 else "rk"
        cls = self
        for c in self.props.values():
            c["default"] = stored(c, raw(c, c["default"]))

        class Object(Persistence.PersistentObject):
            def __init__(self):
                super().__init__()
                if spec["typed"]:
                    self.define_type(f"Type {index}")
                for n, c in cls.props.items():
                    kw = {}
                    if c["kind"] == "converter":
                        kw["converter"] = Conv()
                    elif c["kind"] == "validate":
                        kw["validate"] = validate
                    elif c["kind"] == "make":
                        kw["make"] = Made
                    elif c["kind"] == "rw":
                        kw.update(reader=reader, writer=writer)
                    elif c["kind"] == "copy":
                        kw["copy_on_read"] = True
                    if c["changed"]:
                        kw["changed"] = lambda name, value: world.log.append((self, "changed", name, copy.deepcopy(value), copy.deepcopy(self._get_persistent_property_value(name))))
                    if not recordable(c):
                        kw["recordable"] = False
                    if c["keyed"]:
                        kw["key"] = cls.keys[n]
                    if c["access"] == "hidden":
                        kw["hidden"] = True
                    elif c["access"] == "readonly":
                        kw["read_only"] = True
                    if c["default"] is not None:
                        kw["value"] = copy.deepcopy(c["default"])
                    self.define_property(n, **kw)
                for n, k in cls.items.items():
                    self.define_item(n, world.factory(k), lambda name, old, new: world.log.append((self, "item", name, old, new)), hidden=n in cls.hidden_items)
                for n, k in cls.rels.items():
                    kw = {"key": cls.rel_keys[n]} if spec["rels"][int(n[1:])][1] else {}
                    self.define_relationship(n, world.factory(k), lambda name, i, item: world.log.append((self, "insert", name, i, item)), lambda name, i, item: world.log.append((self, "remove", name, i, item)), **kw)
                self.own = {}

            def persistent_object_context_changed(self):
                world.context_log.append(self)

            # values the class keeps itself and tells of with _update_persistent_property
            def write_to_dict(self):
                d = super().write_to_dict()
                d.update(copy.deepcopy(self.own))
                return d

            def read_from_dict(self, d):
                super().read_from_dict(d)
                self.own = {k: copy.deepcopy(v) for k, v in d.items() if k.startswith("own")}

            def deepcopy_from(self, item, memo):
                super().deepcopy_from(item, memo)
                self.own = copy.deepcopy(item.own)
        if spec["typed"]:
            # false in a condition while there is nothing in its relationships
            Object.__len__ = lambda self: sum(self.item_count(n) for n in cls.rels)
        self.type = Object


class Node:
    """The model of one object."""

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj
        self.uuid = obj.uuid
        self.values = {n: copy.deepcopy(c["default"]) for n, c in cls.props.items()}
        self.items = {n: None for n in cls.items}
        self.rels = {n: [] for n in cls.rels}
        self.own = {}
        self.parent = None
        self.count = obj.modified_count
        self.modified = obj.modified
        self.context = None

    def children(self):
        for v in self.items.values():
            if v:
                yield v
        for vs in self.rels.values():
            yield from vs

    def tree(self):
        yield self
        for c in self.children():
            yield from c.tree()

    def root(self):
        return self.parent.root() if self.parent else self

    def encode(self, name):
        c, v = self.cls.props[name], self.values[name]
        if c["kind"] == "rw":
            return {"w": copy.deepcopy(v)}
        if v is None:
            return None
        if c["kind"] == "converter":
            return ["conv", copy.deepcopy(v)]
        return {"data": copy.deepcopy(v.data)} if c["kind"] == "make" else copy.deepcopy(v)

    def dict(self):
        d = {"uuid": str(self.uuid)}
        if self.cls.spec["typed"]:
            d["type"] = f"Type {self.cls.index}"
        for n in self.values:
            e = self.encode(n)
            if e is not None:
                d[self.cls.keys[n]] = e
        for n, v in self.items.items():
            if v:
                d[n] = v.dict()
        for n, vs in self.rels.items():
            d[self.cls.rel_keys[n]] = [v.dict() for v in vs]
        d.update(copy.deepcopy(self.own))
        return d


class Storage:
    """A storage handler as the documentation describes it."""

    def __init__(self, root):
        self.root = root
        self.properties = copy.deepcopy(root.write_to_dict())

    calls = None

    def service(name):
        def fn(self, *args):
            self.calls = (self.calls or []) + [(name, *args)]
            return ["result", name]
        return fn

    read_external_data = service("read_external_data")
    write_external_data = service("write_external_data")
    enter_write_delay = service("enter_write_delay")
    exit_write_delay = service("exit_write_delay")
    is_write_delayed = service("is_write_delayed")
    rewrite_item = service("rewrite_item")
    get_storage_property = service("get_storage_property")

    def find(self, obj):
        if obj is self.root:
            return self.properties
        return obj.get_accessor_in_parent()(self.find(obj.persistent_object_parent.parent))

    def set_property(self, obj, name, value):
        self.find(obj)[name] = value

    def clear_property(self, obj, name):
        self.find(obj).pop(name, None)

    def insert_item(self, parent, name, before_index, item):
        self.find(parent).setdefault(name, list()).insert(before_index, item.write_to_dict())
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, index, item):
        del self.find(parent)[name][index]
        item.persistent_object_context = None

    def set_item(self, parent, name, item):
        if item is not None:
            self.find(parent)[name] = item.write_to_dict()
            item.persistent_object_context = parent.persistent_object_context
        else:
            self.find(parent).pop(name, None)


class NewStorage(Storage):
    """A storage handler that is asked for the properties of an object."""

    def get_properties(self, obj):
        return self.find(obj)

    def __bool__(self):
        return False


class NoTruth(Persistence.PersistentObjectContext):
    def __bool__(self):
        return False


SERVICES = [("read_external_data", 1), ("write_external_data", 2), ("enter_write_delay", 0), ("exit_write_delay", 0), ("is_write_delayed", 0), ("rewrite_item", 0), ("get_storage_property", 1)]


class World:
    def __init__(self, prop, case, ctx):
        self.prop, self.ctx = prop, ctx
        self.n = len(case["classes"])
        self.log = []
        self.context_log = []
        self.classes = []
        for i, s in enumerate(case["classes"]):
            self.classes.append(Cls(self, i, s))
        self.context = (Persistence.PersistentObjectContext if self.n % 2 else NoTruth)()
        self.events = []
        self.listener = self.context.registration_event.listen(lambda r, u: self.events.append((r, u)))
        self.subs = []
        self.sub_expected = []
        self.nodes = []
        self.storages = []      # (node, storage, frozen dict or None)
        self.removed = False
        for i in range(max(1, case["attached"])):
            node = self.new(i)
            if i < case["attached"]:
                self.attach(node)

    def factory(self, k):
        def make(lookup_id):
            eq(lookup_id("no such key", 5), 5, "default of a lookup in a factory")
            check(isinstance(lookup_id("uuid"), str), "lookup of the identifier in a factory", lookup_id("uuid"))
            eq(lookup_id("type"), f"Type {k}" if self.classes[k].spec["typed"] else None, "lookup of the type in a factory")
            return self.classes[k].type()
        return make

    def new(self, k):
        cls = self.classes[k % self.n]
        node = Node(cls, cls.type())
        self.nodes.append(node)
        return node

    # -- contexts ------------------------------------------------------------------------------------------------
    def attach(self, node):
        storage = (Storage, NewStorage)[len(self.storages) % 2](node.obj)
        self.context._set_persistent_storage_for_object(node.obj, storage)
        self.storages.append([node, storage, None])
        node.obj.persistent_object_context = self.context
        self.set_context(node, self.context)

    def detach(self, node):
        node.obj.persistent_object_context = None
        self.context._set_persistent_storage_for_object(node.obj, None)
        for s in self.storages:
            if s[0] is node and s[2] is None:
                s[2] = copy.deepcopy(s[1].properties)
        self.set_context(node, None)

    def set_context(self, node, context):
        for n in node.tree():
            if n.context is not context:
                n.context = context
                if context is not None:
                    self.expected_events.append(("+", n.obj))
                    for s in self.subs:
                        if s["uuid"] == n.uuid and s["live"] and s["mode"] & 1:
                            self.sub_expected.append((s["id"], "+", n.obj))
                else:
                    self.expected_events.append(("-", n.obj))
                    for s in self.subs:
                        if s["uuid"] == n.uuid and s["live"]:
                            s["live"] = False
                            if s["mode"] & 2:
                                self.sub_expected.append((s["id"], "-", n.obj))

    expected_events = []

    # -- changes -------------------------------------------------------------------------------------------------
    def touched(self, node):
        self.changed_nodes = []
        while node:
            node.count += 1
            self.changed_nodes.append(node)
            if node.parent:
                self.ctx.nontrivial(self.prop == "C23")
                self.deep = True
            node = node.parent

    deep = False

    def candidate(self, target, k, choice):
        """A detached object of class k that can be put below target, or a new one."""
        free = [n for n in self.nodes if n.cls.index == k and n.parent is None and n.context is None and n is not target.root()]
        return free[choice % len(free)] if free and choice % 3 else self.new(k)

    def run(self, op):
        self.log.clear()
        self.context_log.clear()
        self.events.clear()
        self.expected_events = []
        self.sub_expected = []
        self.sub_log = []
        expected_log = []
        self.changed_nodes = []
        self.given_time = None
        self.t0 = datetime.datetime.utcnow()
        kind = op[0]
        nodes = self.nodes
        if kind == "remove":
            nodes = [n for n in nodes if any(n.rels.values())] or nodes
        elif kind == "clear" or kind == "item" and op[3] % 2:
            nodes = [n for n in nodes if any(n.items.values())] or nodes
        elif kind == "prop" and op[2] % 3 == 0:
            nodes = [n for n in nodes if n.parent and n.context is not None] or nodes
        node = nodes[op[1] % len(nodes)]
        cls, obj = node.cls, node.obj
        if kind == "prop":
            name = f"p{op[2] % len(cls.props)}"
            cfg = cls.props[name]
            v = raw(cfg, op[3])
            if v is None and cfg["default"] is not None and self.prop == "C20" and op[1] % 3:
                v = copy.deepcopy(cfg["default"])
            node.values[name] = stored(cfg, v)
            self.touched(node)
            if cfg["access"] == "normal":
                setattr(obj, name, v)
            else:
                obj._set_persistent_property_value(name, v)
            if cfg["changed"]:
                expected_log.append((obj, "changed", name, node.values[name], node.values[name]))
            if cfg["kind"] != "validate" and mutate(v) and self.prop == "C23":
                self.ctx.label("assigned value mutated")
        elif kind in ("insert", "extend"):
            names = list(cls.rels)
            if not names:
                return
            name = names[op[2] % len(names)]
            values = node.rels[name]
            if kind == "insert":
                items = [self.candidate(node, cls.rels[name], op[4])]
                index = op[3] % (len(values) + 1)
            else:
                items = [self.new(cls.rels[name]) for _ in range(op[3])]
                index = len(values)
            for i, item in enumerate(items):
                values.insert(index + i, item)
                self.touched(node)
                item.parent = node
                self.set_context(item, node.context)
                expected_log.append((obj, "insert", name, index + i, item.obj))
            if kind == "extend":
                obj.extend_items(name, [i.obj for i in items])
            elif index == len(values) - 1 and op[4] % 2:
                obj.append_item(name, items[0].obj)
            else:
                obj.insert_item(name, index, items[0].obj)
        elif kind == "remove":
            names = [n for n in cls.rels if node.rels[n]]
            if not names:
                return
            name = names[op[2] % len(names)]
            index = op[3] % len(node.rels[name])
            eq(obj.item_index(name, node.rels[name][index].obj), index, "index of an item")
            item = node.rels[name].pop(index)
            self.touched(node)
            item.parent = None
            self.set_context(item, None)
            expected_log.append((obj, "remove", name, index, item.obj))
            obj.remove_item(name, item.obj)
            self.removed = True
        elif kind in ("item", "clear"):
            names = list(cls.items)
            if not names:
                return
            name = names[op[2] % len(names)]
            old = node.items[name]
            new = self.candidate(node, cls.items[name], op[3]) if kind == "item" else None
            self.removed = self.removed or old is not None
            node.items[name] = new
            self.touched(node)
            if old:
                old.parent = None
                self.set_context(old, None)
            if new:
                new.parent = node
                self.set_context(new, node.context)
            expected_log.append((obj, "item", name, old.obj if old else None, new.obj if new else None))
            obj.set_item(name, new.obj if new else None)
            self.ctx.label("item replaced" if old and new else "item set" if new else "item cleared")
        elif kind == "custom":
            # a subclass tells of a custom value under a property's key: use the present value of a plain property
            name = f"p{op[2] % len(cls.props)}"
            e = node.encode(name)
            if e is None:
                return
            self.touched(node)
            obj._update_persistent_property(cls.keys[name], e)
        elif kind == "own":
            key = f"own{op[2] % 3}"
            node.own[key] = copy.deepcopy(op[3])
            obj.own = dict(obj.own)
            obj.own[key] = copy.deepcopy(op[3])
            self.touched(node)
            obj._update_persistent_property(key, copy.deepcopy(op[3]))
        elif kind == "adopt":
            # a tree is read that looks like this one, and is used from then on
            if len(self.nodes) < 50 and not any(v is None and c.cls.props[n]["default"] is not None for c in node.tree() for n, v in c.values.items()):
                self.adopt(node, op[2] % 2)
        elif kind == "attributes":
            self.attributes(node, op[2])
        elif kind == "attach":
            node = node.root()
            if node.context is not None:
                return
            self.attach(node)
        elif kind == "detach":
            node = node.root()
            if node.context is None:
                return
            self.detach(node)
        elif kind == "subscribe":
            mode, number = op[2], len(self.subs)
            s = {"id": number, "uuid": node.uuid, "mode": mode, "live": True}
            log = self.all_sub_log
            if node.context is not None and mode & 1:
                self.sub_expected.append((number, "+", obj))
            self.subs.append(s)
            self.context.subscribe(node.uuid, (lambda o: log.append((number, "+", o))) if mode & 1 else None, (lambda o: log.append((number, "-", o))) if mode & 2 else None)
            self.ctx.label("subscribed")
        elif kind == "service":
            live = [s for s in self.storages if s[2] is None and s[0] is node.root()]
            name, n = SERVICES[op[2]]
            args = ("name", op[3])[:n]
            if not live:
                return
            for s in self.storages:
                s[1].calls = []
            result = getattr(self.context, name)(obj, *args)
            for s in self.storages:
                calls = s[1].calls
                check(calls == ([(name, obj, *args)] if s is live[0] else []) and all(c[1] is obj for c in calls), f"calls of {name} reaching a storage", calls)
            if name not in ("write_external_data", "enter_write_delay", "exit_write_delay", "rewrite_item"):
                eq(result, ["result", name], f"result of {name}")
            self.ctx.label("storage service")
        elif kind == "readonly":
            names = [n for n, c in cls.props.items() if c["access"] == "readonly"]
            if not names:
                return
            name = names[op[2] % len(names)]
            try:
                setattr(obj, name, raw(cls.props[name], op[3]))
            except AttributeError:
                self.ctx.label("read-only property refused")
            else:
                raise Violation("a read-only property was assigned")
        elif kind == "alias":
            for name in cls.rels:
                handed = getattr(obj, name)
                check(len(handed) == len(node.rels[name]) and all(a is b.obj for a, b in zip(handed, node.rels[name])), "items of a relationship", handed)
                handed.append(None)
                handed.reverse()
                again = getattr(obj, name)
                check(len(again) == len(node.rels[name]) and all(a is b.obj for a, b in zip(again, node.rels[name])), "items of a relationship after the list handed out earlier was changed", again)
            names = [n for n, c in cls.props.items() if c["kind"] == "copy"]
            if not names:
                return
            name = names[op[2] % len(names)]
            v = obj._get_persistent_property_value(name)
            if mutate(v):
                self.ctx.label("copy mutated")
        elif kind == "readtime":
            t = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=op[2] if op[2] % 3 else op[2] // 10 ** 6 * 10 ** 6)
            d = node.dict()
            d["modified"] = t.isoformat()
            self.read(node, d)
            eq(self.fresh.modified, t, "modification time after reading")
        elif kind == "settime":
            self.given_time = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=op[2])
            self.touched(node)
            obj._set_modified(self.given_time)
        elif kind == "roundtrip":
            d = obj.write_to_dict()
            eq(d, node.dict(), "written dict")
            if any(v is None and c.cls.props[n]["default"] is not None for c in node.tree() for n, v in c.values.items()):
                return              # None is not written, so that the default is read
            self.read(node, d)
            self.compare(node, self.fresh, True)
            eq(self.fresh.write_to_dict(), node.dict(), "dict written after reading")
            # the dict shares nothing with either object
            for target in self.mutables(d):
                mutate(target)
            eq(obj.write_to_dict(), node.dict(), "dict written by the original after the earlier dict was changed")
            if not any(c["kind"] == "validate" for k in self.classes for c in k.props.values()):
                eq(self.fresh.write_to_dict(), node.dict(), "dict written by the object read after the dict was changed")
            self.ctx.nontrivial(any(True for _ in node.children()))
            self.ctx.label("read back")
        elif kind == "partial":
            d = node.dict()
            missing = [n for i, n in enumerate(cls.props) if op[2] >> i & 1 or node.values[n] is None]
            for n in missing:
                d.pop(cls.keys[n], None)
            self.read(node, d)
            for n in cls.props:
                # a property with a value of its own, or the default
                eq(self.fresh._get_persistent_property_value(n), cls.props[n]["default"] if n in missing else node.values[n], f"property {n} of an object read from a dict without {missing}")
            self.ctx.label("missing keys")
            d = self.fresh.write_to_dict()
            for drop, keys in ((self.fresh.undefine_properties, cls.keys.values()), (self.fresh.undefine_items, cls.items), (self.fresh.undefine_relationships, cls.rel_keys.values())):
                drop()
                for k in keys:
                    d.pop(k, None)
                eq(self.fresh.write_to_dict(), d, f"dict written after {drop.__name__}")
            eq((self.fresh.property_names, self.fresh.key_names, self.fresh.item_names, self.fresh.relationship_names), ([], [], [], []), "names after all definitions were removed")
        elif kind == "deepcopy":
            self.deepcopy(node)
        self.t1 = datetime.datetime.utcnow()
        self.expected_log = expected_log
        self.verify(op)

    def mutables(self, d):
        out = []
        if isinstance(d, (list, dict)):
            for v in (list(d) if isinstance(d, list) else list(d.values())):
                out.extend(self.mutables(v))
            out.append(d)
        return out

    def read(self, node, d):
        fresh = node.cls.type()
        fresh.begin_reading()
        check(fresh._is_reading, "an object is not in reading state")
        fresh.read_from_dict(d)
        fresh.finish_reading()
        self.fresh = fresh
        self.each(node, fresh, lambda n, o: check(not o._is_reading, "an object is still in reading state after reading"))
        self.log = [e for e in self.log if any(e[0] is n.obj for n in self.nodes)]

    def adopt(self, node, timed):
        d = node.dict()

        def renew(x, n):
            x["uuid"] = str(uuid.uuid4())
            for name, v in n.items.items():
                if v:
                    renew(x[name], v)
            for name, vs in n.rels.items():
                for y, v in zip(x[n.cls.rel_keys[name]], vs):
                    renew(y, v)
        renew(d, node)
        if timed:
            d["modified"] = "2001-02-03T04:05:06.000007"
        fresh = node.cls.type()
        fresh.begin_reading()
        fresh.read_from_dict(d)
        self.each(node, fresh, lambda n, o: check(o._is_reading, "an object is not in reading state before reading finishes"))
        fresh.finish_reading()
        self.each(node, fresh, lambda n, o: check(not o._is_reading, "an object is still in reading state after reading"))
        calls = []
        read = self.build(node, fresh, calls)
        eq(str(fresh.uuid), d["uuid"], "identifier read")
        eq(fresh.write_to_dict(), read.dict(), "dict written by an object that was read")
        if self.prop == "C23":
            mine = {id(n.obj) for n in read.tree()}
            got = [e for e in self.log if id(e[0]) in mine and e[1] != "changed"]
            check(len(got) == len(calls) and all(self.same(a, b) for a, b in zip(got, calls)), "callbacks of reading", [e[1:] for e in got], [e[1:] for e in calls])
        self.log = [e for e in self.log if not any(e[0] is n.obj for n in read.tree())]
        self.ctx.label("tree read and used")

    def attributes(self, node, value):
        obj = node.obj

        def absent(name):
            try:
                got = getattr(obj, name)
            except AttributeError:
                return
            raise Violation(f"{name} should not be an attribute", got)
        for name, c in node.cls.props.items():
            eq(obj._is_persistent_property_recordable(name), recordable(c) and c["access"] != "readonly", f"whether {name} is recordable")
            p = obj._get_persistent_property(name)
            eq((p.name, p.key), (name, node.cls.keys[name]), "name and key of a property")
            if c["access"] == "hidden":
                absent(name)
                # a regular attribute of the name of a hidden property is something else
                setattr(obj, name, raw(c, value))
                eq(getattr(obj, name), raw(c, value), "regular attribute with the name of a hidden property")
                eq(obj._get_persistent_property_value(name), node.values[name], "hidden property after a regular attribute of its name was set")
                delattr(obj, name)
            else:
                eq(getattr(obj, name), node.values[name], f"attribute {name}")
        for name, v in node.items.items():
            check(obj.get_item(name) is (v.obj if v else None), f"item {name}")
            if name in node.cls.hidden_items:
                absent(name)
            else:
                check(getattr(obj, name) is (v.obj if v else None), f"attribute of item {name}")
        eq(obj._is_persistent_property_recordable("unknown"), False, "whether an unknown property is recordable")
        absent("unknown")
        self.ctx.label("attributes")

    def each(self, node, obj, fn):
        fn(node, obj)
        for n, v in node.items.items():
            c = obj.get_item(n)
            check((c is None) == (v is None), f"presence of item {n}")
            if v:
                self.each(v, c, fn)
        for n, vs in node.rels.items():
            cs = getattr(obj, n)
            eq(len(cs), len(vs), f"number of items of relationship {n}")
            eq(obj.item_count(n), len(vs), f"count of items of relationship {n}")
            for v, c in zip(vs, cs):
                self.each(v, c, fn)

    def compare(self, node, obj, same_ids):
        seen = set()

        def fn(n, o):
            check(type(o) is n.cls.type, "class of an object", o)
            eq((o.property_names, o.item_names, o.relationship_names), (list(n.cls.props), list(n.cls.items), list(n.cls.rels)), "names of properties, items and relationships")
            eq(o.key_names, [n.cls.keys[k] for k in n.cls.props], "storage keys")
            eq(o.type, f"Type {n.cls.index}" if n.cls.spec["typed"] else None, "type")
            if same_ids:
                eq(o.uuid, n.uuid, "identifier")
            else:
                check(o.uuid not in seen and all(o.uuid != k.uuid for k in self.nodes), "identifier of a copy is not new")
                seen.add(o.uuid)
                check(o is not n.obj, "a copy contains an object of the original")
            for name, v in n.values.items():
                eq(o._get_persistent_property_value(name), v, f"value of property {name}")
                if n.cls.props[name]["access"] != "hidden":
                    eq(getattr(o, name), v, f"attribute {name}")
            eq(o.own, n.own, "values the class keeps itself")
        self.each(node, obj, fn)

    def build(self, n, o, calls):
        """The model of an object made from a tree; collects the callbacks of making it by reading."""
        m = Node(n.cls, o)
        m.values = copy.deepcopy(n.values)
        m.own = copy.deepcopy(n.own)
        for name, v in n.items.items():
            if v:
                m.items[name] = self.build(v, o.get_item(name), calls)
                m.items[name].parent = m
                calls.append((o, "item", name, None, m.items[name].obj))
        for name, vs in n.rels.items():
            for v, child in zip(vs, getattr(o, name)):
                k = self.build(v, child, calls)
                k.parent = m
                calls.append((o, "insert", name, len(m.rels[name]), k.obj))
                m.rels[name].append(k)
        self.nodes.append(m)
        return m

    def deepcopy(self, node):
        c = copy.deepcopy(node.obj)
        self.compare(node, c, False)
        self.log = [e for e in self.log if any(e[0] is n.obj for n in self.nodes)]

        if len(self.nodes) < 60:
            self.build(node, c, [])
        # values of another copy changed in place do not affect the original
        self.each(node, copy.deepcopy(node.obj), lambda n, o: [mutate(o._get_persistent_property_value(name)) for name in n.values])
        self.log = [e for e in self.log if any(e[0] is n.obj for n in self.nodes)]
        self.ctx.nontrivial(any(True for _ in node.children()))
        self.ctx.label("deep copied")

    # -- oracle --------------------------------------------------------------------------------------------------
    def verify(self, op):
        p = self.prop
        if p == "C20":
            for n in self.nodes:
                if n.parent is None:
                    eq(n.obj.write_to_dict(), n.dict(), f"dict written after {op}")
                    self.compare(n, n.obj, True)
        if p == "C21":
            for node, storage, frozen in self.storages:
                if frozen is None:
                    eq(storage.properties, node.dict(), f"storage after {op}")
                    eq(storage.properties, node.obj.write_to_dict(), f"storage compared to what would be written after {op}")
                    got = self.context.get_properties(node.obj)
                    eq(got, node.dict(), "properties returned by the context")
                    mutate(got)
                    if isinstance(storage, NewStorage):
                        for n in node.tree():
                            got = self.context.get_properties(n.obj)
                            eq(got, n.dict(), "properties of an object returned by the context")
                            mutate(got)
                else:
                    eq(storage.properties, frozen, f"storage of a detached object after {op}")
            self.ctx.nontrivial(self.deep and self.removed)
        if p == "C22":
            for n in self.nodes:
                check(n.obj.persistent_object_context is n.context, f"context of an object after {op}", n.obj.persistent_object_context)
                check(self.context.get_registered_object(n.uuid) is (n.obj if n.context is not None else None), f"registered object for an identifier after {op}; should be {'registered' if n.context is not None else 'absent'}")
            got = sorted(("+", id(r)) if r is not None else ("-", id(u)) for r, u in self.events)
            eq(got, sorted((s, id(o)) for s, o in self.expected_events), f"registration events after {op}")
            for s, o in self.expected_events:
                check(any(o is x for x in self.context_log), f"an object was not told that its context changed by {op}")
            check(all((r is None) != (u is None) for r, u in self.events), "a registration event names both or neither object")
            eq(sorted((i, s, id(o)) for i, s, o in self.all_sub_log), sorted((i, s, id(o)) for i, s, o in self.sub_expected), f"calls of subscribers after {op}")
            self.ctx.nontrivial(bool(self.sub_expected) or len(self.expected_events) >= 2)
            self.all_sub_log.clear()
        if p == "C23":
            log = [e for e in self.log if any(e[0] is n.obj for n in self.nodes)]
            check(len(log) == len(self.expected_log) and all(self.same(a, b) for a, b in zip(log, self.expected_log)), f"callbacks of {op}", [e[1:] for e in log], [e[1:] for e in self.expected_log])
            times = set()
            for n in self.nodes:
                eq(n.obj.modified_state, n.count, f"modified state of an object after {op}")
                eq(n.obj.modified_count, n.count, f"modified count of an object {'that was changed' if n in self.changed_nodes else 'that was not changed'} by {op}")
                if n in self.changed_nodes:
                    n.modified = n.obj.modified
                    times.add(n.modified)
                    if self.given_time:
                        eq(n.modified, self.given_time, "modification time that was given")
                        continue
                    check(self.t1 < self.t0 or self.t0 <= n.modified <= self.t1, "modification time is not the time of the change", n.modified)
                else:
                    eq(n.obj.modified, n.modified, f"modification time of an object that was not changed by {op}")
                for name, v in n.values.items():
                    eq(n.obj._get_persistent_property_value(name, "default"), v, f"property {name} after {op}")
                eq([n.obj._get_persistent_property_value("unknown", "default"), n.obj._get_persistent_property_value("unknown")], ["default", None], "value of an unknown property")
            check(len(times) <= 1, "ancestors of a changed object have different modification times", times)

    @staticmethod
    def same(a, b):
        return a[0] is b[0] and a[1:3] == b[1:3] and all((x is y) if isinstance(y, Persistence.PersistentObject) or y is None else x == y for x, y in zip(a[3:], b[3:]))


def driver(prop):
    def run(case, ctx):
        World.all_sub_log = []
        w = World(prop, case, ctx)
        w.all_sub_log = []
        for op in case["ops"]:
            w.run(op)
    return run


for _p, _q in (("C20", 3000), ("C21", 4000), ("C22", 3500), ("C23", 4000)):
    sub(_p, "history", cases(_p), quick=_q, shards=6)(driver(_p))


# -- the context on its own ----------------------------------------------------------------------------------------

def contexts(thorough):
    op = one_of(st.tuples(st.just("register"), BIG), st.tuples(st.just("register"), BIG), st.tuples(st.just("unregister"), BIG), st.tuples(st.just("drop"), BIG),
                st.tuples(st.just("subscribe"), BIG, st.integers(0, 3)), st.tuples(st.just("subscribe"), BIG, st.integers(0, 3)), st.tuples(st.just("subscribe"), BIG, st.sampled_from([5, 7])))
    return st.lists(op, min_size=3, max_size=40 if thorough else 20)


class Bare:
    def __init__(self):
        self.uuid = uuid.uuid4()


@sub("C22", "context", contexts, quick=1500, shards=2)
def run_context(case, ctx):
    context = Persistence.PersistentObjectContext()
    objects = [Bare() for _ in range(4)]
    ids = [o.uuid for o in objects]
    registered = set()
    subs = []
    log, events = [], []

    def name(o):
        return None if o is None else ids.index(o.uuid)
    listener = context.registration_event.listen(lambda r, u: events.append((name(r), name(u))))
    numbers = [0]

    def subscribe(k, mode):
        numbers[0] += 1
        sub = [numbers[0], k, mode]
        subs.append(sub)

        def found(o):
            log.append((sub[0], "+", name(o)))
            if sub[2] & 4:
                # the subscriber subscribes once more when it is told
                sub[2] &= 3
                subscribe(k, 3)
                added.append(subs[-1][0])
        context.subscribe(ids[k], found if mode & 1 else None, (lambda o: log.append((sub[0], "-", name(o)))) if mode & 2 else None)
    for op in case:
        log.clear()
        events.clear()
        added, more = [], False
        before = [tuple(s) for s in subs]
        expected, expected_events = [], []
        k = op[1] % 4
        if op[0] == "register":
            if objects[k] is None or k in registered:
                continue
            context.register(objects[k])
            registered.add(k)
            expected = [(s[0], "+", k) for s in before if s[1] == k and s[2] & 1]
            expected_events = [(k, None)]
            more = any(s[1] == k and s[2] & 4 for s in before)
        elif op[0] == "unregister":
            if objects[k] is None or k not in registered:
                continue
            context.unregister(objects[k])
            registered.discard(k)
            expected = [(s[0], "-", k) for s in subs if s[1] == k and s[2] & 2]
            subs = [s for s in subs if s[1] != k]
            expected_events = [(None, k)]
        elif op[0] == "drop":
            objects[k] = None
            gc.collect(0)
            registered.discard(k)
            ctx.label("object deleted")
        else:
            number = numbers[0] + 1
            subscribe(k, op[2])
            if k in registered and op[2] & 1:
                expected = [(number, "+", k)]
                more = op[2] & 4
        if more:
            check(added, "no subscription was made by a subscriber")
            expected += [(n, "+", k) for n in added]
            ctx.label("subscribed when told")
        eq(sorted(log), sorted(expected), f"calls of subscribers after {op}")
        eq(events, expected_events, f"registration events after {op}")
        for i in range(4):
            check(context.get_registered_object(ids[i]) is (objects[i] if i in registered else None), f"registered object after {op}")
        ctx.nontrivial(bool(expected))
