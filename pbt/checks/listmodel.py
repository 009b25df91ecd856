"""C04 list models, C08/C09 filtered and mapped chains, C11 mapped, C12 flattened, C13 selections of derived lists."""
import functools, itertools

from hypothesis import strategies as st

import sched
from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Binding, Event, ListModel, Observable, Selection

BIG = st.integers(0, 60)   # taken modulo what is there
MORE = st.sampled_from([0] * 13 + [12, 22, 45])    # further items that a list starts with


def more(case):
    """Pairs of the ranges of K and F for the further items of a case."""
    return [((i * 7 + i // 4) % 10, (i * 5 + i // 3) % 3) for i in range(case.get("more", 0))]


# ---------------------------------------------------------------------------------------------------------------- C04
RULES["C04"] = ("cases are edit sequences on a list model observed by listeners and list bindings that come and go; "
                "non-trivial: at least two insertions and one removal were mirrored")
ASSUMPTIONS["C04"] = ["items are not removed at an index that the list does not have"]
VALUE = one_of(st.none(), st.integers(0, 3), st.text(max_size=1), st.lists(st.integers(0, 1), max_size=1))


def c04(thorough):
    op = one_of(st.tuples(st.just("insert"), BIG, VALUE), st.tuples(st.just("insert"), BIG, VALUE), st.tuples(st.just("append"), VALUE), st.tuples(st.just("remove"), BIG),
                   st.tuples(st.just("insert at"), st.integers(-6, 8), VALUE), st.tuples(st.just("remove from end"), st.integers(1, 6)), st.just(("clear",)), st.tuples(st.just("bind"), st.booleans(), st.sampled_from([None, "inserted", "removed"])), st.tuples(st.just("close"), BIG), st.tuples(st.just("foreign"), VALUE), st.tuples(st.just("given"), VALUE))
    return st.fixed_dictionaries({"key": st.sampled_from([None, "items", "elems"]), "start": st.lists(VALUE, max_size=4), "give": st.booleans(), "more": MORE,
                                  "ops": st.lists(op, min_size=2, max_size=30 if thorough else 16)})


@sub("C04", "edits", c04, quick=5000, shards=6)
def run_c04(case, ctx):
    start = case["start"] + [k for k, f in more(case)] if case["give"] else []
    given = list(start)
    m = ListModel.ListModel(case["key"], given) if case["give"] else ListModel.ListModel(case["key"])
    key = case["key"] or "items"
    model = list(start)
    mirror = list(start)
    log = []
    problems = []

    def inserted(k, item, index):
        log.append(["inserted", k, item, index])
        mirror.insert(index, item)
        if list(m.items) != mirror or len(m.items) != len(mirror):
            problems.append(f"at the insertion announcement the list was {m.items!r}, the observer's copy {mirror!r}")

    def removed(k, item, index):
        log.append(["removed", k, item, index])
        if mirror[index] != item:
            problems.append(f"removal announced {item!r} at {index}, the observer has {mirror!r}")
        del mirror[index]
        if list(m.items) != mirror:
            problems.append(f"at the removal announcement the list was {m.items!r}, the observer's copy {mirror!r}")

    l1, l2 = m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed)
    bindings, halves = [], []
    inserts = removes = 0
    for op in case["ops"]:
        log.clear()
        expected = []
        if op[0] == "insert":
            i = op[1] % (len(model) + 1)
            m.insert_item(i, op[2])
            model.insert(i, op[2])
            expected = [["inserted", key, op[2], i]]
            inserts += 1
        elif op[0] == "insert at":
            # a negative index counts from the end, one beyond the end appends, as for a list; the announced index is where it is
            m.insert_item(op[1], op[2])
            expected = [["inserted", key, op[2], min(op[1], len(model)) if op[1] >= 0 else max(op[1] + len(model), 0)]]
            model.insert(op[1], op[2])
            inserts += 1
            ctx.label("negative index" if op[1] < 0 else "index as given")
        elif op[0] == "remove from end":
            if op[1] <= len(model):
                m.remove_item(-op[1])
                expected = [["removed", key, model[-op[1]], len(model) - op[1]]]
                del model[-op[1]]
                removes += 1
                ctx.label("negative index")
        elif op[0] == "append":
            m.append_item(op[1])
            expected = [["inserted", key, op[1], len(model)]]
            model.append(op[1])
            inserts += 1
        elif op[0] == "remove":
            if model:
                i = op[1] % len(model)
                m.remove_item(i)
                expected = [["removed", key, model[i], i]]
                del model[i]
                removes += 1
        elif op[0] == "clear":
            m.clear_items()
            eq([x[0] for x in log], ["removed"] * len(model), "announcements of clearing")
            model.clear()
            expected = None
        elif op[0] == "bind":
            k = key if op[1] else "another"
            b = Binding.ListBinding(m, k)
            copy = list(model)
            if op[1]:
                check(list(b.items) == model, "items of a list binding", b.items, model)
            b.inserter = lambda item, index, copy=copy: copy.insert(index, item)
            b.remover = lambda index, copy=copy: copy.pop(index)
            if len(op) > 2 and op[2]:
                # a binding of which only one side is in use
                half, calls, side = Binding.ListBinding(m, k), [], op[2]
                if side == "inserted":
                    half.inserter = lambda item, index, calls=calls: calls.append([item, index])
                else:
                    half.remover = lambda index, calls=calls: calls.append(index)
                halves.append((half, calls, side if op[1] else "none"))
                ctx.label("binding with one side")
            bindings.append([b, copy, op[1], None if op[1] else list(copy)])
        elif op[0] == "close":
            if bindings:
                e = bindings[op[1] % len(bindings)]
                if e[0] is not None:
                    e[0].close()
                    e[0] = None
                    e[3] = list(e[1])
                    ctx.label("closed binding")
        elif op[0] == "foreign":
            # an announcement under another key must not reach the list bindings
            l1.close(), l2.close()
            m.notify_insert_item("unrelated", op[1], 0)
            m.notify_remove_item("unrelated", op[1], 0)
            l1, l2 = m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed)
        elif op[0] == "given":
            # the sequence given at construction belongs to the caller
            given.append(op[1])
            start = start + [op[1]]
        eq(given, start, f"the sequence given at construction, after {op}")
        check(not problems, "; ".join(problems))
        for half, calls, side in halves:
            eq(calls, [[e[2], e[3]] if side == "inserted" else e[3] for e in log if e[0] == side], f"calls of the {side} side of a list binding after {op}")
            calls.clear()
        if expected is not None:
            eq(log, expected, f"announcements of {op}")
        eq(list(m.items), model, f"items after {op}")
        if case["key"]:
            eq(list(getattr(m, case["key"])), model, f"items under the key after {op}")
        eq(mirror, model, "the observer's copy")
        for b, copy, same_key, frozen in bindings:
            eq(copy, model if frozen is None else frozen, "the list binding's copy" + ("" if frozen is None else " (closed or other key)"))
    ctx.nontrivial(inserts >= 2 and removes >= 1)
    if bindings:
        ctx.label("list binding")


# ------------------------------------------------------------------------------------------------------ C08 and C09
RULES["C08"] = ("cases are chains of one to three derived lists (filtered, or mapped by identity) over a list model and a history of source edits, content changes, filter / sort / direction / source "
                "replacement and nested groups of changes at any level; non-trivial: some filtered list at some time rejected an item, held two or more, and was changed by at least three operations (threads sub-check: the threads were switched at least four times)")
RULES["C09"] = RULES["C08"]
ASSUMPTIONS["C08"] = ["items are distinct and hashable, and announce a change of their content immediately after it, or the lists are marked as changed or set up again from the source upwards", "the order of items with equal sort keys is left open",
                      "groups are opened and closed in a balanced way"]
ASSUMPTIONS["C09"] = ASSUMPTIONS["C08"]


class Item:
    def __init__(self, n, k, f, quiet=False):
        self.n, self.k, self.f = n, k, f
        if not quiet:
            self.item_changed_event = Event.Event()

    def __repr__(self):
        return f"<{self.n}:{self.k},{self.f}>"

    def __bool__(self):
        return self.k % 3 != 0     # whether an item is true or false means nothing to the lists


class Sized(ListModel.ListModel):
    """A container with a length: false while it is empty."""

    def __len__(self):
        return len(self.items)


FILTERS = {
    "all": lambda: ListModel.Filter(True), "nothing": lambda: ListModel.Filter(False), "even": lambda: ListModel.PredicateFilter(lambda x: x.k % 2 == 0),
    "f1": lambda: ListModel.EqFilter("f", 1), "not f1": lambda: ListModel.NotEqFilter("f", 1), "small": lambda: ListModel.PredicateFilter(lambda x: x.k < 5),
    "even and f1": lambda: ListModel.AndFilter([FILTERS["even"](), FILTERS["f1"]()]), "even or f1": lambda: ListModel.OrFilter([FILTERS["even"](), FILTERS["f1"]()]),
    "not small": lambda: ListModel.NotFilter(FILTERS["small"]()),
}
ACCEPTS = {"all": lambda x: True, "nothing": lambda x: False, "even": lambda x: x.k % 2 == 0, "f1": lambda x: x.f == 1, "not f1": lambda x: x.f != 1, "small": lambda x: x.k < 5,
           "even and f1": lambda x: x.k % 2 == 0 and x.f == 1, "even or f1": lambda x: x.k % 2 == 0 or x.f == 1, "not small": lambda x: not x.k < 5}
SORTS = {"none": None, "k": lambda x: x.k, "-k": lambda x: -x.k, "f,k": lambda x: (x.f, x.k), "n": lambda x: x.n}
K, F = st.integers(0, 9), st.integers(0, 2)
LEVEL = st.integers(0, 2)
FILTER = st.sampled_from(["all", "all", "even", "f1", "not f1", "small", "even and f1", "even or f1", "not small", "nothing"])
SORT = st.sampled_from(["none", "k", "k", "-k", "f,k", "n"])


def scribble(*lists):
    """What a list hands out belongs to the caller."""
    for x in lists:
        if isinstance(x, list):
            x.insert(0, "scribble")


def chains(thorough):
    op = one_of(st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("reinsert"), BIG, BIG), st.tuples(st.just("remove"), BIG), st.tuples(st.just("remove"), BIG),
                   st.tuples(st.just("change"), BIG, K, F), st.tuples(st.just("change"), BIG, K, F), st.tuples(st.just("change"), BIG, K, F), st.tuples(st.just("change gone"), BIG, K, F),
                   st.tuples(st.just("move"), BIG, BIG), st.tuples(st.just("quietly"), BIG, K, F, st.integers(0, 3)),
                   st.tuples(st.just("filter"), LEVEL, FILTER), st.tuples(st.just("sort"), LEVEL, SORT), st.tuples(st.just("reverse"), LEVEL, st.booleans()),
                   st.tuples(st.just("begin"), LEVEL), st.tuples(st.just("end"), LEVEL), st.tuples(st.just("end"), LEVEL), st.tuples(st.just("mark"), LEVEL), one_of(st.tuples(st.just("broken"), LEVEL, BIG, K, F), st.tuples(st.just("foreign"), LEVEL)),
                   st.tuples(st.just("source"), st.sampled_from([0, 1, 1, 0, None])), st.tuples(st.just("attach"), LEVEL, st.sampled_from(["below", "below", "spare", None]), K, F), st.just(("clear",)))
    level = st.fixed_dictionaries({"kind": st.sampled_from("FFFM"), "filter": FILTER, "sort": SORT, "reverse": st.booleans(), "late": st.booleans()})
    return st.fixed_dictionaries({"levels": st.lists(level, min_size=1, max_size=3), "quiet_items": st.booleans(), "start": st.lists(st.tuples(K, F), min_size=2, max_size=8), "start2": st.lists(st.tuples(K, F), max_size=4), "more": MORE,
                                  "ops": st.lists(op, min_size=5, max_size=50 if thorough else 25), "close": st.booleans()})


class Chain:
    def __init__(self, case, contents, notifications, ctx):
        self.contents, self.notifications, self.ctx = contents, notifications, ctx
        self.problems = []
        self.count = 0
        self.quiet = case["quiet_items"]
        self.sources = [ListModel.ListModel("src"), Sized("src")]
        for j, start in enumerate((case["start"] + more(case), case["start2"])):
            for k, f in start:
                self.sources[j].append_item(self.new(k, f))
        self.current = 0
        self.gone = []
        self.levels = []
        for i, spec in enumerate(case["levels"]):
            below = self.sources[0] if i == 0 else self.levels[i - 1]["model"]
            master_key = "src" if i == 0 else f"items{i - 1}"
            key = f"items{i}"
            lv = {"i": i, "kind": spec["kind"], "filter": spec["filter"], "sort": spec["sort"], "reverse": spec["reverse"], "group": 0, "depth": 0, "mirror": [], "key": key, "changes": 0,
                  "touched": False, "from": "below", "blind": False, "spare": Sized(master_key) if i else None}
            late = spec["late"]
            if spec["kind"] == "F":
                m = ListModel.FilteredListModel(container=None if late else below, master_items_key=master_key, items_key=key)
                lv["model"] = m
                lv["mirror"] = list(m.items)
                self.listen(lv)
                m.filter = FILTERS[spec["filter"]]()
                m.sort_key = SORTS[spec["sort"]]
                m.sort_reverse = spec["reverse"]
            else:
                m = ListModel.MappedListModel(container=None if late else below, master_items_key=master_key, items_key=key)
                lv["model"] = m
                lv["mirror"] = list(m.items)
                self.listen(lv)
            if late:
                m.container = below
            self.levels.append(lv)

    def new(self, k, f):
        self.count += 1
        return Item(self.count, k, f, self.quiet and self.count % 4 == 0)

    def listen(self, lv):
        m, mirror, key, i = lv["model"], lv["mirror"], lv["key"], lv["i"]
        bad = self.problems.append

        def inserted(k, item, index):
            if k == "another":
                return
            lv["touched"] = True
            if k != key:
                bad(f"level {i} announced an insertion under key {k}")
            if lv["kind"] == "F" and lv["depth"] < 1:
                bad(f"level {i} announced an insertion outside begin and end of changes")
            if lv["kind"] == "F" and lv["group"] > 0:
                bad(f"level {i} announced an insertion while a group of changes was open")
            if not 0 <= index <= len(mirror):
                bad(f"level {i} announced insertion at {index}, observer has {len(mirror)} items")
            mirror.insert(index, item)
            if list(m.items) != mirror:
                bad(f"level {i}: at the insertion announcement of {item} at {index} the list is {m.items}, the observer's copy {mirror}")

        def removed(k, item, index):
            if k == "another":
                return
            lv["touched"] = True
            if k != key:
                bad(f"level {i} announced a removal under key {k}")
            if lv["kind"] == "F" and lv["depth"] < 1:
                bad(f"level {i} announced a removal outside begin and end of changes")
            if lv["kind"] == "F" and lv["group"] > 0:
                bad(f"level {i} announced a removal while a group of changes was open")
            if not 0 <= index < len(mirror) or mirror[index] is not item:
                bad(f"level {i} announced the removal of {item} at {index}, the observer's copy is {mirror}")
                return
            del mirror[index]
            if list(m.items) != mirror:
                bad(f"level {i}: at the removal announcement of {item} at {index} the list is {m.items}, the observer's copy {mirror}")

        def begin(k):
            if k == "another":
                return
            if k != key:
                bad(f"level {i} announced begin under key {k}")
            lv["depth"] += 1
            lv["begins"] = lv.get("begins", 0) + 1
            if lv["kind"] == "M" and lv["depth"] != 1:
                bad(f"mapped level {i} announced begin inside a group")

        def end(k):
            if k == "another":
                return
            if k != key:
                bad(f"level {i} announced end under key {k}")
            lv["depth"] -= 1
            if lv["depth"] < 0:
                bad(f"level {i} announced more ends than begins")

        lv["listeners"] = [m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed), m.begin_changes_event.listen(begin), m.end_changes_event.listen(end)]

    def source(self):
        return None if self.current is None else self.sources[self.current]

    def verify(self, op):
        if self.notifications:
            check(not self.problems, f"after {op}: " + "; ".join(self.problems[:3]))
        below = list(self.source().items) if self.source() is not None else []
        depth = 0
        if self.notifications and op != "construction":
            self.verify_reach(op)
        for lv in self.levels:
            items = list(lv["model"].items)
            if lv["from"] != "below":
                below = list(lv["spare"].items) if lv["from"] else []
                depth = 0
            if not depth:
                lv["blind"] = False
            if lv["blind"]:     # a group that its source had begun before is not this list's
                depth = 0
            if lv["kind"] == "F":
                accepted = [x for x in below if ACCEPTS[lv["filter"]](x)]
                sort = SORTS[lv["sort"]]
                if lv["group"] == 0 and self.contents:
                    if sort is None:
                        check(items == accepted, f"level {lv['i']} after {op}: filtered items of {below} by {lv['filter']}", items, accepted)
                    else:
                        check(len(items) == len(accepted) and set(items) == set(accepted), f"level {lv['i']} after {op}: set of filtered items of {below} by {lv['filter']}", items, accepted)
                        keys = [sort(x) for x in items]
                        check(keys == sorted(keys, reverse=lv["reverse"]), f"level {lv['i']} after {op}: order by {lv['sort']}{' reversed' if lv['reverse'] else ''}", items)
                if len(accepted) < len(below) and len(items) >= 2:
                    lv["filtered"] = True
            else:
                depth = 1 if lv["group"] or depth else 0
                if self.contents:
                    check(items == below, f"mapped level {lv['i']} after {op}", items, below)
            if self.contents:
                check(list(getattr(lv["model"], lv["key"])) == items, "items under the list's key")
                check(not hasattr(lv["model"], "another"), "a list has an attribute that is not its key")
                check(lv["model"].container is self.container_of(lv), f"container of level {lv['i']}")
                scribble(lv["model"].items, getattr(lv["model"], lv["key"]))
            if self.notifications:
                check(items == lv["mirror"], f"level {lv['i']} after {op}: the observer's copy differs from the list", lv["mirror"], items)
                check(lv["depth"] == depth, f"level {lv['i']} after {op}: begin and end of changes unbalanced", lv["depth"], depth)
            if lv["touched"]:
                lv["changes"] += 1
                lv["touched"] = False
            below = items

    def container_of(self, lv):
        if lv["i"] == 0:
            return self.source()
        return self.levels[lv["i"] - 1]["model"] if lv["from"] == "below" else lv["spare"] if lv["from"] else None

    def verify_reach(self, op):
        """An operation says nothing to lists whose source, directly or not, is another one."""
        start = op[1] % len(self.levels) if op[0] in ("filter", "sort", "reverse", "begin", "end", "mark", "broken", "foreign", "attach") else -1
        if op[0] in ("broken", "quietly"):
            return
        reached, held = True, False
        for lv in self.levels:
            if lv["i"] > start >= 0 or start < 0 and lv["i"] > 0:
                reached = reached and lv["from"] == "below"
            # a list in a group of changes keeps items of its earlier source, and lists made from it follow their changes
            if lv["i"] < start or not reached and not (held and op[0] in ("change", "change gone")):
                check(not lv["begins"] and not lv["touched"], f"level {lv['i']} made announcements because of {op}, which does not concern it")
            held = held or lv["group"] > 0

    def do(self, op):
        src = self.source()
        kind = op[0]
        for lv in self.levels:
            lv["begins"] = 0
        if kind in ("insert", "reinsert", "remove", "change", "clear", "move", "quietly") and src is None:
            return
        if kind == "insert":
            src.insert_item(op[1] % (len(src.items) + 1), self.new(op[2], op[3]))
        elif kind == "reinsert":
            if self.gone:
                src.insert_item(op[1] % (len(src.items) + 1), self.gone.pop(op[2] % len(self.gone)))
        elif kind == "remove":
            if src.items:
                i = op[1] % len(src.items)
                self.gone.append(src.items[i])
                src.remove_item(i)
        elif kind == "move":
            # an item changes its place in the source; a group at the first level makes it one change
            if src.items:
                i = op[1] % len(src.items)
                item = src.items[i]
                src.remove_item(i)
                src.insert_item(op[2] % (len(src.items) + 1), item)
        elif kind == "clear":
            if len(src.items) > 4:
                return
            self.gone.extend(src.items)
            src.clear_items()
        elif kind == "change":
            items = [x for x in src.items if hasattr(x, "item_changed_event")]
            if items:
                x = items[op[1] % len(items)]
                x.k, x.f = op[2], op[3]
                x.item_changed_event.fire()
        elif kind == "quietly":
            # a change that is not announced is seen when the lists are marked as changed or their settings are set again
            if src.items and not any(lv["group"] for lv in self.levels):
                x = src.items[op[1] % len(src.items)]
                x.k, x.f = op[2], op[3]
                for lv in self.levels:
                    if lv["kind"] == "F":
                        m = lv["model"]
                        if op[4] == 0:
                            m.mark_changed()
                        elif op[4] == 1:
                            m.filter = m.filter
                        elif op[4] == 2:
                            m.sort_key = m.sort_key
                        else:
                            m.sort_reverse = m.sort_reverse
        elif kind == "change gone":
            items = [x for x in self.gone if hasattr(x, "item_changed_event")]
            # an item removed inside an open group is still held by lists above; its content must stay while it is
            if items and not any(lv["group"] for lv in self.levels):
                x = items[op[1] % len(items)]
                x.k, x.f = op[2], op[3]
                x.item_changed_event.fire()
        elif kind == "source":
            self.current = op[1]
            self.levels[0]["model"].container = self.source()
        else:
            lv = self.levels[op[1] % len(self.levels)]
            m = lv["model"]
            if kind == "begin":
                m.begin_change()
                lv["group"] += 1
                self.ctx.label("group at " + lv["kind"])
            elif kind == "end":
                if lv["group"]:
                    lv["group"] -= 1
                    m.end_change()
            elif kind == "broken":
                # a group that ends with an exception is ended all the same
                try:
                    with m.changes():
                        lv["group"] += 1
                        if src is not None:
                            self.do(["insert", op[2], op[3], op[4]])
                        lv["group"] -= 1
                        raise KeyError("x")
                except KeyError:
                    pass
            elif kind == "attach":
                # the list gets another source, and the old one has no effect any more
                if lv["i"]:
                    if self.levels[lv["i"] - 1]["depth"] and "below" in (lv["from"], op[2]):
                        self.ctx.label("source replaced in its group")
                    if any(x["group"] for x in self.levels[:lv["i"]]):
                        self.ctx.label("source replaced in a group below")
                    lv["blind"] = op[2] == "below" and self.levels[lv["i"] - 1]["depth"] > 0
                    if lv["from"] != op[2]:
                        self.ctx.label("inner source replaced")
                    lv["from"] = op[2]
                    lv["spare"].append_item(self.new(op[3], op[4]))
                    m.container = self.container_of(lv)
                    lv["spare"].append_item(self.new(op[4], op[4]))
            elif kind == "foreign":
                # announcements about something else the list's object holds
                m.begin_changes_event.fire("another")
                m.notify_insert_item("another", self.new(1, 1), 0)
                m.notify_remove_item("another", self.new(1, 1), 0)
                m.end_changes_event.fire("another")
            elif kind == "mark":
                lv["begins"] = 0
                if self.count % 2:
                    m.mark_changed()
                else:
                    with m.changes():
                        pass
                if self.notifications and lv["kind"] == "M" and not lv["group"]:
                    inside = any(x["group"] for x in self.levels[:lv["i"]] if x["kind"] == "M")
                    check(inside or lv["begins"] == 1, f"mapped level {lv['i']} announced an empty group {lv['begins']} times")
            elif lv["kind"] == "F":
                if kind == "filter":
                    lv["filter"] = op[2]
                    m.filter = FILTERS[op[2]]()
                elif kind == "sort":
                    lv["sort"] = op[2]
                    m.sort_key = SORTS[op[2]]
                else:
                    lv["reverse"] = op[2]
                    m.sort_reverse = op[2]

    def run(self, case):
        self.verify("construction")
        for op in case["ops"]:
            self.do(op)
            self.verify(op)
        for lv in self.levels:
            while lv["group"]:
                self.do(["end", lv["i"]])
                self.verify(["end", lv["i"]])
        if case["close"]:
            for lv in reversed(self.levels):
                lv["model"].close()
                check(list(lv["model"].items) == [] , "items of a closed list", lv["model"].items)
                if self.notifications:
                    check(lv["mirror"] == [] and not self.problems, "announcements of closing a list", self.problems)
                lv["touched"] = False
            self.sources[0].insert_item(0, self.new(2, 1))
            for x in self.sources[0].items + self.gone:
                if hasattr(x, "item_changed_event"):
                    x.item_changed_event.fire()
            check(not any(lv["touched"] for lv in self.levels), "a closed list made announcements")
        self.ctx.nontrivial(any(lv["kind"] == "F" and lv.get("filtered") and lv["changes"] >= 3 for lv in self.levels))
        self.ctx.label("chain " + "".join(lv["kind"] for lv in self.levels))


@sub("C08", "chains", chains, quick=6000, shards=8)
def run_c08(case, ctx):
    Chain(case, True, False, ctx).run(case)


@sub("C09", "chains", chains, quick=6000, shards=8)
def run_c09(case, ctx):
    Chain(case, False, True, ctx).run(case)


STEP = st.tuples(st.integers(0, 2), one_of(st.integers(1, 8), st.integers(1, 40), st.integers(1, 300)))


def chain_threads(thorough):
    edit = one_of(st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("remove"), BIG))
    setting = one_of(st.tuples(st.just("filter"), LEVEL, FILTER), st.tuples(st.just("sort"), LEVEL, SORT), st.tuples(st.just("reverse"), LEVEL, st.booleans()), st.tuples(st.just("mark"), LEVEL), st.tuples(st.just("read"), LEVEL),
                     st.tuples(st.just("begin"), LEVEL), st.tuples(st.just("end"), LEVEL))
    group = one_of(st.tuples(st.just("begin"), st.just(0)), st.tuples(st.just("end"), st.just(0)), st.tuples(st.just("mark"), st.just(0)))
    setting = one_of(setting, setting, group)
    level = st.fixed_dictionaries({"kind": st.sampled_from("FFFM"), "filter": FILTER, "sort": SORT, "reverse": st.booleans()})
    return st.fixed_dictionaries({"levels": st.lists(level, min_size=1, max_size=2), "start": st.lists(st.tuples(K, F), min_size=1, max_size=5), "edits": st.lists(edit, min_size=1, max_size=5),
                                  "settings": st.lists(st.lists(setting, min_size=1, max_size=4), min_size=1, max_size=2), "schedule": st.lists(STEP, min_size=4, max_size=60 if thorough else 30)})


def group_threads(thorough):
    """Groups of changes begun and ended at nearly the same time in two or three threads."""
    edit = one_of(st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("remove"), BIG))
    group = one_of(st.tuples(st.just("begin"), st.just(0)), st.tuples(st.just("end"), st.just(0)), st.tuples(st.just("end"), st.just(0)), st.tuples(st.just("mark"), st.just(0)))
    level = st.fixed_dictionaries({"kind": st.sampled_from("FM"), "filter": FILTER, "sort": SORT, "reverse": st.booleans()})
    step = st.tuples(st.integers(0, 3), one_of(st.integers(1, 4), st.integers(1, 12), st.integers(1, 40)))
    return st.fixed_dictionaries({"levels": st.lists(level, min_size=1, max_size=1), "start": st.lists(st.tuples(K, F), min_size=1, max_size=2), "edits": st.lists(edit, max_size=2),
                                  "settings": st.lists(st.lists(group, min_size=1, max_size=5), min_size=2, max_size=3), "schedule": st.lists(step, min_size=20, max_size=200 if thorough else 90)})


def run_chain_threads(case, ctx, contents, notifications):
    """One thread edits the source, others set filters and sorting and group changes; when all are done the lists are right and observers have followed."""
    count = itertools.count()
    problems = []
    with sched.coop_locks():
        src = ListModel.ListModel("src", [Item(next(count), k, f) for k, f in case["start"]])
        levels = []
        for i, spec in enumerate(case["levels"]):
            below, master_key, key = (src, "src", "items0") if i == 0 else (levels[0]["model"], "items0", "items1")
            cls = ListModel.FilteredListModel if spec["kind"] == "F" else ListModel.MappedListModel
            m = cls(container=below, master_items_key=master_key, items_key=key)
            if spec["kind"] == "F":
                m.filter, m.sort_key, m.sort_reverse = FILTERS[spec["filter"]](), SORTS[spec["sort"]], spec["reverse"]
            lv = {"model": m, "kind": spec["kind"], "mirror": list(m.items), "depth": 0, "i": i}

            def inserted(k, item, index, lv=lv):
                if not 0 <= index <= len(lv["mirror"]):
                    problems.append(f"level {lv['i']} announced an insertion at {index}, the observer's copy is {lv['mirror']}")
                lv["mirror"].insert(index, item)

            def removed(k, item, index, lv=lv):
                if not 0 <= index < len(lv["mirror"]) or lv["mirror"][index] is not item:
                    problems.append(f"level {lv['i']} announced the removal of {item} at {index}, the observer's copy is {lv['mirror']}")
                else:
                    del lv["mirror"][index]

            def step(k, d, lv=lv):
                lv["depth"] += d
                if lv["depth"] < 0 or lv["kind"] == "M" and lv["depth"] > 1:
                    problems.append(f"level {lv['i']}: begin and end of changes do not fit")
            lv["listeners"] = [m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed), m.begin_changes_event.listen(functools.partial(step, d=1)), m.end_changes_event.listen(functools.partial(step, d=-1))]
            levels.append(lv)

    def edits():
        for op in case["edits"]:
            if op[0] == "insert":
                src.insert_item(op[1] % (len(src.items) + 1), Item(next(count), op[2], op[3]))
            elif src.items:
                src.remove_item(op[1] % len(src.items))

    def body(ops):
        def fn():
            opened = []
            for op in ops:
                lv = levels[op[1] % len(levels)]
                m = lv["model"]
                if op[0] == "begin":
                    m.begin_change()
                    opened.append(m)
                elif op[0] == "end":
                    if m in opened:
                        opened.remove(m)
                        m.end_change()
                elif op[0] == "mark":
                    m.mark_changed()
                elif op[0] == "read":
                    items = list(m.items)
                    check(len(set(items)) == len(items), "an item is twice in a list", items)
                elif lv["kind"] == "F":
                    if op[0] == "filter":
                        m.filter = FILTERS[op[2]]()
                    elif op[0] == "sort":
                        m.sort_key = SORTS[op[2]]
                    else:
                        m.sort_reverse = op[2]
            for m in opened:
                m.end_change()
        return fn

    try:
        tasks, switches = sched.run([edits] + [body(ops) for ops in case["settings"]], case["schedule"])
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
    src.insert_item(0, Item(next(count), 4, 1))      # and from now on everything works as before
    with levels[0]["model"].changes():
        before = list(levels[0]["mirror"])
        src.insert_item(0, Item(next(count), 4, 1))
        if notifications and levels[0]["kind"] == "F":
            check(levels[0]["mirror"] == before, "an item change was announced while a group of changes was open, when all threads are done")
    below = list(src.items)
    for lv in levels:
        m = lv["model"]
        items = list(m.items)
        if contents:
            if lv["kind"] == "M":
                check(items == below, f"mapped level {lv['i']} when all threads are done", items, below)
            else:
                accepted = [x for x in below if m.filter.matches(x)]
                if m.sort_key is None:
                    check(items == accepted, f"level {lv['i']} when all threads are done: filtered items", items, accepted)
                else:
                    check(len(items) == len(accepted) and set(items) == set(accepted), f"level {lv['i']} when all threads are done: set of filtered items of {below}", items, accepted)
                    keys = [m.sort_key(x) for x in items]
                    check(keys == sorted(keys, reverse=m.sort_reverse), f"level {lv['i']} when all threads are done: order", items, keys, m.sort_reverse)
        if notifications:
            check(not problems, "; ".join(problems[:3]))
            check(items == lv["mirror"], f"level {lv['i']} when all threads are done: the observer's copy differs from the list", lv["mirror"], items)
            check(lv["depth"] == 0, f"level {lv['i']}: begin and end of changes are not balanced", lv["depth"])
        below = items
    ctx.nontrivial(switches >= 4)


@sub("C08", "threads", chain_threads, quick=1200, shards=4)
def run_c08_threads(case, ctx):
    run_chain_threads(case, ctx, True, False)


@sub("C09", "threads", chain_threads, quick=1200, shards=4)
def run_c09_threads(case, ctx):
    run_chain_threads(case, ctx, False, True)


@sub("C08", "groups in threads", group_threads, quick=500, shards=3)
def run_c08_groups(case, ctx):
    run_chain_threads(case, ctx, True, False)


@sub("C09", "groups in threads", group_threads, quick=500, shards=3)
def run_c09_groups(case, ctx):
    run_chain_threads(case, ctx, False, True)


# ---------------------------------------------------------------------------------------------------------------- C11
RULES["C11"] = ("cases are mapped lists over list models (also with repeated items) or filtered lists, with edits, source replacement and close; "
                "non-trivial: at least two items were mapped and at least one left by removal or replacement")
ASSUMPTIONS["C11"] = ["the unmap function does not edit the lists"]


class Mapped:
    def __init__(self, n, item):
        self.n, self.item = n, item

    def __repr__(self):
        return f"M{self.n}({self.item!r})"

    def __bool__(self):
        return self.item.k % 2 == 0


def mapped(thorough):
    op = one_of(st.tuples(st.just("insert"), BIG, K), st.tuples(st.just("insert"), BIG, K), st.tuples(st.just("remove"), BIG), st.just(("clear",)), st.tuples(st.just("repeat"), BIG, BIG),
                   st.tuples(st.just("source"), st.sampled_from([0, 1, None])), st.tuples(st.just("filter"), FILTER), st.tuples(st.just("sort"), SORT), st.tuples(st.just("change"), BIG, K),
                   st.just(("begin",)), st.just(("end",)), st.just(("foreign",)), st.tuples(st.just("gone source"), BIG, K))
    return st.fixed_dictionaries({"filtered": st.booleans(), "map": st.booleans(), "unmap": st.booleans(), "equal": st.booleans(), "start": st.lists(K, max_size=5),
                                  "start2": st.lists(K, max_size=4), "more": MORE, "ops": st.lists(op, min_size=3, max_size=40 if thorough else 20), "close": st.booleans()})


@sub("C11", "mapped", mapped, quick=5000, shards=6)
def run_c11(case, ctx):
    count = [0]

    def new(k):
        count[0] += 1
        return Item(count[0], k, k % 2)
    sources = [ListModel.ListModel("src", [new(k) for k in case["start"] + [k for k, f in more(case)]]), Sized("src", [new(k) for k in case["start2"]])]
    filtered = None
    if case["filtered"]:
        filtered = ListModel.FilteredListModel(container=sources[0], master_items_key="src", items_key="flt")
    made, unmapped = [], []

    class Equal(Mapped):
        def __eq__(self, other):
            return isinstance(other, Equal)
        __hash__ = None

    def map_fn(item):
        m = (Equal if case["equal"] else Mapped)(len(made), item)
        made.append(m)
        return m

    m = ListModel.MappedListModel(container=filtered if filtered else sources[0], master_items_key="flt" if filtered else "src", items_key="out",
                                  map_fn=map_fn if case["map"] else None, unmap_fn=unmapped.append if case["unmap"] else None)
    current = 0
    tracked = []     # (source item, mapped item) as they must stay
    log = []
    ls = [m.item_inserted_event.listen(lambda k, x, i: log.append(["in", k, x, i])), m.item_removed_event.listen(lambda k, x, i: log.append(["out", k, x, i]))]
    brackets = []
    ls += [m.begin_changes_event.listen(brackets.append), m.end_changes_event.listen(brackets.append)]
    state = {"un": 0, "made": 0, "left": 0}
    eq(m.items_key, "out", "items key")

    def below():
        if filtered:
            return list(filtered.items)
        return list(sources[current].items) if current is not None else []

    def verify(op, old_pairs):
        src = below()
        items = list(m.items)
        check(len(items) == len(src), f"number of mapped items after {op}", items, src)
        check(list(map(id, m.out)) == list(map(id, items)), "items under the key")
        if case["map"]:
            check(all(x.item is s for x, s in zip(items, src)), f"each mapped item belongs to its source item after {op}", items, src)
            # the same mapped object for as long as the item stays: replay of the announcements gives the pairs
            pairs = list(old_pairs)
            for kind, k, x, i in log:
                eq(k, "out", "key of an announcement")
                if kind == "in":
                    pairs.insert(i, x)
                else:
                    check(pairs[i] is x, f"removal announcement after {op}", x, pairs[i])
                    del pairs[i]
            check(list(map(id, pairs)) == list(map(id, items)), f"mapped items were exchanged without announcement after {op}", pairs, items)
            entered = [x for kind, k, x, i in log if kind == "in"]
            check(list(map(id, made[state["made"]:])) == list(map(id, entered)), f"the map function is called exactly once per entering item ({op})", made[state["made"]:], entered)
            left = [x for kind, k, x, i in log if kind == "out"]
            if case["unmap"]:
                check(list(map(id, unmapped[state["un"]:])) == list(map(id, left)), f"the unmap function is called exactly once per leaving item ({op})", unmapped[state["un"]:], left)
            state["made"], state["un"] = len(made), len(unmapped)
            state["left"] += len(left)
        else:
            check(all(x is s for x, s in zip(items, src)), f"items of the identity mapping after {op}")
        # nothing leaves and comes back in edits that concern other items
        if op[0] in ("insert", "repeat") and not (filtered and group):
            check(all(kind == "in" for kind, *_ in log), f"insertion made mapped items leave ({op})", log)
        if op[0] == "remove" and not (filtered and group):
            check(all(kind == "out" for kind, *_ in log) and len(log) <= 1, f"removal announced {log}")
        log.clear()
        return items

    group = 0
    gone = []
    items = list(m.items)
    check(not case["map"] or list(map(id, made)) == list(map(id, items)), "mapping of the initial items")
    state["made"] = len(made)
    items = verify(["construction"], items)
    for op in case["ops"]:
        src = sources[current] if current is not None else None
        kind = op[0]
        if kind == "insert" and src is not None:
            src.insert_item(op[1] % (len(src.items) + 1), gone.pop() if gone and op[2] == 0 else new(op[2]))
        elif kind == "repeat" and src is not None and src.items and not filtered:
            src.insert_item(op[1] % (len(src.items) + 1), src.items[op[2] % len(src.items)])
            ctx.label("repeated item")
        elif kind == "remove" and src is not None and src.items:
            i = op[1] % len(src.items)
            if not filtered or src.items.count(src.items[i]) == 1:
                gone.append(src.items[i])
            src.remove_item(i)
            if filtered is None and gone[-1] in src.items:
                gone.pop()
        elif kind == "clear" and src is not None:
            src.clear_items()
        elif kind == "source":
            current = op[1]
            new_source = sources[current] if current is not None else None
            if filtered:
                filtered.container = new_source
            else:
                m.container = new_source
            ctx.label("source replaced")
        elif kind == "gone source":
            # edits of a source that is not the list's source any more
            other = sources[0 if current != 0 else 1]
            other.insert_item(op[1] % (len(other.items) + 1), new(op[2]))
            check(not log, "an edit of another list was announced")
        elif kind == "foreign":
            brackets.clear()
            if src is not None:
                src.notify_insert_item("another", 1, 0)
                src.notify_remove_item("another", 1, 0)
            if filtered:
                filtered.begin_changes_event.fire("another")
                check(not brackets, "changes of something else were announced", brackets)
                filtered.end_changes_event.fire("another")
                check(not brackets, "changes of something else were announced", brackets)
        elif kind in ("filter", "sort") and filtered:
            if kind == "filter":
                filtered.filter = FILTERS[op[1]]()
            else:
                filtered.sort_key = SORTS[op[1]]
        elif kind == "change" and src is not None and src.items:
            x = src.items[op[1] % len(src.items)]
            x.k, x.f = op[2], op[2] % 2
            x.item_changed_event.fire()
        elif kind == "begin":
            group += 1
            (filtered or m).begin_change()
        elif kind == "end" and group:
            group -= 1
            (filtered or m).end_change()
        items = verify(op, items)
        check(not hasattr(m, "another"), "a list has an attribute that is not its key")
        scribble(m.items, m.out)
        check(m.container is (filtered or (sources[current] if current is not None else None)), "container of the mapped list")
    while group:
        group -= 1
        (filtered or m).end_change()
        items = verify(["end"], items)
    if case["close"]:
        m.close()
        if case["map"] and case["unmap"]:
            check(sorted(map(id, unmapped[state["un"]:])) == sorted(map(id, items)), "every mapped item is unmapped once when the list is closed", unmapped[state["un"]:], items)
        eq(list(m.items), [], "items of a closed list")
        n, u = len(made), len(unmapped)
        log.clear()
        for s in sources:
            s.insert_item(0, new(1))
        if filtered:
            filtered.filter = FILTERS["nothing"]()
        check(len(made) == n and len(unmapped) == u and not log, "a closed mapped list reacted to its source")
        ctx.label("closed")
    if filtered:
        ctx.label("over a filtered list")
    ctx.nontrivial(state["made"] >= 2 and state["left"] >= 1)


# ---------------------------------------------------------------------------------------------------------------- C12
RULES["C12"] = ("cases are flattened lists over a list (or filtered list) of masters with child lists, and edits of masters, of children of any master, and of the source; "
                "non-trivial: two masters with children were present and a child edit happened in a master that was not first")
ASSUMPTIONS["C12"] = ["masters are distinct; child values may repeat"]


class Master(Observable.Observable):
    def __init__(self, n, children, k=0):
        super().__init__()
        self.n, self.k, self.f = n, k, k % 2
        self.children = list(children)
        self.others = []
        self.item_changed_event = Event.Event()

    def insert(self, i, c, key="children"):
        getattr(self, key).insert(i, c)
        self.notify_insert_item(key, c, i)

    def remove(self, i, key="children"):
        c = getattr(self, key).pop(i)
        self.notify_remove_item(key, c, i)

    def __repr__(self):
        return f"M{self.n}{self.children}"

    def __len__(self):
        return len(self.children)


CH = st.lists(st.integers(0, 5), max_size=4)


def flattened(thorough):
    op = one_of(st.tuples(st.just("insert"), BIG, CH, K), st.tuples(st.just("insert"), BIG, CH, K), st.tuples(st.just("remove"), BIG), st.tuples(st.just("reinsert"), BIG, BIG),
                   st.tuples(st.just("child insert"), BIG, BIG, st.integers(0, 5)), st.tuples(st.just("child insert"), BIG, BIG, st.integers(0, 5)), st.tuples(st.just("child remove"), BIG, BIG),
                   st.tuples(st.just("child remove"), BIG, BIG), st.tuples(st.just("gone child"), BIG, BIG, st.booleans()), st.tuples(st.just("other list"), BIG),
                   st.tuples(st.just("source"), st.sampled_from([0, 1, None])), st.tuples(st.just("filter"), FILTER), st.tuples(st.just("sort"), SORT), st.tuples(st.just("change"), BIG, K),
                   st.just(("clear",)), st.tuples(st.just("foreign"), BIG))
    return st.fixed_dictionaries({"filtered": st.booleans(), "key": st.sampled_from([False, True, "masters", "flt"]), "start": st.lists(CH, min_size=1, max_size=4), "start2": st.lists(CH, max_size=3), "more": MORE, "long": st.booleans(),
                                  "ops": st.lists(op, min_size=3, max_size=40 if thorough else 20), "close": st.booleans()})


class Flat:
    """A flattened list over masters; children are wrapped so that each is distinct when asked for."""

    def __init__(self, case, wrap=lambda c: c, **kw):
        self.count = 0
        self.wrap = wrap
        self.sources = [ListModel.ListModel("masters", [self.new(c) for c in self.starting(case)]), Sized("masters", [self.new(c) for c in case["start2"]])]
        self.current = 0
        self.gone = []
        self.filtered = ListModel.FilteredListModel(container=self.sources[0], master_items_key="masters", items_key="flt") if case["filtered"] else None
        self.key = {True: "leaves", False: "children"}.get(case["key"], case["key"])    # also the key of the source
        self.m = ListModel.FlattenedListModel(container=self.filtered or self.sources[0], master_items_key="flt" if self.filtered else "masters", child_items_key="children",
                                              items_key=self.key if case["key"] else None, **kw)
        self.deep = False

    @staticmethod
    def starting(case):
        extra = more(case)
        if not extra:
            return case["start"]
        # many children of one master, or many masters
        return [case["start"][0] + [k for k, f in extra]] + case["start"][1:] if case.get("long") else case["start"] + [[k, f][:f] for k, f in extra]

    def new(self, children, k=0):
        self.count += 1
        return Master(self.count, [self.wrap(c) for c in children], k)

    def masters(self):
        if self.filtered:
            return list(self.filtered.items)
        return list(self.sources[self.current].items) if self.current is not None else []

    def do(self, op):
        src = self.sources[self.current] if self.current is not None else None
        ms = self.masters()
        kind = op[0]
        if kind == "insert" and src is not None:
            src.insert_item(op[1] % (len(src.items) + 1), self.new(op[2], op[3]))
        elif kind == "reinsert" and src is not None and self.gone:
            src.insert_item(op[1] % (len(src.items) + 1), self.gone.pop(op[2] % len(self.gone)))
        elif kind == "remove" and src is not None and src.items:
            i = op[1] % len(src.items)
            self.gone.append(src.items[i])
            src.remove_item(i)
        elif kind == "clear" and src is not None and len(src.items) < 3:
            self.gone.extend(src.items)
            src.clear_items()
        elif kind == "child insert" and ms:
            x = ms[op[1] % len(ms)]
            x.insert(op[2] % (len(x.children) + 1), self.wrap(op[3]))
            self.deep = self.deep or (x is not ms[0] and bool(ms[0].children))
        elif kind == "child remove" and ms:
            x = ms[op[1] % len(ms)]
            if x.children:
                x.remove(op[2] % len(x.children))
                self.deep = self.deep or (x is not ms[0] and bool(ms[0].children))
        elif kind == "gone child" and self.gone:
            x = self.gone[op[1] % len(self.gone)]
            if op[3] or not x.children:
                x.insert(op[2] % (len(x.children) + 1), self.wrap(9))
            else:
                x.remove(op[2] % len(x.children))
        elif kind == "other list" and ms:
            x = ms[op[1] % len(ms)]
            x.insert(0, self.wrap(7), "others")
            x.remove(0, "others")
        elif kind == "foreign" and src is not None:
            src.notify_insert_item("another", self.new([1]), 0)
            src.notify_remove_item("another", self.gone[0] if self.gone else self.new([1]), 0)
        elif kind == "source":
            self.current = op[1]
            new_source = self.sources[self.current] if self.current is not None else None
            if self.filtered:
                self.filtered.container = new_source
            else:
                self.m.container = new_source
        elif kind == "filter" and self.filtered:
            self.filtered.filter = FILTERS[op[1]]()
        elif kind == "sort" and self.filtered:
            self.filtered.sort_key = SORTS[op[1]]
        elif kind == "change" and src is not None and src.items:
            x = src.items[op[1] % len(src.items)]
            x.k, x.f = op[2], op[2] % 2
            x.item_changed_event.fire()


def run_flat(case, ctx, contents, notifications):
    fl = Flat(case)
    m = fl.m
    mirror = list(m.items)
    problems = []
    log = []

    def inserted(k, item, index):
        log.append(1)
        if k != fl.key:
            problems.append(f"insertion announced under {k}")
        mirror.insert(index, item)
        if list(m.items) != mirror:
            problems.append(f"at the insertion announcement of {item} at {index} the list is {m.items}, the observer's copy {mirror}")

    def removed(k, item, index):
        log.append(1)
        if k != fl.key:
            problems.append(f"removal announced under {k}")
        if not 0 <= index < len(mirror) or mirror[index] != item:
            problems.append(f"removal announced {item} at {index}, the observer's copy is {mirror}")
            return
        del mirror[index]
        if list(m.items) != mirror:
            problems.append(f"at the removal announcement of {item} at {index} the list is {m.items}, the observer's copy {mirror}")

    ls = [m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed)]

    def verify(op):
        expected = [c for x in fl.masters() for c in x.children]
        if contents:
            eq(list(m.items), expected, f"flattened items after {op} of {fl.masters()}")
            eq(list(getattr(m, fl.key)), expected, "items under the key")
            check(not hasattr(m, "another"), "a list has an attribute that is not its key")
            scribble(m.items, getattr(m, fl.key))
            check(m.container is (fl.filtered or (fl.sources[fl.current] if fl.current is not None else None)), "container of the flattened list")
        if notifications:
            check(not problems, f"after {op}: " + "; ".join(problems[:2]))
            eq(mirror, list(m.items), f"the observer's copy after {op}")

    verify("construction")
    for op in case["ops"]:
        fl.do(op)
        verify(op)
    ctx.nontrivial(fl.deep)
    if fl.filtered:
        ctx.label("masters from a filtered list")
    if case["close"]:
        m.close()
        eq(list(m.items), [], "items of a closed list")
        log.clear()
        for s in fl.sources:
            for x in s.items + fl.gone:
                x.insert(0, 1)
            s.insert_item(0, fl.new([1, 2]))
        check(not log and list(m.items) == [], "a closed flattened list reacted to its source")


@sub("C12", "flattened", flattened, quick=5000, shards=6)
def run_c12(case, ctx):
    run_flat(case, ctx, True, False)


@sub("C09", "flattened", flattened, quick=2000, shards=2)
def run_c09_flat(case, ctx):
    run_flat(case, ctx, False, True)


def flat_threads(thorough):
    child = one_of(st.tuples(st.just("insert"), BIG, BIG), st.tuples(st.just("insert"), BIG, BIG), st.tuples(st.just("remove"), BIG, BIG))
    master = one_of(st.tuples(st.just("insert"), BIG, CH), st.tuples(st.just("remove"), BIG))
    return st.fixed_dictionaries({"start": st.lists(st.tuples(CH, st.integers(0, 2)), min_size=2, max_size=5), "masters": st.lists(master, max_size=3),
                                  "children": st.lists(st.lists(child, min_size=1, max_size=4), min_size=2, max_size=2), "schedule": st.lists(STEP, min_size=4, max_size=60 if thorough else 30)})


def run_flat_threads(case, ctx, contents, notifications):
    """Two threads edit the children of masters of their own, a third inserts masters and removes those whose children nobody edits."""
    count = itertools.count()
    problems, mirror = [], []
    with sched.coop_locks():
        src = ListModel.ListModel("masters", [Master(next(count), [next(count) for _ in c]) for c, owner in case["start"]])
        owned = {x.n: owner for x, (c, owner) in zip(src.items, case["start"])}     # 0, 1: edited by that thread, 2: by nobody
        m = ListModel.FlattenedListModel(container=src, master_items_key="masters", child_items_key="children", items_key="leaves")
    mirror.extend(m.items)

    def inserted(k, item, index):
        if not 0 <= index <= len(mirror):
            problems.append(f"an insertion at {index} was announced, the observer's copy is {mirror}")
        mirror.insert(index, item)

    def removed(k, item, index):
        if not 0 <= index < len(mirror) or mirror[index] != item:
            problems.append(f"the removal of {item} at {index} was announced, the observer's copy is {mirror}")
        else:
            del mirror[index]
    listeners = [m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed)]

    def masters():
        for op in case["masters"]:
            if op[0] == "insert":
                src.insert_item(op[1] % (len(src.items) + 1), Master(next(count), [next(count) for _ in op[2]]))
            else:
                free = [i for i, x in enumerate(src.items) if owned.get(x.n, 2) == 2]
                if free:
                    src.remove_item(free[op[1] % len(free)])

    def body(me, ops):
        mine = [x for x in src.items if owned[x.n] == me]

        def fn():
            for op in ops:
                if mine:
                    x = mine[op[1] % len(mine)]
                    if op[0] == "insert":
                        x.insert(op[2] % (len(x.children) + 1), next(count))
                    elif x.children:
                        x.remove(op[2] % len(x.children))
        return fn

    try:
        tasks, switches = sched.run([masters] + [body(i, ops) for i, ops in enumerate(case["children"])], case["schedule"])
    except sched.Deadlock as e:
        raise Violation(str(e))
    for t in tasks:
        if t.error:
            raise Violation(f"exception in a thread: {t.error!r}\n{t.error_text}")
    wanted = [c for x in src.items for c in x.children]
    if contents:
        eq(list(m.items), wanted, "items of a flattened list when all threads are done")
    if notifications:
        check(not problems, "; ".join(problems[:3]))
        eq(mirror, list(m.items), "the observer's copy of a flattened list when all threads are done")
    ctx.nontrivial(switches >= 4 and len(set(owned.values()) & {0, 1}) == 2)


@sub("C12", "threads", flat_threads, quick=1200, shards=4)
def run_c12_threads(case, ctx):
    run_flat_threads(case, ctx, True, False)


@sub("C09", "flattened_threads", flat_threads, quick=800, shards=2)
def run_c09_flat_threads(case, ctx):
    run_flat_threads(case, ctx, False, True)


# ---------------------------------------------------------------------------------------------------------------- C13
RULES["C13"] = ("cases are filtered, mapped or flattened lists with several selections (given, made, released) and edits interleaved with selection commands; "
                "non-trivial: an item entered or left below a selected item that stayed")
ASSUMPTIONS["C13"] = ["whether an item that a content change moves to another place stays selected is left open", "where the anchor goes when its own item leaves is left open",
                      "selections after a change of filter, sort key or direction of the list or its source, and after a group of changes that reorders the remaining items of a filtered list, are left open"]
SEL = one_of(st.tuples(st.just("set"), BIG), st.tuples(st.just("add"), BIG), st.tuples(st.just("add"), BIG), st.tuples(st.just("toggle"), BIG), st.tuples(st.just("extend"), BIG), st.just(("clear", 0)))


def selecting(thorough):
    sel_op = st.tuples(st.just("sel"), BIG, SEL)
    GROUP = st.tuples(st.just("group"), st.lists(st.tuples(st.sampled_from(["insert", "insert", "remove", "remove", "change"]), BIG, K, F), max_size=4))
    man = one_of(st.just(("make",)), st.just(("make",)), st.tuples(st.just("release"), BIG))

    def make(kind):
        if kind == "flattened":
            op = one_of(st.tuples(st.just("insert"), BIG, CH, K), st.tuples(st.just("remove"), BIG), st.tuples(st.just("reinsert"), BIG, BIG),
                           st.tuples(st.just("child insert"), BIG, BIG, st.integers(0, 5)), st.tuples(st.just("child insert"), BIG, BIG, st.integers(0, 5)), st.tuples(st.just("child remove"), BIG, BIG),
                           st.tuples(st.just("gone child"), BIG, BIG, st.booleans()), st.tuples(st.just("other list"), BIG), st.tuples(st.just("source"), st.sampled_from([0, 1, None])), sel_op, sel_op, sel_op, man)
            start = st.lists(CH, min_size=1, max_size=4)
        else:
            op = one_of(st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("insert"), BIG, K, F), st.tuples(st.just("remove"), BIG), st.tuples(st.just("remove"), BIG),
                           st.tuples(st.just("change"), BIG, K, F), st.tuples(st.just("change"), BIG, K, F), st.tuples(st.just("insert"), BIG, K, F),
                           one_of(st.tuples(st.just("filter"), FILTER), st.tuples(st.just("sort"), SORT), st.tuples(st.just("reverse"), st.booleans()), st.tuples(st.just("below"), FILTER, SORT)),
                           one_of(GROUP, GROUP, GROUP, st.tuples(st.just("source"), st.sampled_from([0, 1, None])), st.just(("clear",))), sel_op, sel_op, man)
            start = st.lists(st.tuples(K, F), min_size=2, max_size=8)
        return st.fixed_dictionaries({"kind": st.just(kind), "given": st.booleans(), "start": start, "start2": start, "more": MORE, "long": st.booleans(), "filter": FILTER, "sort": SORT, "reverse": st.booleans(), "filtered": st.just(False),
                                      "key": st.booleans(), "init": st.lists(SEL, min_size=1, max_size=4), "ops": st.lists(op, min_size=5, max_size=40 if thorough else 22)})
    return st.sampled_from(["filtered", "filtered", "chained", "mapped", "flattened"]).flatmap(make)


class Leaf:
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"L{self.c}@{id(self) % 1000}"

    def __bool__(self):
        return bool(self.c)


@sub("C13", "selections", selecting, quick=7000, shards=8)
def run_c13(case, ctx):
    kind = case["kind"]
    ctx.label(kind)
    sels = []    # [selection, set of selected items, anchor item or None, released?]
    given = Selection.IndexedSelection() if case["given"] else None
    count = [0]

    def new(k, f):
        count[0] += 1
        return Item(count[0], k, f)

    if kind == "flattened":
        fl = Flat(case, Leaf, selection=given)
        m, sources = fl.m, fl.sources
    else:
        sources = [ListModel.ListModel("src", [new(k, f) for k, f in case["start"] + more(case)]), Sized("src", [new(k, f) for k, f in case["start2"]])]
        if kind in ("filtered", "chained"):
            below = None
            if kind == "chained":
                below = ListModel.FilteredListModel(container=sources[0], master_items_key="src", items_key="mid")
            m = ListModel.FilteredListModel(container=below or sources[0], master_items_key="mid" if below else "src", items_key="out", selection=given)
            m.filter, m.sort_key, m.sort_reverse = FILTERS[case["filter"]](), SORTS[case["sort"]], case["reverse"]
        else:
            m = ListModel.MappedListModel(container=sources[0], master_items_key="src", items_key="out", selection=given, map_fn=lambda x: Mapped(0, x))
    if given:
        sels.append([given, set(), None, False])
    sels.append([m.make_selection(), set(), None, False])
    current = 0
    gone = []
    shifted = False

    def resync(e):
        """Take the state of a selection as it now is (after its own command, or where the outcome is left open)."""
        items = list(m.items)
        e[1] = {items[i] for i in e[0].indexes if 0 <= i < len(items)}
        a = e[0].anchor_index
        e[2] = items[a] if a is not None and 0 <= a < len(items) else None

    def select(e, name, i):
        n = len(m.items)
        if n and name == "clear":
            e[0].clear()
        elif n:
            # an anchor whose item has left may lie outside the list: extending from it is not tried
            getattr(e[0], "set" if name == "extend" and e[2] is None else name)(i % n)
        resync(e)

    def start_over(e):
        e[0].clear()
        resync(e)
        for name, i in case["init"]:
            select(e, name, i)

    for e in sels:
        start_over(e)

    def edit(op):
        nonlocal current
        src = sources[current] if current is not None else None
        if op[0] == "insert" and src is not None:
            x = gone.pop() if gone and op[3] == 0 else new(op[2], op[3])
            moved.add(x)
            src.insert_item(op[1] % (len(src.items) + 1), x)
        elif op[0] == "remove" and src is not None and src.items:
            i = op[1] % len(src.items)
            gone.append(src.items[i])
            src.remove_item(i)
        elif op[0] == "clear" and src is not None and len(src.items) < 4:
            src.clear_items()
        elif op[0] == "change" and src is not None and src.items:
            x = src.items[op[1] % len(src.items)]
            x.k, x.f = op[2], op[3]
            moved.add(x)
            x.item_changed_event.fire()

    for op in case["ops"]:
        before = list(m.items)
        moved = set()      # items whose content changes or that enter; those that were in the list before may be moved
        left_open = False
        frozen = [(set(e[0].indexes), e[0].anchor_index) for e in sels]
        replaced = False
        if op[0] == "sel":
            e = sels[op[1] % len(sels)]
            if before and not e[3]:
                select(e, *op[2])
            continue
        elif op[0] == "make":
            if len(sels) < 5:
                sels.append([m.make_selection(), set(), None, False])
                start_over(sels[-1])
            continue
        elif op[0] == "release":
            e = sels[op[1] % len(sels)]
            if not e[3]:
                m.release_selection(e[0])
                e[3] = True
                ctx.label("released")
            continue
        elif kind == "flattened":
            fl.do(op)
            replaced = op[0] == "source"
        elif op[0] in ("filter", "sort", "reverse"):
            if kind not in ("filtered", "chained"):
                continue
            if op[0] == "filter":
                m.filter = FILTERS[op[1]]()
            elif op[0] == "sort":
                m.sort_key = SORTS[op[1]]
            else:
                m.sort_reverse = op[1]
            left_open = True
        elif op[0] == "group":
            with m.changes():
                for o in op[1]:
                    edit(o)
            ctx.label("group")
        elif op[0] == "below":
            if kind != "chained":
                continue
            below.filter, below.sort_key = FILTERS[op[1]](), SORTS[op[2]]
            left_open = True
        elif op[0] == "source":
            current = op[1]
            (m if kind != "chained" else below).container = sources[current] if current is not None else None
            gone.clear()
            replaced = True
        else:
            edit(op)
        after = list(m.items)
        position = {x: i for i, x in enumerate(after)}
        was = {x: i for i, x in enumerate(before)}
        moved &= set(was)
        stayed = [x for x in after if x in was]
        if op[0] == "group" and stayed != [x for x in before if x in position]:
            left_open = True
        for e, (old_indexes, old_anchor) in zip(sels, frozen):
            if e[3]:
                check(set(e[0].indexes) == old_indexes and e[0].anchor_index == old_anchor, f"a released selection was changed by {op}", e[0].indexes, old_indexes)
                continue
            if left_open:
                start_over(e)
                continue
            if replaced:
                check(not e[0].has_selection, f"items of the replaced source are still selected after {op}", e[0].indexes)
                start_over(e)
                continue
            expected = {position[x] for x in e[1] if x in position and x not in moved}
            actual = set(e[0].indexes) - {position[x] for x in moved if x in position}
            eq(actual, expected, f"selected indexes after {op}, before: {before}, selected {e[1]}, after: {after}")
            if e[2] is not None and e[2] not in moved and e[2] in position:
                eq(e[0].anchor_index, position[e[2]], f"anchor after {op}, before: {before}, anchor at {e[2]}, after: {after}")
                if position[e[2]] != was[e[2]]:
                    ctx.label("anchor shifted")
            if any(x in position and position[x] != was[x] for x in e[1]):
                shifted = True
            resync(e)
    ctx.nontrivial(shifted)
