"""C14 selection commands."""
from hypothesis import strategies as st

from core import one_of, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Selection

RULES["C14"] = ("cases are a style and a sequence of selection commands (and shifts by inserted or removed rows); non-trivial: at least three commands altered the selection, or, under a style that "
                "limits it, a command was limited")
ASSUMPTIONS["C14"] = ["remove is used for selected indexes only (it is an error otherwise)", "where the anchor goes when its index is deselected or its row removed is left open",
                      "the anchor after set_multiple is any of the given indexes"]
I = one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.integers(0, 100))
FAR = one_of(st.integers(0, 9), st.sampled_from([16, 31, 32, 33, 64, 65, 100, 1000, 40, 72]))
STYLES = ["none", "single", "single_or_none", "multiple", "multiple", "default"]


def cases(thorough):
    op = one_of(st.tuples(st.just("set"), I), st.tuples(st.just("add"), I), st.tuples(st.just("add"), I), st.tuples(st.just("remove"), I), st.tuples(st.just("toggle"), I), st.tuples(st.just("toggle"), I),
                st.tuples(st.just("add_range"), I, one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, 40)), st.sampled_from([1, 2, 1, -1, -2])), st.tuples(st.just("set_multiple"), st.lists(I, max_size=4)), st.tuples(st.just("extend"), I), st.tuples(st.just("extend"), I),
                st.just(("clear",)), st.tuples(st.just("insert_index"), I), st.tuples(st.just("remove_index"), I), st.tuples(st.just("anchor"), one_of(st.none(), I)))
    far = st.sampled_from(["set", "add", "add", "toggle", "extend", "extend", "insert_index", "remove_index"])
    op = one_of(*[op] * 7, st.tuples(far, FAR))
    return st.fixed_dictionaries({"style": st.sampled_from(STYLES), "ops": st.lists(op, min_size=3, max_size=40 if thorough else 18)})


@sub("C14", "commands", cases, quick=8000, shards=6)
def run(case, ctx):
    style = case["style"]
    s = Selection.IndexedSelection() if style == "default" else Selection.IndexedSelection(Selection.Style[style])
    style = "multiple" if style == "default" else style
    fired = []
    listener = s.changed_event.listen(lambda: fired.append(sorted(s.indexes)))
    altered = limited = 0
    ctx.label(style)

    def expect(indexes, anchor, name, arg):
        """Selected indexes after one command step, and the anchor if it is determined (else ...)."""
        if style == "none":
            return set(), ...
        one = style in ("single", "single_or_none")
        if name == "set" or (name in ("add", "extend") and one):
            return {arg}, arg
        if name == "add":
            return indexes | {arg}, (arg if not indexes else anchor)
        if name == "remove":
            if style == "single":
                return set(indexes), anchor
            return indexes - {arg}, (anchor if anchor != arg and anchor in indexes - {arg} else ...)
        if name == "toggle":
            return expect(indexes, anchor, "remove" if arg in indexes else "add", arg)
        if name == "extend":
            if anchor is None:
                return indexes | {arg}, arg
            return indexes | set(range(min(anchor, arg), max(anchor, arg) + 1)), anchor
        if name == "set_multiple":
            if one:
                return expect(indexes, anchor, "set", arg[0]) if len(set(arg)) == 1 else expect(indexes, anchor, "clear", None)
            return set(arg), ("member" if arg else None)
        if name == "clear":
            return ({0}, 0) if style == "single" else (set(), None)
        raise AssertionError(name)

    def step(name, arg, call):
        nonlocal altered, limited
        before, anchor = set(s.indexes), s.anchor_index
        fired.clear()
        call()
        expected, expected_anchor = expect(before, anchor, name, arg)
        what = f"{name}({arg}) under style {style} on {sorted(before)} with anchor {anchor}"
        eq(set(s.indexes), expected, f"selected indexes after {what}")
        eq(fired, [sorted(expected)] if expected != before else [], f"changed events of {what}")
        if expected_anchor == "member":
            check(s.anchor_index in expected, f"anchor after {what}", s.anchor_index)
        elif expected_anchor is not ...:
            eq(s.anchor_index, expected_anchor, f"anchor after {what}")
        if expected != before:
            altered += 1
        if style == "single" and before:
            check(s.has_selection, f"{what} emptied the selection")
        if style != "multiple" and name in ("add", "extend", "set_multiple", "remove", "clear"):
            limited += 1

    for op in case["ops"]:
        name = op[0]
        if name == "anchor":
            s.anchor_index = op[1]
            eq(s.anchor_index, op[1], "anchor set explicitly")
        elif name == "insert_index":
            before = set(s.indexes)
            s.insert_index(op[1])
            eq(set(s.indexes), {i + 1 if i >= op[1] else i for i in before}, f"indexes {sorted(before)} after a row was inserted at {op[1]}")
        elif name == "remove_index":
            before = set(s.indexes)
            s.remove_index(op[1])
            eq(set(s.indexes), {i - 1 if i > op[1] else i for i in before if i != op[1]}, f"indexes {sorted(before)} after row {op[1]} was removed")
        elif name == "add_range":
            r = range(op[1], op[1] + op[2], abs(op[3]))[::-1 if op[3] < 0 else 1]
            # one command step per index
            before, anchor = set(s.indexes), s.anchor_index
            expected, steps = before, []
            a = anchor
            for i in r:
                new, a2 = expect(expected, a, "add", i)
                a = a2 if a2 is not ... else a
                if new != expected:
                    steps.append(sorted(new))
                expected = new
            fired.clear()
            s.add_range(r)
            eq(set(s.indexes), expected, f"selected indexes after add_range({r}) under style {style} on {sorted(before)}")
            if style == "multiple":
                check(len(fired) <= len(steps) and (len(fired) > 0) == bool(steps) and (not fired or fired[-1] == sorted(expected)), f"changed events of add_range({r})", fired, steps)
                if not before and len(r):
                    check(s.anchor_index in expected, "anchor after adding a range", s.anchor_index)
            else:
                check((len(fired) > 0) >= (before != expected) and len(fired) <= len(steps), f"changed events of add_range({r})", fired, steps)
            altered += before != expected
        elif name == "remove":
            if s.indexes and style != "none":
                i = sorted(s.indexes)[op[1] % len(s.indexes)]
                step("remove", i, lambda: s.remove(i))
            elif style == "none":
                step("remove", op[1], lambda: s.remove(op[1]))
        elif name == "set_multiple":
            arg = list(dict.fromkeys(op[1]))
            step("set_multiple", arg, lambda: s.set_multiple(set(arg)))
        elif name == "clear":
            step("clear", None, s.clear)
        else:
            step(name, op[1], lambda: getattr(s, name)(op[1]))
        indexes = set(s.indexes)
        if name not in ("insert_index", "remove_index", "anchor"):
            check(len(indexes) <= {"none": 0, "single": 1, "single_or_none": 1, "multiple": 10 ** 6}[style], f"number of selected indexes under style {style}", indexes)
        expected_order = sorted(indexes)
        if s.anchor_index in indexes:
            expected_order.remove(s.anchor_index)
            expected_order.insert(0, s.anchor_index)
        eq(list(s.ordered_indexes), expected_order, f"ordered indexes with anchor {s.anchor_index}")
        eq(s.current_index, list(indexes)[0] if len(indexes) == 1 else None, "current index")
        eq(s.has_selection, bool(indexes), "has_selection")
        check(all(s.contains(i) == (i in indexes) for i in [*range(-1, 25), *indexes, *(i + 1 for i in indexes)]), "contains", indexes)
        t = Selection.IndexedSelection()
        t.set_multiple(indexes)
        t.anchor_index = s.anchor_index
        check((s == t) is True and (s != t) is False, "selections with equal indexes and anchor are equal")
        t.toggle(3)
        t.anchor_index = s.anchor_index
        check((s == t) is False and (s != t) is True, "selections with different indexes are not equal")
        t.set_multiple(indexes)
        t.anchor_index = 77 if s.anchor_index is None else None
        eq(set(t.indexes), indexes, "indexes of a copy")
        check((s == t) is False and (s != t) is True, "selections with different anchors are not equal")
        for other in (None, 3, "x", sorted(indexes), indexes):
            check((s == other) is False and (s != other) is True, "a selection is not equal to anything else", other)
    ctx.nontrivial(altered >= 3 or (style != "multiple" and limited >= 1))
