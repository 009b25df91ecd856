"""C10 list filters."""
import copy, datetime

from hypothesis import strategies as st

from core import one_of, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import ListModel

RULES["C10"] = ("cases are filter trees (up to four deep) evaluated on several items, originally, deep copied, and after the lists they were built from have been changed; "
                "non-trivial: the filter accepts some of the case's items and rejects others")
ASSUMPTIONS["C10"] = ["date parts are positive numbers or absent", "attribute values are of the type the filter expects"]

TEXT = one_of(st.text("aAbB.*[( ", max_size=5), st.text(max_size=4), st.sampled_from(["", "a", "A.b", "a ", " B", "a  b", "straße", "İ", "ß", "Σ", "x*", "[a"]))
NUM = st.integers(-2, 2)
ITEM = st.fixed_dictionaries({"n": one_of(NUM, st.none()), "m": NUM, "t": TEXT, "u": TEXT, "d": st.tuples(st.sampled_from([2019, 2020, 2021]), st.integers(1, 12), st.integers(1, 28)), "any": one_of(NUM, TEXT, st.none(), st.booleans())})
PART = lambda s: one_of(st.none(), s)
CMPS = {"default": None, "lt": lambda a, b: a < b, "mod": lambda a, b: a % 2 == b % 2}

LEAF = one_of(
    st.tuples(st.just("const"), one_of(st.booleans(), st.none())),
    st.tuples(st.just("eq"), st.sampled_from(["n", "m", "any"]), one_of(NUM, NUM, st.none(), TEXT), st.just("default")),
    st.tuples(st.just("neq"), st.sampled_from(["n", "m", "any"]), one_of(NUM, NUM, st.none(), TEXT), st.just("default")),
    st.tuples(st.sampled_from(["eq", "neq"]), st.just("m"), NUM, st.sampled_from(["lt", "mod"])),
    st.tuples(st.just("starts"), st.sampled_from(["t", "u"]), TEXT),
    st.tuples(st.just("text"), st.sampled_from(["t", "u", "any", "m"]), TEXT),
    st.tuples(st.just("date"), PART(st.sampled_from([2019, 2020])), PART(st.integers(1, 4)), PART(st.integers(1, 6))),
    st.tuples(st.just("pred"), st.sampled_from(["odd", "short"])))


def tree(depth):
    return st.recursive(LEAF, lambda s: one_of(st.tuples(st.just("not"), s), st.tuples(st.sampled_from(["and", "or"]), st.lists(s, max_size=3))), max_leaves=depth)


def cases(thorough):
    return st.fixed_dictionaries({"filter": tree(12 if thorough else 6), "items": st.lists(ITEM, min_size=1, max_size=5), "related": st.booleans(), "extra": LEAF, "as_tuple": st.booleans(), "wide": st.sampled_from([0] * 11 + [5, 9, 20, 40])})


class Shown:
    """Not a text, but shown as one."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    __repr__ = __str__


class Item:
    def __init__(self, d):
        for k, v in d.items():
            setattr(self, k, v)
        self.d = datetime.datetime(*d["d"]) if d["d"] else None


PREDS = {"odd": lambda x: x.m % 2 == 1, "short": lambda x: len(x.t) < 2}


def build(f, lists):
    k = f[0]
    if k == "const":
        return ListModel.Filter() if f[1] is None else ListModel.Filter(f[1])
    if k in ("eq", "neq"):
        cls = ListModel.EqFilter if k == "eq" else ListModel.NotEqFilter
        return cls(f[1], f[2], CMPS[f[3]]) if f[3] != "default" else cls(f[1], f[2])
    if k == "starts":
        return ListModel.StartsWithFilter(f[1], f[2])
    if k == "text":
        return ListModel.TextFilter(f[1], f[2])
    if k == "date":
        return ListModel.PartialDateFilter("d", f[1], f[2], f[3])
    if k == "pred":
        return ListModel.PredicateFilter(PREDS[f[1]])
    if k == "not":
        return ListModel.NotFilter(build(f[1], lists))
    parts = [build(x, lists) for x in f[1]]
    lists.append(parts)
    cls = ListModel.AndFilter if k == "and" else ListModel.OrFilter
    return cls(parts) if parts or len(lists) % 2 else cls()


def accepts(f, x):
    k = f[0]
    if k == "const":
        return bool(f[1])
    if k in ("eq", "neq"):
        v = getattr(x, f[1])
        r = bool(v == f[2] if f[3] == "default" else CMPS[f[3]](v, f[2]))
        return r == (k == "eq")
    if k == "starts":
        return getattr(x, f[1])[:len(f[2])] == f[2]
    if k == "text":
        return f[2].lower() in str(getattr(x, f[1])).lower()
    if k == "date":
        return all(p is None or p == q for p, q in zip(f[1:], (x.d.year, x.d.month, x.d.day)))
    if k == "pred":
        return PREDS[f[1]](x)
    if k == "not":
        return not accepts(f[1], x)
    return all(accepts(y, x) for y in f[1]) if k == "and" else any(accepts(y, x) for y in f[1])


def leaves(f):
    if f[0] == "not":
        yield from leaves(f[1])
    elif f[0] in ("and", "or"):
        for x in f[1]:
            yield from leaves(x)
    else:
        yield f


@sub("C10", "trees", cases, quick=6000, shards=6)
def run(case, ctx):
    wide = case.get("wide", 0)
    if wide:
        # the filter stands among many others that leave its answer as it is
        neutral = [["const", True], ["or", [["const", True]]], ["not", ["const", False]]] if case["as_tuple"] else [["const", False], ["and", [["const", False]]], ["not", ["const", True]]]
        case = dict(case, filter=["and" if case["as_tuple"] else "or", [neutral[i % 3] for i in range(wide)] + [case["filter"]] + [neutral[0]] * (wide % 4)])
        ctx.label("many filters")
    specs = [dict(d) for d in case["items"]]
    if case["related"]:
        # items made so that the conditions of the filter are met now and then
        d = specs[-1]
        for f in leaves(case["filter"]):
            ctx.label(f[0])
            if f[0] in ("eq", "neq") and (f[1] == "any" or isinstance(f[2], int)):
                specs.append({**d, f[1]: f[2]})
            elif f[0] == "starts":
                specs.append({**d, f[1]: f[2] + d["u"]})
            elif f[0] == "text" and f[1] != "m":
                specs.append({**d, f[1]: d["u"] + f[2].swapcase() + d["t"]})
                if f[1] == "any":
                    specs.append({**d, f[1]: Shown(d["u"] + f[2].swapcase() + d["t"])})
                if f[2].strip() != f[2]:
                    specs.append({**d, f[1]: d["u"].strip() + f[2].strip() + d["t"].strip()})
            elif f[0] == "date":
                specs.append({**d, "d": [p or q for p, q in zip(f[1:], d["d"])]})
    # texts whose comparison ignoring case depends on how case is removed are left open
    items = [x for x in map(Item, specs) if all((f[2].lower() in str(getattr(x, f[1])).lower()) == (f[2].casefold() in str(getattr(x, f[1])).casefold()) for f in leaves(case["filter"]) if f[0] == "text")]
    lists = []
    flt = build(case["filter"], lists)
    expected = [accepts(case["filter"], x) for x in items]

    def verify(f, what):
        for x, e in zip(items, expected):
            r = f.matches(x)
            check(bool(r) == e, f"{what} of {case['filter']} on {vars(x)}", r, e)

    verify(flt, "answer")
    duplicate = copy.deepcopy(flt)
    check(duplicate is not flt, "deep copy is a copy")
    verify(duplicate, "answer of the deep copy")
    again = copy.deepcopy([duplicate, duplicate])
    verify(again[0], "answer of a deep copied deep copy")
    extra = build(case["extra"], [])
    for l in lists:
        l.append(extra)
        l.insert(0, ListModel.Filter(False))
        l.append(ListModel.Filter(True))
    verify(flt, "answer after the list of filters was changed")
    verify(duplicate, "answer of the deep copy after the list of filters was changed")
    ctx.nontrivial(len(set(expected)) == 2)
