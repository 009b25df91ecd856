"""C24 the component registry."""
import itertools
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Registry

RULES["C24"] = ("cases are histories of registering and unregistering up to six components, with and without priorities, for sets of up to five types, including refused ones, with lookups after every step; "
                "non-trivial: a lookup had to choose between components of different priorities, or a refused operation")
ASSUMPTIONS["C24"] = ["registrations name at least one type", "components are compared by identity"]

BIG = st.integers(0, 60)
TYPES = st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True)
PRIORITY = one_of(st.none(), st.sampled_from([0, 49, 50, 51, 100]), st.integers(0, 100), st.sampled_from([49.5, 50.5]))


def cases(thorough):
    op = one_of(st.tuples(st.just("register"), BIG, TYPES), st.tuples(st.just("register"), BIG, TYPES), st.tuples(st.just("register new"), BIG, TYPES), st.tuples(st.just("unregister"), BIG), st.tuples(st.just("unregister"), BIG, TYPES),
                st.tuples(st.just("unregister some"), BIG, BIG), st.tuples(st.just("unregister some"), BIG, BIG), st.tuples(st.just("existing"), st.integers(0, 4)), st.tuples(st.just("existing"), st.integers(0, 4), BIG, TYPES), st.tuples(st.just("unregister all"), st.integers(0, 4)), st.tuples(st.just("priority"), BIG, PRIORITY))
    return st.fixed_dictionaries({"priorities": st.lists(PRIORITY, min_size=2, max_size=6), "crowd": st.sampled_from([0] * 9 + [8, 20, 40]), "ops": st.lists(op, min_size=5, max_size=50 if thorough else 30), "manager": st.booleans()})


class Component:
    def __init__(self, k, priority):
        self.k = k
        if priority is not None:
            self.priority = priority

    def __repr__(self):
        return f"c{self.k}(priority {getattr(self, 'priority', None)})"


_case = itertools.count()


@sub("C24", "history", cases, quick=6000, shards=6)
def run(case, ctx):
    prefix = f"type-{next(_case)}-"
    name = lambda t: prefix + str(t)
    comps = [Component(k, p) for k, p in enumerate(case["priorities"])]
    # many further components of the first two types, of middling priority
    crowd = [Component(k, [30, None, 40, 50][k % 4]) for k in range(len(comps), len(comps) + case.get("crowd", 0))]
    comps += crowd
    model = {c: set() for c in comps}
    log = []
    listeners = [Registry.listen_component_registered_event(lambda c, ts: log.append(("+", c, frozenset(ts)))), Registry.listen_component_unregistered_event(lambda c, ts: log.append(("-", c, frozenset(ts))))]

    def cleanup():
        for c in comps:
            if model[c]:
                Registry.unregister_component(c)
        for l in listeners:
            l.close()
    ctx.defer(cleanup)
    for c in crowd:
        model[c] = {name(0), name(1)} if c.k % 2 else {name(1)}
        Registry.register_component(c, set(model[c]))

    looked_up = {}

    def priority(c):
        return getattr(c, "priority", 50)

    for op in case["ops"]:
        log.clear()
        expected = []
        c = comps[op[1] % (len(comps) if op[1] % 3 else len(case["priorities"]))]
        if op[0] in ("register", "register new"):
            types = {name(t) for t in op[2]}
            if op[0] == "register new":
                types -= model[c]
                if not types:
                    continue
            passed = set(types)
            if types & model[c]:
                try:
                    Registry.register_component(c, passed)
                except Exception:
                    ctx.label("registration refused")
                    ctx.nontrivial(types - model[c])
                else:
                    raise Violation("registering a component again for a type was not refused")
            else:
                Registry.register_component(c, passed)
                model[c] |= types
                expected = [("+", c, frozenset(types))]
            passed.clear()
            passed.add("something else")
        elif op[0] in ("unregister", "unregister some"):
            if op[0] == "unregister some":
                types = {t for i, t in enumerate(sorted(model[c])) if op[2] >> i & 1}
                if not types:
                    continue
                ctx.label("partly unregistered" if types != model[c] else "unregistered by types")
            else:
                types = {name(t) for t in op[2]} if len(op) > 2 else None
            wanted = set(model[c]) if types is None else types
            passed = None if types is None else set(types)
            if not wanted or wanted - model[c]:
                try:
                    Registry.unregister_component(c, passed) if passed is not None else Registry.unregister_component(c)
                except Exception:
                    ctx.label("unregistration refused")
                    ctx.nontrivial(wanted & model[c])
                else:
                    raise Violation("unregistering a component that is not registered was not refused")
            else:
                Registry.unregister_component(c, passed) if passed is not None else Registry.unregister_component(c)
                model[c] -= wanted
                expected = [("-", c, frozenset(wanted))]
        elif op[0] == "existing":
            t = name(op[1])
            expected = [("+", c, frozenset([t])) for c in comps if t in model[c]]
            if len(op) > 2 and expected:
                # a listener registers another component while the existing ones are announced
                other = comps[op[2] % len(comps)]
                types = {name(x) for x in op[3]} - model[other]
                done = []

                def act(c, ts):
                    if types and not done:
                        done.append(1)
                        Registry.register_component(other, set(types))
                with Registry.listen_component_registered_event(act):
                    Registry.fire_existing_component_registered_events(t)
                if types:
                    check(done, "no component was announced")
                    model[other] |= types
                    expected.append(("+", other, frozenset(types)))
                    ctx.label("registered while announcing")
            else:
                Registry.fire_existing_component_registered_events(t)
        elif op[0] == "unregister all":
            t = name(op[1])
            for c in Registry.get_components_by_type(t):
                Registry.unregister_component(c, {t})
            expected = [("-", c, frozenset([t])) for c in comps if t in model[c]]
            for c in comps:
                model[c].discard(t)
        else:
            if op[2] is None:
                c.__dict__.pop("priority", None)
            else:
                c.priority = op[2]
        key = lambda e: (e[0], e[1].k, sorted(e[2]))
        eq(sorted(log, key=key), sorted(expected, key=key), f"announcements of {op}")
        for t, (found, ks) in looked_up.items():
            eq(sorted(x.k for x in found), ks, f"components looked up before {op}")
        for t in map(name, range(5)):
            found = Registry.ComponentManager().get_components_by_type(t) if case["manager"] else Registry.get_components_by_type(t)
            wanted = [c for c in comps if t in model[c]]
            eq(sorted((x.k for x in found)), [c.k for c in wanted], f"components of a type after {op}")
            looked_up[t] = found, [c.k for c in wanted]
            one = Registry.get_component(t)
            if not wanted:
                check(one is None, "lookup of a type without components", one)
            else:
                check(one in wanted, "lookup returned a component not registered for the type", one)
                eq(priority(one), max(map(priority, wanted)), f"priority of the component chosen among {wanted}")
                ctx.nontrivial(len(set(map(priority, wanted))) > 1)
