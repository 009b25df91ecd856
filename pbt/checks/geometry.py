"""C27 plane arithmetic, C28 fitting, mapping and rotating."""
import math
from fractions import Fraction
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Geometry as G

RULES["C27"] = ("cases are points, sizes and rectangles with integer coordinates up to 2^40 or float coordinates that are multiples of 1/64 (so that arithmetic is exact), with coinciding, touching, nested, overlapping and empty rectangles; "
                "the oracle is arithmetic on pairs of exact numbers; non-trivial: two rectangles of positive size, or values with both coordinates different from zero")
RULES["C28"] = ("cases are rectangles of positive size, ratios, points and angles over several magnitudes; the oracle is the geometric relation itself, to a relative tolerance of 1e-9; non-trivial: sizes and ratios other than one, angles other than zero")
ASSUMPTIONS["C27"] = ["sizes are not negative", "multiples of integer sizes are exact integers"]
ASSUMPTIONS["C28"] = ["sizes are positive", "coordinates are not so different in magnitude that floats cannot represent the result"]

SMALL = st.integers(-6, 6)
COORD = one_of(SMALL, SMALL, SMALL, st.integers(-1000, 1000), st.integers(-2 ** 40, 2 ** 40))
SIZE = one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), st.integers(0, 1000), st.integers(0, 2 ** 40))
PAIR = st.tuples(COORD, COORD)
RECT = st.tuples(PAIR, st.tuples(SIZE, SIZE))
REL = st.tuples(st.sampled_from(["free", "free", "free", "same", "edge", "corner", "inside", "gap", "cover"]), RECT)


def relate(a, rel):
    """A second rectangle, related to the first."""
    kind, b = rel
    (t, l), (h, w) = a
    (bt, bl), (bh, bw) = b
    if kind == "same":
        return a
    if kind == "edge":
        return ((t, l + w), (bh, bw)) if bt % 2 else ((t + h, bl), (bh, bw))
    if kind == "corner":
        return (t + h, l + w), (bh, bw)
    if kind == "inside":
        return (t + h // 3, l + w // 3), (h // 3, w // 3)
    if kind == "gap":
        return (t + h + 1, l), (bh, bw)
    if kind == "cover":
        return (t - 1, l - 2), (h + 2, w + 5)
    return b


def c27_cases(thorough):
    return st.fixed_dictionaries({"float": st.booleans(), "a": PAIR, "b": PAIR, "r": RECT, "s": REL, "p": st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6), PAIR), min_size=3, max_size=8), "k": st.integers(-9, 9), "d": st.integers(1, 9), "i": st.tuples(st.integers(-3, 5), one_of(st.none(), st.integers(-3, 5)))})


@sub("C27", "arithmetic", c27_cases, quick=9000, shards=6)
def run_c27(case, ctx):
    fl = case["float"]
    unit = Fraction(1, 64) if fl else 1
    num = (lambda x: float(x * unit)) if fl else (lambda x: x)
    P, Z, R = (G.FloatPoint, G.FloatSize, G.FloatRect) if fl else (G.IntPoint, G.IntSize, G.IntRect)
    T = float if fl else int

    def pair(v, cls, y, x, what):
        """v is an instance of cls with these coordinates."""
        check(isinstance(v, cls), f"{what} is of another class", v)
        got = (v.y, v.x) if cls is P else (v.height, v.width)
        check(type(got[0]) is T and type(got[1]) is T, f"coordinates of {what} are of another type", got)
        eq(got, (y, x), what)
        eq(tuple(v), (y, x), f"iteration of {what}")
        eq((v[0], v[1], v[-1], len(tuple(v))), (y, x, x, 2), f"indexing of {what}")
        check((v == cls(y, x)) is True and (v != cls(y, x)) is False and (v == (y, x)) is True and (v != (y, x)) is False, f"comparison of {what}")
        check((v == cls(y, x + 1)) is False and (v != cls(y, x + 1)) is True and (v == cls(y + 1, x)) is False and (v != cls(y + 1, x)) is True, f"comparison of {what}, which differs")
        check((v == None) is False and (v != None) is True, f"comparison of {what} to None")

    ay, ax = map(num, case["a"])
    by, bx = map(num, case["b"])
    k, d = case["k"], 2 ** (case["d"] % 4) if fl else case["d"]
    a, b = P(y=ay, x=ax), P(by, bx)
    pair(a, P, ay, ax, "a point")
    pair(P.make((ay, ax)), P, ay, ax, "a point made of a tuple")
    pair(P.make(a), P, ay, ax, "a point made of a point")
    pair(P(), P, T(0), T(0), "the origin")
    pair(-a, P, -ay, -ax, "a negated point")
    pair(a + b, P, ay + by, ax + bx, "a sum of points")
    pair(a - b, P, ay - by, ax - bx, "a difference of points")
    pair(a + Z(by, bx), P, ay + by, ax + bx, "a sum of point and size")
    pair(a - Z(by, bx), P, ay - by, ax - bx, "a difference of point and size")
    eq(a == b, (ay, ax) == (by, bx), "equality of points")
    eq(a != b, (ay, ax) != (by, bx), "inequality of points")
    check(math.isclose(abs(a), math.hypot(ay, ax), rel_tol=1e-12), "length of a point", abs(a))
    za, zb = Z(height=ay, width=ax), Z(h=by, w=bx)
    pair(za, Z, ay, ax, "a size")
    pair(zb, Z, by, bx, "a size given by h and w")
    pair(Z.make((ay, ax)), Z, ay, ax, "a size made of a tuple")
    pair(Z(), Z, T(0), T(0), "the empty size")
    pair(-za, Z, -ay, -ax, "a negated size")
    pair(za + zb, Z, ay + by, ax + bx, "a sum of sizes")
    pair(za - zb, Z, ay - by, ax - bx, "a difference of sizes")
    pair(za + (by, bx), Z, ay + by, ax + bx, "a sum of size and tuple")
    pair(za * k, Z, ay * k, ax * k, "a multiple of a size")
    pair(k * za, Z, ay * k, ax * k, "a multiple of a size")
    eq(za == zb, (ay, ax) == (by, bx), "equality of sizes")
    eq(za != zb, (ay, ax) != (by, bx), "inequality of sizes")
    check(math.isclose(abs(za), math.hypot(ay, ax), rel_tol=1e-12), "length of a size", abs(za))
    check(math.isclose(za.aspect_ratio, float(ax) / float(ay) if ay else 1.0, rel_tol=1e-12), "aspect ratio of a size", za.aspect_ratio)
    if fl:
        pair(a * k, P, ay * k, ax * k, "a multiple of a point")
        pair(k * a, P, ay * k, ax * k, "a multiple of a point")
        pair(a / d, P, ay / d, ax / d, "a fraction of a point")
        pair(za / d, Z, ay / d, ax / d, "a fraction of a size")
        for f in (0.5, -1.25):
            pair(za * f, Z, ay * f, ax * f, "a multiple of a size")
            pair(f * za, Z, ay * f, ax * f, "a multiple of a size")
            pair(a * f, P, ay * f, ax * f, "a multiple of a point")
            pair(f * a, P, ay * f, ax * f, "a multiple of a point")
    else:
        q = Z(abs(ay), abs(ax)) // d
        pair(q, Z, abs(ay) // d, abs(ax) // d, "a fraction of a size")
        if abs(ay) < 10 ** 6 and abs(ax) < 10 ** 6:
            for f in (0.5, 1.25, 2.0, 2.5, 4.0):
                q = Z(abs(ay), abs(ax))
                pair(q * f, Z, math.floor(abs(ay) * f), math.floor(abs(ax) * f), "a multiple of a size")
                pair(f * q, Z, math.floor(abs(ay) * f), math.floor(abs(ax) * f), "a multiple of a size")
                pair(q // f, Z, abs(ay) // f, abs(ax) // f, "a fraction of a size")
        f = a.to_float_point()
        check(isinstance(f, G.FloatPoint) and tuple(f) == (float(ay), float(ax)), "a point converted to floats", f)
        f = za.to_float_size()
        check(isinstance(f, G.FloatSize) and tuple(f) == (float(ay), float(ax)), "a size converted to floats", f)

    # rectangles
    raw_r = case["r"]
    raw_s = relate(raw_r, case["s"])
    ctx.label("second rectangle: " + case["s"][0])
    ctx.nontrivial(all(raw_r[1]) and all(raw_s[1]))

    def rect(v, t, l, h, w, what):
        check(isinstance(v, R), f"{what} is of another class", v)
        check(isinstance(v.origin, P) and isinstance(v.size, Z), f"origin and size of {what} are of another class")
        eq((v.top, v.left, v.height, v.width), (t, l, h, w), what)
        eq((v.bottom, v.right), (t + h, l + w), f"far edges of {what}")
        eq((tuple(v.origin), tuple(v.size)), ((t, l), (h, w)), f"origin and size of {what}")
        eq((tuple(v.top_left), tuple(v.top_right), tuple(v.bottom_left), tuple(v.bottom_right)), ((t, l), (t, l + w), (t + h, l), (t + h, l + w)), f"corners of {what}")
        eq(tuple(v), ((t, l), (h, w)), f"iteration of {what}")
        eq((v[0], v[1]), ((t, l), (h, w)), f"indexing of {what}")
        c = v.center
        check(isinstance(c, P), f"centre of {what} is of another class")
        if fl:
            eq(tuple(c), (t + h / 2, l + w / 2), f"centre of {what}")
        else:
            eq(tuple(c), ((t + t + h) // 2, (l + l + w) // 2), f"centre of {what}")
            eq(v.slice, (slice(t, t + h), slice(l, l + w)), f"slices of {what}")
        check(math.isclose(v.aspect_ratio, float(w) / float(h) if h else 1.0, rel_tol=1e-12), f"aspect ratio of {what}", v.aspect_ratio)
        check((v == R((t, l), (h, w))) is True and (v != R((t, l), (h, w))) is False and (v == ((t, l), (h, w))) is True, f"comparison of {what}")
        check((v == None) is False and (v != None) is True, f"comparison of {what} to None")
        for o in (R((t + 1, l), (h, w)), R((t, l + 1), (h, w)), R((t, l), (h + 1, w)), R((t, l), (h, w + 1))):
            check((v == o) is False and (v != o) is True, f"comparison of {what} and another")

    (t, l), (h, w) = [tuple(map(num, x)) for x in raw_r]
    (t2, l2), (h2, w2) = [tuple(map(num, x)) for x in raw_s]
    r, s = R((t, l), (h, w)), R(origin=P(y=t2, x=l2), size=Z(height=h2, width=w2))
    rect(r, t, l, h, w, "a rectangle")
    rect(s, t2, l2, h2, w2, "a rectangle")
    rect(R.make(((t, l), (h, w))), t, l, h, w, "a rectangle made of tuples")
    rect(R.make(r), t, l, h, w, "a rectangle made of a rectangle")
    rect(R.from_tlbr(t, l, t + h, l + w), t, l, h, w, "a rectangle made of its edges")
    rect(R.from_tlhw(t, l, h, w), t, l, h, w, "a rectangle made of its top, left, height and width")
    rect(R.from_center_and_size(r.center, r.size), t, l, h, w, "a rectangle made of its centre and size")
    eq(r == s, (t, l, h, w) == (t2, l2, h2, w2), "equality of rectangles")
    eq(r != s, (t, l, h, w) != (t2, l2, h2, w2), "inequality of rectangles")
    rect(r + a, t + ay, l + ax, h, w, "a rectangle plus a point")
    rect(a + r, t + ay, l + ax, h, w, "a point plus a rectangle")
    rect(r - a, t - ay, l - ax, h, w, "a rectangle minus a point")
    rect(r.translated(a), t + ay, l + ax, h, w, "a translated rectangle")
    rect(r.translated((ay, ax)), t + ay, l + ax, h, w, "a rectangle translated by a tuple")
    rect(r.translated(za), t + ay, l + ax, h, w, "a rectangle translated by a size")
    dx, dy = num(case["i"][0]), None if case["i"][1] is None else num(case["i"][1])
    ey = dx if dy is None else dy
    ins = r.inset(dx) if dy is None else r.inset(dx, dy)
    eq((ins.top, ins.left, ins.bottom, ins.right), (t + ey, l + dx, t + h - ey, l + w - dx), "edges of an inset rectangle")
    inter, union = r.intersect(s), r.union(s)
    check(isinstance(inter, R) and isinstance(union, R), "class of an intersection or union")
    rect(union, min(t, t2), min(l, l2), max(t + h, t2 + h2) - min(t, t2), max(l + w, l2 + w2) - min(l, l2), "a union")
    touch = max(t, t2) <= min(t + h, t2 + h2) and max(l, l2) <= min(l + w, l2 + w2)
    eq(r.intersects_rect(s), touch, "whether two rectangles intersect")
    eq(s.intersects_rect(r), touch, "whether two rectangles intersect, the other way round")
    if touch:
        rect(inter, max(t, t2), max(l, l2), min(t + h, t2 + h2) - max(t, t2), min(l + w, l2 + w2) - max(l, l2), "an intersection")
        ctx.label("rectangles share a point")
    else:
        ctx.label("rectangles are apart")

    # points: at, beside and between the edges
    ys = [t, t + h, t2, t2 + h2]
    xs = [l, l + w, l2, l2 + w2]
    near = num(1)
    for i, j, q in case["p"]:
        y = ys[i] if i < 4 else ys[q[0] % 4] + (near if i == 4 else -near) if i < 6 else num(q[0])
        x = xs[j] if j < 4 else xs[q[1] % 4] + (near if j == 4 else -near) if j < 6 else num(q[1])
        inr = t <= y < t + h and l <= x < l + w
        ins_ = t2 <= y < t2 + h2 and l2 <= x < l2 + w2
        eq(r.contains_point((y, x)), inr, f"whether {(t, l), (h, w)} contains {(y, x)}")
        eq(s.contains_point(P(y=y, x=x)), ins_, f"whether {(t2, l2), (h2, w2)} contains {(y, x)}")
        eq(inter.contains_point((y, x)), inr and ins_, f"whether the intersection contains {(y, x)}")
        if inr or ins_:
            check(union.contains_point((y, x)), "the union does not contain a point of one of the rectangles", (y, x))
    if not fl:
        f = r.to_float_rect()
        check(isinstance(f, G.FloatRect) and tuple(f) == ((float(t), float(l)), (float(h), float(w))), "a rectangle converted to floats", f)
    else:
        eq(tuple(G.FloatRect.unit_rect()), ((0.0, 0.0), (1.0, 1.0)), "the unit rectangle")


# -- C28 -----------------------------------------------------------------------------------------------------------

MAG = one_of(st.integers(-64, 64).map(lambda k: k / 4), st.floats(-1000, 1000), st.floats(-1e6, 1e6))
POS = one_of(st.integers(1, 40).map(lambda k: k / 4), st.floats(0.01, 100), st.floats(0.01, 1e5))
RATIO = one_of(st.sampled_from([1.0, 0.5, 2.0, 4 / 3]), st.floats(0.01, 100))
ANGLE = one_of(st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 6, 2 * math.pi]), st.floats(-10, 10))
FRECT = st.tuples(st.tuples(MAG, MAG), st.tuples(POS, POS))


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * max(1e-9, abs(scale))


def near(got, want, scale, what):
    if not (close(got[0], want[0], scale) and close(got[1], want[1], scale)):
        raise Violation(f"{what}: got {tuple(got)}, expected {tuple(want)}")


@sub("C28", "fit", lambda thorough: st.fixed_dictionaries({"rect": FRECT, "ratio": RATIO, "size": one_of(st.tuples(POS, POS), st.tuples(st.integers(1, 30), st.integers(1, 30))), "form": st.sampled_from(["tuple", "float", "int"]), "use": st.sampled_from(["ratio", "size", "size", "own"])}), quick=3000, shards=2)
def run_fit(case, ctx):
    (t, l), (h, w) = case["rect"]
    if case["form"] == "int":
        t, l, h, w = int(t), int(l), max(1, int(h)), max(1, int(w))
        rect = G.IntRect((t, l), (h, w))
    else:
        rect = ((t, l), (h, w)) if case["form"] == "tuple" else G.FloatRect((t, l), (h, w))
    size = case["size"]
    ratio = case["ratio"] if case["use"] == "ratio" else size[1] / size[0] if case["use"] == "size" else w / h
    if case["use"] == "size":
        got = G.fit_to_size(rect, size if case["form"] == "tuple" else (G.IntSize if isinstance(size[0], int) else G.FloatSize)(*size))
    else:
        got = G.fit_to_aspect_ratio(rect, ratio)
    check(isinstance(got, G.FloatRect), "class of a fitted rectangle", got)
    # the largest rectangle with that ratio inside, centred
    eh, ew = (h, h * ratio) if w / h > ratio else (w / ratio, w)
    scale = max(abs(t), abs(l), h, w)
    near((got.height, got.width), (eh, ew), scale, f"size of {(t, l), (h, w)} fitted to ratio {ratio}")
    near(got.center, (t + h / 2, l + w / 2), scale, f"centre of {(t, l), (h, w)} fitted to ratio {ratio}")
    check(math.isclose(got.width / got.height, ratio, rel_tol=1e-9), "ratio of a fitted rectangle", got.width / got.height, ratio)
    eps = 1e-9 * scale
    check(got.top >= t - eps and got.left >= l - eps and got.bottom <= t + h + eps and got.right <= l + w + eps, "a fitted rectangle is not inside", got, rect)
    ctx.label("height fills" if w / h > ratio else "width fills")
    ctx.nontrivial(ratio != 1 and w != h)


@sub("C28", "map", lambda thorough: st.fixed_dictionaries({"f": FRECT, "t": FRECT, "p": st.tuples(MAG, MAG), "r": FRECT, "u": st.tuples(st.floats(-1, 2), st.floats(-1, 2))}), quick=3000, shards=2)
def run_map(case, ctx):
    f, t = G.FloatRect(*case["f"]), G.FloatRect(*case["t"])
    big = lambda x: max(abs(x.top), abs(x.left), abs(x.bottom), abs(x.right), x.height, x.width)
    stretch = max(t.height / f.height, t.width / f.width, 1)
    back_stretch = max(f.height / t.height, f.width / t.width, 1)
    scale = (big(t) + stretch * big(f)) * 4
    corners = ["top_left", "top_right", "bottom_left", "bottom_right", "center"]
    for c in corners:
        near(G.map_point(getattr(f, c), f, t), getattr(t, c), scale, f"{c} mapped")
    # a point at a relative position
    u, v = case["u"]
    p = G.FloatPoint(y=f.top + u * f.height, x=f.left + v * f.width)
    q = G.map_point(p, f, t)
    check(isinstance(q, G.FloatPoint), "class of a mapped point", q)
    near(q, (t.top + u * t.height, t.left + v * t.width), scale, "a mapped point")
    near(G.map_point(q, t, f), p, (big(f) + back_stretch * scale) * 4, "a point mapped back")
    # sizes scale by the ratio of the sizes
    s = G.FloatSize(*case["r"][1])
    z = G.map_size(s, f, t)
    check(isinstance(z, G.FloatSize), "class of a mapped size", z)
    check(math.isclose(z.height, s.height * t.height / f.height, rel_tol=1e-9) and math.isclose(z.width, s.width * t.width / f.width, rel_tol=1e-9), "a mapped size", z)
    z2 = G.map_size(z, t, f)
    check(math.isclose(z2.height, s.height, rel_tol=1e-9) and math.isclose(z2.width, s.width, rel_tol=1e-9), "a size mapped back", z2)
    # rectangles map like their corners
    r = G.FloatRect(*case["r"])
    m = G.map_rect(r, f, t)
    check(isinstance(m, G.FloatRect), "class of a mapped rectangle", m)
    scale = (big(t) + stretch * (big(f) + big(r))) * 4
    for c in corners:
        near(getattr(m, c), G.map_point(getattr(r, c), f, t), scale, f"{c} of a mapped rectangle")
    near(G.map_rect(f, f, t).origin, t.origin, scale, "origin of the rectangle mapped itself")
    back = G.map_rect(m, t, f)
    scale = (big(f) + back_stretch * scale) * 8
    near(back.top_left, r.top_left, scale, "a rectangle mapped back")
    near(back.bottom_right, r.bottom_right, scale, "a rectangle mapped back")
    ctx.nontrivial(f.height != t.height and f.width != t.width)


@sub("C28", "rotate", lambda thorough: st.fixed_dictionaries({"p": st.tuples(MAG, MAG), "q": st.tuples(MAG, MAG), "o": one_of(st.none(), st.tuples(MAG, MAG)), "a": ANGLE, "b": ANGLE, "k": one_of(st.integers(-3, 3), MAG)}), quick=3000, shards=2)
def run_rotate(case, ctx):
    p, q = G.FloatPoint(*case["p"]), G.FloatPoint(*case["q"])
    origin = None if case["o"] is None else G.FloatPoint(*case["o"])
    o = origin or G.FloatPoint()
    a, b = case["a"], case["b"]
    scale = 4 * max(map(abs, (*p, *q, *o, 1e-6)))
    rot = (lambda x, r: x.rotate(r)) if origin is None else (lambda x, r: x.rotate(r, origin))
    r = rot(p, a)
    check(isinstance(r, G.FloatPoint), "class of a rotated point", r)
    # definition
    near(r, (o.y + math.sin(a) * (p.x - o.x) + math.cos(a) * (p.y - o.y), o.x + math.cos(a) * (p.x - o.x) - math.sin(a) * (p.y - o.y)), scale, f"point rotated by {a}")
    near(rot(p, math.pi / 2), (o.y + (p.x - o.x), o.x - (p.y - o.y)), scale, "point after a quarter turn")
    near(rot(r, -a), p, scale, "point rotated and rotated back")
    near(rot(r, b), rot(p, a + b), scale, "point rotated twice")
    check(close(G.distance(r, o), G.distance(p, o), scale), "distance to the origin of a rotation")
    check(close(G.distance(r, rot(q, a)), G.distance(p, q), scale), "distance of two rotated points")
    near(rot(o, a), o, scale, "origin of a rotation")
    s = G.FloatSize(*case["p"])
    z = s.rotate(a)
    check(isinstance(z, G.FloatSize), "class of a rotated size", z)
    near(z, p.rotate(a), scale, "a rotated size")
    near(s.rotate(math.pi / 2), (s.width, -s.height), scale, "size after a quarter turn")
    # distance, midpoint, inset
    d = G.distance(p, q)
    check(math.isclose(d, math.hypot(p.x - q.x, p.y - q.y), rel_tol=1e-9, abs_tol=1e-12), "distance", d)
    eq(G.distance(q, p), d, "distance the other way round")
    m = G.midpoint(tuple(p), q)
    near(m, ((p.y + q.y) / 2, (p.x + q.x) / 2), scale, "midpoint")
    k = case["k"]
    (t, l), (h, w) = G.inset_rect((tuple(p), tuple(q)), k)
    for x, y in ((t, p.y + k), (l, p.x + k), (h, q.y - 2 * k), (w, q.x - 2 * k)):
        check(close(x, y, max(scale, abs(k))), "inset rectangle", ((t, l), (h, w)), tuple(p), tuple(q), k)
    ctx.nontrivial(math.sin(a) != 0 and p.x != 0 and p.y != 0)
    ctx.label("about an origin" if origin is not None else "about zero")
