"""C29 linear axis ticks, C30 logarithmic axis ticks."""
import math
from fractions import Fraction
from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Geometry as G

RULES["C29"] = ("cases are two finite ends of either sign over magnitudes 1e-280 to 1e300, built from plain floats, numbers close to 1, 2, 5 times a power of ten, and an offset plus a small range, and a requested number of ticks from 2 to 40; "
                "the oracle is the definition of a pretty scale (division, enclosure, spacing, count, labels); non-trivial: ends differ and at least three ticks result")
ASSUMPTIONS["C29"] = ["the range is at least 1e-8 of the larger end's magnitude (below that, floats cannot represent the ticks) and at least 1e-280", "at least two ticks are requested", "positions are compared to 1e-6 of a division, and whether the data is enclosed to 1e-9 of it"]
RULES["C30"] = ("cases are ends low <= high as logarithms, with base 2 to 16, whole, near-whole and fractional ends, ranges from 0 to 200, and 2 to 20 requested ticks; "
                "the oracle is the definition of a logarithmic scale; non-trivial: low < high and at least three ticks result")
ASSUMPTIONS["C30"] = ["the base raised to the ends stays within 1e-250 to 1e250", "the range is zero or at least 1e-7", "positions are compared to 1e-7 of the division or 1e-9"]

UNIT = one_of(st.sampled_from([1.0, 2.0, 5.0, 1.5, 3.0, 7.0, 2.5, 9.0, 0.1, 0.2, 0.3, 0.7]), st.integers(1, 20).map(float), st.floats(0.1, 10.0), st.floats(0.9999999, 1.0000001))
EXP = one_of(st.integers(-12, 12), st.integers(-12, 12), st.integers(-3, 3), st.integers(-270, 290))
NUDGE = st.sampled_from([0, 0, 0, 0, 1, -1, 2, -2])


def number(u):
    mant, exp, nudge, sign = u
    x = mant * 10.0 ** exp
    for _ in range(abs(nudge)):
        x = math.nextafter(x, math.inf if nudge > 0 else 0.0)
    return sign * x


NUMBER = st.tuples(UNIT, EXP, NUDGE, st.sampled_from([1, 1, -1])).map(number)
TICKS = one_of(st.just(5), st.integers(2, 12), st.integers(2, 40))


def ends():
    pair = st.tuples(one_of(NUMBER, st.just(0.0)), NUMBER)
    # low end and a range at a comparable or smaller scale
    offset = st.tuples(NUMBER, st.integers(-7, 2), UNIT, st.sampled_from([1, -1])).map(lambda t: (t[0], t[0] + t[3] * abs(t[0]) * 10.0 ** t[1] * t[2]))
    grid = st.tuples(st.integers(-40, 40), st.integers(-40, 40), st.integers(-8, 8)).map(lambda t: (t[0] * 10.0 ** t[2], t[1] * 10.0 ** t[2]))
    # ends a little beside a round number
    beside = st.tuples(grid, st.sampled_from([0, 1e-4, -1e-4, 1e-6, -1e-6, 1e-8, -1e-8]), st.sampled_from([0, 1e-4, -1e-4, 1e-6, -1e-6, 1e-8, -1e-8])).map(lambda t: (t[0][0] + t[1] * abs(t[0][0] - t[0][1]), t[0][1] + t[2] * abs(t[0][0] - t[0][1])))
    return one_of(pair, offset, offset, grid, beside)


def c29_cases(thorough):
    return st.fixed_dictionaries({"ends": ends(), "ticks": TICKS, "int": st.booleans()})


def label_unit(label):
    """The unit of the last digit shown, exactly."""
    mant, _, exp = label.lower().partition("e")
    digits = len(mant.partition(".")[2])
    return Fraction(10) ** ((int(exp) if exp else 0) - digits)


def check_labels(values, labels, what):
    eq(len(labels), len(values), f"number of labels {what}")
    for v, l in zip(values, labels):
        check(type(l) is str, "a label is not a text", l)
        error = abs(Fraction(l) - Fraction(v))
        check(error <= label_unit(l) * Fraction(500001, 1000000) + abs(Fraction(v)) * Fraction(1, 10 ** 11), f"label does not read as the value of its tick {what}", l, v)


def pretty_division(d):
    k = math.floor(math.log10(d))
    return min(abs(d / (m * 10.0 ** j) - 1.0) for j in (k - 1, k, k + 1) for m in (1, 2, 5)) < 1e-9


def scale_check(low, high, ticks, mn, mx, values, division, what):
    low, high = min(low, high), max(low, high)
    check(division > 0 and math.isfinite(division), f"division is not positive {what}", division)
    check(pretty_division(division), f"division is not 1, 2 or 5 times a power of ten {what}", division)
    tol = 1e-6 * division + 1e-15 * max(abs(low), abs(high))
    fine = 1e-9 * division + 2e-15 * max(abs(low), abs(high))
    check(mn <= low + fine, f"minimum above the data {what}", mn, low)
    check(mx >= high - fine, f"maximum below the data {what}", mx, high)
    check(low - mn < division + tol, f"minimum a division or more below the data {what}", mn, low, division)
    check(mx - high < division + tol, f"maximum a division or more above the data {what}", mx, high, division)
    check(len(values) >= 2, f"fewer than two ticks {what}", values)
    check(len(values) >= ticks / 4, f"far fewer ticks than requested {what}", len(values), ticks)
    check(len(values) <= 2 * ticks + 1, f"far more ticks than requested {what}", len(values), ticks)
    check(abs(values[0] - mn) <= tol, f"the first tick is not at the minimum {what}", values[0], mn)
    check(abs(values[-1] - mx) <= tol, f"the last tick is not at the maximum {what}", values[-1], mx)
    for a, b in zip(values, values[1:]):
        check(b > a, f"ticks not increasing {what}", values)
        check(abs((b - a) - division) <= 2 * tol, f"ticks not spaced by the division {what}", values, division)


@sub("C29", "linear", c29_cases, quick=24000, shards=6)
def run_linear(case, ctx):
    low, high = case["ends"]
    ticks = case["ticks"]
    if case["int"] and low == int(low) and high == int(high) and max(abs(low), abs(high)) < 1e15:
        low, high = int(low), int(high)
        ctx.label("integer ends")
    big = max(abs(low), abs(high))
    what = f"for {low!r}, {high!r}, {ticks} ticks"
    if low == high:
        t = G.LinearTicker(low, high, ticks=ticks)
        eq(len(t.values), 1, f"ticks {what}")
        eq(t.values[0], low, f"the tick {what}")
        check(t.minimum <= low <= t.maximum, f"data not enclosed {what}", t.minimum, t.maximum)
        eq(len(t.labels), 1, f"labels {what}")
        ctx.label("equal ends")
        return
    if big > 1e300 or abs(high - low) < 1e-280 or abs(high - low) < 1e-8 * big:
        ctx.label("outside the domain")
        return
    t = G.LinearTicker(low, high, ticks=ticks)
    eq(t.ticks, ticks, "requested ticks")
    scale_check(low, high, ticks, t.minimum, t.maximum, t.values, t.division, what)
    check_labels(t.values, t.labels, what)
    check(len(set(t.labels)) == len(t.labels), f"labels are not distinct {what}", t.labels)
    check(len({Fraction(l) for l in t.labels}) == len(t.labels), f"labels read the same {what}", t.labels)
    eq(list(t.minor_tick_indices), [], "minor ticks of a linear scale")
    # the same scale in either order of the ends, and from the functions
    u = G.LinearTicker(high, low, ticks=ticks)
    eq((u.minimum, u.maximum, list(u.values), u.division, list(u.labels)), (t.minimum, t.maximum, list(t.values), t.division, list(t.labels)), f"ends swapped {what}")
    if ticks == 5:
        u = G.LinearTicker(low, high)
        eq((u.ticks, list(u.values), list(u.labels)), (5, list(t.values), list(t.labels)), f"ticks without a requested number {what}")
        eq(list(G.make_pretty_range(low, high)), list(G.make_pretty_range(low, high, ticks=5)), f"range without a requested number {what}")
        eq(list(G.make_pretty_range2(low, high)), list(G.make_pretty_range2(low, high, 5)), f"range without a requested number {what}")
    mn, mx, values, division, precision = G.make_pretty_range(low, high, ticks=ticks)
    scale_check(low, high, ticks, mn, mx, values, division, "from make_pretty_range " + what)
    for v in values:
        check(abs(Fraction(f"{v:.{precision}f}") - Fraction(v)) <= Fraction(division) / 100 if precision < 300 else True, f"reported precision does not show the tick {what}", v, precision)
    for l, v in zip(t.labels, t.values):
        eq(t.value_label(v), l, "label of a tick's value")
    ctx.nontrivial(len(t.values) >= 3)
    if low < 0 or high < 0:
        ctx.label("negative end")
    if any("e" in l for l in t.labels):
        ctx.label("exponent labels")


def degenerate_cases(thorough):
    bad = st.sampled_from(["nan", "inf", "-inf"])
    other = one_of(bad, NUMBER, st.just(0.0))
    return st.fixed_dictionaries({"a": bad, "b": other, "swap": st.booleans(), "ticks": TICKS})


@sub("C29", "not_finite", degenerate_cases, quick=600, shards=1)
def run_not_finite(case, ctx):
    a, b = float(case["a"]), float(case["b"])
    if case["swap"]:
        a, b = b, a
    t = G.LinearTicker(a, b, ticks=case["ticks"])
    eq(len(t.values), 1, f"ticks for {a}, {b}")
    eq(len(t.labels), 1, f"labels for {a}, {b}")
    ctx.nontrivial()


def pretty_cases(thorough):
    return st.fixed_dictionaries({"x": one_of(NUMBER, st.just(0.0)), "rounding": st.booleans()})


@sub("C29", "pretty_number", pretty_cases, quick=6000, shards=2)
def run_pretty(case, ctx):
    """A pretty number is 1, 2 or 5 times a power of ten with the sign of the number; rounded up to it, or to one near it."""
    x = case["x"]
    p = G.make_pretty2(x, case["rounding"])
    if x == 0.0:
        eq(p, 0.0, "pretty zero")
        return
    check((p > 0) == (x > 0) and p != 0, "sign of the pretty number", x, p)
    check(pretty_division(abs(p)), "not a pretty number", x, p)
    r = abs(p) / abs(x)
    if case["rounding"]:
        check(1 / 1.5 - 1e-9 <= r <= 5 / 3 + 1e-9, "pretty number far from the number", x, p)
    else:
        check(1 - 1e-9 <= r <= 2.5 + 1e-9, "pretty number not the next one up", x, p)
    ctx.nontrivial(True)


LOW = one_of(st.integers(-8, 8).map(float), st.integers(-40, 40).map(lambda n: n / 10), st.floats(-8, 8), st.floats(-60, 60), st.tuples(st.integers(-5, 5), st.sampled_from([1e-12, -1e-12, 1e-6, -1e-6])).map(lambda t: t[0] + t[1]))
SPAN = one_of(st.integers(0, 9).map(float), st.integers(0, 40).map(lambda n: n / 10), st.floats(0, 10), st.floats(0, 0.2), st.floats(0, 1), st.floats(0, 100), st.floats(-7, 0).map(lambda e: 10.0 ** e))


def c30_cases(thorough):
    return st.fixed_dictionaries({"low": LOW, "span": SPAN, "ticks": one_of(st.just(5), st.integers(2, 20)), "base": st.sampled_from([10, 10, 10, 2, 3, 4, 5, 7, 8, 16])})


@sub("C30", "logarithmic", c30_cases, quick=24000, shards=6)
def run_log(case, ctx):
    low, ticks, base = case["low"], case["ticks"], case["base"]
    high = low + case["span"]
    lb = math.log10(base)
    if max(abs(low), abs(high) + 2 * case["span"]) * lb > 250 or (high > low and high - low < 1e-7):
        ctx.label("outside the domain")
        return
    what = f"for {low!r}, {high!r}, {ticks} ticks, base {base}"
    t = G.LogTicker(low, high, ticks=ticks, base=base)
    eq((t.base, t.ticks), (base, ticks), "base and requested ticks")
    values, labels, minor = list(t.values), list(t.labels), list(t.minor_tick_indices)
    if ticks == 5:
        eq(list(G.LogTicker(low, high, base=base).values), values, f"ticks without a requested number {what}")
    if base == 10:
        eq(list(G.LogTicker(low, high, ticks=ticks).labels), labels, f"labels without a base {what}")
    for l, v in zip(labels, values):
        eq(t.value_label(base ** v), l, f"label of a tick's value {what}") if base in (2, 4, 8, 16) and v == int(v) else None
    check(len(values) >= 1 and all(math.isfinite(v) for v in values), f"ticks {what}", values)
    for a, b in zip(values, values[1:]):
        check(b > a, f"ticks not increasing {what}", values)
    eq(len(labels), len(values), f"number of labels {what}")
    for v, l in zip(values, labels):
        check(type(l) is str, "a label is not a text", l)
        x = Fraction(base ** v)
        check(abs(Fraction(l) - x) <= label_unit(l) * Fraction(50001, 100000) + x * Fraction(1, 10 ** 9), f"label does not read as the base to the tick {what}", l, v)
    if base == 10:
        eq(len(set(labels)), len(labels), f"number of distinct labels {what}")
    tol = 1e-9 + 1e-12 * max(abs(low), abs(high))
    check(t.minimum <= low + tol, f"minimum above the data {what}", t.minimum)
    check(t.maximum >= high - tol, f"maximum below the data {what}", t.maximum)
    check(values[0] <= low + tol, f"first tick above the data {what}", values)
    check(values[-1] >= high - tol, f"last tick below the data {what}", values)
    check(len(set(minor)) == len(minor) and all(0 < i < len(values) for i in minor), f"minor tick indexes {what}", minor)
    major = [v for i, v in enumerate(values) if i not in set(minor)]
    steps = [b - a for a, b in zip(major, major[1:])]
    if steps:
        check(max(steps) - min(steps) <= 1e-7 * max(steps) + tol, f"major ticks not evenly spaced {what}", major)
        check(low - values[0] < max(steps) + tol, f"first tick more than one step below the data {what}", major)
        check(values[-1] - high < 2 * max(steps) + tol, f"last tick more than two steps above the data {what}", major)
    check(len(major) >= 2, f"fewer than two major ticks {what}", values)
    check(len(major) <= 2 * ticks + 3, f"far more major ticks than requested {what}", len(major))
    last = values[0]
    for i, v in enumerate(values):
        if i in set(minor):
            m = base ** (v - last)
            check(abs(m - round(m)) < 1e-6 and 2 <= round(m) < base, f"minor tick not a multiple of the major tick before it {what}", i, v, last)
            ctx.label("minor ticks")
        else:
            last = v
    ctx.nontrivial(high > low and len(values) >= 3)
    if low == high:
        ctx.label("equal ends")
    if any(s < 0.999 for s in steps):
        ctx.label("fractional steps")
    if any(s > 1.001 for s in steps):
        ctx.label("several powers per tick")


def c30_bad(thorough):
    bad = st.sampled_from(["nan", "inf", "-inf"])
    return st.fixed_dictionaries({"a": bad, "b": one_of(bad, LOW), "swap": st.booleans(), "ticks": TICKS, "base": st.sampled_from([10, 2, 5])})


@sub("C30", "not_finite", c30_bad, quick=600, shards=1)
def run_log_bad(case, ctx):
    a, b = float(case["a"]), float(case["b"])
    if case["swap"]:
        a, b = b, a
    t = G.LogTicker(a, b, ticks=case["ticks"], base=case["base"])
    eq(len(t.values), 1, f"ticks for {a}, {b}")
    eq(len(t.labels), 1, f"labels for {a}, {b}")
    ctx.nontrivial()
