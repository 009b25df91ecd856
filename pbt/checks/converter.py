"""C05 converter round trips, C06 float text entry in any locale, C07 integer range validator."""
import contextlib, datetime, fractions, locale, math, pathlib, re, uuid

from hypothesis import strategies as st

from core import one_of, Violation, check, eq, sub, RULES, ASSUMPTIONS
from nion.utils import Converter, Validator

RULES["C05"] = ("cases are one converter with generated parameters and a value (or a text); non-trivial: the text or position is not one of 0, 1, empty "
                "(and distinct from every other case)")
ASSUMPTIONS["C05"] = ["floats of magnitude 0 or 1e-280 to 1e280", "scaled integers: up to 10^6 steps, range not smaller than a millionth of its ends' magnitude",
                      "UUIDs of version 4 only, as the converter accepts no other", "formats show the number first"]

LOCALES = {"C": {}, "comma": {"decimal_point": ","}, "german": {"decimal_point": ",", "thousands_sep": ".", "grouping": [3, 3, 0]}, "swiss": {"decimal_point": ".", "thousands_sep": "'", "grouping": [3, 3, 0]}}


@contextlib.contextmanager
def in_locale(name):
    old = locale._override_localeconv
    locale._override_localeconv = dict(LOCALES[name])
    try:
        yield
    finally:
        locale._override_localeconv = old


FINITE = one_of(st.floats(allow_nan=False, allow_infinity=False), st.floats(-1e6, 1e6), st.integers(-1000, 1000).map(float), st.integers(-10 ** 6, 10 ** 6).map(lambda n: n / 1000))
# format, allowed difference of the shown number from the value (as a function of the value)
FORMATS = {
    None: lambda v: abs(v) * 5.1e-6, "{:g}": lambda v: abs(v) * 5.1e-6, "{:.3f}": lambda v: 0.00051, "{:.0f}": lambda v: 0.51, "{:.2e}": lambda v: abs(v) * 5.1e-3,
    "{:.12g}": lambda v: abs(v) * 5.1e-12, "{:+.4f}": lambda v: 0.000051, "{:8.2f}": lambda v: 0.0051, "{:.1f}": lambda v: 0.051,
}
UNITS = st.sampled_from(["", "nm", "eV", "%", "E3", "e-5", "1/s", "µm", "deg", "e", "{}", "."])
MULT = one_of(st.sampled_from([1.0, 1e9, 1e-3, 100.0, -1.0, 3.0, 0.5]), st.floats(1e-12, 1e12))


def numbers(thorough):
    return st.fixed_dictionaries({"kind": st.sampled_from(["float", "physical"]), "value": one_of(FINITE, FINITE, FINITE, st.none()), "format": st.sampled_from(list(FORMATS)), "units": UNITS,
                                  "mult": MULT, "fuzzy": st.booleans(), "pass_none": st.booleans(), "locale": st.sampled_from(sorted(LOCALES))})


def near(v, scale):
    return abs(v) * 4e-16 + 1e-320 + scale


@sub("C05", "numbers", numbers, quick=4000)
def run_numbers(case, ctx):
    v, fmt = case["value"], case["format"]
    tol = FORMATS[fmt]
    pass_none = v is None or case.get("pass_none", False)
    for x in (v, v * case["mult"]) if v else ():
        if not 1e-280 < abs(x) < 1e280:
            return
    with in_locale(case["locale"]):
        if case["kind"] == "float":
            c = Converter.FloatToStringConverter(fmt, pass_none=pass_none, fuzzy=case["fuzzy"]) if fmt or pass_none or not case["fuzzy"] else Converter.FloatToStringConverter()
            text = c.convert(v)
            if v is None:
                check(text is None, "None is shown as", text)
                check(c.convert_back(None) is None, "None converts back to", c.convert_back(None))
                return
            eq(text, (fmt or "{:g}").format(v), f"{v!r} under the format {fmt} is shown as")
            back = c.convert_back(text)
            check(abs(back - v) <= near(v, tol(v)), f"{v!r} shown as {text!r} converts back to", back)
            check(c.convert(back) == text or v == 0, f"{text!r} converted back and again", c.convert(back))
        else:
            args = {}
            if case["mult"] != 1.0:
                args["multiplier"] = case["mult"]
            if fmt:
                args["format"] = fmt
            if pass_none:
                args["pass_none"] = True
            if not case["fuzzy"]:
                args["fuzzy"] = False
            c = Converter.PhysicalValueToStringConverter(case["units"], **args)
            text = c.convert(v)
            if v is None:
                check(text is None, "None is shown as", text)
                check(c.convert_back(None) is None, "None converts back to", c.convert_back(None))
                return
            shown = v * case["mult"]
            eq(text, (fmt or "{:g}").format(shown) + " " + case["units"], f"{v!r} under the format {fmt} is shown as")
            back = c.convert_back(text)
            check(abs(back * case["mult"] - shown) <= near(shown, tol(shown)) * (1 + 1e-12), f"{v!r} shown as {text!r} converts back to", back)
    ctx.label(case["kind"])
    ctx.nontrivial(v is not None and v not in (0, 1))


def integers(thorough):
    return st.fixed_dictionaries({"value": one_of(st.integers(-10 ** 4, 10 ** 4), st.integers(), st.integers(-10 ** 60, 10 ** 60)),
                                  "format": st.sampled_from([None, "{:d}", "{:+d}", "{:05d}", "{:12d}", "{:<8d}", "{:_d}"]), "bool": st.booleans()})


@sub("C05", "integers", integers, quick=1500)
def run_integers(case, ctx):
    c = Converter.IntegerToStringConverter(case["format"]) if case["format"] else Converter.IntegerToStringConverter()
    v = case["value"]
    text = c.convert(v)
    check(isinstance(text, str), "text", text)
    back = c.convert_back(text)
    check(type(back) is int and back == v, f"{v} shown as {text!r} converts back to", back)
    eq(text, (case["format"] or "{:d}").format(v), "text of an integer")
    b = Converter.CheckedToCheckStateConverter()
    check(b.convert(case["bool"]) == ("checked" if case["bool"] else "unchecked"), "check state", b.convert(case["bool"]))
    check(b.convert_back(b.convert(case["bool"])) is case["bool"], "check state converts back to", b.convert_back(b.convert(case["bool"])))
    for other in ("partial", ""):
        check(b.convert_back(other) is False, "an unknown check state is not checked")
    ctx.nontrivial(v not in (0, 1))


def scaled(thorough):
    return st.fixed_dictionaries({"kind": st.sampled_from(["scaled", "percent"]), "n": one_of(st.integers(1, 200), st.integers(1, 10 ** 6), st.sampled_from([10, 100, 1000])),
                                  "default": st.booleans(), "min": one_of(st.integers(-100, 100).map(float), st.floats(-1e6, 1e6)),
                                  "span": one_of(st.integers(1, 200).map(float), st.floats(1e-3, 1e6), st.floats(-1e3, -1.0)), "pos": st.floats(0, 1), "i": st.integers(0, 10 ** 6),
                                  "pct": st.integers(-300, 1000)})


@sub("C05", "scaled", scaled, quick=4000)
def run_scaled(case, ctx):
    if case["kind"] == "scaled":
        n = case["n"]
        mn, mx = (0, 1) if case["default"] else (case["min"], case["min"] + case["span"])
        if abs(mx - mn) < max(abs(mn), abs(mx)) * 1e-6 or mx == mn:
            return
        c = Converter.FloatToScaledIntegerConverter(n) if case["default"] else Converter.FloatToScaledIntegerConverter(n, mn, mx)
        i = case["i"] % (n + 1)
        v = c.convert_back(i)
        exact = fractions.Fraction(mn) + (fractions.Fraction(mx) - fractions.Fraction(mn)) * i / n
        check(abs(v - float(exact)) <= max(abs(mn), abs(mx)) * 1e-14 + 1e-300, f"position {i} of {n} in [{mn}, {mx}] converts back to", v, float(exact))
        j = c.convert(v)
        check(type(j) is int, "a position is an int", j)
        check(j == i, f"position {i} of {n} in [{mn}, {mx}] becomes {v!r} and then position", j)
        eq(c.convert(mn), 0, "position of the lower end")
        eq(c.convert(mx), n, "position of the upper end")
        v = mn + case["pos"] * (mx - mn)
        p = (fractions.Fraction(v) - fractions.Fraction(mn)) * n / (fractions.Fraction(mx) - fractions.Fraction(mn))
        check(abs(c.convert(v) - p) < 1 + 1e-6, f"value {v} in [{mn}, {mx}] is shown at position", c.convert(v), float(p))
        step = abs(mx - mn) / n
        check(abs(c.convert_back(c.convert(v)) - v) <= step * (1 + 1e-6), f"value {v} in [{mn}, {mx}] comes back more than a step away", c.convert_back(c.convert(v)))
        ctx.nontrivial(i not in (0, n))
    else:
        c = Converter.FloatToPercentStringConverter()
        text = f"{case['pct']}%"
        v = c.convert_back(text)
        check(abs(v - case["pct"] / 100) <= 1e-12, f"{text} converts back to", v)
        check(abs(c.convert_back(str(case["pct"])) - v) <= 1e-12, "percentage without the percent sign", c.convert_back(str(case["pct"])))
        eq(c.convert(v), text, f"{text} becomes {v!r} and then")
        x = case["pos"] * 3 - 1
        t = c.convert(x)
        check(re.fullmatch(r"-?\d+%", t), "text of a percentage", t)
        check(abs(int(t[:-1]) - x * 100) < 1 + 1e-9, f"{x!r} is shown as", t)
        ctx.nontrivial(case["pct"] not in (0, 100))
    ctx.label(case["kind"])


DT = st.tuples(st.datetimes(), one_of(st.none(), st.none(), st.sampled_from([1, 10, 1000, 100000, 500000, 999000, 999999, 1001]))).map(lambda t: [t[0].year, t[0].month, t[0].day, t[0].hour, t[0].minute, t[0].second, t[0].microsecond if t[1] is None else t[1]])
DT0 = st.datetimes().map(lambda d: [d.year, d.month, d.day, d.hour, d.minute, d.second, 0])
SEG = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="/\0"), min_size=1, max_size=6)


def objects(thorough):
    return one_of(
        st.tuples(st.just("uuid"), st.uuids(version=4).map(str), st.sampled_from(["", " ", "upper", "\t"])),
        st.tuples(st.just("bad uuid"), one_of(st.text(max_size=40), st.uuids().map(str), st.uuids(version=4).map(lambda u: str(u)[:-1]), st.uuids(version=4).map(lambda u: u.hex),
                                                 st.uuids(version=4).map(lambda u: "{" + str(u) + "}"), st.uuids(version=4).map(lambda u: str(u) + "0"), st.uuids(version=1).map(str))),
        st.tuples(st.just("path"), st.lists(SEG, max_size=4), st.booleans()),
        st.tuples(st.just("datetime"), one_of(DT, DT0)),
        st.tuples(st.just("bad datetime"), one_of(st.text(max_size=30), DT.map(lambda d: datetime.datetime(*d).isoformat() + "Z"), DT.map(lambda d: datetime.datetime(*d).isoformat()[:-1]),
                                                     DT.map(lambda d: datetime.datetime(*d).isoformat(" ")), st.text("0123456789-:T.", min_size=19, max_size=19), st.text("0123456789-:T.", min_size=26, max_size=26),
                                                     st.tuples(st.integers(0, 9999), st.integers(0, 99), st.integers(0, 99)).map(lambda t: "%04d-%02d-%02dT00:00:00" % t))),
        st.tuples(st.just("none"), st.sampled_from(["UuidToStringConverter", "PathToStringConverter", "DatetimeToStringConverter"])))


@sub("C05", "objects", objects, quick=3500)
def run_objects(case, ctx):
    kind, v = case[0], case[1]
    ctx.label(kind)
    if kind == "uuid":
        c = Converter.UuidToStringConverter()
        u = uuid.UUID(v)
        text = c.convert(u)
        eq(text, str(u), "text of a UUID")
        if case[2] == "upper":
            text = text.upper()
        else:
            text = case[2] + text + case[2]
        eq(c.convert_back(text), u, f"{text!r} converts back to")
    elif kind == "bad uuid":
        c = Converter.UuidToStringConverter()
        r = c.convert_back(v)
        try:
            u = uuid.UUID(v.strip())
            form = u.version == 4 and str(u) == v.strip().lower()
        except ValueError:
            form = False
        if form:
            eq(r, u, f"{v!r} converts back to")
        elif v.isascii():
            check(r is None, f"{v!r} converts back to", r)
    elif kind == "path":
        c = Converter.PathToStringConverter()
        p = pathlib.Path("/" if case[2] else "", *v)
        text = c.convert(p)
        check(isinstance(text, str), "text of a path", text)
        eq(c.convert_back(text), p, f"{text!r} converts back to")
        check(c.convert_back("") is None, "empty path text")
    elif kind == "datetime":
        c = Converter.DatetimeToStringConverter()
        d = datetime.datetime(*v)
        text = c.convert(d)
        eq(text, d.isoformat(), "text of a datetime")
        eq(c.convert_back(text), d, f"{text!r} converts back to")
    elif kind == "bad datetime":
        c = Converter.DatetimeToStringConverter()
        r = c.convert_back(v)
        check(r is None or isinstance(r, datetime.datetime), f"{v!r} converts back to", r)
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{6})?", v, re.ASCII)
        valid = False
        if m:
            try:
                d = datetime.datetime.fromisoformat(v)
                valid = True
            except ValueError:
                pass
        if valid:
            eq(r, d, f"{v!r} converts back to")
        elif m and int(m.group(6)) < 60 or len(v) not in (19, 26) or "T" not in v:
            check(r is None, f"{v!r} is not a date but converts back to", r)
    else:
        c = getattr(Converter, v)()
        check(c.convert(None) is None, "None is shown as", c.convert(None))
        check(c.convert_back(None) is None, "None converts back to", c.convert_back(None))
        return
    ctx.nontrivial()


# ---------------------------------------------------------------------------------------------------------------- C06
RULES["C06"] = ("cases are texts assembled from blanks, a decimal number and a rest (or texts without a number), a locale (decimal point '.' or ',', thousands separators) and a converter; "
                "non-trivial: the text has a fraction, an exponent, a sign or a rest")
ASSUMPTIONS["C06"] = ["locales are simulated through the locale module's own override of localeconv, since only the C locale is installed",
                      "a ',' followed by digits under a '.' locale may be read as decimal point, as thousands separator, or as the end of the number", "the rest of the text does not continue the number"]

DIGITS = st.text("0123456789", min_size=1, max_size=6)
REST = one_of(st.just(""), st.sampled_from(["nm", " nm", "%", " %", "e", "E+", "eV", "e-", " 5", "-5", "+", "x10", ";", "/2", "..", " .5", "\n", "\t7", "()", "abc", " e5", "i", "_1"]),
                 st.text(st.characters(blacklist_categories=("Cs", "Nd", "No", "Nl")), max_size=4).filter(lambda s: not s or s[0] not in ".,eE"))
BLANK = st.sampled_from(["", "", " ", "   ", "\t", " \n"])


def texts(thorough):
    number = st.fixed_dictionaries({"sign": st.sampled_from(["", "", "-", "+"]), "int": one_of(DIGITS, st.just("")), "point": st.sampled_from(["", ".", "local"]), "frac": one_of(DIGITS, DIGITS, st.just("")),
                                    "exp": one_of(st.just(""), st.just(""), st.tuples(st.sampled_from("eE"), st.sampled_from(["", "-", "+"]), st.text("0123456789", min_size=1, max_size=2)).map("".join))})
    return st.fixed_dictionaries({"locale": st.sampled_from(sorted(LOCALES)), "fuzzy": st.sampled_from([True, True, True, False]), "pass_none": st.booleans(), "physical": st.booleans(), "mult": st.sampled_from([1.0, 1e9, 0.5]),
                                  "number": number, "before": BLANK, "rest": REST,
                                  "none": one_of(st.just(False), st.just(False), st.just(False), st.just(False), st.just(False), st.just(False), st.just(False), st.sampled_from(["", None])),
                                  "junk": one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.text(max_size=6), st.sampled_from(["-", "+-5", ". 5", "--1", "abc", "e5", "nan", "inf", "- 5", "$4", ".", ",", "-.", " ", "x1"])),
                                  "comma": st.booleans()})


@sub("C06", "texts", texts, quick=9000, shards=6)
def run_texts(case, ctx):
    n = case["number"]
    with in_locale(case["locale"]):
        dp = LOCALES[case["locale"]].get("decimal_point", ".")
        if case["physical"]:
            mult = case["mult"]
            c = Converter.PhysicalValueToStringConverter("nm", mult, pass_none=case["pass_none"], fuzzy=case["fuzzy"])
        else:
            mult = 1.0
            c = Converter.FloatToStringConverter(pass_none=case["pass_none"], fuzzy=case["fuzzy"])
        fuzzy = case["fuzzy"] or case["physical"]
        if case["none"] is not False:
            if case["pass_none"]:
                check(c.convert_back(case["none"]) is None, f"{case['none']!r} converts back to", c.convert_back(case["none"]))
                ctx.label("none")
            return
        if case["junk"] is not None:
            text = case["junk"]
            if re.match(r"[-+]?(\d|[.,]\d)", text.strip()) or (case["pass_none"] and text == ""):
                return
            if fuzzy:
                eq(c.convert_back(text), 0.0, f"text {text!r} without a number converts back to")
            else:
                try:
                    r = c.convert_back(text)
                except ValueError:
                    r = None
                check(r is None or text.strip().lower().lstrip("+-") in ("nan", "inf", "infinity"), f"{text!r} converts back without fuzzy mode to", r)
            ctx.label("no number")
            ctx.nontrivial(len(text) > 1)
            return
        point = "" if n["point"] == "" else (dp if n["point"] == "local" else ".")
        frac = n["frac"] if point else ""
        if not n["int"] and not (point and frac):
            return
        plain = n["sign"] + n["int"] + ("." + frac if point else "") + n["exp"]
        value = float(plain)
        shown = n["sign"] + n["int"] + (point + frac if point else "") + n["exp"]
        if fuzzy:
            rest = case["rest"]
            if not n["exp"] and re.match(r"[eE][-+]?\d", rest):
                return
            if rest[:1] in (".",) and (point or True):
                if not point and not n["exp"]:
                    return     # the rest would continue the number
            text = case["before"] + shown + rest
            r = c.convert_back(text)
            check(type(r) is float and r * mult == value or abs(r * mult - value) <= abs(value) * 1e-15, f"{text!r} (locale {case['locale']}) converts back to", r, value)
            if case["comma"] and dp == "." and not point and not n["exp"] and n["int"]:
                text = case["before"] + shown + "," + case["rest"]
                r = c.convert_back(text)
                m = re.match(r"\d*", case["rest"]).group(0)
                options = [value, float(n["sign"] + n["int"] + m), float(n["sign"] + n["int"] + "." + m)]
                if not re.match(r"\d*[eE][-+]?\d", case["rest"]):
                    check(any(abs(r * mult - o) <= abs(o) * 1e-15 for o in options), f"{text!r} (locale {case['locale']}) converts back to", r)
                ctx.label("comma after the number")
        else:
            text = case["before"] + shown
            r = c.convert_back(text)
            check(type(r) is float and r == value, f"{text!r} (locale {case['locale']}) converts back without fuzzy mode to", r, value)
            rest = case["rest"].strip()
            if rest and not re.match(r"[\d_.,]|[eE][-+]?\d", rest):
                try:
                    r = c.convert_back(text + rest)
                except ValueError:
                    r = None
                check(r is None, f"{text + rest!r} converts back without fuzzy mode to", r)
    ctx.label(f"locale {case['locale']}")
    if point == "." and dp == ",":
        ctx.label("'.' under a ',' locale")
    ctx.nontrivial(bool(point or n["exp"] or n["sign"] or case["rest"]))


# ---------------------------------------------------------------------------------------------------------------- C07
RULES["C07"] = "cases are two optional bounds and values; non-trivial: some value was outside the bounds or a bound was zero"
ASSUMPTIONS["C07"] = ["the lower bound does not exceed the upper bound"]


def ranges(thorough):
    n = one_of(st.integers(-5, 5), st.integers(-10 ** 6, 10 ** 6), st.integers())
    b = one_of(st.none(), n, st.just(0))
    return st.fixed_dictionaries({"a": b, "b": b, "values": st.lists(n, min_size=1, max_size=8), "near": st.lists(st.integers(-2, 2), max_size=4), "style": st.integers(0, 2)})


@sub("C07", "ranges", ranges, quick=6000)
def run_ranges(case, ctx):
    mn, mx = case["a"], case["b"]
    if mn is not None and mx is not None and mn > mx:
        mn, mx = mx, mn
    v = Validator.IntegerRangeValidator(mn, mx) if case["style"] == 0 else Validator.IntegerRangeValidator(mx=mx, mn=mn) if case["style"] == 1 else Validator.IntegerRangeValidator(*([mn, mx] if mx is not None else [mn] if mn is not None else []))
    values = list(case["values"]) + [b + d for b in (mn, mx) if b is not None for d in case["near"]]
    for x in values:
        expected = x
        if mn is not None and x < mn:
            expected = mn
        if mx is not None and x > mx:
            expected = mx
        r = v.validate(x)
        check(r == expected and type(r) is int, f"validating {x} against [{mn}, {mx}]", r, expected)
        eq(v.validate(r), r, "validating twice")
        if r != x:
            ctx.nontrivial()
            ctx.label("clamped")
    if mn == 0 or mx == 0:
        ctx.nontrivial()
        ctx.label("zero bound")
    if mn is None and mx is None:
        ctx.label("no bounds")
