"""Core of the property-based checks: registration of sub-checks and execution of one case.

A sub-check is a strategy producing plain JSON data ("the case") and a function run(case, ctx) that builds
everything from the case, drives the code in /repo, and raises Violation when the oracle disagrees.  Cases
are passed through JSON before they are run, so a replay file reproduces a case exactly, without Hypothesis.
"""
import contextlib, dataclasses, hashlib, io, json, operator, sys, traceback, typing


class Violation(Exception):
    """The code under test disagrees with the oracle."""


def check(condition, message="", *details):
    if not condition:
        raise Violation(message + (": " + " | ".join(map(_short, details)) if details else ""))


def eq(actual, expected, message=""):
    if type(actual) is float and type(expected) is float and actual != actual and expected != expected:
        return
    if not (actual == expected):
        raise Violation(f"{message}: got {_short(actual)}, expected {_short(expected)}")


def _short(x):
    s = repr(x)
    return s if len(s) <= 400 else s[:400] + "..."


class Ctx:
    """What a case reports about itself."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.expect_tracebacks = False  # set by cases whose listeners raise on purpose
        self.cleanups = []

    def label(self, name):
        self.labels.add(name)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    def defer(self, fn):
        self.cleanups.append(fn)


@dataclasses.dataclass
class Sub:
    prop: str
    name: str
    strategy: typing.Callable[[bool], typing.Any]   # thorough? -> strategy
    run: typing.Callable[[typing.Any, Ctx], None]
    quick: int                                      # examples over all shards
    thorough: int
    shards: int = 2
    shrink: bool = True                             # False where threads make a failure hard to repeat
    rule: str = ""
    serial: bool = False                            # do not run beside other shards (timing)


SUBS: typing.Dict[str, typing.List[Sub]] = {}
RULES: typing.Dict[str, str] = {}
ASSUMPTIONS: typing.Dict[str, typing.List[str]] = {}


def sub(prop, name, strategy, *, quick, thorough=None, shards=2, shrink=True, rule="", serial=False):
    def deco(fn):
        SUBS.setdefault(prop, []).append(Sub(prop, name, strategy, fn, quick, thorough or quick * 25, shards, shrink, rule, serial))
        return fn
    return deco


def normalise(case):
    return json.loads(json.dumps(case))


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


TRACE_MARK = "Traceback (most recent call last)"


def run_case(s: Sub, case) -> Ctx:
    """Run one (normalised) case. Any exception is a violation: the cases are within the property's domain."""
    ctx = Ctx()
    err = io.StringIO()
    try:
        try:
            with contextlib.redirect_stderr(err):
                s.run(case, ctx)
        finally:
            with contextlib.redirect_stderr(io.StringIO()):
                for fn in reversed(ctx.cleanups):
                    with contextlib.suppress(Exception):
                        fn()
    except Violation as e:
        text = err.getvalue()
        if text and not ctx.expect_tracebacks:
            raise Violation(f"{e}\n  (stderr: {text[-600:]})") from None
        raise
    except Exception as e:
        tb = "".join(traceback.format_exception(e)[-6:])
        raise Violation(f"unexpected {type(e).__name__}: {e}\n{tb}") from None
    if TRACE_MARK in err.getvalue() and not ctx.expect_tracebacks:
        raise Violation("an exception was raised inside an event handler and swallowed:\n" + err.getvalue()[-1200:])
    return ctx


def one_of(*strategies):
    """Like st.one_of, but each argument counts as one alternative: Hypothesis itself drops repeated arguments and flattens nested ones."""
    from hypothesis import strategies as st
    first = operator.itemgetter(0)
    return st.one_of(*[st.tuples(s).map(first) for s in strategies])
