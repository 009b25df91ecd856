"""Worker process: runs one shard of one sub-check and writes its result as JSON.

usage: worker.py PROP SUB SHARD EXAMPLES SEED TIER OUT
       worker.py PROP --replay FILE...   OUT      (runs saved cases, no Hypothesis)
"""
import importlib, json, os, pathlib, resource, sys, threading, time, traceback, warnings

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

CASE_CPU_LIMIT = 40.0     # seconds of CPU in a single case that normally needs milliseconds
CASE_WALL_LIMIT = 150.0
SHRINK_LIMIT = 60.0       # seconds from the first failing case on


def load_checks(prop):
    import nion.utils
    f = nion.utils.__file__
    if not f.startswith("/repo/"):
        raise RuntimeError(f"nion.utils imported from {f}")
    index = json.loads((HERE / "index.json").read_text())
    importlib.import_module("checks." + index[prop])
    import core
    return core


class Watch:
    """Ends the process with a violation when a single case does not come to an end."""

    def __init__(self, out, state):
        self.out, self.state = out, state
        self.case = None
        self.t0 = self.c0 = 0.0
        threading.Thread(target=self.loop, daemon=True).start()

    def begin(self, case):
        self.t0, self.c0 = time.monotonic(), time.process_time()
        self.case = case

    def end(self):
        self.case = None

    def loop(self):
        while True:
            time.sleep(0.5)
            case = self.case
            if case is not None and (time.process_time() - self.c0 > CASE_CPU_LIMIT or time.monotonic() - self.t0 > CASE_WALL_LIMIT):
                if case is self.case:
                    self.state["failure"] = {"case": case, "message": "the case does not come to an end (deadlock or endless loop)"}
                    pathlib.Path(self.out).write_text(json.dumps(self.state))
                    os._exit(0)


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    out = sys.argv[-1]
    state = {"sub": mode, "evaluations": 0, "nontrivial_hashes": [], "labels": {}, "samples": [], "failure": None, "error": None}
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(0)
    try:
        core = load_checks(prop)
        watch = Watch(out, state)
        nontrivial = set()

        found = []

        def execute(s, case):
            if found and time.monotonic() - found[0] > SHRINK_LIMIT:
                pathlib.Path(out).write_text(json.dumps(state))
                os._exit(0)
            state["evaluations"] += 1
            watch.begin(case)
            try:
                ctx = core.run_case(s, case)
            except core.Violation as e:
                state["failure"] = {"sub": s.name, "case": case, "message": str(e)}
                found.append(time.monotonic())
                raise
            finally:
                watch.end()
            for l in ctx.labels:
                state["labels"][l] = state["labels"].get(l, 0) + 1
            if ctx.is_nontrivial:
                h = core.case_hash(case)
                if h not in nontrivial:
                    nontrivial.add(h)
                    n = len(nontrivial)
                    if n in (1, 20, 150):
                        text = json.dumps(case)
                        state["samples"].append(case if len(text) < 1500 else text[:1500] + "...")

        if mode == "--replay":
            subs = {s.name: s for s in core.SUBS[prop]}
            for f in sys.argv[3:-1]:
                d = json.loads(pathlib.Path(f).read_text())
                try:
                    execute(subs[d["sub"]], core.normalise(d["case"]))
                except core.Violation:
                    state["failure"]["file"] = f
                    break
        else:
            s = [x for x in core.SUBS[prop] if x.name == mode][0]
            shard, examples, seed, tier = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
            import hypothesis
            from hypothesis import settings, HealthCheck, Phase, Verbosity
            phases = [Phase.generate] + ([Phase.shrink] if s.shrink else [])

            @hypothesis.seed(seed * 7919 + shard * 104729 + int(core.case_hash([prop, mode]), 16) % 1000003)
            @settings(max_examples=examples, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
                      print_blob=False, verbosity=Verbosity.quiet)
            @hypothesis.given(s.strategy(tier == "thorough"))
            def test(case):
                case = core.normalise(case)
                execute(s, case)

            try:
                test()
            except core.Violation:
                pass
            except BaseException as e:
                # hypothesis wraps failures that do not repeat; the failure was nevertheless observed
                if state["failure"] is None:
                    raise
                state["failure"]["message"] += f"\n(reported although: {type(e).__name__})"
        state["nontrivial_hashes"] = sorted(nontrivial)
    except BaseException:
        state["error"] = traceback.format_exc()
    pathlib.Path(out).write_text(json.dumps(state))
    sys.stdout.flush()
    os._exit(0)


main()
