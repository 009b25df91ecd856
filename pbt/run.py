#!/usr/bin/env python3-vt
"""Runs the check of one property.

usage: run.py PROP            quick or thorough according to VERIF_TIER (default quick), seed VERIF_SEED (default 1)
       run.py PROP --replay F run one saved case
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures, json, os, pathlib, shutil, subprocess, sys, tempfile, time, threading

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
PY = sys.executable


QUICK_FACTOR = 3      # there is time for more cases than the counts given with the sub-checks


def env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC", PYTHONPATH="")
    return e


def run_worker(args, out, timeout):
    try:
        r = subprocess.run([PY, str(HERE / "worker.py"), *args, str(out)], env=env(), capture_output=True, text=True, timeout=timeout, cwd=str(out.parent))
    except subprocess.TimeoutExpired:
        return {"error": f"worker {args[:3]} ran out of time (inconclusive)", "failure": None, "evaluations": 0, "nontrivial_hashes": [], "labels": {}, "samples": []}
    if not out.exists():
        return {"error": f"worker {args[:3]} ended with {r.returncode}: {r.stderr[-3000:]}", "failure": None, "evaluations": 0, "nontrivial_hashes": [], "labels": {}, "samples": []}
    return json.loads(out.read_text())


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t0 = time.time()
    evidence_dir = VERIF / "evidence"
    evidence_dir.mkdir(exist_ok=True)
    replay_dir = evidence_dir / "replay"
    work = pathlib.Path(tempfile.mkdtemp(prefix="pbt-"))
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            r = run_worker([prop, "--replay", os.path.abspath(sys.argv[3])], work / "r.json", 600)
            if r["error"]:
                print(r["error"], file=sys.stderr)
                return 2
            if r["failure"]:
                print(r["failure"]["message"])
                print(f"VIOLATION property={prop} replay={os.path.abspath(sys.argv[3])}")
                return 1
            print("held")
            return 0
        # the list of sub-checks comes from a separate process too, so that this one never imports /repo
        r = subprocess.run([PY, str(HERE / "list.py"), prop], env=env(), capture_output=True, text=True, timeout=120, cwd=str(work))
        if r.returncode != 0:
            print(r.stderr, file=sys.stderr)
            return 2
        info = json.loads(r.stdout)
        timeout = 840 if tier == "quick" else 6 * 3600
        jobs = []
        corpus = sorted(str(f) for f in (VERIF / "corpus" / prop).glob("*.json"))
        if corpus:
            jobs.append(("corpus", [prop, "--replay", *corpus], False))
        for s in info["subs"]:
            n = int((s["quick"] if tier == "quick" else s["thorough"]) * scale)
            shards = s["shards"] if tier == "quick" else max(8, s["shards"])
            if s["serial"]:
                shards = s["shards"]
            elif tier == "quick":
                n, shards = n * QUICK_FACTOR, min(8, shards * 2)
            for k in range(shards):
                jobs.append((s["name"], [prop, s["name"], str(k), str(max(1, n // shards)), str(seed), tier], s["serial"]))
        results = []
        stop = threading.Event()

        def job(i):
            name, args, _ = jobs[i]
            if stop.is_set():
                return None
            r = run_worker(args, work / f"r{i}.json", timeout)
            if r["failure"]:
                stop.set()
            return name, r

        parallel = [i for i, j in enumerate(jobs) if not j[2]]
        serial = [i for i, j in enumerate(jobs) if j[2]]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            results.extend(x for x in ex.map(job, parallel) if x)
        for i in serial:
            x = job(i)
            if x:
                results.append(x)

        failures = [(n, r["failure"]) for n, r in results if r["failure"]]
        errors = [r["error"] for n, r in results if r["error"]]
        per_sub = {}
        hashes = set()
        samples = []
        for n, r in results:
            d = per_sub.setdefault(n, {"evaluations": 0, "nontrivial": set(), "labels": {}})
            d["evaluations"] += r["evaluations"]
            d["nontrivial"].update(r["nontrivial_hashes"])
            for l, c in r["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + c
            hashes.update(n + ":" + h for h in r["nontrivial_hashes"])
            for c in r["samples"][:3]:
                if sum(1 for x in samples if x["sub"] == n) < 3:
                    samples.append({"sub": n, "case": c})
        known = []
        kf = VERIF / "known_findings.json"
        if kf.exists():
            known = [k for k in json.loads(kf.read_text())["findings"] if k["property"] == prop and k["status"] == "known"]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(d["evaluations"] for d in per_sub.values()),
                "distinct_nontrivial": len(hashes),
                "rule": info["rule"],
                "samples": samples,
                "sub_checks": {n: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nontrivial"]), "labels": dict(sorted(d["labels"].items()))} for n, d in per_sub.items()},
                "saved_cases_replayed": len(corpus),
            },
            "assumptions": info["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(failures),
        }
        (evidence_dir / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        if failures:
            replay_dir.mkdir(exist_ok=True)
            name, f = min(failures, key=lambda x: len(json.dumps(x[1]["case"])))
            name = f.get("sub", name)
            path = pathlib.Path(f["file"]) if "file" in f else replay_dir / f"{prop}-{name}-{seed}.json"
            if "file" not in f:
                path.write_text(json.dumps({"property": prop, "sub": name, "case": f["case"], "message": f["message"]}, indent=1))
            print(f"[{prop}/{name}] {f['message']}")
            print("case: " + json.dumps(f["case"])[:2000])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if errors:
            for e in errors:
                print(e, file=sys.stderr)
            return 2
        print(f"{prop} held: {evidence['coverage']['evaluations']} cases, {len(hashes)} distinct non-trivial, {evidence['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
