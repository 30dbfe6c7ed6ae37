"""Entry points: check one property, replay a recorded failure, determinism self-test."""
import argparse
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prop_module(pid):
    return importlib.import_module("dst.props." + pid.lower())


def known_findings():
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: "):
                    head, _, what = line[len("known: "):].partition(" -- ")
                    d = dict(x.split("=", 1) for x in head.split())
                    d["what"] = what
                    out.append(d)
    return out


def check(pid, tier, seed, runs=None, workers=None, quiet=False):
    from . import core

    t0 = core.monotonic()
    wall0 = time.perf_counter()
    prop = prop_module(pid)
    n = runs or prop.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    budget = {"quick": 420.0, "thorough": 780.0}[tier]
    print("%s %s: seed=%d runs=%d workers=%d source=%s" % (pid, tier, seed, n, workers, boot.source_digest()), flush=True)
    agg, first = core.batch(prop, seed, tier, n, workers, t0 + budget)

    # known findings this property declares (reproduced by fixed scenarios)
    findings = [f for f in known_findings() if f["property"] == pid]
    confirmed = []
    for f in findings:
        sc = prop.KNOWN[f["id"]]()
        sc.update(prop=pid, run_seed=1, index=-1)
        res = core.execute(prop, sc)
        if f["id"] in res["known"] and not res["viol"]:
            confirmed.append(f)
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]), flush=True)
        elif res["viol"] and first is None:
            first = {"i": -1, "viol": res["viol"], "scenario": sc}

    rc = 0
    if agg["errors"] and first is None:
        e = agg["errors"][0]
        print("HARNESS-ERROR property=%s run=%d: %s" % (pid, e["i"], e["error"]), flush=True)
        rc = 2
    if agg["failed_workers"] and first is None:
        print("HARNESS-ERROR property=%s: %d workers failed" % (pid, agg["failed_workers"]), flush=True)
        rc = 2
    if agg["runs"] == 0:
        rc = rc or 2
    if first is not None:
        rc = report(pid, prop, tier, seed, first)

    wall = core.monotonic() - t0
    write_evidence(pid, prop, tier, seed, agg, first, wall, confirmed, workers)
    print("%s %s: %d runs, %d distinct non-trivial histories, %d faults injected, %d library steps, %.1f s -> %s" % (
        pid, tier, agg["runs"], len(agg["nontrivial"]), sum(agg["faults"].values()), agg["steps"], wall,
        {0: "held", 1: "VIOLATED", 2: "error"}[rc]), flush=True)
    del wall0
    return rc


def report(pid, prop, tier, seed, first):
    from . import core

    sc, v = first["scenario"], first["viol"]
    print("violation class %s in run %d (run_seed=%s): %s" % (v["cls"], first["i"], sc["run_seed"], v["detail"][:600]), flush=True)
    if v["cls"].startswith("process-"):
        small, tries, detail = sc, 0, v["detail"]
    else:
        small, tries = core.minimise(prop, sc, v["cls"])
        res = core.execute(prop, small)
        if not (res["viol"] and res["viol"]["cls"] == v["cls"]):
            small, res = sc, core.execute(prop, sc)
        detail = res["viol"]["detail"] if res["viol"] else v["detail"]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join("replays", "%s-%s.json" % (pid, core.digest(small)))
    with open(os.path.join(VERIF, path), "w") as fh:
        json.dump({"property": pid, "seed": seed, "tier": tier, "class": v["cls"], "detail": detail, "original_run": first["i"],
                   "source": boot.source_digest(), "minimise_tries": tries, "scenario": small}, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print("minimised in %d tries to: %s" % (tries, json.dumps({k: small[k] for k in small if k not in ("prop",)}, sort_keys=True)[:1500]), flush=True)
    print("  %s" % detail[:800], flush=True)
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1


def write_evidence(pid, prop, tier, seed, agg, first, wall, confirmed, workers):
    import platform

    runs = agg["runs"]
    stats = dict(agg["stats"])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": prop.RULE,
        "samples": agg["samples"][:2],
        "simulated_runs_per_hour": round(runs / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(runs / max(wall, 1e-9) * 3600),
        "seeds": runs,
        "simulated_time_s": round(agg["simtime"], 3),
        "library_steps": agg["steps"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "distinct_event_logs": len(agg["digests"]),
        "distinct_states": len(agg["states"]),
        "distinct_states_measure": getattr(prop, "STATES", "marks set by the property's run (operation, option, fault site)"),
        "probes": dict(sorted(stats.items())),
        "known_findings_reproduced": [f["id"] for f in confirmed],
        "known_finding_hits_in_search": dict(agg["known"]),
        "real_components": prop.REAL,
        "stubbed_components": prop.STUBS,
        "workers": workers,
        "longest_run_s": round(agg["longest"][0], 2),
        "longest_run_index": agg["longest"][1],
    }
    cov["samples"] = [json.loads(json.dumps(s)) for s in cov["samples"]]
    for s in cov["samples"]:
        txt = json.dumps(s)
        if len(txt) > 6000:
            s.clear()
            s["truncated"] = txt[:6000]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
        "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
        "violations": 0 if first is None else 1,
    }
    ev["coverage"]["python"] = platform.python_version()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        fh.write("\n")


def replay(path):
    from . import core

    with open(path) as fh:
        rec = json.load(fh)
    prop = prop_module(rec["property"])
    res = core.execute(prop, rec["scenario"])
    if res["error"] and not res["viol"]:
        print("HARNESS-ERROR %s" % res["error"])
        return 2
    if res["viol"]:
        print("reproduced: class %s: %s" % (res["viol"]["cls"], res["viol"]["detail"]))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("the recorded run does not violate %s on this tree" % rec["property"])
    return 0


def digests(pid, seed, lo, hi, workers):
    """Event-log digests, one line per run, for the determinism self-test."""
    from . import core

    prop = prop_module(pid)
    agg, first = core.batch(prop, seed, "quick", hi, workers, core.monotonic() + 3600)
    for i, d in sorted(agg["digest_list"]):
        if i >= lo:
            print("%s %d %s" % (pid, i, d))
    for e in agg["errors"]:
        print("ERROR", pid, e["i"], e["error"])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "digests"])
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    global boot
    from . import boot as b

    boot = b
    boot.boot()
    if a.cmd == "check":
        return check(a.what, a.tier, a.seed, a.runs, a.workers)
    if a.cmd == "replay":
        return replay(a.what)
    return digests(a.what, a.seed, 0, a.runs or 50, a.workers or 4)


if __name__ == "__main__":
    sys.exit(main())
