"""C01 Seeded random generation is a function of the arguments and the seed."""
import gc
import json
import os
import subprocess
import sys

import numpy as np

from .. import ops
from ..common import (DRAWS, REAL_ALL, STUBS_ALL, Random, Violation, fail, gen_fault, harness_np_seed, iso_results,
                      resolve_fault, run_spec, same_portable, scribble, user_draw)
from ..core import HarnessError, derive

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 12000}
LISTS = ("history", "targets", "differ")
RULE = ("A run draws a history of 0-9 events (user draws and reseeds of either stream, restored stream states, seeded and unseeded "
        "generator calls, deterministic calls, calls hit by a fault, clock jumps, caller changes to returned objects), then makes 1-4 seeded "
        "generator calls and compares each with the same call made alone in a pristine process; pairs of seeds that differ in one bit or by a "
        "small step must differ in their result; every 60th run repeats its calls in a fresh interpreter under another PYTHONHASHSEED "
        "without any seam. Non-trivial: at least one history event touched a shared stream before a target; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL
ASSUMPTIONS = ["results are compared with tolerance 1e-6, so two seeds whose results agree to 1e-6 count as equal"]
GEN = sorted(ops.GENERATORS)


def gen_target(r):
    n = r.choice(GEN)
    p = ops.OPS[n].gen(r)
    if n == "random_FF_pure_state_WN" and "N" in p["kw"]:
        p["kw"]["N"] = r.randint(0, p["n"])
    if r.random() < 0.1 and n != "generate_random_planar_graph":
        p["np_seed"] = True
    return {"op": n, "p": p}


def gen(r, tier, index):
    if index % 60 == 59:
        return {"mode": "fresh", "targets": [gen_target(r) for _ in range(40)], "hashseed": r.randrange(1, 10000), "clock": r.choice([0, 1]),
                "streams": [r.randrange(2**31) for _ in range(2)], "unseeded": [gen_unseeded(r) for _ in range(8)]}
    targets = [gen_target(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.3:
        targets.append(json.loads(json.dumps(targets[0])))
    hist = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
        hist.append(gen_event(r, targets))
    differ = []
    for _ in range(r.choice([0, 1, 2])):
        t = gen_target(r)
        while t["op"] not in ops.CONTINUOUS or t["p"].get("np_seed"):
            t = gen_target(r)
        t["p"]["n"] = max(2, t["p"]["n"])
        s = t["p"]["seed"]
        k = r.choice(["bit", "step", "rand", "zero"])
        s2 = {"bit": s ^ (1 << r.randrange(32)), "step": s + r.choice([1, 2, 3, 10, 1000]), "rand": r.randrange(2**32 - 1), "zero": 0}[k] % (2**32 - 1)
        if s2 != s:
            differ.append({"t": t, "seed2": s2})
    return {"mode": "hist", "history": hist, "targets": targets, "differ": differ}


def gen_unseeded(r):
    t = gen_target(r)
    t["p"]["seed"] = None
    t["p"].pop("np_seed", None)
    return t


def gen_event(r, targets):
    k = r.choice(["draw", "draw", "seed", "call", "call", "unseeded", "fault", "fault", "det", "clock", "state", "gc", "same", "npdefault", "scribble"])
    if k == "draw":
        return {"t": "draw", "what": r.choice(DRAWS)}
    if k == "seed":
        return {"t": "seed", "v": r.choice([0, 1, r.randrange(2**32)])}
    if k == "call":
        return {"t": "call", "spec": gen_target(r)}
    if k == "unseeded":
        return {"t": "call", "spec": gen_unseeded(r)}
    if k == "fault":
        base = json.loads(json.dumps(r.choice(targets))) if r.random() < 0.6 else gen_target(r)
        return {"t": "call", "spec": base, "fault": gen_fault(r, ("line", "line", "backend", "rng", "graph"))}
    if k == "det":
        return {"t": "call", "spec": ops.gen_call(r, kinds=("det",))}
    if k == "clock":
        return {"t": "clock", "dt": r.choice([0.1, 3600, 1e7, -1e6])}
    if k == "same":
        t = json.loads(json.dumps(r.choice(targets)))
        what = r.choice(["same", "other", "none"])
        if what == "other":
            t["p"]["seed"] = ops.g_seed(r)
        elif what == "none":
            t["p"]["seed"] = None
            t["p"].pop("np_seed", None)
        return {"t": "call", "spec": t, "scribble": r.random() < 0.7}
    if k == "state":
        return {"t": "state"}
    if k == "npdefault":
        return {"t": "npdefault", "v": r.randrange(2**31)}
    if k == "scribble":
        return {"t": "call", "spec": json.loads(json.dumps(r.choice(targets))), "scribble": True}
    return {"t": "gc"}


def simplify(sc):
    """Candidates with smaller arguments."""
    for key in ("targets",):
        for i, t in enumerate(sc.get(key, [])):
            for n in range(1, t["p"]["n"]):
                c = json.loads(json.dumps(sc))
                c[key][i]["p"]["n"] = n
                yield c
            for s in (0, 1):
                if t["p"].get("seed") not in (None, 0, s):
                    c = json.loads(json.dumps(sc))
                    c[key][i]["p"]["seed"] = s
                    yield c


def prep(spec):
    o, a, k = ops.make(spec)
    if spec["p"].get("np_seed") and k.get("seed") is not None:
        k["seed"] = np.int64(k["seed"])
    return o, a, k


def make_specs(specs):
    return [dict(s, p={k: v for k, v in s["p"].items() if k != "np_seed"}) for s in specs]


def run(sc, e):
    if sc["mode"] == "fresh":
        return run_fresh(sc, e)
    e.rng_log_on = False
    r = Random(sc["run_seed"])
    targets = sc["targets"]
    ref_specs = make_specs(targets)
    iso = iso_results(e, ref_specs, derive(sc["run_seed"], "iso"))
    # the isolated reference must itself not depend on where the streams were
    touched = False
    saved = None
    for ev in sc["history"]:
        t = ev["t"]
        if t == "draw":
            user_draw(ev["what"])
            touched = True
        elif t == "seed":
            harness_np_seed(ev["v"])
            touched = True
        elif t == "clock":
            e.clock.jump(ev["dt"])
        elif t == "gc":
            gc.collect()
        elif t == "npdefault":
            np.random.default_rng(ev["v"]).random(3)
        elif t == "state":
            if saved is None:
                saved = np.random.get_state()
            else:
                np.random.set_state(saved)
            touched = True
        elif t == "call":
            o, a, k = prep(ev["spec"])
            f = ev.get("fault")
            if f:
                if f["kind"] == "line":
                    d = e.dry_lines(lambda: o.fn()(*prep(ev["spec"])[1], **prep(ev["spec"])[2]))
                    f = resolve_fault(f, d)
            _, _, _, out = run_spec(e, ev["spec"], f, (o, a, k))
            e.log.append([o.name, "fault" if f else "call", out.ok, out.fired])
            if f and out.fired:
                e.states.add("fault:%s:%s" % (f["kind"], o.name))
            if ev.get("scribble") and out.ok:
                e.stats["result_scribbled"] += int(scribble(out.value, r))
            touched = touched or o.kind != "det"
    for i, t in enumerate(targets):
        o, a, k = prep(t)
        _, _, _, out = run_spec(e, t, None, (o, a, k))
        e.log.append([o.name, "target", out.ok])
        e.states.add("target:%s:%s" % (o.name, sorted(t["p"]["kw"])))
        kind, want = iso[i]
        if kind == "exc":
            fail("seeded-call-raises", "%s raises %s when made alone" % (ops.describe(t), want))
        if not out.ok:
            fail("seeded-call-raises", "%s raised %r after the history" % (ops.describe(t), out.exc))
        if not same_portable(out.value, want):
            fail("not-a-function-of-the-seed", "%s depends on what happened before it: got %s, alone it gives %s" % (ops.describe(t), ops.brief(first_array(out.value)), ops.brief(first_array(want))))
        # the caller may use what it received as it likes
        scribble(out.value, r)
    for d in sc["differ"]:
        t = d["t"]
        t2 = json.loads(json.dumps(t))
        t2["p"]["seed"] = d["seed2"]
        vals = []
        for x in (t, t2):
            _, _, _, out = run_spec(e, x, None, prep(x))
            if not out.ok:
                fail("seeded-call-raises", "%s raised %r" % (ops.describe(x), out.exc))
            vals.append(out.value)
        e.stats["seed_pairs"] += 1
        if same_portable(vals[0], vals[1], 1e-9):
            fail("seeds-collide", "%s gives the same object for seeds %d and %d" % (t["op"], t["p"]["seed"], d["seed2"]))
    e.nontrivial = touched and bool(targets)


def first_array(v):
    return v[0] if isinstance(v, tuple) and v else v


def run_fresh(sc, e):
    """The same calls in a fresh interpreter, without seams, under another hash seed."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from .. import boot

    envv = {"PYTHONHASHSEED": str(sc["hashseed"]), "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
            "PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", "/tmp"), "FF_REPO": boot.REPO}
    targets = make_specs(sc["targets"])
    job = json.dumps({"targets": targets, "streams": sc["streams"], "unseeded": sc["unseeded"]})
    p = subprocess.run([sys.executable, os.path.join(here, "dst", "fresh.py")], input=job.encode(), env=envv, capture_output=True, timeout=900)
    if p.returncode != 0:
        raise HarnessError("fresh interpreter failed: %s" % p.stderr.decode()[-600:])
    import pickle

    rec = pickle.loads(p.stdout)
    for t, (kind, want) in zip(targets, rec["targets"]):
        _, _, _, out = run_spec(e, t)
        if kind != "ok" or not out.ok:
            fail("seeded-call-raises", "%s: here %r, in a fresh process %s %s" % (ops.describe(t), out, kind, ops.brief(want)))
        if not same_portable(out.value, want):
            fail("differs-across-processes", "%s differs in a fresh process (PYTHONHASHSEED=%d)" % (ops.describe(t), sc["hashseed"]))
        e.log.append([t["op"], "fresh"])
    import random

    np.random.seed(sc["streams"][0])
    random.seed(sc["streams"][1])
    for t, (kind, want) in zip(sc["unseeded"], rec["unseeded"]):
        _, _, _, out = run_spec(e, t)
        if kind != "ok" or not out.ok or not same_portable(out.value, want):
            fail("stream-not-replayable", "%s after seeding both streams differs in a fresh process" % ops.describe(t))
    e.stats["fresh_processes"] += 1
    e.nontrivial = True


_ = Violation
