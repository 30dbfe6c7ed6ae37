"""C02 Unseeded generation draws only from the shared random streams."""
import json

import numpy as np

from .. import ops
from ..common import (DRAWS, REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed, np_state, portable, resolve_fault,
                      run_spec, same_portable, scribble, user_draw)
from ..core import derive

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 20000}
LISTS = ("steps",)
RULE = ("A run seeds both shared streams, then performs 2-12 steps (unseeded and seeded generator calls, user draws, deterministic calls, "
        "plotting, calls hit by a fault, clock jumps, changed results) and performs the whole sequence again after other activity; every step must give the "
        "same value, deterministic calls must leave both streams untouched, repeated unseeded calls must differ, and no unseeded call may "
        "reseed a stream. Non-trivial: at least two unseeded generator calls; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL
ASSUMPTIONS = ["the external Clifford sampler is outside the statement"]
GEN = sorted(ops.GENERATORS)
UNSEEDED = GEN + ["generate_random_bitstring"]
DETS = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "path")]


def unseeded(r):
    n = r.choice(UNSEEDED)
    p = ops.OPS[n].gen(r)
    if n != "generate_random_bitstring":
        p["seed"] = None
    if n == "generate_random_planar_graph" and r.random() < 0.5:
        p["n"] = r.choice([14, 16, 20, 24])  # dozens of rejected attempts
    if n == "random_FF_pure_state_WN" and "N" in p["kw"]:
        p["kw"]["N"] = r.randint(0, p["n"])
    return {"op": n, "p": p}


def seeded(r):
    n = r.choice(GEN)
    return {"op": n, "p": ops.OPS[n].gen(r)}


def gen(r, tier, index):
    steps = []
    focus = r.choice([None, None, unseeded(r)])
    for _ in range(r.choice([2, 3, 4, 6, 9, 12])):
        k = r.choice(["un", "un", "un", "seeded", "draw", "det", "det", "fault", "clock", "scribble"] + ["plot"] * (r.random() < 0.15))
        if focus is not None and k == "un" and r.random() < 0.6:
            steps.append({"t": "call", "spec": json.loads(json.dumps(focus))})
        elif k == "un":
            steps.append({"t": "call", "spec": unseeded(r)})
        elif k == "seeded":
            steps.append({"t": "call", "spec": seeded(r)})
        elif k == "draw":
            steps.append({"t": "draw", "what": r.choice(DRAWS)})
        elif k == "det":
            steps.append({"t": "call", "spec": {"op": (n := r.choice(DETS)), "p": ops.OPS[n].gen(r)}})
        elif k == "fault":
            sp = r.choice([unseeded, unseeded, seeded, lambda q: ops.gen_call(q, DETS)])(r)
            steps.append({"t": "call", "spec": sp, "fault": gen_fault(r, ("line", "line", "backend", "rng", "stdout", "graph"))})
        elif k == "plot":
            steps.append({"t": "plot", "what": r.choice(["matrix", "matrix", "graph", "embedding", "population", "verbose"]), "n": r.choice([2, 4, 6, 9]), "seed": r.getrandbits(30)})
        elif k == "clock":
            steps.append({"t": "clock", "dt": r.choice([1.0, 1e5])})
        else:
            steps.append({"t": "call", "spec": unseeded(r), "scribble": True})
    return {"steps": steps, "np": r.randrange(2**32), "py": r.randrange(2**32), "between": r.randint(0, 5)}


def simplify(sc):
    for i, s in enumerate(sc["steps"]):
        if s["t"] == "call" and isinstance(s["spec"]["p"].get("n"), int):
            for n in range(1, s["spec"]["p"]["n"]):
                c = json.loads(json.dumps(sc))
                c["steps"][i]["spec"]["p"]["n"] = n
                yield c


def one_pass(sc, e, first):
    """Performs the steps; returns the list of observed values."""
    seen = []
    r = Random(derive(sc["run_seed"], "scribble"))
    for i, st in enumerate(sc["steps"]):
        if st["t"] == "clock":
            e.clock.jump(st["dt"])
            seen.append(None)
            continue
        if st["t"] == "plot":
            before = (np_state(), py_state())
            out = plot(e, st)
            if before != (np_state(), py_state()):
                fail("deterministic-call-disturbs-stream", "plotting (%s, %d nodes) moved the shared random streams" % (st["what"], st["n"]))
            e.stats["plots_checked"] += 1
            seen.append(("ok" if out.ok else "exc", None, None))
            continue
        if st["t"] == "draw":
            seen.append(("ok", user_draw(st["what"]), None))
            continue
        spec = st["spec"]
        o, a, k = ops.make(spec)
        f = st.get("fault")
        if f:
            # the line count comes from a dry run on saved stream states
            states = save()
            if f["kind"] == "line":
                d = e.dry_lines(lambda: o.fn()(*ops.make(spec)[1], **ops.make(spec)[2]))
                f = resolve_fault(f, d)
            restore(states)
        before = (np_state(), py_state())
        n0, ent0 = len(e.rng_ops), e.stats["entropy_reads"]
        _, _, _, out = run_spec(e, spec, f, (o, a, k))
        after = (np_state(), py_state())
        names = [x for x in e.rng_ops[n0:] if x[2] in ("seed", "set_state", "setstate")]
        del ent0
        val = portable(out.value) if out.ok else type(out.exc).__name__
        seen.append(("ok" if out.ok else "exc", val, bool(out.fired)))
        desc = ops.describe(spec)
        if o.kind in ("det", "path"):
            if before != after:
                fail("deterministic-call-disturbs-stream", "%s %s the shared random streams" % (desc, "moved"))
            e.stats["det_checked"] += 1
        elif o.kind == "unseeded" or spec["p"].get("seed") is None:
            if names:
                fail("unseeded-call-reseeds", "%s without a seed calls %s on the shared stream" % (desc, names[0][2]))
            if out.ok and not f and before == after and not degenerate(spec):
                fail("private-randomness", "%s without a seed did not advance the shared stream" % desc)
            own, other = (1, 0) if o.name == "generate_random_planar_graph" else (0, 1)
            if before[other] != after[other]:
                fail("wrong-stream", "%s draws from the other shared stream" % desc)
            del own
            e.stats["unseeded_checked"] += 1
        if first:
            e.log.append([o.name, seen[-1][0], out.fired, len(e.rng_ops) - n0])
            if out.fired:
                e.states.add("fault:%s" % o.name)
            e.states.add("op:" + o.name)
        if st.get("scribble") and out.ok:
            scribble(out.value, r)
            seen[-1] = ("ok", None, None)
        if f:
            # where an interrupted call stood depends on what the library had
            # already cached, and so does what it drew: start the streams anew
            reseed(derive(sc["run_seed"], "after fault %d" % i))
    return seen


def reseed(v):
    import random

    from .. import seams

    ee, seams.ENV = seams.ENV, None
    try:
        np.random.seed(v % 2**32)
        random.seed(v)
    finally:
        seams.ENV = ee


def plot(e, st):
    """A plotting helper called with something to draw; figures are dropped."""
    import matplotlib.pyplot as plt
    import networkx as nx

    from ..seams import FF

    g = Random(st["seed"])
    n = st["n"]
    h = nx.cycle_graph(n)
    if n > 4:
        h.add_edge(0, n // 2)
    for u, v in h.edges:
        h[u][v]["weight"] = g.randint(1, 9)
    m = nx.to_numpy_array(h)
    fn = {"matrix": lambda: FF.plot_graph_with_edge_weights(m * (1 if st["seed"] % 2 else np.triu(np.ones_like(m)))),
          "graph": lambda: FF.plot_graph_with_edge_weights(h),
          "embedding": lambda: FF.plot_planar_embedding(h),
          "population": lambda: FF.analyze_pdf(np.ones(2 ** (n // 2)) / 2 ** (n // 2), stem=bool(st["seed"] % 2)),
          "verbose": lambda: FF.pfo_algorithm(h, verbose=True)}[st["what"]]
    try:
        return e.call(fn)
    finally:
        plt.close("all")


def degenerate(spec):
    """Calls that have nothing to draw."""
    p = spec["p"]
    if spec["op"] == "generate_random_bitstring":
        return p["k"] <= 0 or p["k"] > p["n"] or p["n"] <= 1
    if spec["op"] == "generate_random_planar_graph":
        return p["n"] <= 2
    return False


def py_state():
    import random

    return hash(random.getstate())


def save():
    import random

    from .. import seams

    ee, seams.ENV = seams.ENV, None
    try:
        return np.random.get_state(), random.getstate()
    finally:
        seams.ENV = ee


def restore(s):
    import random

    from .. import seams

    ee, seams.ENV = seams.ENV, None
    try:
        np.random.set_state(s[0])
        random.setstate(s[1])
    finally:
        seams.ENV = ee


def seed_streams(sc, e, salt):
    import random

    from .. import seams

    has_py = any(s["t"] == "draw" and s["what"].startswith("py") or s["t"] == "call" and s["spec"]["op"] == "generate_random_planar_graph" for s in sc["steps"])
    has_np = any(s["t"] == "draw" and not s["what"].startswith("py") or s["t"] == "call" and s["spec"]["op"] != "generate_random_planar_graph" and s["spec"]["op"] in UNSEEDED for s in sc["steps"])
    ee, seams.ENV = seams.ENV, None
    try:
        # a stream nobody in this run may use starts elsewhere the second time
        np.random.seed((sc["np"] + (0 if has_np else salt)) % 2**32)
        random.seed(sc["py"] + (0 if has_py else salt))
    finally:
        seams.ENV = ee


def run(sc, e):
    seed_streams(sc, e, 0)
    one = one_pass(sc, e, True)
    r = Random(sc["run_seed"])
    for _ in range(sc["between"]):
        user_draw(r.choice(DRAWS))
    if sc["between"]:
        harness_np_seed(r.randrange(2**32))
        e.clock.jump(1e4)
    seed_streams(sc, e, 12345)
    two = one_pass(sc, e, False)
    for i, (a, b) in enumerate(zip(one, two)):
        if a is None or a[2] or b[2]:
            continue
        what = ops.describe(sc["steps"][i]["spec"]) if sc["steps"][i]["t"] == "call" else "%s %s" % (sc["steps"][i]["t"], sc["steps"][i]["what"])
        if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
            fail("not-replayable", "step %d %s: first %s %s, on replay %s %s" % (i, what, a[0], ops.brief(a[1]), b[0], ops.brief(b[1])))
        if a[0] == "ok" and not eq(a[1], b[1]):
            fail("not-replayable", "step %d %s differs when the streams are seeded again: %s then %s" % (i, what, ops.brief(a[1]), ops.brief(b[1])))
    # freshness: the same unseeded call made twice gives two values
    last = {}
    count = 0
    for i, (st, a) in enumerate(zip(sc["steps"], one)):
        if st["t"] == "call" and OPS_continuous(st["spec"]) and not st.get("fault") and not st.get("scribble"):
            if st["spec"]["p"].get("seed") is not None:
                last.clear()  # a seeded call legitimately resets the stream
                continue
            count += 1
            key = json.dumps(st["spec"], sort_keys=True)
            if key in last and a[0] == "ok" and eq(last[key], a[1], 1e-9):
                fail("repeats-itself", "%s without a seed returned the same value twice in a row" % ops.describe(st["spec"]))
            if a[0] == "ok":
                last[key] = a[1]
                e.stats["freshness_checked"] += 1
        elif st["t"] == "call" and ops.OPS[st["spec"]["op"]].kind == "seeded":
            last.clear()
    e.nontrivial = sum(1 for s in sc["steps"] if s["t"] == "call" and s["spec"]["op"] in UNSEEDED and s["spec"]["p"].get("seed") is None) >= 2


def OPS_continuous(spec):
    if spec["op"] == "generate_random_planar_graph":
        return spec["p"]["n"] >= 14
    return spec["op"] in ops.CONTINUOUS and spec["p"]["n"] >= 2


def eq(a, b, tol=1e-6):
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], str) and b[0] == "path":
        return isinstance(a, tuple) and all(ops.same(x, y, tol) for x, y in zip(a[1], b[1]))
    if a is None or b is None:
        return a is None and b is None
    return same_portable(a, b, tol)
