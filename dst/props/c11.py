"""C11 A fault during a call never yields wrong data or poisons later calls."""
import json

from .. import ops, valid
from ..common import (REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed, iso_results, portable, resolve_fault, run_spec, safe_check,
                      same_portable, settings_diff)
from .c08 import failed_answer_allowed

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 24000}
LISTS = ("items",)
RULE = ("A run performs 1-6 calls; each is first hit by 0-4 faults (interruption or allocation failure at a chosen source line, failing backend, random source, "
        "graph algorithm, import or output stream, once or for good) or by a sweep of interruptions over its lines, and then made again without fault. After "
        "every call: raised or correct by the reference model (seeded generators: as alone in a pristine fork), arguments and all earlier results byte-wise "
        "intact, process settings as before. Non-trivial: at least one fault fired; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL + ["numpy/scipy/networkx calls of the library fail on command (otherwise real)"]
STATES = "operation x fault kind, and functions in which a line fault fired"
ASSUMPTIONS = ["an asynchronous exception is not delivered inside finally, except or with-header lines, where no Python code can survive it"]
DETS = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "path")]
GEN = sorted(ops.GENERATORS)
KINDS = ("line", "line", "line", "backend", "backend", "rng", "stdout", "graph", "import")
RELEVANT = {"rng": set(GEN) | {"generate_random_bitstring"},
            "stdout": {"print_custom", "pfo_algorithm", "count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute"},
            "graph": {"pfo_algorithm", "count_perfect_matchings", "count_perfect_matchings_planar", "faces", "generate_random_planar_graph"},
            "import": {"random_CHP_state", "faces", "pfo_algorithm", "count_perfect_matchings"}}
MODULES = {"random_CHP_state": "stim"}


def pick(r):
    k = r.random()
    if k < 0.62:
        n = r.choice(DETS)
    elif k < 0.9:
        n = r.choice(GEN)
    else:
        n = r.choice(["generate_random_bitstring", "random_CHP_state"])
    return {"op": n, "p": ops.OPS[n].gen(r)}


def fault_for(r, name):
    kinds = [k for k in KINDS if k not in RELEVANT or name in RELEVANT[k]]
    k = r.choice(kinds)
    if k == "import":
        return {"kind": "import", "module": MODULES.get(name, "networkx.algorithms.planar_drawing")}
    return gen_fault(r, (k,))


def gen(r, tier, index):
    items = []
    rep = r.random() < 0.5
    for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
        if rep and items and r.random() < 0.5:
            spec = json.loads(json.dumps(items[-1]["spec"]))
            if r.random() < 0.5 and "seed" in spec["p"] and spec["op"] not in ops.GENERATORS:
                spec["p"]["seed"] = r.getrandbits(30)
        else:
            spec = pick(r)
        it = {"spec": spec, "faults": [fault_for(r, spec["op"]) for _ in range(r.choice([0, 1, 1, 2, 4]))], "retry": r.random() < 0.9}
        if r.random() < 0.12 and it["faults"]:
            # the same mishap several times over
            it["faults"] = [dict(it["faults"][0]) for _ in range(r.choice([3, 4, 6, 9]))]
            if it["faults"][0]["kind"] == "line" and r.random() < 0.5:
                it["faults"] = [fault_for(r, spec["op"]) for _ in it["faults"]]
        if r.random() < 0.06:
            it["sweep"] = r.randrange(1000)
        items.append(it)
    return {"items": items, "stream": r.randrange(2**32)}


def simplify(sc):
    for i, it in enumerate(sc["items"]):
        for j in range(len(it["faults"])):
            c = json.loads(json.dumps(sc))
            del c["items"][i]["faults"][j]
            yield c
        if "sweep" in it:
            c = json.loads(json.dumps(sc))
            del c["items"][i]["sweep"]
            yield c
        p = it["spec"]["p"]
        if isinstance(p.get("n"), int):
            for n in range(1, p["n"]):
                c = json.loads(json.dumps(sc))
                c["items"][i]["spec"]["p"]["n"] = n
                yield c


def run(sc, e):
    seeded = [it["spec"] for it in sc["items"] if it["spec"]["op"] in ops.GENERATORS and it["spec"]["p"].get("seed") is not None]
    alone = {}
    if seeded:
        for s, v in zip(seeded, iso_results(e, seeded, sc["run_seed"])):
            alone[json.dumps(s, sort_keys=True)] = v
    harness_np_seed(sc["stream"])
    kept = []
    for it in sc["items"]:
        spec = it["spec"]
        faults = list(it["faults"])
        if "sweep" in it or any(f["kind"] == "line" for f in faults):
            o, a, k = ops.make(spec)
            lines = e.dry_lines(lambda: o.fn()(*a, **k))
            faults = [resolve_fault(f, lines) for f in faults]
            if "sweep" in it:
                stride = max(1, lines // 40)
                faults += [{"kind": "line", "at": x, "exc": "KeyboardInterrupt"} for x in range(1 + it["sweep"] % stride, lines + 1, stride)]
        for f in faults:
            one(e, spec, f, kept, alone)
        if it["retry"] or not faults:
            one(e, spec, None, kept, alone)


def one(e, spec, f, kept, alone):
    o, a, k = ops.make(spec)
    frozen = ops.freeze((a, k))
    before = e.settings()
    _, _, _, out = run_spec(e, spec, f, (o, a, k))
    desc = ops.describe(spec)
    how = "hit by %s" % json.dumps({x: out.fault[x] for x in out.fault if x != "frac"}, sort_keys=True) if out.fired else "after earlier faults" if e.nontrivial else "without fault"
    e.log.append([spec["op"], f and f["kind"], out.ok, out.fired])
    if out.fired:
        e.nontrivial = True
        e.states.add("%s:%s" % (spec["op"], out.fault["kind"]))
    d = settings_diff(before, e.settings())
    if d:
        fail("settings-changed", "%s %s changed process settings: %s" % (desc, how, d))
    if ops.freeze((a, k)) != frozen:
        fail("argument-changed", "%s %s changed its arguments" % (desc, how))
    for d2, v, fr in kept:
        if ops.freeze(v) != fr:
            fail("earlier-result-changed", "%s %s changed the object returned earlier by %s" % (desc, how, d2))
    if not out.ok:
        if not out.fired:
            fail("later-call-fails", "%s %s raised %s: %s" % (desc, how, type(out.exc).__name__, str(out.exc)[:300]))
        return
    if out.value is None and out.fired and failed_answer_allowed(spec["op"], out.fault):
        return
    if o.kind in ("det", "path"):
        msg = safe_check(o, a, k, out.value, spec["p"])
    elif spec["op"] == "generate_random_bitstring":
        msg = ops.bitstring_error(out.value, spec["p"]["n"], spec["p"]["k"])
    elif spec["op"] in ops.GENERATORS:
        ref = alone[json.dumps(spec, sort_keys=True)]
        if ref[0] != "ok":
            fail("later-call-fails", "%s alone raised %s" % (desc, ref[1]))
        msg = None if same_portable(out.value, ref[1]) else "got %s, alone it returns %s" % (ops.brief(portable(out.value)), ops.brief(ref[1]))
    else:
        msg = valid.check(spec["op"], spec["p"]["n"], spec["p"].get("kw", {}), out.value)
    if msg:
        fail("wrong-result", "%s %s: %s" % (desc, how, msg))
    if len(kept) < 12 and not callable(out.value):
        kept.append((desc, out.value, ops.freeze(out.value)))


_ = Random
