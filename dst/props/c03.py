"""C03 Random quantum objects are valid members of their class for every draw."""
import json

from .. import bias, ops, valid
from ..common import REAL_ALL, STUBS_ALL, fail, harness_np_seed, run_spec

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 30000}
LISTS = ("calls",)
RULE = ("A run biases the shared random stream (with a per-run probability and set of kinds: scaled, nearly sparse, tail and tied Gaussians, extreme "
        "exponentials, Dirichlet vertices, extreme integers, extreme subsets) and checks every object delivered by 1-6 generator calls, seeded and unseeded, "
        "on 1-4 modes against its class: Hermiticity, positivity, norm, parity, Wick's theorem, number conservation, orthogonal action, stabilizers. "
        "Non-trivial: at least one biased draw was delivered, or a Clifford was drawn; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL + ["stim.Tableau.random (seeded Clifford circuits)"]
ASSUMPTIONS = ["biased draws stay within values the distribution delivers with non-negligible probability (|x| <= 6 for Gaussians, beta <= 12)",
               "tolerance 1e-7 on matrix identities, 1e-6 on Wick's theorem"]
COLD = ["random_FF_state", "random_FF_state", "random_FF_state_randH", "random_FF_pure_state_WN", "random_FF_state_rotPDF"]
CHEAP = ("random_qubit_state", "random_qubit_pure_state", "random_H_generator", "random_CHP_state")
GEN = [g for g in sorted(ops.GENERATORS) if g != "generate_random_planar_graph"] + ["random_CHP_state"]


def gen(r, tier, index):
    calls = []
    for _ in range(r.choice([1, 2, 3, 6])):
        n = r.choice(GEN + COLD) if r.random() < 0.5 else r.choice(GEN)
        p = ops.OPS[n].gen(r)
        if r.random() < (0.2 if tier == "thorough" else 0.12):
            p["n"] = r.choice([4, 4, 4, 5]) if n in CHEAP else 4
        if n == "random_FF_pure_state_WN" and r.random() < 0.7:
            p["kw"]["N"] = r.randint(0, p["n"])
        if n != "random_CHP_state" and r.random() < 0.6:
            p["seed"] = None
        calls.append({"op": n, "p": p})
    kinds = [k for k in bias.ALL if r.random() < 0.5]
    return {"calls": calls, "bias": {"p": r.choice([0.0, 0.1, 0.3, 0.6, 1.0]), "kinds": kinds}, "stream": r.randrange(2**32)}


def simplify(sc):
    if sc["bias"]["p"]:
        c = json.loads(json.dumps(sc))
        c["bias"]["p"] = 0.0
        yield c
    for k in sc["bias"]["kinds"]:
        c = json.loads(json.dumps(sc))
        c["bias"]["kinds"].remove(k)
        yield c
    for i, t in enumerate(sc["calls"]):
        for n in range(1, t["p"]["n"]):
            c = json.loads(json.dumps(sc))
            c["calls"][i]["p"]["n"] = n
            if c["calls"][i]["p"].get("kw", {}).get("N", 0) <= n:
                yield c


def run(sc, e):
    harness_np_seed(sc["stream"])
    e.np_bias = bias.NpBias(e, sc["run_seed"], sc["bias"]["p"], sc["bias"]["kinds"])
    for t in sc["calls"]:
        before = sum(e.fault_counts.values())
        o, a, k, out = run_spec(e, t)
        biased = sum(e.fault_counts.values()) - before
        p = t["p"]
        kw = {x: y for x, y in p.get("kw", {}).items()}
        e.log.append([t["op"], sorted(kw), p["n"], biased, out.ok])
        e.states.add("%s:%s:n%d:%s" % (t["op"], sorted(kw), p["n"], "biased" if biased else "plain"))
        if not out.ok and out.fault:
            continue  # LAPACK gave up on the biased draw
        if not out.ok:
            fail("generator-raises", "%s raised %s: %s" % (ops.describe(t), type(out.exc).__name__, str(out.exc)[:200]))
        try:
            msg = valid.check(t["op"], p["n"], kw, out.value)
        except Exception as ex:  # noqa: BLE001
            msg = "unreadable object %s (%s)" % (ops.brief(out.value), ex)
        if msg:
            fail("invalid-object", "%s: %s" % (ops.describe(t), msg))
        if biased or t["op"] == "random_CHP_state":
            e.nontrivial = True
