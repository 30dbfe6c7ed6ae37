"""C08 Symplectic diagonalisation holds for every legal backend answer or fails."""
import json

from .. import ops
from ..common import Random, fail, gen_fault, run_spec, safe_check, scribble
from ..core import derive

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 60000}
LISTS = ("calls",)
RULE = ("A run makes 1-6 diagonalisations (eigh_sp, eigv_sp, eigm_sp, eigm_sp_can) of random, degenerate, zero-mode, rank-one, Kitaev, integer and rescaled "
        "quadratic Hamiltonians on 1-5 modes while the Schur and eigenvalue backends answer with randomly permuted, reflected, rotated and rounded legal "
        "decompositions, or fail at a chosen call; results are checked against unitarity, structure, form and spectrum, arguments against their bytes. "
        "Non-trivial: a substituted decomposition or a backend failure; distinct by event log.")
REAL = ["all ff modules from the /repo working tree", "numpy", "scipy (its answers are permuted into other legal answers)"]
STUBS = ["scipy.linalg/numpy.linalg decompositions as seen by the library (legal alternatives, failures)"]
ASSUMPTIONS = ["tolerance 1e-7 relative to the norm of the input", "a Schur form is only permuted when it is block diagonal to 1e-12"]
NAMES = ["eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can"]
MAXN = 5


def gen_calls(r, names, maxn, big):
    calls = []
    rep = r.random() < 0.4
    for _ in range(r.choice([1, 2, 3, 6])):
        if rep and calls and r.random() < 0.6:
            spec = json.loads(json.dumps(calls[-1]["spec"]))
        else:
            n = r.choice(names)
            spec = {"op": n, "p": ops.OPS[n].gen(r)}
            if r.random() < big and "n" in spec["p"] and n not in ("dt_eigen", "get_orthogonal_vectors"):
                spec["p"]["n"] = r.randint(1, maxn)
        c = {"spec": spec, "alt": [k for k in ("order", "ulp") if r.random() < 0.75], "salt": r.randrange(2**31), "scribble": r.random() < 0.2}
        if r.random() < 0.25:
            c["fault"] = gen_fault(r, ("backend",))
        calls.append(c)
    return calls


def gen(r, tier, index):
    return {"calls": gen_calls(r, NAMES, MAXN, 0.2)}


def simplify(sc):
    for i, c in enumerate(sc["calls"]):
        if c.get("fault"):
            d = json.loads(json.dumps(sc))
            del d["calls"][i]["fault"]
            yield d
        for j in range(len(c["alt"])):
            d = json.loads(json.dumps(sc))
            del d["calls"][i]["alt"][j]
            yield d
        if c["scribble"]:
            d = json.loads(json.dumps(sc))
            d["calls"][i]["scribble"] = False
            yield d
        p = c["spec"]["p"]
        if isinstance(p.get("n"), int):
            for n in range(1, p["n"]):
                d = json.loads(json.dumps(sc))
                d["calls"][i]["spec"]["p"]["n"] = n
                yield d


def failed_answer_allowed(name, f):
    """dt_eigen reports a decomposition that did not converge as nothing."""
    return name == "dt_eigen" and f is not None and f["exc"] == "LinAlgError"


def run(sc, e):
    r = Random(derive(sc["run_seed"], "scribble"))
    for c in sc["calls"]:
        spec, f = c["spec"], c.get("fault")
        o, a, k = ops.make(spec)
        before = ops.freeze((a, k))
        used = sum(e.alt_used.values())
        e.backend_alt = {"seed": c["salt"], "kinds": c["alt"]} if c["alt"] else None
        _, _, _, out = run_spec(e, spec, f, (o, a, k))
        e.backend_alt = None
        used = sum(e.alt_used.values()) - used
        desc = ops.describe(spec)
        if ops.freeze((a, k)) != before:
            fail("argument-changed", "%s changed its argument" % desc)
        e.log.append([spec["op"], spec["p"].get("n"), spec["p"].get("hk") or spec["p"].get("form"), out.ok, out.fired, used, spec["p"].get("seed")])
        e.states.add("%s:n%s:%s:%s" % (spec["op"], spec["p"].get("n"), spec["p"].get("hk") or spec["p"].get("form") or spec["p"].get("kind"), "fault" if out.fired else "alt" if used else "plain"))
        if used or out.fired:
            e.nontrivial = True
        if not out.ok:
            if not out.fired:
                fail("call-raises", "%s raised %s: %s" % (desc, type(out.exc).__name__, str(out.exc)[:300]))
            continue
        if out.value is None and out.fired and failed_answer_allowed(spec["op"], out.fault):
            continue
        msg = safe_check(o, a, k, out.value, spec["p"])
        if msg:
            fail("wrong-result", "%s%s: %s" % (desc, " after a backend failure" if out.fired else "", msg))
        if c["scribble"]:
            scribble(out.value, r)
