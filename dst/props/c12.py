"""C12 Arguments and results belong to the caller."""
import json

import numpy as np

from .. import ops
from ..common import REAL_ALL, STUBS_ALL, Random, fail, harness_np_seed, iso_results, portable, run_spec, safe_check, same_portable, scribble
from ..core import derive

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 30000}
LISTS = ("steps",)
RULE = ("A run makes 2-14 calls of public functions (the same call again, the same shapes with other values, related functions of the same size, seeded "
        "generators, calls with unacceptable arguments), and between them changes arguments it passed and results it received in place, refills the same argument objects and calls again, or drops them. After every call all "
        "arguments so far and all retained results must be byte-wise as the caller left them, and every result must equal the reference model (seeded "
        "generators: the same call alone in a pristine fork). Non-trivial: at least one object was changed by the caller and a call followed; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL
ASSUMPTIONS = ["face completion updates its orientation matrix by design (checked in C07)"]
DETS = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "path")]
GEN = sorted(ops.GENERATORS)


def bad_args(name, seed):
    """Calls the library is expected to refuse; whatever it does, its arguments stay."""
    import networkx as nx

    g = np.random.RandomState(seed % 2**32)
    x = g.standard_normal((2, 2)) * 3
    return {
        "cast_to_density_matrix": lambda: [x], "cast_to_pdf": lambda: [g.standard_normal(3) * 5], "compute_tree_depth": lambda: [nx.cycle_graph(4)],
        "clean": lambda: [{"a": x}], "kron_plus": lambda: [[[1]], [[2]]], "count_perfect_matchings_planar": lambda: [nx.complete_graph(5)],
        "build_H": lambda: [3, x], "partial_trace_diagblocksum": lambda: [np.eye(3), 2], "pf": lambda: [g.standard_normal((2, 3))],
        "eigh_sp": lambda: [g.standard_normal((4, 4)) + 0j], "trace_distance": lambda: [x, x], "cov_distribution": lambda: [x], "dt_eigen": lambda: [g.standard_normal((2, 3))],
        "rotate_operators": lambda: [[np.eye(2)], x], "is_symp": lambda: [g.standard_normal((3, 3))], "print_custom": lambda: [[[1, 2], [3]]],
    }[name]()


BAD = ["cast_to_density_matrix", "cast_to_pdf", "compute_tree_depth", "clean", "kron_plus", "count_perfect_matchings_planar", "build_H", "partial_trace_diagblocksum", "pf",
       "eigh_sp", "trace_distance", "cov_distribution", "dt_eigen", "rotate_operators", "is_symp", "print_custom"]


def gen(r, tier, index):
    steps = []
    focus_n = r.choice([None, 1, 2, 2, 3])
    fam = r.choice([None, None, "op", "diag", "meas", "graph", "comb", "util", "gen"])
    specs = []
    for _ in range(r.choice([2, 4, 6, 10, 14])):
        k = r.random()
        if specs and k < 0.35:
            spec = json.loads(json.dumps(r.choice(specs)))
        elif specs and k < 0.5:
            spec = json.loads(json.dumps(r.choice(specs)))
            if "seed" in spec["p"] and spec["op"] not in ops.GENERATORS:
                spec["p"]["seed"] = r.getrandbits(30)
        else:
            names = DETS if r.random() < 0.85 else GEN
            if fam and r.random() < 0.7:
                names = [n for n in ops.FAMILIES[fam] if ops.OPS[n].kind in ("det", "path", "seeded")]
            n = r.choice(names)
            spec = {"op": n, "p": ops.OPS[n].gen(r)}
            if focus_n and isinstance(spec["p"].get("n"), int) and ops.OPS[n].family in ("op", "diag", "gen") and n != "generate_random_planar_graph":
                spec["p"]["n"] = focus_n
                if spec["p"].get("kw", {}).get("N", 0) > focus_n:
                    spec["p"]["kw"]["N"] = focus_n
            specs.append(spec)
        st = {"t": "call", "spec": spec}
        if r.random() < 0.2:
            st["same_objects"] = True
        if "seed" in spec["p"] and spec["op"] not in ops.GENERATORS and r.random() < 0.12:
            # the caller lets go of everything at once, so that new objects
            # may live where old ones did
            st["churn"] = [r.getrandbits(30) for _ in range(r.choice([2, 4, 8]))]
        steps.append(st)
        if "seed" in spec["p"] and spec["op"] not in ops.GENERATORS and r.random() < 0.25:
            for _ in range(r.choice([1, 1, 2])):
                steps.append({"t": "revalue", "seed": r.getrandbits(30), "spec": json.loads(json.dumps(spec))})
        k = r.random()
        if k < 0.5:
            steps.append({"t": "scribble", "what": r.choice(["result", "result", "args", "both"]), "back": r.choice([1, 1, 1, 2, 3])})
        elif k < 0.6:
            steps.append({"t": "bad", "op": r.choice(BAD), "seed": r.getrandbits(30)})
        if k < 0.4:
            steps.append({"t": "call", "spec": json.loads(json.dumps(spec))})
    return {"steps": steps}


def simplify(sc):
    for i, s in enumerate(sc["steps"]):
        if s.get("churn"):
            c = json.loads(json.dumps(sc))
            del c["steps"][i]["churn"]
            yield c
        if s["t"] == "call" and isinstance(s["spec"]["p"].get("n"), int):
            for n in range(1, s["spec"]["p"]["n"]):
                c = json.loads(json.dumps(sc))
                c["steps"][i]["spec"]["p"]["n"] = n
                yield c


def pour(x, y):
    """Replaces the contents of x by those of y, in place; None if that cannot be done."""
    if x is y:
        return True
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape or x.dtype != y.dtype or not x.flags.writeable:
            return None
        x[...] = y
        return True
    if isinstance(x, list) and isinstance(y, list):
        x[:] = y
        return True
    if hasattr(x, "adj") and hasattr(y, "adj"):
        if type(x) is not type(y):
            return None
        x.clear()
        x.add_nodes_from((v, dict(d)) for v, d in y.nodes(data=True))
        x.add_edges_from((u, v, dict(d)) for u, v, d in y.edges(data=True))
        return True
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic, tuple)):
        return True if ops.freeze(x) == ops.freeze(y) else None
    return None


def pourable(x, y):
    if hasattr(x, "adj") or isinstance(x, (list, np.ndarray)):
        return pour(x.copy(), y) is not None and not (isinstance(x, np.ndarray) and not x.flags.writeable)
    return pour(x, y) is not None


def churn(e, spec, seed, fault):
    """One call whose arguments and result are dropped right after it was judged."""
    spec = json.loads(json.dumps(spec))
    spec["p"]["seed"] = seed
    o, a, k, out = run_spec(e, spec, fault)
    if not out.ok:
        if out.fired:
            return
        fail("call-fails", "%s raised %s: %s" % (ops.describe(spec), type(out.exc).__name__, str(out.exc)[:300]))
    msg = safe_check(o, a, k, out.value, spec["p"])
    if msg:
        fail("wrong-result", "%s, its arguments possibly living where dropped ones did: %s" % (ops.describe(spec), msg))
    e.stats["churned_calls"] += 1


def run(sc, e):
    seeded = [s["spec"] for s in sc["steps"] if s["t"] == "call" and s["spec"]["op"] in ops.GENERATORS]
    alone = {}
    if seeded:
        for s, v in zip(seeded, iso_results(e, seeded, sc["run_seed"])):
            alone[json.dumps(s, sort_keys=True)] = v
    harness_np_seed(sc["run_seed"] % 2**32)
    held = []  # [description, object, frozen]
    last = {}
    recent = []
    touched = False

    def intact(desc):
        for h in held:
            if ops.freeze(h[1]) != h[2]:
                fail("object-changed", "%s changed %s" % (desc, h[0]))

    def refreeze():
        for h in held:
            h[2] = ops.freeze(h[1])

    for i, s in enumerate(sc["steps"]):
        r = Random(derive(sc["run_seed"], "step", i))
        if s["t"] == "scribble":
            for rec in recent[-s["back"]:][:1]:
                done = False
                if s["what"] in ("result", "both") and not callable(rec[1]):
                    done = scribble(rec[1], r)
                if s["what"] in ("args", "both"):
                    for x in list(rec[0][0]) + list(rec[0][1].values()):
                        done = scribble(x, r) or done
                if done:
                    rec[2]["dirty"] = True
                    touched = True
                    e.stats["caller_changes"] += 1
            refreeze()
            e.log.append(["scribble", s["what"]])
            continue
        if s["t"] == "bad":
            args = bad_args(s["op"], s["seed"])
            fz = ops.freeze(args)
            fn = ops.OPS[s["op"]].fn()
            out = e.call(lambda: fn(*args))
            if ops.freeze(args) != fz:
                fail("argument-changed", "%s, called with unacceptable arguments (%s), changed them" % (s["op"], out))
            intact("a refused call of " + s["op"])
            e.log.append(["bad", s["op"], out.ok])
            continue
        spec = s["spec"]
        key = json.dumps(spec, sort_keys=True)
        pre = None
        if s["t"] == "revalue":
            if key not in last:
                continue
            o, a, k = last[key][0]
            spec = json.loads(json.dumps(spec))
            spec["p"]["seed"] = s["seed"]
            o2, a2, k2 = ops.make(spec)
            if len(a2) != len(a) or list(k2) != list(k):
                continue
            # contents first tried on a private copy: all or nothing
            pairs = list(zip(a, a2)) + [(k[x], k2[x]) for x in k]
            if any(not pourable(x, y) for x, y in pairs):
                continue
            for x, y in pairs:
                pour(x, y)
            last[key][1]["dirty"] = True
            touched = True
            e.stats["arguments_revalued"] += 1
            refreeze()
            pre = (o, a, k)
        if s.get("churn"):
            for sd in s["churn"]:
                churn(e, spec, sd, s.get("fault"))
                intact("a call of " + spec["op"])
            e.log.append(["churn", spec["op"], len(s["churn"])])
            e.nontrivial = True
        if pre is None and s.get("same_objects") and key in last and not last[key][1]["dirty"]:
            pre = last[key][0]
            e.stats["same_argument_objects"] += 1
        o, a, k = pre if pre else ops.make(spec)
        fz = ops.freeze((a, k))
        _, _, _, out = run_spec(e, spec, None, (o, a, k))
        desc = ops.describe(spec)
        if ops.freeze((a, k)) != fz:
            fail("argument-changed", "%s changed its arguments" % desc)
        intact(desc)
        e.log.append([spec["op"], s["t"], out.ok, touched])
        e.states.add("%s:%s" % (spec["op"], "after-change" if touched else "clean"))
        if touched:
            e.nontrivial = True
        if not out.ok and out.fault:
            continue  # LAPACK gave up
        if not out.ok:
            fail("call-fails", "%s raised %s after the caller changed its own objects: %s" % (desc, type(out.exc).__name__, str(out.exc)[:300]))
        if o.kind in ("det", "path"):
            msg = safe_check(o, a, k, out.value, spec["p"])
        else:
            ref = alone[key]
            if ref[0] != "ok":
                fail("call-fails", "%s alone raised %s" % (desc, ref[1]))
            msg = None if same_portable(out.value, ref[1]) else "got %s, alone it returns %s" % (ops.brief(portable(out.value)), ops.brief(ref[1]))
        if msg:
            fail("wrong-result", "%s%s: %s" % (desc, " after the caller changed objects it owns" if touched else "", msg))
        meta = last[key][1] if pre else {"dirty": False}
        if s["t"] == "call":
            last[key] = ((o, a, k), meta)
        recent.append(((a, k), out.value, meta))
        if len(held) < 40:
            if not callable(out.value):
                held.append(["the result of step %d, %s" % (i, desc), out.value, ops.freeze(out.value)])
            held.append(["the arguments of step %d, %s" % (i, desc), (a, k), ops.freeze((a, k))])

