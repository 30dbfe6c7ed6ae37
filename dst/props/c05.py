"""C05 Rejection sampling is bounded and yields only valid samples."""
import json

from .. import bias, ops, seams
from ..common import REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed, resolve_fault
from ..core import derive
from ..seams import REAL as SREAL

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 30000}
LISTS = ("calls",)
RULE = ("A run makes 1-8 graph or bit-string requests, seeded and unseeded, while the source of randomness is fair, or hostile (node draws avoid the last "
        "nodes, cluster on few nodes, edge counts pushed to either end) for 0 to about 300 attempts and then fair, or hostile for ever; some calls are "
        "hit by a fault. Every returned graph is checked from scratch, the number of library steps is bounded, and a graph must come once the source is "
        "fair. Non-trivial: a hostile source was in force for at least one attempt, or a biased bit string was drawn; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL
ASSUMPTIONS = ["hostile outcomes stay within the range of each draw", "a fair source accepts within the remaining attempts (probability of failure below 1e-20 for the sizes used)"]
BUDGET = 40000


def gen(r, tier, index):
    calls = []
    for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
        seed = ops.g_seed(r) if r.random() < 0.3 else None
        f = gen_fault(r, ("line", "rng", "graph")) if r.random() < 0.12 else None
        if r.random() < 0.3:
            n = r.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20, 50])
            calls.append({"k": "bits", "n": n, "w": r.choice([-2, -1, 0, 1, 2, 3, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, n + 4]), "p": r.choice([0.0, 0.4, 0.8]), "fault": f if f and f["kind"] != "graph" else None})
        else:
            mode = r.choice(["fair", "avoid", "avoid", "dense", "cluster", "sparse"])
            ever = mode == "avoid" and r.random() < (0.12 if tier == "quick" else 0.3)
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
            if ever:
                n = max(n, 4)
            calls.append({"k": "graph", "n": n, "seed": seed, "mode": mode, "attempts": 10**9 if ever else r.choice([1, 3, 10, 50, 120, 300]) if mode != "fair" else 0,
                          "q": 1.0 if ever else r.choice([0.5, 0.8, 0.95]), "fault": f})
    return {"calls": calls, "py": r.randrange(2**32)}


def simplify(sc):
    for i, c in enumerate(sc["calls"]):
        for key, val in (("fault", None), ("seed", None)):
            if c.get(key) is not None:
                d = json.loads(json.dumps(sc))
                d["calls"][i][key] = val
                yield d
        if c["k"] == "graph" and 1 < c["attempts"] < 10**6:
            d = json.loads(json.dumps(sc))
            d["calls"][i]["attempts"] = c["attempts"] // 2
            yield d
        if c["k"] == "graph" and c["attempts"] < 10**6:
            for n in range(1, c["n"]):
                d = json.loads(json.dumps(sc))
                d["calls"][i]["n"] = n
                yield d


class Hostile:
    def __init__(self, e, c, seed):
        self.e, self.c = e, c
        self.r = Random(derive(seed, "hostile"))
        self.left = c["attempts"] * (2 * c["n"] - 1)
        self.used = 0

    def __call__(self, k):
        c, r = self.c, self.r
        if self.left <= 0 or c["mode"] == "fair":
            return None
        self.left -= 1
        n = c["n"]
        if r.random() >= c["q"]:
            return None
        self.used += 1
        self.e.fault_counts["draw:%s" % c["mode"]] += 1
        if c["mode"] == "avoid":
            return r.randrange(max(1, k - 1 if k == n else k // 2))
        if c["mode"] == "dense":
            return k - 1 - r.randrange(max(1, k // 6)) if k != n else r.randrange(min(k, 5))
        if c["mode"] == "cluster":
            return r.randrange(max(1, min(k, 3))) if k == n else r.randrange(k)
        return r.randrange(max(1, k // 3))


def graph_error(g, n):
    import networkx as nx

    if not isinstance(g, nx.Graph) or g.is_directed() or g.is_multigraph():
        return "not a simple undirected graph: %s" % ops.brief(g)
    if sorted(g.nodes) != list(range(n)):
        return "nodes %s instead of 0..%d" % (sorted(g.nodes), n - 1)
    for u, v in g.edges:
        if u == v:
            return "self-loop at %s" % u
    seen, todo = {0}, [0]
    while todo:
        for y in g.adj[todo.pop()]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    if len(seen) != n:
        return "graph is not connected: %s" % sorted(g.edges)
    if n >= 3 and g.number_of_edges() > 3 * n - 6 or not SREAL["nx.check_planarity"](g)[0]:
        return "graph is not planar: %s" % sorted(g.edges)
    return None


def run(sc, e):
    ff = seams.FF
    harness_np_seed(sc["py"])
    for i, c in enumerate(sc["calls"]):
        f = c.get("fault")
        if c["k"] == "bits":
            n, w = c["n"], c["w"]
            e.np_bias = bias.NpBias(e, derive(sc["run_seed"], i), c["p"], ["choice", "randint", "uniform"])
            before = sum(e.fault_counts.values())

            def fn():
                return ff.generate_random_bitstring(n, w)
        else:
            n = c["n"]
            kw = {} if c["seed"] is None else {"seed": c["seed"]}
            h = Hostile(e, c, derive(sc["run_seed"], i))
            e.py_bias = h

            def fn():
                return ff.generate_random_planar_graph(n, **kw)

        if f and f["kind"] == "line":
            f = resolve_fault(f, 12)
        out = e.call(fn, f, budget=BUDGET)
        e.np_bias = e.py_bias = None
        if not out.ok and not out.fired:
            fail("generator-raises", "%s raised %s: %s" % (c, type(out.exc).__name__, str(out.exc)[:200]))
        if out.fired:
            e.states.add("fault:" + c["k"])
        if not out.ok:
            e.log.append([c["k"], n, "raised"])
            continue
        if c["k"] == "bits":
            msg = ops.bitstring_error(out.value, n, w)
            if sum(e.fault_counts.values()) > before:
                e.nontrivial = True
            e.log.append(["bits", n, w, str(out.value)])
            e.states.add("bits:n%d:w%d" % (n, w))
            if msg:
                fail("invalid-bit-string", "n=%d k=%d: %s" % (n, w, msg))
            continue
        att = e.graph_calls["gnm_random_graph"]
        e.log.append(["graph", n, c["mode"], h.used, att, None if out.value is None else sorted(map(list, out.value.edges))])
        e.states.add("graph:n%d:%s:%s" % (n, c["mode"], "none" if out.value is None else "graph"))
        if h.used:
            e.nontrivial = True
        if out.value is None:
            if c["attempts"] < 10**6 and not out.fired:
                fail("no-graph-from-fair-source", "n=%d: nothing returned although the source was fair after at most %d hostile attempts" % (n, c["attempts"]))
            e.stats["exhausted"] += 1
            continue
        msg = graph_error(out.value, n)
        if msg:
            fail("invalid-graph", "n=%d %s: %s" % (n, c["mode"], msg))
