"""C06 Perfect-matching counts depend only on the graph, not on its history."""
import json
import math

import numpy as np

from .. import ops, ref, seams
from ..common import Random, fail, gen_fault, resolve_fault
from ..core import derive

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 80000}
LISTS = ("steps",)
RULE = ("A run builds a graph by 2-40 random edits (nodes and edges added in any order and direction, removed, re-added, reweighted, relabelled, copied, "
        "decorated), and queries the matching functions 1-8 times with a fresh choice of spanning-tree ties, embedding, mirror image and set order each time, "
        "some queries being interrupted or unable to print; each answer is compared with an exact dynamic program over a separate model of the graph. "
        "Non-trivial: at least one query on a graph with a perfect matching after a removal, relabelling or fault, or with an alternative in force; distinct by event log.")
REAL = ["all ff modules from the /repo working tree", "numpy", "networkx (except where an alternative is substituted)"]
STUBS = ["tie-breaking of networkx spanning trees, embedding returned by check_planarity, iteration order of edge-set differences (legal alternatives)", "sys.stdout (simulated stream)"]
ASSUMPTIONS = ["relative tolerance 1e-6", "enumeration only where at most 20000 edge subsets arise and n <= 15; planar counts up to 30 nodes"]
WEIGHTS = [1, 2, 3, 0.5, 1.5, 0.25, 4, 2.5]
WIDE = [1e-4, 1e-3, 1e4, 1e3, 1, 1]
LABELS = ["int", "off", "neg", "str", "tup", "mixed", "float", "rev"]


def label(kind, i):
    if kind == "mixed":
        return [i, "s%d" % i, (i, "t"), frozenset([i, "f"])][i % 4]
    if kind == "float":
        return 0.5 + i
    if kind == "rev":
        return 100 - i
    return ops.label(kind, i)


SHAPES = ["empty", "empty", "random", "random", "random", "cycle", "ladder", "grid", "wheel", "K4", "K5", "K33", "petersen", "cube", "octa", "tree", "two", "bip", "prism", "K6", "tail", "tail", "dense", "multi", "strip", "strip"]


def shape(r, k):
    import networkx as nx

    if k == "empty":
        return 0, []
    if k == "random":
        n = r.choice([2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 10, 12, 14])
        return n, ops.planar_edges(r, n, connected=r.random() < 0.7)
    if k == "bip":
        n = r.choice([2, 3, 4])
        return 2 * n, [(i, n + j) for i in range(n) for j in range(n) if r.random() < 0.6]
    if k == "tail":
        # a small core, planar or not, with long paths hanging off it: many nodes, few edges
        core = r.choice([nx.complete_graph(4), nx.complete_graph(5), nx.complete_bipartite_graph(3, 3), nx.complete_graph(3), nx.cycle_graph(4)])
        es = list(core.edges())
        n = core.number_of_nodes()
        top = r.choice([n + 1, n + 2, 10, 12, 13, 14, 14, 15])
        # any set of tree edges on the new nodes, sometimes only matched pairs
        while n < top:
            if r.random() < 0.3 and n + 2 <= top:
                es.append((n, n + 1))
                if r.random() < 0.5:
                    es.append((r.randrange(n), n))
                n += 2
            else:
                es.append((r.choice([n - 1, r.randrange(n)]), n))
                n += 1
        return n, es
    if k == "multi":
        # several components, also isolated nodes
        n, es = 0, []
        for _ in range(r.choice([2, 3, 3, 4])):
            h = r.choice([nx.path_graph(2), nx.cycle_graph(4), nx.complete_graph(4), nx.path_graph(4), nx.cycle_graph(3), nx.star_graph(3), nx.path_graph(1), nx.cycle_graph(6)])
            if n + h.number_of_nodes() <= 14:
                es += [(u + n, v + n) for u, v in h.edges()]
                n += h.number_of_nodes()
        return n, es
    if k == "strip":
        # long and narrow, far beyond what enumeration can reach
        a, b = r.choice([(2, 8), (2, 10), (2, 14), (3, 6), (3, 8), (4, 4), (4, 5), (4, 6), (4, 7), (3, 10), (1, 24)])
        at = lambda i, j: i * a + j  # noqa: E731
        es = [(at(i, j), at(i + 1, j)) for i in range(b - 1) for j in range(a)] + [(at(i, j), at(i, j + 1)) for i in range(b) for j in range(a - 1)]
        if r.random() < 0.5:
            es += [(at(i, j), at(i + 1, j + 1)) if r.random() < 0.5 else (at(i, j + 1), at(i + 1, j)) for i in range(b - 1) for j in range(a - 1) if r.random() < 0.6]
        r.shuffle(es)
        return a * b, es[:max(1, int(len(es) * r.choice([1, 1, 0.95, 0.9, 0.8, 0.6])))]
    if k == "dense":
        # maximal planar graphs
        n = r.choice([4, 5, 6, 7, 8, 10])
        return n, ops.planar_edges(r, n, 3 * n - 6)
    if k == "two":
        a, b = r.choice([2, 4, 6]), r.choice([1, 2, 3, 4])
        e1, e2 = ops.planar_edges(r, a), ops.planar_edges(r, b)
        return a + b, e1 + [(u + a, v + a) for u, v in e2]
    g = {"cycle": lambda: nx.cycle_graph(r.choice([3, 4, 5, 6, 8, 10])), "ladder": lambda: nx.ladder_graph(r.choice([2, 3, 4, 5, 6])),
         "grid": lambda: nx.convert_node_labels_to_integers(nx.grid_2d_graph(*r.choice([(2, 2), (2, 3), (3, 3), (3, 4), (2, 6)]))),
         "wheel": lambda: nx.wheel_graph(r.choice([4, 5, 6, 8])), "K4": lambda: nx.complete_graph(4), "K5": lambda: nx.complete_graph(5), "K6": lambda: nx.complete_graph(6),
         "K33": lambda: nx.complete_bipartite_graph(3, 3), "petersen": nx.petersen_graph, "cube": lambda: nx.convert_node_labels_to_integers(nx.hypercube_graph(3)),
         "octa": nx.octahedral_graph, "tree": lambda: nx.path_graph(r.choice([2, 4, 5, 6])), "prism": lambda: nx.circular_ladder_graph(r.choice([3, 4, 5, 6]))}[k]()
    return g.number_of_nodes(), list(g.edges())


def gen(r, tier, index):
    n, es = shape(r, r.choice(SHAPES))
    weights = WIDE if r.random() < 0.12 else WEIGHTS
    perm = list(range(n))
    r.shuffle(perm)
    steps = []
    order = list(range(n))
    r.shuffle(order)
    if r.random() < 0.5:
        steps += [["node", i] for i in order]
    wt = r.random()
    build = []
    for u, v in es:
        u, v = perm[u], perm[v]
        if r.random() < 0.5:
            u, v = v, u
        w = r.choice(weights) if wt < 0.5 and r.random() < 0.8 else None
        build.append(["edge", u, v, w])
    r.shuffle(build)
    steps += build
    if n and len(steps) and steps[0][0] != "node":
        steps += [["node", i] for i in order]
    nq = 0
    have = n
    live = [(s[1], s[2]) for s in build]
    for _ in range(r.choice([0, 2, 4, 8, 16])):
        k = r.choice(["node", "edge", "edge", "edge", "rmedge", "rmedge", "rmnode", "weight", "relabel", "copy", "attr", "query", "readd"])
        if k == "node" and (have < 14 or n <= have < n + 2 and n > 14):
            steps.append(["node", have])
            have += 1
        elif k == "edge" and have >= 2:
            u, v = r.sample(range(have), 2)
            steps.append(["edge", u, v, r.choice(weights) if r.random() < 0.4 else None])
            live.append((u, v))
        elif k in ("rmedge", "weight", "readd") and live:
            u, v = r.choice(live)
            steps.append([k, v, u] + ([r.choice(weights)] if k == "weight" else []))
        elif k == "rmnode" and have:
            steps.append(["rmnode", r.randrange(have)])
        elif k == "relabel":
            steps.append(["relabel", r.choice(LABELS), r.random() < 0.5])
        elif k == "copy":
            steps.append(["copy", r.choice(["copy", "rebuild", "sub"])])
        elif k == "attr":
            steps.append(["attr"])
        elif k == "query" and nq < 6:
            steps.append(query(r))
            nq += 1
    steps.append(query(r))
    if r.random() < 0.5:
        # the same graph again, after one change
        if live and r.random() < 0.7:
            u, v = r.choice(live)
            k = r.choice(["weight", "weight", "rmedge", "readd"])
            steps.append([k, v, u] + ([r.choice(weights)] if k == "weight" else []))
            if k == "rmedge" and r.random() < 0.5:
                steps.append(["edge", u, v, r.choice(weights)])
        steps.append(query(r))
        for _ in range(r.choice([0, 0, 1, 3])):
            if live:
                u, v = r.choice(live)
                steps.append(["weight", v, u, r.choice(weights)])
            steps.append(query(r))
    return {"steps": steps, "labels": r.choice(LABELS)}


def query(r):
    f = gen_fault(r, ("line", "line", "stdout", "graph", "backend")) if r.random() < 0.25 else None
    alt = [k for k in ("tree", "embedding", "set") if r.random() < 0.6]
    return ["query", r.choice(["count", "count", "planar", "brute"]), f, alt, r.randrange(2**31)]


def simplify(sc):
    for i, s in enumerate(sc["steps"]):
        if s[0] == "query":
            for j, v in ((2, None), (3, [])):
                if s[j]:
                    c = json.loads(json.dumps(sc))
                    c["steps"][i][j] = v
                    yield c
        if s[0] == "edge" and s[3] is not None:
            c = json.loads(json.dumps(sc))
            c["steps"][i][3] = None
            yield c
    if sc["labels"] != "int":
        yield dict(sc, labels="int")


class Model:
    """The abstract graph: nodes by number, weights by unordered pair."""

    def __init__(self):
        self.nodes = []
        self.edges = {}

    def total(self):
        if not self.nodes:
            return 0
        return ref.matchings(self.nodes, [(min(k), max(k), w) for k, w in self.edges.items()])


def run(sc, e):
    import networkx as nx

    ff = seams.FF
    kind = sc["labels"]
    g = nx.Graph()
    m = Model()
    lab = {}
    touched = False

    def name(i):
        if i not in lab:
            lab[i] = label(kind, i)
        return lab[i]

    for qi, s in enumerate(sc["steps"]):
        op = s[0]
        if op == "node":
            g.add_node(name(s[1]))
            if s[1] not in m.nodes:
                m.nodes.append(s[1])
        elif op in ("edge", "readd"):
            u, v = s[1], s[2]
            w = s[3] if op == "edge" else m.edges.get(frozenset((u, v)))
            if op == "readd" and w is None:
                continue
            if op == "readd":
                g.remove_edge(name(u), name(v))
                touched = True
            for x in (u, v):
                if x not in m.nodes:
                    m.nodes.append(x)
            if w is None:
                g.add_edge(name(u), name(v))
                # networkx keeps an earlier weight
                m.edges.setdefault(frozenset((u, v)), 1)
            else:
                g.add_edge(name(u), name(v), weight=w)
                m.edges[frozenset((u, v))] = w
        elif op == "rmedge":
            k = frozenset((s[1], s[2]))
            if k in m.edges:
                g.remove_edge(name(s[1]), name(s[2]))
                del m.edges[k]
                touched = True
        elif op == "weight":
            k = frozenset((s[1], s[2]))
            if k in m.edges:
                g[name(s[1])][name(s[2])]["weight"] = s[3]
                m.edges[k] = s[3]
        elif op == "rmnode":
            if s[1] in m.nodes:
                g.remove_node(name(s[1]))
                m.nodes.remove(s[1])
                m.edges = {k: w for k, w in m.edges.items() if s[1] not in k}
                touched = True
        elif op == "relabel":
            kind = s[1]
            new = {lab[i]: label(kind, i) for i in m.nodes}
            lab = {i: label(kind, i) for i in m.nodes}
            try:
                g = nx.relabel_nodes(g, new, copy=True) if s[2] or set(new) & set(new.values()) else nx.relabel_nodes(g, new, copy=False)
            except nx.NetworkXUnfeasible:
                g = nx.relabel_nodes(g, new, copy=True)
            touched = True
        elif op == "copy":
            if s[1] == "copy":
                g = g.copy()
            elif s[1] == "sub":
                g = nx.Graph(g.subgraph(list(g.nodes)))
            else:
                h = nx.Graph()
                h.add_edges_from(reversed([(v, u, dict(d)) for u, v, d in g.edges(data=True)]))
                h.add_nodes_from(reversed(list(g.nodes)))
                g = h
        elif op == "attr":
            for x in g.nodes:
                g.nodes[x]["pos"] = (0, 1)
            g.graph["name"] = "g"
            for u, v in g.edges:
                g[u][v]["color"] = "red"
        else:
            ask(sc, e, ff, g, m, lab, s, qi, touched)
            touched = touched or s[2] is not None


def slack(m):
    """Square root of the rounding error a determinant of this size may carry."""
    big = len(m.nodes) > 16
    if not big and set(m.edges.values()) <= set(WEIGHTS):
        return 0.0
    rows = dict.fromkeys(m.nodes, 0.0)
    for k, w in m.edges.items():
        for x in k:
            rows[x] += w * w
    had = math.prod(max(1.0, v) for v in rows.values()) ** 0.25
    return (1e-7 if big else 1e-10) * had


def ask(sc, e, ff, g, m, lab, s, qi, touched):
    import networkx as nx

    _, what, f, alt, salt = s
    planar = nx.check_planarity(g)[0]
    n, ne = len(m.nodes), len(m.edges)
    subsets = math.comb(ne, n // 2) if n % 2 == 0 else 1
    if what == "planar" and not planar:
        what = "count"
    if (what == "brute" or not planar) and (subsets > (6000 if f else 20000) or n > 15):
        e.stats["skipped_too_big"] += 1
        return
    fn = {"count": ff.count_perfect_matchings, "planar": ff.count_perfect_matchings_planar, "brute": ff.find_perfect_matchings_brute}[what]
    exp = m.total()
    before = ops.freeze(g)

    def body():
        return fn(g)

    used = sum(e.alt_used.values())
    if f and f["kind"] == "line":
        f = resolve_fault(f, e.dry_lines(body))
    e.graph_alt = {"seed": derive(salt, "q"), "kinds": [k for k in alt if k != "set"]} if alt else None
    e.set_rng_seed = salt if "set" in alt else None
    out = e.call(body, f)
    e.graph_alt = e.set_rng_seed = None
    used = sum(e.alt_used.values()) - used
    e.log.append([what, n, ne, planar, out.ok, out.fired, used, sorted(alt), exp])
    e.states.add("%s:%s:n%d:%s%s" % (what, "planar" if planar else "nonplanar", n, "fault" if out.fired else "clean", ":" + "+".join(sorted(alt)) if alt else ""))
    desc = "%s on %d nodes, %d edges (%s)" % (what, n, ne, "planar" if planar else "not planar")
    if ops.freeze(g) != before:
        fail("query-changes-graph", "%s changed the graph%s" % (desc, " after a fault" if out.fired else ""))
    if not out.ok:
        if not out.fired:
            fail("query-raises", "%s raised %s: %s" % (desc, type(out.exc).__name__, str(out.exc)[:200]))
        return
    if what == "brute":
        msg = ops.c_brute([g], {}, out.value, {}) if n else (None if out.value in ([], [()]) else "matchings of the empty graph: %s" % ops.brief(out.value))
        if msg:
            fail("wrong-enumeration", "%s: %s" % (desc, msg))
        cnt = len(out.value)
    else:
        try:
            x = complex(out.value)
        except Exception:  # noqa: BLE001
            fail("wrong-count", "%s returned %s" % (desc, ops.brief(out.value)))
        if n and (not np.isfinite(x) or abs(x - exp) > 1e-6 * max(1.0, abs(exp)) + slack(m)):
            fail("wrong-count", "%s: got %s, the matchings sum to %s; edges %s" % (desc, out.value, exp, [[sorted(k), w] for k, w in m.edges.items()]))
        cnt = exp
    if cnt and (touched or used):
        e.nontrivial = True


_ = Random
