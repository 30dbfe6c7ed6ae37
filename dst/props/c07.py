"""C07 Planar faces, dual tree and orientation are valid under every traversal."""
import json

import numpy as np

from .. import ops, seams
from ..common import Random, fail
from ..core import derive
from ..seams import REAL as SREAL
from .c06 import SHAPES, shape

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 40000}
LISTS = ("asks",)
RULE = ("A run builds a connected planar graph (random or structured, up to 14 nodes) by a random construction history and performs 1-6 requests - faces "
        "(with the library's or a given embedding), dual graph of a random spanning tree, orientation, completion of faces in a random order, tree depth - each "
        "with freshly chosen spanning-tree ties, embedding, mirror image and set order. Non-trivial: at least one alternative was substituted or a harness-chosen "
        "spanning tree, embedding or completion order used, on a graph with a cycle; distinct by event log.")
REAL = ["all ff modules from the /repo working tree", "numpy", "networkx (except where an alternative is substituted)"]
STUBS = ["tie-breaking of networkx spanning trees, embedding returned by check_planarity, iteration order of edge-set differences (legal alternatives)", "sys.stdout (simulated stream)"]
ASSUMPTIONS = ["labels are mutually orderable", "the face condition of the orientation is judged on the embedding the graph seam delivered during the call"]
WHAT = ["faces", "faces", "faces_emb", "dual", "dual", "pfo", "pfo", "complete", "complete", "depth"]


def gen(r, tier, index):
    while True:
        k = r.choice([s for s in SHAPES if s not in ("empty", "two", "bip", "K5", "K6", "K33", "petersen")] + ["random"] * 5)
        n, es = shape(r, k)
        if n >= 2 and connected(n, es) and planar(es):
            break
    perm = list(range(n))
    r.shuffle(perm)
    nodes = list(range(n))
    if r.random() < 0.6:
        r.shuffle(nodes)
    edges = [[perm[u], perm[v]] if r.random() < 0.5 else [perm[v], perm[u]] for u, v in es]
    r.shuffle(edges)
    if r.random() < 0.3:
        edges = [e + [r.choice([1, 2, 3, 0.5, 7])] for e in edges]
    asks = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        asks.append({"w": r.choice(WHAT), "alt": [k for k in ("tree", "embedding", "set") if r.random() < 0.6], "salt": r.randrange(2**31), "dt": r.choice(["c", "r"])})
    return {"nodes": nodes, "edges": edges, "labels": r.choice(["int", "int", "int", "off", "neg", "str", "tup"]), "asks": asks, "nodes_first": r.random() < 0.6}


def planar(es):
    import networkx as nx

    return SREAL["nx.check_planarity"](nx.Graph(es))[0]


def connected(n, es):
    seen, todo = {0}, [0]
    adj = {i: [] for i in range(n)}
    for u, v in es:
        adj[u].append(v)
        adj[v].append(u)
    while todo:
        for y in adj[todo.pop()]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return len(seen) == n


def simplify(sc):
    if sc["labels"] != "int":
        yield dict(sc, labels="int")
    for i, a in enumerate(sc["asks"]):
        for j in range(len(a["alt"])):
            c = json.loads(json.dumps(sc))
            del c["asks"][i]["alt"][j]
            yield c
    for j in range(len(sc["edges"])):
        es = sc["edges"][:j] + sc["edges"][j + 1:]
        ix = {v: i for i, v in enumerate(sc["nodes"])}
        if connected(len(ix), [(ix[x[0]], ix[x[1]]) for x in es]):
            yield dict(json.loads(json.dumps(sc)), edges=es)


def random_tree(g, r):
    """A spanning tree chosen by the harness, in its own construction order."""
    import networkx as nx

    nodes = list(g.nodes)
    r.shuffle(nodes)
    t = nx.Graph()
    if r.random() < 0.5:
        t.add_nodes_from(nodes)
    seen = {nodes[0]}
    pick = r.choice([0, -1, None])
    t.add_node(nodes[0])
    front = [(nodes[0], y) for y in g.adj[nodes[0]]]
    while front:
        j = r.randrange(len(front)) if pick is None else pick
        u, v = front.pop(j)
        if v in seen:
            continue
        seen.add(v)
        t.add_edge(*((u, v) if r.random() < 0.5 else (v, u)))
        nb = [(v, y) for y in g.adj[v] if y not in seen]
        r.shuffle(nb)
        front += nb
    return t


def embedding(g, r):
    """A planar embedding chosen by the harness."""
    import networkx as nx

    ns = list(g.nodes)
    r.shuffle(ns)
    h = nx.Graph()
    h.add_nodes_from(ns)
    es = list(g.edges)
    r.shuffle(es)
    h.add_edges_from(es)
    _, emb = SREAL["nx.check_planarity"](h)
    mirror = r.random() < 0.5
    data = {}
    for v in emb.nodes():
        nb = list(emb.neighbors_cw_order(v))
        data[v] = nb[::-1] if mirror else nb
    e2 = nx.PlanarEmbedding()
    e2.set_data(data)
    return e2


def dual_error(g, F, t, h):
    import networkx as nx

    if not isinstance(h, nx.Graph):
        return "dual is %s" % ops.brief(h)
    if set(h.nodes) != set(range(len(F))):
        return "dual nodes %s for %d faces" % (sorted(h.nodes, key=repr), len(F))
    side = {}
    for i, f in enumerate(F):
        for x in f:
            side[tuple(x)] = i
    tree = {frozenset(x) for x in t.edges}
    want = {frozenset((side[u, v], side[v, u])) for u, v in g.edges if frozenset((u, v)) not in tree}
    got = {frozenset(x) for x in h.edges}
    if got != want:
        return "dual edges %s, expected %s" % (sorted(map(sorted, got)), sorted(map(sorted, want)))
    if len(got) != len(F) - 1 or not nx.is_connected(h):
        return "the dual of the non-tree edges is not a spanning tree of the faces"
    return None


def face_signs(F, pfo, ix):
    out = []
    for f in F:
        s = 1.0
        for a, b in f:
            i, j = ix[a], ix[b]
            s *= np.real(pfo[min(i, j), max(i, j)]) * (-1 if i > j else 1)
        out.append(s)
    return out


def trace(emb):
    """Faces of an embedding, by the harness."""
    left = {(u, v) for u in emb for v in emb[u]}
    F = []
    while left:
        f, x = [], min(left)
        while x in left:
            left.discard(x)
            f.append(x)
            u, v = x
            x = (v, emb[v][u]["cw"])
        F.append(f)
    return F


def signed_error(g, pfo):
    nodes = list(g.nodes)
    n = len(nodes)
    ix = {v: i for i, v in enumerate(nodes)}
    pfo = np.asarray(pfo)
    if pfo.shape != (n, n):
        return "orientation has shape %s for %d nodes" % (pfo.shape, n)
    up = np.triu(np.real(pfo))
    adj = np.zeros((n, n))
    for u, v in g.edges:
        i, j = sorted((ix[u], ix[v]))
        adj[i, j] = 1
    if np.abs(np.abs(up) - adj).max(initial=0) > 1e-9:
        return "the orientation does not orient exactly the edges"
    if n % 2 == 0:
        k = up - up.T
        val = np.sqrt(abs(SREAL["numpy.det"](k)))
        cnt = ops.wsum(ops._unweighted(g))
        if abs(val - cnt) > 1e-4 * max(1.0, cnt):
            return "matchings differ in sign: signed sum %.4f for %d matchings" % (val, cnt)
    return None


def run(sc, e):
    import networkx as nx

    ff = seams.FF
    g = nx.Graph()
    lk = sc["labels"]
    if sc["nodes_first"]:
        g.add_nodes_from(ops.label(lk, i) for i in sc["nodes"])
    for x in sc["edges"]:
        u, v = ops.label(lk, x[0]), ops.label(lk, x[1])
        if len(x) > 2:
            g.add_edge(u, v, weight=x[2])
        else:
            g.add_edge(u, v)
    g.add_nodes_from(ops.label(lk, i) for i in sc["nodes"])
    cyc = g.number_of_edges() >= g.number_of_nodes()
    key = ops.freeze(g)
    for a in sc["asks"]:
        r = Random(derive(a["salt"], "ask"))
        alt = a["alt"]
        used = sum(e.alt_used.values())
        e.graph_alt = {"seed": derive(a["salt"], "q"), "kinds": [k for k in alt if k != "set"]} if alt else None
        e.set_rng_seed = a["salt"] if "set" in alt else None
        e.embeddings = []
        w = a["w"]

        def call(fn):
            out = e.call(fn)
            if not out.ok:
                fail("raises", "%s on %s raised %s: %s" % (w, sorted(map(repr, g.edges)), type(out.exc).__name__, str(out.exc)[:200]))
            return out.value

        if w in ("faces", "faces_emb"):
            emb = embedding(g, r) if w == "faces_emb" else None
            v = call((lambda: ff.faces(g)) if emb is None else (lambda: ff.faces(g, emb)))
            msg = ops.check_faces(g, v)
            if not msg and emb is not None:
                # of the embedding given, in either direction of travel
                mine = trace_any(emb, r)
                if rotations(v) not in (rotations(mine), rotations([[(y, x) for x, y in reversed(f)] for f in mine])):
                    msg = "they are not the faces of the embedding given: %s" % sorted(v, key=repr)
            if msg:
                fail("invalid-faces", "%s: %s" % (sorted(map(repr, g.edges)), msg))
            e.nontrivial |= cyc and emb is not None
        elif w == "dual":
            emb = embedding(g, r)
            F = trace_any(emb, r)
            t = random_tree(g, r)
            k2, kf = ops.freeze(t), ops.freeze(F)
            h = call(lambda: ff.dual_graph_H(g, F, t))
            msg = dual_error(g, F, t, h)
            if msg:
                fail("invalid-dual", "%s, tree %s: %s" % (sorted(map(repr, g.edges)), sorted(map(repr, t.edges)), msg))
            if ops.freeze(t) != k2 or ops.freeze(F) != kf:
                fail("inputs-changed", "the dual graph construction changed the tree or the faces")
            e.nontrivial |= cyc
        elif w == "pfo":
            v = call(lambda: ff.pfo_algorithm(g))
            msg = signed_error(g, v)
            if msg:
                fail("invalid-orientation", "%s: %s" % (sorted(map(repr, g.edges)), msg))
            check_face_parity(e, g, np.asarray(v))
        elif w == "complete":
            complete(e, ff, g, r, a, call)
            e.nontrivial |= cyc
        else:
            t = random_tree(g, r)
            v = call(lambda: ff.compute_tree_depth(t))
            msg = ops.c_depth([t], {}, v, {})
            if msg:
                fail("wrong-depth", "%s: %s" % (sorted(map(repr, t.edges)), msg))
        used = sum(e.alt_used.values()) - used + (1 if e.set_rng_seed is not None else 0)
        e.graph_alt = e.set_rng_seed = e.embeddings = None
        if ops.freeze(g) != key:
            fail("inputs-changed", "%s changed the graph" % w)
        e.nontrivial |= bool(cyc and used)
        e.log.append([w, g.number_of_nodes(), g.number_of_edges(), used, lk, sc["nodes"], sc["edges"]])
        e.states.add("%s:n%d:m%d:%s" % (w, g.number_of_nodes(), g.number_of_edges(), "+".join(alt)))


def trace_any(emb, r):
    """The faces in any order, starting at any edge."""
    F = []
    left = {(u, v) for u in emb for v in emb[u]}
    while left:
        f, x = [], r.choice(sorted(left, key=repr))
        while x in left:
            left.discard(x)
            f.append(x)
            u, v = x
            x = (v, emb[v][u]["cw"])
        F.append(f)
    r.shuffle(F)
    return F


def rotations(F):
    """A set of closed walks regardless of order and starting point."""
    out = set()
    for f in F:
        f = [tuple(x) for x in f]
        i = min(range(len(f)), key=lambda j: repr(f[j]))
        out.add(tuple(f[i:] + f[:i]))
    return out


def check_face_parity(e, g, pfo):
    nodes = list(g.nodes)
    n = len(nodes)
    seen = 0
    best = None
    for emb in e.embeddings:
        if emb is None or len(emb) != n:
            continue
        maps = []
        if set(emb) == set(range(n)):
            maps.append({i: i for i in range(n)})
        if set(emb) == set(nodes):
            maps.append({v: i for i, v in enumerate(nodes)})
        for ix in maps:
            if {frozenset((ix[u], ix[v])) for u in emb for v in emb[u]} != {frozenset((nodes.index(u), nodes.index(v))) for u, v in g.edges}:
                continue
            seen += 1
            F = trace(emb)
            bad = sum(1 for s in face_signs(F, pfo, ix) if abs(s + 1) > 1e-9)
            best = bad if best is None else min(best, bad)
    e.stats["face_parity_checked"] += bool(seen)
    if seen and best > 1:
        fail("invalid-orientation", "%d faces have an even number of edges against their traversal; edges %s" % (best, sorted(map(repr, g.edges))))


def complete(e, ff, g, r, a, call):
    """Completes all faces of a random embedding from a random oriented spanning tree, in a random order."""
    import networkx as nx

    h = nx.convert_node_labels_to_integers(g)
    emb = embedding(h, r)
    F = trace_any(emb, r)
    t = {frozenset(x) for x in random_tree(h, r).edges}
    n = len(h)
    pfo = np.zeros((n, n), dtype=complex if a["dt"] == "c" else float)
    for u, v in h.edges:
        if frozenset((u, v)) in t:
            s = r.choice([1, -1])
            pfo[min(u, v), max(u, v)] = s
            pfo[max(u, v), min(u, v)] = -s if r.random() < 0.5 else s
        elif a["dt"] == "c":
            pfo[u, v] = pfo[v, u] = 99j
    done = []
    todo = list(range(len(F)))
    while todo:
        ready = [i for i in todo if len({frozenset(x) for x in F[i] if abs(np.real(pfo[min(x), max(x)])) < 0.5}) == 1]
        if not ready:
            break
        i = r.choice(ready)
        todo.remove(i)
        x = [x for x in F[i] if abs(np.real(pfo[min(x), max(x)])) < 0.5][0]
        old = pfo.copy()
        kf = ops.freeze(F[i])
        arg = pfo
        face = [tuple(y) for y in F[i]] if r.random() < 0.5 else F[i]
        v = call(lambda: ff.complete_face(arg, face))
        res = arg if v is None else np.asarray(v)
        if res.shape != old.shape:
            fail("invalid-completion", "complete_face returned %s" % ops.brief(v))
        diff = {frozenset((int(p), int(q))) for p, q in zip(*np.nonzero(np.abs(res - old) > 1e-12))}
        if not diff <= {frozenset(x)}:
            fail("invalid-completion", "completing %s changed the entries of %s" % (F[i], [sorted(d) for d in diff]))
        if ops.freeze(F[i]) != kf:
            fail("inputs-changed", "complete_face changed the face")
        s = face_signs([F[i]], res, {k: k for k in range(n)})[0]
        if abs(s + 1) > 1e-9:
            fail("invalid-completion", "after completing face %s the product of its signs is %s" % (F[i], s))
        if np.abs(arg - res).max() > 1e-12:
            fail("invalid-completion", "complete_face did not update the matrix it was given")
        pfo = arg
        done.append(i)
    bad = [i for i, s in enumerate(face_signs(F, pfo, {k: k for k in range(n)})) if abs(s + 1) > 1e-9]
    if len(bad) > 1 or any(abs(abs(np.real(pfo[min(x), max(x)])) - 1) > 1e-9 for x in h.edges):
        fail("invalid-completion", "completing the faces in order %s leaves %d bad faces or unassigned edges" % (done, len(bad)))
    full = F[done[-1]] if done else F[0]
    old = pfo.copy()
    call(lambda: ff.complete_face(pfo, full))
    if not np.array_equal(old, pfo):
        fail("invalid-completion", "completing an already complete face changed the orientation")
    # an orientation matrix with other magnitudes: still only the one entry may change
    for i in range(len(F)):
        edges = {frozenset(x) for x in F[i]}
        twice = {frozenset(x) for x in F[i] if (x[1], x[0]) in F[i]}
        free = sorted(tuple(sorted(x)) for x in edges - twice)
        if not free or r.random() < 0.5:
            continue
        p, q = r.choice(free)
        w = pfo * np.array([[r.choice([0.25, 0.5, 1, 2, 3]) for _ in range(n)] for _ in range(n)])
        w[p, q] = w[q, p] = 99j if a["dt"] == "c" else 0
        old = w.copy()
        face = [tuple(y) for y in F[i]]
        v = call(lambda: ff.complete_face(w, face))
        diff = {frozenset((int(x), int(y))) for x, y in zip(*np.nonzero(np.abs(w - old) > 1e-12))}
        if not diff <= {frozenset((p, q))}:
            fail("invalid-completion", "completing %s with entries of several magnitudes changed the entries of %s" % (face, [sorted(d) for d in diff]))
        e.stats["weighted_completions"] += 1
