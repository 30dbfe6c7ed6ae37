"""Arguments that resemble other arguments.

A twin of a call has arguments which agree with the original ones in something
a careless implementation might go by (shape, sum, entries up to order or sign,
corners, the memory they live in, everything but a few digits), but not in
value.  Only transformations that keep the argument within the operation's
domain are applied."""
import numpy as np

from . import ops, ref

SQUARE = ("pf", "hf", "pt", "dt", "dt_eigen", "partial_trace_diagblocksum", "partial_trace_blockTr", "kron_plus", "clean")
HAM = ("eigh_sp", "eigv_sp", "eigm_sp_can", "eigm_sp")
STATE = ("stabilizer_distribution", "SRE", "renyi_entropy", "linear_entropy", "cast_to_density_matrix", "cast_to_pdf", "correlation_matrix", "FAF", "cov_distribution",
         "trace_distance", "total_variation_distance", "relative_entropy", "bhattacharyya_coeff", "jensen_shannon_divergence")
GRAPH = ("count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute", "faces", "pfo_algorithm", "compute_tree_depth")
HOW = {}
for _n in SQUARE:
    HOW[_n] = ["same", "neg", "T", "swap", "near", "near5", "inner", "scale", "buffer"]
for _n in ("pt", "dt", "dt_eigen", "kron_plus"):
    HOW[_n] += ["ones", "twos"]
for _n in HAM:
    HOW[_n] = ["same", "neg", "conj", "modes", "near", "near5", "scale", "buffer"]
for _n in STATE:
    HOW[_n] = ["same", "conj", "T", "swap", "mix", "mix5", "buffer"]
HOW["generate_gaussian_state"] = ["same", "neg", "conj", "near", "near5", "scale", "buffer"]
for _n in ("build_H", "build_V"):
    HOW[_n] = ["same", "neg", "conj", "near", "near5", "scale", "buffer"]
HOW["build_op"] = ["same", "neg", "near", "near5", "scale", "buffer"]
for _n in ("is_symp", "check_canonical_form", "is_matchgate"):
    HOW[_n] = ["same", "neg", "conj", "T", "buffer"]
for _n in ("compute_2corr_matrix", "compute_cov_matrix"):
    HOW[_n] = ["same", "conj", "T", "swap", "mix", "mix5", "buffer"]
for _n in ("sgn", "permutation_to_matrix"):
    HOW[_n] = ["same", "swap"]
for _n in GRAPH:
    HOW[_n] = ["same", "rebuilt", "permuted", "weights", "renamed"]
HOW["count_perfect_matchings"] = HOW["count_perfect_matchings"] + ["complete"]
OTHER = ["same", "reseed"]


def kinds(name):
    return HOW.get(name, []) + OTHER


def change(x, how, r, square):
    """The transformed array, or None where the transformation has no place."""
    x = np.asarray(x)
    g = ref.rs(r)
    if how == "neg":
        return -x
    if how == "T":
        # the same memory, read the other way
        return x.T if x.ndim == 2 else None
    if how == "conj":
        return x.conj()
    if how == "near":
        return x * (1 + 3e-4) if x.dtype.kind in "fc" else None
    if how == "near5":
        return x * (1 + 2e-5) if x.dtype.kind in "fc" else None
    if how in ("ones", "twos"):
        # entries whose hashes agree
        y = np.sign(np.round(x.real)) if x.dtype.kind == "c" else np.sign(np.round(x))
        y = y.astype(x.dtype)
        y[g.rand(*x.shape) < 0.3] = -1
        if how == "twos":
            y[y == -1] = -2
        return y
    if how == "scale":
        return x * 2
    if how == "buffer":
        # the same numbers within a larger block of memory
        big = np.zeros((3,) + x.shape, dtype=x.dtype)
        big[1] = x
        return big[1]
    if how == "swap":
        if x.ndim == 1:
            y = x[g.permutation(len(x))]
            return y
        if x.ndim == 2 and x.shape[0] == x.shape[1]:
            i = g.permutation(x.shape[0])
            return x[np.ix_(i, i)]
        return None
    if how == "modes":
        n = x.shape[0] // 2
        i = g.permutation(n)
        i = np.concatenate([i, i + n])
        return x[np.ix_(i, i)]
    if how == "inner":
        # corners, first and last rows as before
        if x.ndim != 2 or x.shape[0] < 4 or x.shape[0] != x.shape[1]:
            return None
        y = x.copy()
        i, j = 1, x.shape[0] - 2
        y[i, j] = y[i, j] + 1
        y[j, i] = y[j, i] + (1 if not np.allclose(x, -x.T) else -1)
        return y
    if how in ("mix", "mix5"):
        t = 1e-3 if how == "mix" else 2e-5
        if x.ndim == 1 and x.dtype.kind == "f" and abs(x.sum() - 1) < 1e-9 and (x >= 0).all() and x.max() < 0.9:
            return (1 - t) * x + t / len(x)
        if x.ndim == 2 and x.shape[0] == x.shape[1]:
            return (1 - t) * x + t * np.eye(len(x)) / len(x)
        return None
    return None


def apply(spec, twin, made):
    """(args, kw) of the twin call; None if it does not apply."""
    o, a, k = made
    how, r = twin
    if how == "same":
        return a, k
    if how == "reseed":
        if "seed" not in spec["p"] or spec["p"]["seed"] is None:
            return None
        q = dict(spec["p"], seed=r % 2**30)
        _, a, k = ops.make({"op": spec["op"], "p": q})
        return a, k
    if spec["op"] in GRAPH:
        return graph(a[0], how, r)
    a = list(a)
    done = False
    for i, x in enumerate(a):
        if isinstance(x, list) and spec["op"] in SQUARE + STATE + ("sgn", "permutation_to_matrix"):
            arr = np.asarray(x)
            if arr.dtype.kind not in "iufc":
                continue
            y = change(arr, how, r, True)
            if y is None:
                return None
            a[i] = y.tolist()
            done = True
        elif isinstance(x, np.ndarray) and type(x) is np.ndarray and x.dtype.kind in "iufc" and x.ndim >= 1:
            y = change(x, how, r, True)
            if y is None:
                return None
            a[i] = y
            done = True
    return (a, k) if done else None


def graph(g, how, r):
    import networkx as nx

    rr = ref.rs(r)
    nodes, edges = list(g.nodes), list(g.edges(data=True))
    h = nx.Graph()
    if how == "rebuilt":
        h.add_nodes_from(nodes)
        h.add_edges_from((v, u, dict(d)) for u, v, d in reversed(edges))
    elif how == "permuted":
        # the same labels in another role
        i = rr.permutation(len(nodes))
        m = {v: nodes[j] for v, j in zip(nodes, i)}
        h.add_nodes_from(nodes)
        h.add_edges_from((m[u], m[v], dict(d)) for u, v, d in edges)
    elif how == "weights":
        h.add_nodes_from(nodes)
        for u, v, d in edges:
            h.add_edge(u, v, weight=float(d.get("weight", 1)) * [0.5, 2.0, 3.0, 1.23456789, 0.98765432][rr.randint(5)])
    elif how == "complete":
        h.add_nodes_from((nodes + [("more", j) for j in range(6)])[:6])
        for i, u in enumerate(list(h)):
            for v in list(h)[:i]:
                h.add_edge(u, v, weight=round(0.5 + rr.rand(), 7))
    elif how == "renamed":
        h = nx.relabel_nodes(g, {v: ("x", j) for j, v in enumerate(nodes)}, copy=True)
    else:
        return None
    return [h], {}
