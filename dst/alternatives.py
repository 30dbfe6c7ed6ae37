"""Other answers the numerical and graph backends may legally give."""
import numpy as np

from . import seams
from .core import derive
from .seams import REAL

NpRandom = REAL["RandomState"]


def _ulp(r, x):
    x = np.asarray(x)
    if x.dtype.kind not in "fc" or x.size == 0:
        return x
    g = NpRandom(r.getrandbits(32))
    with np.errstate(all="ignore"):
        return x * (1 + g.randint(-3, 4, size=x.shape) * 2.2e-16)


def _phases(r, n, cplx):
    if cplx:
        g = NpRandom(r.getrandbits(32))
        return np.exp(2j * np.pi * g.random_sample(n))
    return np.array([r.choice([-1.0, 1.0]) for _ in range(n)])


def _haar_small(r, n, cplx):
    g = NpRandom(r.getrandbits(32))
    a = g.standard_normal((n, n))
    if cplx:
        a = a + 1j * g.standard_normal((n, n))
    q, _ = REAL["numpy.qr"](a)
    return q


def perturb(env, key, r, args, kw, out, kinds):
    name = key.split(".")[1]
    try:
        if name == "schur" and "order" in kinds:
            return _schur(env, r, args, kw, out)
        if name == "eigvals" and isinstance(out, np.ndarray) and out.ndim == 1:
            if "order" in kinds:
                env.alt_used["eigvals-order"] += 1
                out = out[np.array(r.sample(range(len(out)), len(out)), dtype=int)]
            return _ulp(r, out) if "ulp" in kinds else out
        if name == "eig" and len(out) == 2 and "order" in kinds and not kw:
            w, v = np.asarray(out[0]), np.asarray(out[1])
            p = np.array(r.sample(range(len(w)), len(w)), dtype=int)
            env.alt_used["eig-order"] += 1
            w2, v2 = w[p], v[:, p] * _phases(r, len(w), np.iscomplexobj(v))
            return type(out)(w2, v2) if hasattr(out, "_fields") else (w2, v2)
        if name == "eigh" and len(out) == 2 and "order" in kinds:
            return _eigh(env, r, args, out)
        if name == "svd" and isinstance(out, tuple) and len(out) == 3 and "order" in kinds:
            u, s, vh = out
            k = len(s)
            if u.shape[1] == k and vh.shape[0] == k:
                ph = _phases(r, k, np.iscomplexobj(u) or np.iscomplexobj(vh))
                env.alt_used["svd-phase"] += 1
                u2, vh2 = u * ph, ph.conj()[:, None] * vh
                return type(out)(u2, s, vh2) if hasattr(out, "_fields") else (u2, s, vh2)
            return out
        if name == "qr" and isinstance(out, tuple) and len(out) == 2 and "order" in kinds:
            q, rr = out
            if q.ndim == 2 and q.shape[1] == rr.shape[0]:
                ph = _phases(r, q.shape[1], np.iscomplexobj(q))
                env.alt_used["qr-phase"] += 1
                q2, r2 = q * ph, ph.conj()[:, None] * rr
                return type(out)(q2, r2) if hasattr(out, "_fields") else (q2, r2)
            return out
        if name in ("expm", "logm", "det", "eigvalsh", "sqrtm", "inv") and "ulp" in kinds:
            if isinstance(out, np.ndarray) or np.isscalar(out):
                env.alt_used["ulp"] += 1
                o = _ulp(r, out)
                if name == "eigvalsh":
                    o = np.sort(o)
                return o if isinstance(out, np.ndarray) else o[()]
    except Exception:  # noqa: BLE001 - an answer we cannot vary is passed through
        env.stats["alternative_skipped"] += 1
        return out
    return out


def _eigh(env, r, args, out):
    w, v = np.asarray(out[0]), np.asarray(out[1])
    n = len(w)
    v2 = v.astype(v.dtype, copy=True)
    i = 0
    cplx = np.iscomplexobj(v)
    while i < n:
        j = i + 1
        while j < n and abs(w[j] - w[j - 1]) < 1e-12 * max(1.0, abs(w).max()):
            j += 1
        if j - i > 1:
            v2[:, i:j] = v2[:, i:j] @ _haar_small(r, j - i, cplx)
            env.alt_used["eigh-degenerate-basis"] += 1
        else:
            v2[:, i:j] = v2[:, i:j] * _phases(r, 1, cplx)
        i = j
    env.alt_used["eigh-phase"] += 1
    return type(out)(w, v2) if hasattr(out, "_fields") else (w, v2)


def _schur(env, r, args, kw, out):
    """Permutes, reflects and rotates the blocks of the real Schur form of a
    normal antisymmetric matrix, keeping the selected ones first."""
    if len(args) > 1:
        return out
    if kw.get("output", "real") in ("complex", "c") and kw.get("sort") is None:
        t, z = np.asarray(out[0]), np.asarray(out[1])
        if t.dtype.kind != "c" or np.abs(t - np.diag(np.diag(t))).max(initial=0.0) > 1e-12 * max(1.0, np.abs(t).max(initial=0.0)):
            return out
        n = t.shape[0]
        p = np.array(r.sample(range(n), n), dtype=int)
        z2 = z[:, p] * _phases(r, n, True)
        env.alt_used["schur-complex"] += 1
        return (np.diag(np.diag(t)[p]), z2)
    if kw.get("output", "real") not in ("real", "r"):
        return out
    sort = kw.get("sort")
    t, z = np.asarray(out[0]), np.asarray(out[1])
    if t.dtype.kind != "f":
        return out
    n = t.shape[0]
    blocks = []
    i = 0
    scale = max(1.0, np.abs(t).max())
    while i < n:
        if i + 1 < n and t[i + 1, i] != 0:
            if max(abs(t[i + 1, i]), abs(t[i, i + 1])) < 4e-16 * scale and max(abs(t[i, i]), abs(t[i + 1, i + 1])) < 4e-16 * scale and r.random() < 0.7:
                # a vanishing pair may as well come as two zeros
                t = t.copy()
                t[i:i + 2, i:i + 2] = 0.0
                blocks += [(i, 1), (i + 1, 1)]
                i += 2
                continue
            blocks.append((i, 2))
            i += 2
        else:
            blocks.append((i, 1))
            i += 1
    # only a block diagonal form may be permuted
    mask = np.ones((n, n), dtype=bool)
    for b, s in blocks:
        mask[b:b + s, b:b + s] = False
    if n and np.abs(t[mask]).max(initial=0.0) > 1e-12 * scale:
        return out
    for b, s in blocks:
        if s == 2:
            if abs(t[b, b]) > 1e-12 * scale or abs(t[b, b + 1] + t[b + 1, b]) > 1e-12 * scale:
                return out

    def sel(b, s):
        if sort is None:
            return 0
        if s == 1:
            lam = complex(t[b, b])
        else:
            lam = complex(t[b, b], np.sqrt(abs(t[b, b + 1])) * np.sqrt(abs(t[b + 1, b])))
        if callable(sort):
            try:
                return 0 if sort(lam.real, lam.imag) else 1
            except TypeError:
                return 0 if sort(lam) else 1
        return None

    groups = {}
    for b, s in blocks:
        k = sel(b, s)
        if k is None:
            return out
        groups.setdefault(k, []).append((b, s))
    order = []
    for k in sorted(groups):
        g = list(groups[k])
        r.shuffle(g)
        order += g
    idx = [x for b, s in order for x in range(b, b + s)]
    t2 = t[np.ix_(idx, idx)].copy()
    z2 = z[:, idx].copy()
    # reflections (change the sign of the off-diagonal pair) and rotations
    q = np.eye(n)
    pos = 0
    for b, s in order:
        if s == 1:
            q[pos, pos] = r.choice([-1.0, 1.0])
        else:
            th = r.choice([0.0, r.random() * 6.28])
            c, sn = np.cos(th), np.sin(th)
            rot = np.array([[c, -sn], [sn, c]])
            if r.random() < 0.5:
                rot = rot @ np.diag([1.0, -1.0])
            q[pos:pos + 2, pos:pos + 2] = rot
        pos += s
    # degenerate spaces may be mixed as well
    if r.random() < 0.5:
        q = _mix(env, r, t2, order, scale) @ q
    t3 = q.T @ t2 @ q
    # keep exact zeros outside the blocks, as LAPACK does below the diagonal
    pos = 0
    m2 = np.zeros((n, n), dtype=bool)
    for b, s in order:
        m2[pos:pos + s, pos:pos + s] = True
        if s == 2:
            t3[pos, pos] = t3[pos + 1, pos + 1] = t2[pos, pos]
        pos += s
    t3[~m2 & np.tri(n, n, -1, dtype=bool)] = 0.0
    z3 = z2 @ q
    env.alt_used["schur-order"] += 1
    res = list(out)
    res[0], res[1] = t3, z3
    return tuple(res)


def _mix(env, r, t, order, scale):
    """An orthogonal matrix that commutes with the block diagonal antisymmetric
    form t: mixes the zeros among each other, and pairs of equal size."""
    n = t.shape[0]
    q = np.eye(n)
    pos, zeros, pairs = 0, [], []
    for b, s in order:
        if s == 1 and abs(t[pos, pos]) < 1e-15 * scale:
            zeros.append(pos)
        elif s == 2:
            pairs.append((pos, t[pos, pos + 1]))
        pos += s
    del b
    # selected and unselected blocks stay apart: equal blocks are in one group
    if len(zeros) > 1:
        q[np.ix_(zeros, zeros)] = _haar_small(r, len(zeros), False)
        env.alt_used["schur-zero-basis"] += 1
    done = set()
    for i, (p, x) in enumerate(pairs):
        if i in done:
            continue
        same = [j for j in range(i, len(pairs)) if j not in done and abs(abs(pairs[j][1]) - abs(x)) < 1e-13 * scale]
        done.update(same)
        if len(same) < 2:
            continue
        u = _haar_small(r, len(same), True)
        env.alt_used["schur-degenerate-basis"] += 1
        for a, j in enumerate(same):
            for c, k in enumerate(same):
                sj, sk = np.sign(pairs[j][1]), np.sign(pairs[k][1])
                m = np.array([[u[a, c].real, -u[a, c].imag], [u[a, c].imag, u[a, c].real]])
                # reversed pairs have their second axis reflected
                m = np.diag([1.0, sj]) @ m @ np.diag([1.0, sk])
                pj, pk = pairs[j][0], pairs[k][0]
                q[pj:pj + 2, pk:pk + 2] = m
    return q


# ---------------------------------------------------------------- graphs


def graph(env, name, real, args, kw):
    alt = env.graph_alt
    if name in ("maximum_spanning_tree", "minimum_spanning_tree") and "tree" in alt["kinds"]:
        if len(args) == 1 and not kw and not args[0].is_directed() and not args[0].is_multigraph():
            env.alt_used["spanning-tree-ties"] += 1
            return _tree(env, args[0], 1 if name.startswith("max") else -1)
    if name == "check_planarity" and "embedding" in alt["kinds"] and len(args) == 1 and not any(kw.values()):
        return _planarity(env, real, args[0])
    return real(*args, **kw)


def _graph_rng(env, g, tag):
    key = sorted(tuple(sorted((repr(a), repr(b)))) for a, b in g.edges())
    return REAL["Random"](derive(env.graph_alt["seed"], tag, repr(key)))


def _tree(env, g, sign):
    import networkx as nx

    r = _graph_rng(env, g, "tree")
    es = sorted(g.edges(data=True), key=lambda e: (repr(e[0]), repr(e[1])))
    r.shuffle(es)
    es.sort(key=lambda e: -sign * e[2].get("weight", 1))
    parent = {v: v for v in g}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    chosen = []
    for u, v, d in es:
        a, b = find(u), find(v)
        if a != b:
            parent[a] = b
            if r.random() < 0.5:
                u, v = v, u
            chosen.append((u, v, d))
    r.shuffle(chosen)
    t = g.__class__()
    t.graph.update(g.graph)
    t.add_nodes_from(g.nodes.items())
    t.add_edges_from(chosen)
    assert nx.number_of_edges(t) == len(chosen)
    return t


def _planarity(env, real, g):
    import networkx as nx

    if g.is_directed() or len(g) == 0:
        return real(g)
    r = _graph_rng(env, g, "embedding")
    nodes = sorted(g.nodes(), key=repr)
    perm = list(range(len(nodes)))
    r.shuffle(perm)
    fw = dict(zip(nodes, perm))
    bw = {i: v for v, i in fw.items()}
    h = nx.Graph()
    order = sorted(fw.values())
    r.shuffle(order)
    h.add_nodes_from(order)
    es = sorted((tuple(sorted((fw[a], fw[b]))) for a, b in g.edges()))
    r.shuffle(es)
    h.add_edges_from((a, b) if r.random() < 0.5 else (b, a) for a, b in es)
    ok, emb = real(h)
    if not ok:
        return ok, emb
    mirror = r.random() < 0.5
    data = {}
    for i in emb.nodes():
        nb = list(emb.neighbors_cw_order(i))
        if mirror:
            nb.reverse()
        if nb:
            k = r.randrange(len(nb))
            nb = nb[k:] + nb[:k]
        data[bw[i]] = [bw[x] for x in nb]
    e2 = nx.PlanarEmbedding()
    e2.set_data({v: data[v] for v in g.nodes()})
    env.alt_used["embedding" + ("-mirrored" if mirror else "")] += 1
    return True, e2
