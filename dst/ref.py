"""Small independent reference models (numpy core only, real backend)."""
import itertools
import math
from functools import lru_cache

import numpy as np

from .seams import REAL

NpRandom = REAL["RandomState"]


def rs(seed):
    return NpRandom(int(seed) % (2**32))


def eigh(a):
    return REAL["numpy.eigh"](a)


def expm_h(h, c):
    """exp(c*h) for Hermitian h."""
    w, v = eigh((h + h.conj().T) / 2)
    return (v * np.exp(c * w)) @ v.conj().T


# ------------------------------------------------------------ combinatorics


def sgn(p):
    p = list(p)
    seen = [False] * len(p)
    s = 1
    order = sorted(range(len(p)), key=lambda i: p[i])
    for i in range(len(p)):
        if not seen[i]:
            c, j = 0, i
            while not seen[j]:
                seen[j] = True
                j = order[j]
                c += 1
            if c % 2 == 0:
                s = -s
    return s


def pfaffian(a):
    a = np.asarray(a)
    a = (a - a.T) / 2
    n = a.shape[0]
    if n % 2:
        return 0

    def rec(idx):
        if not idx:
            return 1
        i = idx[0]
        tot = 0
        for k in range(1, len(idx)):
            j = idx[k]
            rest = idx[1:k] + idx[k + 1:]
            tot = tot + (-1) ** (k - 1) * a[i, j] * rec(rest)
        return tot

    return rec(tuple(range(n)))


def hafnian(a):
    a = np.asarray(a)
    a = (a + a.T) / 2
    n = a.shape[0]
    if n % 2:
        return 0

    def rec(idx):
        if not idx:
            return 1
        i = idx[0]
        tot = 0
        for k in range(1, len(idx)):
            tot = tot + a[i, idx[k]] * rec(idx[1:k] + idx[k + 1:])
        return tot

    return rec(tuple(range(n)))


def permanent(a):
    a = np.asarray(a)
    n = len(a)

    def rec(i, used):
        if i == n:
            return 1
        return sum((a[i, j] * rec(i + 1, used | 1 << j) for j in range(n) if not used >> j & 1), 0)

    return rec(0, 0)


def determinant(a):
    a = np.asarray(a)
    n = len(a)

    def rec(i, cols):
        if i == n:
            return 1
        return sum(((-1) ** k * a[i, c] * rec(i + 1, cols[:k] + cols[k + 1:]) for k, c in enumerate(cols)), 0)

    return rec(0, tuple(range(n)))


# ------------------------------------------------------------ matchings


def matchings(nodes, wedges):
    """Sum over perfect matchings of the product of weights, exactly by DP."""
    nodes = list(nodes)
    n = len(nodes)
    if n % 2:
        return 0
    ix = {v: i for i, v in enumerate(nodes)}
    w = {}
    for u, v, x in wedges:
        if u == v:
            continue
        i, j = sorted((ix[u], ix[v]))
        w[i, j] = x
    if n > 12:
        # breadth-first numbering keeps the frontier, and so the table, small
        nb = {i: [] for i in range(n)}
        for i, j in w:
            nb[i].append(j)
            nb[j].append(i)
        pos = {}
        for s in sorted(range(n), key=lambda i: len(nb[i])):
            todo = [] if s in pos else [s]
            while todo:
                i = todo.pop(0)
                if i not in pos:
                    pos[i] = len(pos)
                    todo += sorted(nb[i], key=lambda k: len(nb[k]))
        w = {tuple(sorted((pos[i], pos[j]))): x for (i, j), x in w.items()}

    @lru_cache(maxsize=None)
    def rec(mask):
        if mask == (1 << n) - 1:
            return 1
        i = 0
        while mask >> i & 1:
            i += 1
        tot = 0
        for j in range(i + 1, n):
            if not mask >> j & 1 and (i, j) in w:
                tot += w[i, j] * rec(mask | 1 << i | 1 << j)
        return tot

    return rec(0)


def matching_list(nodes, edges):
    nodes = list(nodes)
    es = [frozenset(e) for e in edges]
    out = []

    def rec(left, acc):
        if not left:
            out.append(frozenset(acc))
            return
        v = left[0]
        for e in adj[v]:
            u = next(iter(e - {v}))
            if u in left:
                rec([x for x in left if x != v and x != u], acc + [e])

    adj = {v: [e for e in es if v in e and len(e) == 2] for v in nodes}
    if len(nodes) % 2:
        return []
    rec(nodes, [])
    return out


# ------------------------------------------------------------ fermions


def lowering(n):
    """a_i |..1_i..> = (-1)^(occupied sites before i) |..0_i..>, site 0 leftmost bit."""
    d = 2**n
    ops = []
    for i in range(n):
        m = np.zeros((d, d), dtype=complex)
        bit = 1 << (n - 1 - i)
        for s in range(d):
            if s & bit:
                par = bin(s >> (n - i)).count("1") if i else 0
                m[s ^ bit, s] = (-1) ** par
        ops.append(m)
    return ops


def alphas(n):
    lo = lowering(n)
    return [a.conj().T for a in lo] + lo


def majoranas(n):
    lo = lowering(n)
    x = [(a.conj().T + a) / np.sqrt(2) for a in lo]
    y = [-1j * (a - a.conj().T) / np.sqrt(2) for a in lo]
    return x + y


def parity_diag(n):
    return np.array([(-1) ** bin(s).count("1") for s in range(2**n)], dtype=float)


def number_diag(n):
    return np.array([bin(s).count("1") for s in range(2**n)], dtype=float)


def omega(n):
    i = np.eye(n)
    return np.block([[i, i], [1j * i, -1j * i]]) / np.sqrt(2)


def build_H(n, a, b):
    return np.block([[-a.conj(), b], [-b.conj(), a]]).astype(complex)


def build_V(n, a, z):
    return np.block([[-z.conj(), a], [-a.conj(), z]]).astype(complex)


def build_op(n, r, direct=False, al=None):
    al = alphas(n) if al is None else al
    d = al[0].shape[0]
    out = np.zeros((d, d), dtype=complex)
    for i in range(2 * n):
        for j in range(2 * n):
            left = al[i] if direct else al[i].conj().T
            out = out + r[i, j] * (left @ al[j])
    return out


def corr(rho, n, mode=None):
    al = alphas(n)
    g = np.zeros((2 * n, 2 * n), dtype=complex)
    for i in range(2 * n):
        for j in range(2 * n):
            a, b = al[i], al[j]
            if mode is not None and int(mode) < 0:
                a = a.conj().T
            elif mode is not None:
                b = b.conj().T
            g[i, j] = np.trace(rho @ a @ b)
    return g


def majorana_cov(rho, n):
    """Real antisymmetric M_ij = -i tr(rho [g_i, g_j]) with g normalised to g^2 = 1/2."""
    g = majoranas(n)
    m = np.zeros((2 * n, 2 * n))
    for i in range(2 * n):
        for j in range(2 * n):
            m[i, j] = np.real(-1j * np.trace(rho @ (g[i] @ g[j] - g[j] @ g[i])))
    return m


def singular_pairs(m):
    w = REAL["numpy.eigvalsh"](1j * m)
    return np.sort(np.abs(w))[::-1][::2]


def wick_error(rho, n, max_order=6):
    """Largest deviation of even-order Majorana moments from the Pfaffian of
    the two-point function, and of odd-order moments from zero.  For n sites
    all subsets of the 2n Majoranas are compared up to max_order."""
    g = [x * np.sqrt(2) for x in majoranas(n)]  # square to one
    two = np.zeros((2 * n, 2 * n), dtype=complex)
    for i in range(2 * n):
        for j in range(2 * n):
            if i != j:
                two[i, j] = np.trace(rho @ g[i] @ g[j])
    err = 0.0
    for k in range(1, min(2 * n, max_order) + 1):
        for sub in itertools.combinations(range(2 * n), k):
            op = g[sub[0]]
            for s in sub[1:]:
                op = op @ g[s]
            val = np.trace(rho @ op)
            if k % 2:
                err = max(err, abs(val))
            elif k > 2:
                err = max(err, abs(val - pfaffian(two[np.ix_(sub, sub)])))
    return err


# ------------------------------------------------------------ states and measures


def as_density(x):
    x = np.asarray(x, dtype=complex)
    if x.ndim == 1 or min(x.shape) == 1:
        v = x.reshape(-1)
        if abs(np.sqrt(np.sum(np.abs(v) ** 2)) - 1) < 1e-6:
            return np.outer(v, v.conj())
        return np.diag(v)
    return x


def as_pdf(x):
    return np.real(np.diag(as_density(x)))


def pauli_group(n):
    p = [np.eye(2, dtype=complex), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    out = []
    for c in itertools.product(p, repeat=n):
        m = np.ones((1, 1), dtype=complex)
        for x in c:
            m = np.kron(m, x)
        out.append(m)
    return out


def stabilizer_distribution(x):
    rho = as_density(x)
    n = int(round(math.log2(rho.shape[0])))
    vals = np.array([np.real(np.trace(p @ rho)) for p in pauli_group(n)])
    return vals**2 / (2**n * np.real(np.trace(rho @ rho)))


def renyi(p, a):
    p = np.asarray(p, dtype=float)
    q = p[p > 0]
    if a == 1:
        return float(-np.sum(q * np.log(q)))
    if a == 0:
        return math.log(len(q))
    if a == np.inf:
        return -math.log(p.max())
    return float(np.log(np.sum(q**a)) / (1 - a))


def kl(p, q):
    p = p / p.sum()
    q = q / q.sum()
    tot = 0.0
    for a, b in zip(p, q):
        if a > 0:
            if b <= 0:
                return np.inf
            tot += a * math.log(a / b)
    return tot


def trace_distance(a, b):
    return 0.5 * float(np.sum(np.abs(REAL["numpy.eigvalsh"](as_density(a) - as_density(b)))))


def clean(x, thr=1e-6):
    if isinstance(thr, int):
        nd, t = thr, 10.0 ** (-thr)
    else:
        nd, t = -round(math.log10(thr)), thr
    return nd, t


# ------------------------------------------------------------ graphs


def graph_key(g):
    return {
        "nodes": [(n, dict(d)) for n, d in g.nodes(data=True)],
        "edges": [(u, v, dict(d)) for u, v, d in g.edges(data=True)],
        "adj": [(n, list(g.adj[n])) for n in g.adj],
        "graph": dict(g.graph),
    }


def eigh_exp(g):
    """exp(-i g) for a Hermitian g (not symmetrised away if it is not)."""
    g = np.asarray(g)
    if np.abs(g - g.conj().T).max() > 1e-6 * max(1.0, np.abs(g).max()):
        return np.full(g.shape, np.nan)
    w, v = eigh((g + g.conj().T) / 2)
    return (v * np.exp(-1j * w)) @ v.conj().T
