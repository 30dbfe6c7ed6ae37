"""Catalogue of public calls: how to make arguments, and what the call must return.

Every call is described by JSON, {"op": name, "p": {...}}; arguments are
rebuilt from it, so a run is a pure function of its scenario.  `check` compares
a returned value with the reference model and returns None or a complaint."""
import io
import math

import numpy as np

from . import ref, seams
from .seams import REAL

NpRandom = REAL["RandomState"]
Random = REAL["Random"]

OPS = {}


class Op:
    def __init__(self, name, gen, args, check, fn=None, kind="det", family="", mutates=(), views=False):
        self.name = name
        self.gen = gen
        self.args = args
        self.check = check
        self.kind = kind  # det, seeded, unseeded, path
        self.family = family
        self.mutates = mutates
        self.views = views  # may the result share memory with an argument?
        self._fn = fn or name

    def fn(self):
        ff = seams.FF
        for mod in (ff, ff.ff_random_states, ff.ff_utils, ff.ff_graph_theory, ff.ff_lib):
            f = getattr(mod, self._fn, None)
            if f is not None:
                return f
        raise AttributeError(self._fn)


def op(name, gen, args, check, **kw):
    OPS[name] = Op(name, gen, args, check, **kw)


# ------------------------------------------------------------ comparison helpers


def close(a, b, tol=1e-8):
    try:
        a = np.asarray(a)
        b = np.asarray(b)
    except Exception:  # noqa: BLE001
        return False
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "biufc" or b.dtype.kind not in "biufc":
        return bool(np.array_equal(a, b))
    if a.size == 0:
        return True
    if a.dtype.kind == "b" or b.dtype.kind == "b":
        return bool(np.array_equal(a, b))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa & fb).all():
        if not np.array_equal(fa, fb):
            return False
        bad = ~fa
        if not np.array_equal(np.nan_to_num(a[bad]), np.nan_to_num(b[bad])):
            return False
        a, b = a[fa], b[fb]
        if a.size == 0:
            return True
    scale = max(1.0, float(np.abs(b).max()))
    return bool(np.abs(a - b).max() <= tol * scale)


def want(val, exp, what="value", tol=1e-8):
    if val is None and exp is not None:
        return "%s is None" % what
    if not close(val, exp, tol):
        return "%s differs from the reference: got %s, expected %s" % (what, brief(val), brief(exp))
    return None


def brief(x):
    try:
        if isinstance(x, np.ndarray) and x.size > 16:
            return "array%s first=%s" % (x.shape, np.round(np.ravel(x)[:4], 6).tolist())
        if isinstance(x, np.ndarray):
            return str(np.round(x, 6).tolist())
        return repr(x)[:200]
    except Exception:  # noqa: BLE001
        return "<%s>" % type(x).__name__


def same(a, b, tol=1e-6):
    """Structural equality of two results of the same call."""
    if callable(a) and callable(b) and not isinstance(a, np.ndarray):
        return all(same(a(t), b(t), tol) for t in (0.0, 0.3, 1.0))
    if a is None or b is None or isinstance(a, (str, bytes)):
        return type(a) is type(b) and a == b
    if hasattr(a, "adj") and hasattr(b, "adj"):
        return set(a.nodes) == set(b.nodes) and {frozenset(e) for e in a.edges} == {frozenset(e) for e in b.edges} and len(a.edges) == len(b.edges)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
        if not (np.isscalar(a) or np.isscalar(b)):
            return False
    return close(a, b, tol)


# ------------------------------------------------------------ argument makers


def mat(p, n=None, m=None):
    n = p.get("n", 2) if n is None else n
    m = n if m is None else m
    g = ref.rs(p["seed"])
    kind = p.get("kind", "c")
    if kind == "int":
        a = g.randint(-3, 4, size=(n, m))
    elif kind == "r":
        a = g.standard_normal((n, m))
    elif kind == "sparse":
        a = g.standard_normal((n, m)) * (g.random_sample((n, m)) < 0.5)
    elif kind == "antisym":
        a = g.standard_normal((n, n))
        a = a - a.T
    elif kind == "cantisym":
        a = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
        a = a - a.T
    elif kind == "sym":
        a = g.standard_normal((n, n))
        a = a + a.T
    elif kind == "iantisym":
        a = g.randint(-3, 4, size=(n, n))
        a = a - a.T
    else:
        a = g.standard_normal((n, m)) + 1j * g.standard_normal((n, m))
    return a


LAYOUTS = ("C", "F", "view", "ro", "neg")


def lay(p, a):
    """The same values in another memory layout."""
    k = p.get("lay", "C")
    a = np.asarray(a)
    if k == "F":
        return np.asfortranarray(a)
    if k == "view":
        big = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(1, 2 * s + 1, 2) for s in a.shape)
        big[sl] = a
        return big[sl]
    if k == "neg":
        return a[::-1].copy()[::-1]
    if k == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


def g_mat(kinds, ns, lists=True):
    def gen(r):
        lays = list(LAYOUTS) + (["list"] if lists else [])
        return {"seed": r.getrandbits(30), "n": r.choice(ns), "kind": r.choice(kinds), "lay": r.choice(lays)}
    return gen


def a_mat(p):
    a = mat(p)
    if p.get("lay") == "list":
        return [a.tolist()], {}
    return [lay(p, a)], {}


def val(x):
    return np.asarray(x)


# combinatorics -------------------------------------------------------------

op("sgn", lambda r: {"seed": r.getrandbits(30), "n": r.choice([0, 1, 2, 3, 4, 5, 7]), "lay": r.choice(["list", "tuple", "arr"])},
   lambda p: ([{"list": list, "tuple": tuple, "arr": np.array}[p["lay"]](Random(p["seed"]).sample(range(p["n"]), p["n"]))], {}),
   lambda a, k, v, p: None if v == ref.sgn(list(a[0])) else "sgn%s = %r" % (list(a[0]), v), family="comb")

_K = ["c", "r", "int", "sparse", "antisym", "cantisym", "sym", "iantisym"]
op("pf", g_mat(_K, [0, 1, 2, 3, 4, 4, 6]), a_mat, lambda a, k, v, p: want(v, ref.pfaffian(a[0]), "pf"), family="comb")
op("hf", g_mat(_K, [0, 1, 2, 3, 4, 4, 6]), a_mat, lambda a, k, v, p: want(v, ref.hafnian(a[0]), "hf"), family="comb")
op("pt", g_mat(_K, [1, 2, 3, 4, 5]), a_mat, lambda a, k, v, p: want(v, ref.permanent(a[0]), "pt"), family="comb")
op("dt", g_mat(_K, [1, 2, 3, 4, 5]), a_mat, lambda a, k, v, p: want(v, ref.determinant(a[0]), "dt"), family="comb")
op("dt_eigen", g_mat(["c", "r", "sparse", "antisym", "cantisym", "sym", "int"], [1, 2, 3, 4, 5], lists=False), a_mat,
   lambda a, k, v, p: want(v, ref.determinant(a[0]), "dt_eigen", 1e-7), family="comb")

# operators -----------------------------------------------------------------

g_n = lambda ns: (lambda r: {"n": r.choice(ns)})  # noqa: E731


def seqwant(v, exp, what, tol=1e-9):
    if not isinstance(v, (list, tuple)) or len(v) != len(exp):
        return "%s: wrong number of operators" % what
    for i, (x, y) in enumerate(zip(v, exp)):
        if not close(x, y, tol):
            return "%s[%d] differs from the reference: got %s" % (what, i, brief(x))
    return None


def g_perm(r):
    n = r.choice([1, 2, 3, 4, 5])
    pr = r.sample(range(n), n)
    if r.random() < 0.15:
        pr[r.randrange(n)] = r.choice([-1, n, n + 3])
    return {"perm": pr, "lay": r.choice(["list", "arr", "tuple"])}


def c_perm(a, k, v, p):
    n = len([int(j) for j in a[0]])
    if any(not 0 <= x < n for x in [int(j) for j in a[0]]):
        return None if v is None else "invalid permutation gave a matrix"
    m = np.zeros((n, n), dtype=int)
    for i, x in enumerate([int(j) for j in a[0]]):
        m[x, i] = 1
    return want(v, m, "permutation matrix")


op("permutation_to_matrix", g_perm, lambda p: ([{"list": list, "arr": np.array, "tuple": tuple}[p["lay"]](p["perm"])], {}), c_perm, family="op")
op("pauli_matrices", lambda r: {}, lambda p: ([], {}), lambda a, k, v, p: seqwant(v, [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])], "pauli"), family="op")
op("generate_pauli_group", lambda r: {"n": r.choice([1, 1, 2, 2, 3])}, lambda p: ([p["n"]], {}), lambda a, k, v, p: seqwant(v, ref.pauli_group(p["n"]), "pauli group"), family="op")
op("jordan_wigner_lowering", g_n([1, 2, 3, 4]), lambda p: ([p["n"]], {}), lambda a, k, v, p: seqwant(v, ref.lowering(p["n"]), "lowering"), family="op")
op("jordan_wigner_alphas", g_n([1, 2, 3, 4]), lambda p: ([p["n"]], {}), lambda a, k, v, p: seqwant(v, ref.alphas(p["n"]), "alphas"), family="op")
op("jordan_wigner_majoranas", g_n([1, 2, 3]), lambda p: ([p["n"]], {}), lambda a, k, v, p: seqwant(v, ref.majoranas(p["n"]), "majoranas"), family="op")
op("build_Omega", g_n([1, 2, 3, 4, 5]), lambda p: ([p["n"]], {}), lambda a, k, v, p: want(v, ref.omega(p["n"]), "Omega"), family="op")


def xx_xp(n):
    m = np.zeros((2 * n, 2 * n))
    for i in range(n):
        m[i, 2 * i] = 1
        m[n + i, 2 * i + 1] = 1
    return m


op("build_reordering_xx_to_xp", g_n([1, 2, 3, 4]), lambda p: ([p["n"]], {}), lambda a, k, v, p: want(v, xx_xp(p["n"]), "reordering"), family="op")


def c_K(a, k, v, p):
    n = p["n"]
    w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
    ph = np.array([1] * n + [-1j] * n)
    return want(v, ph[:, None] * (xx_xp(n) @ np.kron(np.eye(n), w) @ ref.omega(n)), "K")


op("build_K", g_n([1, 2, 3]), lambda p: ([p["n"]], {}), c_K, family="op")


def blocks(p, n=None):
    """A (Hermitian) and B (antisymmetric) of several kinds."""
    n = p["n"] if n is None else n
    g = ref.rs(p["seed"])
    kind = p.get("hk", "gen")
    a = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    a = a + a.conj().T
    b = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    b = b - b.T
    if kind == "A":
        b = b * 0
    elif kind == "Z":
        a = a * 0
    elif kind == "real":
        a, b = a.real + 0j, b.real + 0j
    elif kind == "deg":
        q, _ = REAL["numpy.qr"](a)
        d = np.repeat(g.standard_normal(1), n)
        d[n // 2:] = d[0] * g.choice([1.0, -1.0, 2.0])
        a = (q * d) @ q.conj().T
        a = (a + a.conj().T) / 2
        b = b * 0
    elif kind == "diag":
        a = np.diag(g.randint(-2, 3, size=n)).astype(complex)
        b = b * 0
    elif kind == "zero":
        a, b = a * 0, b * 0
    elif kind == "rank1":
        x = g.standard_normal(n) + 1j * g.standard_normal(n)
        a = np.outer(x, x.conj()) * g.choice([1.0, -1.0])
        b = b * 0
    elif kind == "kitaev":
        mu, t, d = [(0.0, 1.0, 1.0), (1.0, 1.0, 1.0), (2.0, 1.0, 0.5), (0.5, 0.0, 1.0), (0.0, 1.0, 0.0)][g.randint(5)]
        a = -mu * np.eye(n) + 0j
        b = np.zeros((n, n), dtype=complex)
        for i in range(n - 1):
            a[i, i + 1] = a[i + 1, i] = -t
            b[i, i + 1], b[i + 1, i] = d, -d
    elif kind == "int":
        a = g.randint(-2, 3, size=(n, n)) + 1j * g.randint(-2, 3, size=(n, n))
        a = a + a.conj().T
        b = g.randint(-2, 3, size=(n, n)) + 1j * g.randint(-2, 3, size=(n, n))
        b = b - b.T
    elif kind == "scaled":
        s = 10.0 ** g.choice([-2, -1, 1, 2])
        a, b = a * s, b * s
    elif kind == "smallim":
        s = 10.0 ** g.choice([-6, -5, -4, -3])
        a, b = a.real + 1j * s * a.imag, b.real + 1j * s * b.imag
    elif kind == "weak":
        s = 10.0 ** g.choice([-6, -5, -4, -3])
        if g.randint(2):
            a = a * s
        else:
            b = b * s
    elif kind == "near":
        q, _ = REAL["numpy.qr"](a)
        s = 10.0 ** g.choice([-6, -5, -4])
        a = (q * (g.choice([1.0, 2.0]) + s * g.standard_normal(n))) @ q.conj().T
        a = (a + a.conj().T) / 2
        b = b * g.choice([0.0, s])
    return a, b


HKINDS = ["gen", "gen", "A", "Z", "real", "deg", "diag", "zero", "rank1", "kitaev", "int", "scaled", "smallim", "weak", "near"]


def g_H(ns, kinds=HKINDS):
    return lambda r: {"seed": r.getrandbits(30), "n": r.choice(ns), "hk": r.choice(kinds), "lay": r.choice(["C", "F", "view", "ro"])}


def a_build(p):
    n = p["n"]
    g = ref.rs(p["seed"])
    a = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    b = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    if p.get("noB"):
        return [n, lay(p, a)], {}
    return [n, lay(p, a), lay(p, b)], {}


def g_build(r):
    return {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3, 4]), "noB": r.random() < 0.3, "lay": r.choice(list(LAYOUTS))}


def _ab(a):
    return a[1], (a[2] if len(a) > 2 else np.zeros_like(a[1]))


op("build_H", g_build, a_build, lambda a, k, v, p: want(v, ref.build_H(p["n"], *_ab(a)), "H"), family="op")
op("build_V", g_build, a_build, lambda a, k, v, p: want(v, ref.build_V(p["n"], *_ab(a)), "V"), family="op")


def c_kit(a, k, v, p):
    n, mu, t, d = a
    A = np.diag([-mu] * n).astype(complex)
    B = np.zeros((n, n), dtype=complex)
    for i in range(n - 1):
        A[i, i + 1] = A[i + 1, i] = -t
        B[i, i + 1], B[i + 1, i] = d, -d
    return want(v, ref.build_H(n, A, B), "Kitaev chain")


op("kitaev_chain", lambda r: {"n": r.choice([1, 2, 3, 4]), "mu": r.choice([0.0, 1.0, -0.5]), "t": r.choice([0.0, 1.0, 0.7]), "d": r.choice([0.0, 1.0, -0.3])},
   lambda p: ([p["n"], p["mu"], p["t"], p["d"]], {}), c_kit, family="op")


def symplectic(n, seed):
    g = ref.rs(seed)
    q, _ = REAL["numpy.qr"](g.standard_normal((2 * n, 2 * n)))
    om = ref.omega(n)
    return om.conj().T @ q @ om


def a_rot(p):
    n = p["n"]
    c = symplectic(n, p["seed"]) if p["ck"] == "symp" else mat({"seed": p["seed"], "kind": "c"}, 2 * n)
    if p["ck"] == "sparse":
        c = c * (np.abs(c) > 0.8)
    al = ref.alphas(n)
    kw = {"Left": True} if p["left"] else {}
    c = lay(p, c)
    return ([al, c] if p["swap"] else [c, al]), kw


def c_rot(a, k, v, p):
    c, al = (a[1], a[0]) if isinstance(a[0], list) else (a[0], a[1])
    c = np.asarray(c)
    if k.get("Left"):
        c = c.conj().T
    exp = [sum(c[j, i] * al[i] for i in range(len(al))) for j in range(len(al))]
    return seqwant(v, exp, "rotated operators", 1e-7)


op("rotate_operators", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 2, 3]), "ck": r.choice(["symp", "gen", "sparse"]), "left": r.random() < 0.4, "swap": r.random() < 0.3, "lay": r.choice(list(LAYOUTS))},
   a_rot, c_rot, family="op")


def a_bop(p):
    n = p["n"]
    if p["rk"] == "H":
        a, b = blocks(p)
        r_ = ref.build_H(n, a, b)
    else:
        r_ = mat({"seed": p["seed"], "kind": p["rk"]}, 2 * n)
    return [n, lay(p, r_), ref.alphas(n)], ({"direct": True} if p["direct"] else {})


op("build_op", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 2, 3]), "rk": r.choice(["H", "H", "c", "sparse"]), "hk": r.choice(HKINDS), "direct": r.random() < 0.4, "lay": r.choice(list(LAYOUTS))},
   a_bop, lambda a, k, v, p: want(v, ref.build_op(p["n"], np.asarray(a[1]), k.get("direct", False)), "operator", 1e-7), family="op")


def density(p, n):
    """A density matrix of n qubits of several kinds."""
    g = ref.rs(p["seed"])
    d = 2**n
    kind = p.get("rk", "mixed")
    if kind == "mixed":
        x = g.standard_normal((d, d)) + 1j * g.standard_normal((d, d))
        rho = x @ x.conj().T
    elif kind == "pure":
        v = g.standard_normal(d) + 1j * g.standard_normal(d)
        rho = np.outer(v, v.conj())
    elif kind == "diag":
        rho = np.diag(g.dirichlet(np.ones(d))).astype(complex)
    elif kind == "basis":
        rho = np.zeros((d, d), dtype=complex)
        i = g.randint(d)
        rho[i, i] = 1
    elif kind == "maxmixed":
        rho = np.eye(d, dtype=complex)
    elif kind == "rank2":
        x = g.standard_normal((d, 2)) + 1j * g.standard_normal((d, 2))
        rho = x @ x.conj().T
    elif kind == "gauss":
        a, b = blocks({"seed": p["seed"] + 1, "n": n, "hk": "gen"})
        h = ref.build_op(n, ref.build_H(n, a, b))
        rho = ref.expm_h(h, -0.3)
    elif kind == "stab":
        v = np.zeros(d, dtype=complex)
        v[0] = v[-1] = 1
        rho = np.outer(v, v.conj())
    elif kind == "real":
        x = g.standard_normal((d, d))
        rho = (x @ x.T).astype(complex)
    elif kind == "product":
        rho = np.eye(1, dtype=complex)
        for _ in range(n):
            rho = np.kron(rho, one_qubit(g))
    elif kind == "occ":
        # prescribed mode occupations (empty, half filled, equal) in a random or the given basis
        rho = np.eye(1, dtype=complex)
        same = g.random_sample() * 2 - 1
        for _ in range(n):
            lam = [0.0, 0.0, 1.0, same, -same, g.random_sample()][g.randint(6)]
            rho = np.kron(rho, np.diag([(1 + lam) / 2, (1 - lam) / 2]))
        if g.randint(2):
            a, b = blocks({"seed": p["seed"] + 2, "n": n, "hk": "gen"})
            h = ref.build_op(n, ref.build_H(n, a, b))
            w, u = ref.eigh((h + h.conj().T) / 2)
            x = (u * np.exp(-1j * w)) @ u.conj().T
            rho = x @ rho @ x.conj().T
    elif kind == "noisyghz":
        v = np.zeros(d, dtype=complex)
        v[0] = v[-1] = np.sqrt(0.5)
        q = g.random_sample()
        rho = q * np.outer(v, v.conj()) + (1 - q) * np.eye(d) / d
    elif kind in ("nearmixed", "nearpure"):
        # a small admixture, of a size well above rounding
        x = g.standard_normal((d, d)) + 1j * g.standard_normal((d, d))
        x = x @ x.conj().T
        x = x / np.trace(x).real
        q = 10.0 ** g.uniform(-3, -0.5)
        if kind == "nearmixed":
            rho = (1 - q) * np.eye(d) / d + q * x
        else:
            v = g.standard_normal(d) + 1j * g.standard_normal(d)
            if g.randint(2):
                v = np.zeros(d)
                v[g.randint(d)] = 1
            v = v / np.sqrt(np.sum(np.abs(v) ** 2))
            rho = (1 - q) * np.outer(v, v.conj()) + q * x
    rho = (rho + rho.conj().T) / 2
    return rho / np.trace(rho).real


def one_qubit(g):
    k = g.randint(7)
    if k == 6:
        x = g.standard_normal((2, 2)) + 1j * g.standard_normal((2, 2))
        rho = x @ x.conj().T
        return rho / np.trace(rho).real
    if k == 5:
        return np.eye(2) / 2
    if k == 4:
        q = g.random_sample()
        return np.diag([q, 1 - q])
    v = [np.array([1, 0]), np.array([0, 1]), np.array([1, 1]) / np.sqrt(2), np.array([1, 1j]) / np.sqrt(2)][k]
    return np.outer(v, v.conj())


RKINDS = ["mixed", "mixed", "pure", "diag", "basis", "maxmixed", "rank2", "gauss", "gauss", "stab", "real", "product", "product", "occ", "occ", "noisyghz", "nearmixed", "nearpure"]


def g_rho(ns, extra=None):
    def gen(r):
        p = {"seed": r.getrandbits(30), "n": r.choice(ns), "rk": r.choice(RKINDS), "lay": r.choice(list(LAYOUTS))}
        if extra:
            p.update(extra(r))
        return p
    return gen


def a_gauss(p):
    n = p["n"]
    a, b = blocks(p)
    h = ref.build_H(n, a, b)
    if p["form"] == "op":
        h = ref.build_op(n, h)
    kw = {} if p["noalpha"] else {"alphas": ref.alphas(n)}
    return [n, lay(p, h)], kw


def c_gauss(a, k, v, p):
    n = p["n"]
    h = np.asarray(a[1])
    # on one site both sizes are 2: the library reads it as an operator
    hop = h if h.shape[0] == 2**n else ref.build_op(n, h)
    r = ref.expm_h(hop, -1.0)
    return want(v, r / np.trace(r), "gaussian state", 1e-7)


op("generate_gaussian_state", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3]), "hk": r.choice(["gen", "A", "Z", "deg", "zero", "kitaev"]), "form": r.choice(["gen", "op"]), "noalpha": r.random() < 0.5, "lay": r.choice(list(LAYOUTS))},
   a_gauss, c_gauss, family="op")


def a_cov(p):
    n = p["n"]
    rho = lay(p, density(p, n))
    kw = {}
    if p["maj"]:
        kw["alphas"] = ref.majoranas(n)
    return ([rho] if p["infer"] else [rho, n]), kw


def c_cov(a, k, v, p):
    n = p["n"]
    al = k.get("alphas") or ref.alphas(n)
    rho = np.asarray(a[0])
    exp = np.array([[np.trace(rho @ (x @ y - y @ x)) for y in al] for x in al])
    return want(v, exp, "covariance", 1e-8)


op("compute_cov_matrix", g_rho([1, 2, 2, 3], lambda r: {"infer": r.random() < 0.5, "maj": r.random() < 0.5}), a_cov, c_cov, family="op")
op("correlation_matrix", g_rho([1, 2, 2, 3]), lambda p: ([lay(p, density(p, p["n"]))], {}), lambda a, k, v, p: want(v, ref.corr(np.asarray(a[0]), p["n"]), "correlation"), family="op")


def a_2c(p):
    kw = {"conjugation": p["cj"]}
    if p["al"]:
        kw["alphas"] = ref.alphas(p["n"])
    return [lay(p, density(p, p["n"])), p["n"]], kw


op("compute_2corr_matrix", g_rho([1, 2, 2, 3], lambda r: {"cj": r.choice([None, 1, -1, 0]), "al": r.random() < 0.5}), a_2c,
   lambda a, k, v, p: want(v, ref.corr(np.asarray(a[0]), p["n"], p["cj"]), "2-correlation"), family="op")


def a_alg(p):
    n = p["n"]
    al = ref.alphas(n) if p["ak"] != "maj" else ref.majoranas(n)
    if p["ak"] == "rot":
        c = symplectic(n, p["seed"])
        al = [sum(c[j, i] * al[i] for i in range(2 * n)) for j in range(2 * n)]
    return [al], {}


def c_alg(a, k, v, p):
    n = p["n"]
    s = np.eye(2 * n) if p["ak"] == "maj" else np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
    return want(v, s, "algebra", 1e-7)


op("compute_algebra_S", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3]), "ak": r.choice(["alpha", "rot", "maj"])}, a_alg, c_alg, family="op")


def a_symp(p):
    n = p["n"]
    if p["ok"] == "symp":
        u = symplectic(n, p["seed"])
    elif p["ok"] == "noncanon":
        g = ref.rs(p["seed"])
        x = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n)) + 3 * np.eye(n)
        z = np.zeros((n, n))
        u = np.block([[x, z], [z, REAL["numpy.inv"](x).T]])
    elif p["ok"] == "canon":
        a = mat({"seed": p["seed"], "kind": "c"}, n) * 2
        b = mat({"seed": p["seed"] + 1, "kind": "c"}, n)
        u = np.block([[a, b], [b.conj(), a.conj()]])
    else:
        u = mat({"seed": p["seed"], "kind": "c"}, 2 * n)
    return [lay(p, u)], {}


def c_symp(a, k, v, p):
    u = np.asarray(a[0])
    n = u.shape[0] // 2
    s = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
    exp = float(np.abs(u @ s @ u.T - s).max()) < 1e-6
    return None if bool(v) == exp else "is_symp returned %r, expected %r" % (v, exp)


op("is_symp", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3]), "ok": r.choice(["symp", "symp", "noncanon", "canon", "gen"]), "lay": r.choice(list(LAYOUTS))}, a_symp, c_symp, family="op")


def a_mg(p):
    g = ref.rs(p["seed"])
    x = mat({"seed": p["seed"], "kind": "c"}, 2)
    y = mat({"seed": p["seed"] + 1, "kind": "c"}, 2)
    if p["mg"]:
        dx, dy = ref.determinant(x), ref.determinant(y)
        y = y * np.sqrt(dx / dy + 0j)
    m = np.zeros((4, 4), dtype=complex)
    m[0, 0], m[0, 3], m[3, 0], m[3, 3] = x[0, 0], x[0, 1], x[1, 0], x[1, 1]
    m[1:3, 1:3] = y
    if not p["mg"]:
        m[1, 1] += 5 + g.randint(3)
        m[2, 2] += 5
    return [lay(p, m)], {}


def c_mg(a, k, v, p):
    m = np.asarray(a[0])
    d1 = m[0, 0] * m[3, 3] - m[0, 3] * m[3, 0]
    d2 = m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]
    exp = abs(d1 - d2) < 1e-7
    return None if bool(v) == exp else "is_matchgate returned %r, expected %r" % (v, exp)


op("is_matchgate", lambda r: {"seed": r.getrandbits(30), "mg": r.random() < 0.5, "lay": r.choice(list(LAYOUTS))}, a_mg, c_mg, family="op")


def a_canon(p):
    n = p["n"]
    g = ref.rs(p["seed"])
    m = np.zeros((2 * n, 2 * n))
    for i in range(n):
        x = g.standard_normal()
        m[2 * i, 2 * i + 1], m[2 * i + 1, 2 * i] = x, -x
    if p["ck"] == "extra" and n > 1:
        m[0, 3], m[3, 0] = 1.0, -1.0
    elif p["ck"] == "sym":
        m = np.abs(m)
    elif p["ck"] == "complex":
        m = m * 1j
    return [lay(p, m)], {}


def c_canon(a, k, v, p):
    m = np.asarray(a[0])
    n = m.shape[0]
    mask = np.kron(np.eye(n // 2), np.ones((2, 2))) > 0
    exp = bool(np.abs(m.imag).max() < 1e-7 and np.abs(m + m.T).max() < 1e-7 and np.abs(m[~mask]).max(initial=0) < 1e-7)
    return None if bool(v) == exp else "check_canonical_form returned %r, expected %r" % (v, exp)


op("check_canonical_form", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3]), "ck": r.choice(["ok", "ok", "extra", "sym", "complex"]), "lay": r.choice(list(LAYOUTS))}, a_canon, c_canon, family="op")

# diagonalisers --------------------------------------------------------------


def symp_err(u):
    n = u.shape[0] // 2
    e = max(np.abs(u @ u.conj().T - np.eye(2 * n)).max(), np.abs(u[n:, n:] - u[:n, :n].conj()).max(), np.abs(u[n:, :n] - u[:n, n:].conj()).max())
    return e


def pair(v, shape, what):
    if not isinstance(v, (list, tuple)) or len(v) != 2:
        return "%s did not return two matrices" % what
    for x in v:
        x = np.asarray(x)
        if x.shape != shape or not np.isfinite(x).all():
            return "%s returned a matrix of shape %s or with non-finite entries" % (what, x.shape)
    return None


def c_eigh(a, k, v, p):
    h = np.asarray(a[0])
    n = h.shape[0] // 2
    e = pair(v, h.shape, "eigh_sp")
    if e:
        return e
    L, U = np.asarray(v[0]), np.asarray(v[1])
    sc = max(1.0, np.abs(h).max())
    if symp_err(U) > 1e-7:
        return "U is not a unitary symplectic (block conjugate) matrix: error %.2e" % symp_err(U)
    if np.abs(U.conj().T @ h @ U - L).max() > 1e-7 * sc:
        return "L differs from U^dagger H U by %.2e" % np.abs(U.conj().T @ h @ U - L).max()
    if np.abs(L - np.diag(np.diag(L))).max() > 1e-7 * sc:
        return "L is not diagonal: off-diagonal %.2e" % np.abs(L - np.diag(np.diag(L))).max()
    d = np.diag(L)
    if np.abs(d.imag).max() > 1e-7 * sc or np.abs(d[:n] + d[n:]).max() > 1e-7 * sc:
        return "eigenvalues are not real and paired (-e, e): %s" % np.round(d, 6).tolist()
    w = REAL["numpy.eigvalsh"](h)
    if np.abs(np.sort(d.real) - w).max() > 1e-7 * sc:
        return "eigenvalues differ from those of H"
    return None


def a_H(p):
    a, b = blocks(p)
    return [lay(p, ref.build_H(p["n"], a, b))], {}


op("eigh_sp", g_H([1, 2, 2, 3, 3, 4]), a_H, c_eigh, family="diag")


def a_V(p):
    a, b = blocks(p)
    h = ref.build_H(p["n"], a, b)
    n = p["n"]
    s = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
    return [lay(p, s @ h)], {}


def c_eigv(a, k, v, p):
    vm = np.asarray(a[0])
    n = vm.shape[0] // 2
    e = pair(v, vm.shape, "eigv_sp")
    if e:
        return e
    s = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
    L, U = np.asarray(v[0]), np.asarray(v[1])
    if np.abs(U.T @ vm @ U - L).max() > 1e-7 * max(1.0, np.abs(vm).max()):
        return "L differs from U^T V U"
    return c_eigh([s @ vm], {}, [s @ L, U], p)


op("eigv_sp", g_H([1, 2, 2, 3, 3]), a_V, c_eigv, family="diag")


def a_G(p):
    a, b = blocks(p)
    n = p["n"]
    om = ref.omega(n)
    g = om @ ref.build_H(n, a, b) @ om.conj().T
    g = 1j * ((g - g.T) / 2).imag
    return [lay(p, g)], {}


def orth_err(o):
    o = np.asarray(o)
    return max(np.abs(o.imag).max(), np.abs(o @ o.T - np.eye(o.shape[0])).max())


def c_eigm_can(a, k, v, p):
    g = np.asarray(a[0])
    n2 = g.shape[0]
    e = pair(v, g.shape, "eigm_sp_can")
    if e:
        return e
    L, O = np.asarray(v[0]), np.asarray(v[1])
    sc = max(1.0, np.abs(g).max())
    if orth_err(O) > 1e-7:
        return "O is not real orthogonal: error %.2e" % orth_err(O)
    if np.abs(O.T @ g @ O - L).max() > 1e-7 * sc:
        return "L differs from O^T G O"
    mask = np.kron(np.eye(n2 // 2), np.array([[0, 1], [1, 0]])) > 0
    if np.abs(L[~mask]).max(initial=0) > 1e-7 * sc:
        return "L is not in canonical block form: %s" % brief(L)
    w = np.sort(np.abs(REAL["numpy.eigvalsh"](g)))
    mine = np.sort(np.abs(np.concatenate([np.diag(L, 1)[::2], np.diag(L, 1)[::2]])))
    if np.abs(w - mine).max() > 1e-7 * sc:
        return "blocks do not carry the eigenvalues of G"
    return None


def c_eigm(a, k, v, p):
    g = np.asarray(a[0])
    n = g.shape[0] // 2
    e = pair(v, g.shape, "eigm_sp")
    if e:
        return e
    L, O = np.asarray(v[0]), np.asarray(v[1])
    sc = max(1.0, np.abs(g).max())
    if orth_err(O) > 1e-7:
        return "O is not real orthogonal: error %.2e" % orth_err(O)
    if np.abs(O.T @ g @ O - L).max() > 1e-7 * sc:
        return "L differs from O^T G O"
    om = ref.omega(n)
    d = om.conj().T @ L @ om
    if np.abs(d - np.diag(np.diag(d))).max() > 1e-7 * sc:
        return "L is not in the documented (x/p) block form"
    w = REAL["numpy.eigvalsh"](g)
    if np.abs(np.sort(np.diag(d).real) - w).max() > 1e-7 * sc:
        return "eigenvalues differ from those of G"
    return None


op("eigm_sp_can", g_H([1, 2, 2, 3, 3]), a_G, c_eigm_can, family="diag")
op("eigm_sp", g_H([1, 2, 2, 3, 3]), a_G, c_eigm, family="diag")

# utilities ------------------------------------------------------------------


def a_clean(p):
    g = ref.rs(p["seed"])
    k = p["ck"]
    if k == "arr":
        x = g.standard_normal((3, 2)) * 10.0 ** g.randint(-8, 3, size=(3, 2))
    elif k == "carr":
        x = g.standard_normal(4) + 1j * g.standard_normal(4) * 10.0 ** g.randint(-9, 1, size=4)
    elif k == "nearreal":
        x = g.standard_normal(4) + 1e-9j
    elif k == "list":
        x = (g.standard_normal(5) * 10.0 ** g.randint(-8, 3, size=5)).tolist()
    elif k == "nested":
        x = (g.standard_normal((2, 2)) * 10.0 ** g.randint(-8, 3, size=(2, 2))).tolist()
    elif k == "int":
        x = int(g.randint(-5, 6))
    elif k == "float":
        x = float(g.standard_normal() * 10.0 ** g.randint(-8, 3))
    elif k == "complex":
        x = complex(g.standard_normal(), g.standard_normal() * 10.0 ** g.randint(-9, 1))
    elif k == "npfloat":
        x = np.float64(g.standard_normal())
    elif k == "str":
        x = ["3.14159", "hello", "42", "1.23456789"][g.randint(4)]
    elif k == "matrix":
        x = np.matrix(g.standard_normal((2, 2)) * 10.0 ** g.randint(-8, 3, size=(2, 2)))
    elif k == "intarr":
        x = g.randint(-3, 4, size=(2, 3))
    if isinstance(x, np.ndarray) and k != "matrix":
        x = lay(p, x)
    return ([x] if p["thr"] is None else [x, p["thr"]]), {}


def c_clean(a, k, v, p):
    x = a[0]
    nd, t = ref.clean(None, a[1] if len(a) > 1 else 1e-6)
    if isinstance(x, str):
        if x.replace(".", "", 1).isnumeric():
            exp = str(np.round(float(x), nd))
            return None if v == exp else "clean(%r) = %r" % (x, v)
        return None if v == x else "clean(%r) = %r" % (x, v)
    if isinstance(x, list) and not isinstance(v, list):
        return "cleaned list is a %s" % type(v).__name__
    if isinstance(x, np.ndarray) and not isinstance(v, np.ndarray):
        return "cleaned %s is a %s" % (type(x).__name__, type(v).__name__)
    arr = np.asarray(x)
    out = np.asarray(v)
    if arr.shape != out.shape:
        return "cleaned value has shape %s instead of %s" % (out.shape, arr.shape)
    if arr.size and np.abs(out - arr).max() > max(0.51 * 10.0**-nd, t) * 1.5 + 1e-15:
        return "cleaning changed a value by more than the rounding: %s -> %s" % (brief(arr), brief(out))
    scaled = out * 10.0**nd
    if arr.size and np.abs(scaled - np.round(scaled)).max() > 1e-6 * max(1.0, np.abs(scaled).max()):
        return "cleaned value is not rounded to %d digits: %s" % (nd, brief(out))
    return None


op("clean", lambda r: {"seed": r.getrandbits(30), "ck": r.choice(["arr", "carr", "nearreal", "list", "nested", "int", "float", "complex", "npfloat", "str", "matrix", "intarr"]), "thr": r.choice([None, 3, 1e-4, 6, 9]), "lay": r.choice(list(LAYOUTS))},
   a_clean, c_clean, family="util")


def c_fmt(a, k, v, p):
    x = a[0]
    pr = a[1] if len(a) > 1 else 6
    if isinstance(x, complex):
        if abs(x.imag) < 1e-10:
            exp = "%.*f" % (pr, x.real)
        else:
            exp = "%.*f + %.*fj" % (pr, x.real, pr, x.imag)
    elif isinstance(x, (int, float)):
        exp = "%.*f" % (pr, x)
    else:
        exp = str(x)
    return None if v == exp else "formatted_output(%r) = %r, expected %r" % (x, v, exp)


def a_fmt(p):
    g = ref.rs(p["seed"])
    x = {"float": float(g.standard_normal()), "int": int(g.randint(9)), "complex": complex(g.standard_normal(), g.standard_normal()), "creal": complex(g.standard_normal(), 1e-12), "arr": g.randint(9, size=3), "str": "abc"}[p["fk"]]
    return ([x] if p["pr"] is None else [x, p["pr"]]), {}


op("formatted_output", lambda r: {"seed": r.getrandbits(30), "fk": r.choice(["float", "int", "complex", "creal", "arr", "str"]), "pr": r.choice([None, 0, 2, 8])}, a_fmt, c_fmt, family="util")


def a_kron(p):
    g = ref.rs(p["seed"])
    n, m = p["n"], p["m"]
    a, b = g.standard_normal((n, n)), g.standard_normal((m, m))
    if p["kind"] == "c":
        a, b = a + 1j * g.standard_normal((n, n)), b + 1j
    if p["kind"] == "int":
        a, b = np.round(a).astype(int), np.round(b).astype(int)
    return [lay(p, a), lay(p, b)], {}


def c_kron(a, k, v, p):
    x, y = np.asarray(a[0]), np.asarray(a[1])
    n, m = len(x), len(y)
    e = np.zeros((n + m, n + m), dtype=complex)
    e[:n, :n], e[n:, n:] = x, y
    return want(v, e, "direct sum")


op("kron_plus", lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3]), "m": r.choice([1, 2, 3]), "kind": r.choice(["r", "c", "int"]), "lay": r.choice(list(LAYOUTS))}, a_kron, c_kron, family="util")


def pdf(g, d):
    """A random distribution that cannot be taken for a wave function."""
    x = g.dirichlet(np.ones(d)) + 1e-3
    return x / x.sum()


def state_arg(p, n=None):
    """A state given as matrix, wave function or probability vector."""
    n = p["n"] if n is None else n
    g = ref.rs(p["seed"])
    d = 2**n
    f = p.get("form", "rho")
    if f == "psi":
        v = g.standard_normal(d) + 1j * g.standard_normal(d)
        return lay(p, v / np.sqrt(np.sum(np.abs(v) ** 2)))
    if f == "psicol":
        v = g.standard_normal((d, 1)) + 1j * g.standard_normal((d, 1))
        return lay(p, v / np.sqrt(np.sum(np.abs(v) ** 2)))
    if f == "pdf":
        return lay(p, pdf(g, d))
    if f == "sparsepdf":
        x = pdf(g, d)
        x[g.randint(d)] = 0
        x = x / x.sum()
        return lay(p, x)
    if f == "list":
        return pdf(g, d).tolist()
    return lay(p, density(p, n))


FORMS = ["rho", "rho", "psi", "psicol", "pdf", "sparsepdf", "list"]


def g_state(ns, forms=FORMS, extra=None):
    def gen(r):
        p = {"seed": r.getrandbits(30), "n": r.choice(ns), "rk": r.choice(RKINDS), "form": r.choice(forms), "lay": r.choice(list(LAYOUTS))}
        if extra:
            p.update(extra(r))
        return p
    return gen


op("cast_to_density_matrix", g_state([1, 2, 2, 3]), lambda p: ([state_arg(p)], {}), lambda a, k, v, p: want(v, ref.as_density(a[0]), "density matrix"), family="util", views=True)
op("cast_to_pdf", g_state([1, 2, 2, 3]), lambda p: ([state_arg(p)], {}), lambda a, k, v, p: want(v, ref.as_pdf(a[0]), "pdf"), family="util", views=True)


def c_ptd(a, k, v, p):
    m, d = np.asarray(a[0]), a[1]
    return want(v, sum(m[i * d:(i + 1) * d, i * d:(i + 1) * d] for i in range(m.shape[0] // d)), "partial trace")


def c_ptb(a, k, v, p):
    m, d = np.asarray(a[0]), a[1]
    s = m.shape[0] // d
    e = np.array([[np.trace(m[i * s:(i + 1) * s, j * s:(j + 1) * s]) for j in range(d)] for i in range(d)])
    return want(v, e, "partial trace")


def g_ptr(r):
    d = r.choice([1, 2, 3, 4])
    return {"seed": r.getrandbits(30), "d": d, "n": d * r.choice([1, 2, 3]), "kind": r.choice(["c", "r", "int"]), "lay": r.choice(list(LAYOUTS))}


op("partial_trace_diagblocksum", g_ptr, lambda p: ([lay(p, mat(p)), p["d"]], {}), c_ptd, family="util")
op("partial_trace_blockTr", g_ptr, lambda p: ([lay(p, mat(p)), p["d"]], {}), c_ptb, family="util")

# measures -------------------------------------------------------------------

op("stabilizer_distribution", g_state([1, 2, 2, 3]), lambda p: ([state_arg(p)], {}),
   lambda a, k, v, p: want(v, ref.stabilizer_distribution(a[0]), "stabilizer distribution"), family="meas")


def c_sre(a, k, v, p):
    xi = ref.stabilizer_distribution(a[0])
    al = k.get("a", 2)
    d = ref.as_density(a[0]).shape[0]
    if np.count_nonzero(xi > 1e-14) == 1:
        return want(v, 0.0 if abs(np.max(xi) - 1) < 1e-9 and float(np.asarray(v)) == 0.0 else ref.renyi(xi, al) - math.log(d), "SRE", 1e-6)
    if al == 0:
        return None  # counts entries: depends on rounding noise
    return want(v, ref.renyi(xi, al) - math.log(d), "SRE", 1e-6)


op("SRE", g_state([1, 2, 2, 3], extra=lambda r: {"a": r.choice([None, 2, 1, 3, 0.5, "inf"])}),
   lambda p: ([state_arg(p)], {} if p["a"] is None else {"a": np.inf if p["a"] == "inf" else p["a"]}), c_sre, family="meas")


def c_renyi(a, k, v, p):
    q = ref.as_pdf(a[0])
    al = a[1]
    if al == 0:
        return want(v, math.log(np.count_nonzero(q)), "renyi0", 1e-7) if p["form"] in ("pdf", "sparsepdf", "list") else None
    return want(v, ref.renyi(q, al), "renyi entropy", 1e-6)


op("renyi_entropy", g_state([1, 2, 3], extra=lambda r: {"a": r.choice([0, 0.5, 1, 2, 3, "inf"])}),
   lambda p: ([state_arg(p), np.inf if p["a"] == "inf" else p["a"]], {}), c_renyi, family="meas")
op("linear_entropy", g_state([2, 2, 4], forms=["pdf", "sparsepdf", "list", "rho"]), lambda p: ([state_arg(p)], {}),
   lambda a, k, v, p: want(v, 1 - float(np.sum(ref.as_pdf(a[0]) ** 2)), "linear entropy", 1e-8), family="meas")


def c_covd(a, k, v, p):
    rho = ref.as_density(a[0])
    n = int(round(math.log2(rho.shape[0])))
    nu = ref.singular_pairs(ref.majorana_cov(rho, n))
    exp = np.sort(nu**2)[::-1]
    got = np.sort(np.asarray(v, dtype=float).ravel())[::-1]
    if len(got) > len(exp):
        return "covariance distribution has %d entries for %d modes" % (len(got), len(exp))
    got = np.concatenate([got, np.zeros(len(exp) - len(got))])
    return want(got, exp, "covariance distribution", 1e-7)


op("cov_distribution", g_state([1, 2, 2, 3], forms=["rho", "rho", "psi", "psicol", "pdf"]), lambda p: ([state_arg(p)], {}), c_covd, family="meas")


def c_faf(a, k, v, p):
    rho = ref.as_density(a[0])
    n = int(round(math.log2(rho.shape[0])))
    nu = ref.singular_pairs(ref.majorana_cov(rho, n))
    kk = k.get("k", 2)
    return want(v, n - float(np.sum(nu ** (2 * kk))), "FAF", 1e-7)


op("FAF", g_state([1, 2, 2, 3], forms=["rho", "rho", "psi", "psicol", "pdf"], extra=lambda r: {"k": r.choice([None, 1, 2, 3])}),
   lambda p: ([state_arg(p)], {} if p["k"] is None else {"k": p["k"]}), c_faf, family="meas")


def two_states(p):
    q = dict(p, seed=p["seed"] + 7, form=p["form2"], rk=p["rk2"])
    if p["eq"]:
        x = state_arg(p)
        return [x, x.copy() if hasattr(x, "copy") else x], {}
    return [state_arg(p), state_arg(q)], {}


def g_two(forms, forms2=None):
    return lambda r: {"seed": r.getrandbits(30), "n": r.choice([1, 2, 3]), "rk": r.choice(RKINDS), "rk2": r.choice(RKINDS), "form": r.choice(forms),
                      "form2": r.choice(forms2 or forms), "eq": r.random() < 0.1, "lay": r.choice(list(LAYOUTS))}


def _pq(a):
    return ref.as_pdf(a[0]), ref.as_pdf(a[1])


op("trace_distance", g_two(FORMS), two_states, lambda a, k, v, p: want(v, ref.trace_distance(a[0], a[1]), "trace distance", 1e-7), family="meas")
op("total_variation_distance", g_two(FORMS), two_states, lambda a, k, v, p: want(v, 0.5 * float(np.sum(np.abs(_pq(a)[0] - _pq(a)[1]))), "total variation", 1e-8), family="meas")
op("relative_entropy", g_two(["pdf", "sparsepdf", "list"], ["pdf", "list"]), two_states, lambda a, k, v, p: want(v, ref.kl(*_pq(a)), "relative entropy", 1e-7), family="meas")
op("bhattacharyya_coeff", g_two(["pdf", "sparsepdf", "list"]), two_states, lambda a, k, v, p: want(v, float(np.sum(np.sqrt(_pq(a)[0] * _pq(a)[1]))), "Bhattacharyya", 1e-8), family="meas")
op("jensen_shannon_divergence", g_two(["pdf", "sparsepdf", "list"]), two_states,
   lambda a, k, v, p: want(v, 0.5 * (ref.kl(_pq(a)[0], sum(_pq(a)) / 2) + ref.kl(_pq(a)[1], sum(_pq(a)) / 2)), "Jensen-Shannon", 1e-7), family="meas")

# graphs ---------------------------------------------------------------------


def label(kind, i):
    if kind == "int":
        return i
    if kind == "off":
        return 3 * i + 7
    if kind == "neg":
        return -i
    if kind == "str":
        return "v%02d" % i
    if kind == "tup":
        return (i // 3, i % 3)
    return i


def planar_edges(r, n, m=None, connected=True):
    """A random simple planar graph on 0..n-1 as an edge list."""
    import networkx as nx

    es = []
    g = nx.Graph()
    g.add_nodes_from(range(n))
    if connected:
        for i in range(1, n):
            j = r.randrange(i)
            g.add_edge(i, j)
    cand = [(i, j) for i in range(n) for j in range(i) if not g.has_edge(i, j)]
    r.shuffle(cand)
    target = m if m is not None else r.randint(0, max(0, 3 * n))
    chk = REAL["nx.check_planarity"]
    for e in cand:
        if g.number_of_edges() >= target:
            break
        g.add_edge(*e)
        if not chk(g)[0]:
            g.remove_edge(*e)
    es = list(g.edges())
    return es


def make_graph(p):
    """nodes and edges in the recorded insertion order."""
    import networkx as nx

    g = nx.Graph()
    lk = p.get("labels", "int")
    for i in p["nodes"]:
        g.add_node(label(lk, i))
    for e in p["edges"]:
        u, v = label(lk, e[0]), label(lk, e[1])
        if len(e) > 2 and e[2] is not None:
            g.add_edge(u, v, weight=e[2])
        else:
            g.add_edge(u, v)
    return g


def g_graph(r, ns, weighted=0.4, connected=True, planar=True, labels=("int", "int", "off", "neg", "str", "tup"), even=0.8):
    n = r.choice(ns)
    if r.random() < even and n % 2:
        n += 1
    if planar:
        es = planar_edges(r, n, connected=connected)
    else:
        allp = [(i, j) for i in range(n) for j in range(i)]
        es = [e for e in allp if r.random() < r.choice([0.4, 0.6, 0.9])]
    nodes = list(range(n))
    if r.random() < 0.7:
        r.shuffle(nodes)
    es = [list(e) if r.random() < 0.5 else [e[1], e[0]] for e in es]
    r.shuffle(es)
    if r.random() < weighted:
        es = [e + [r.choice([1, 2, 3, 0.5, 1.5, 1.2345678, 0.41421356])] if r.random() < 0.8 else e for e in es]
    return {"nodes": nodes, "edges": es, "labels": r.choice(list(labels))}


def wsum(g):
    return ref.matchings(list(g.nodes), [(u, v, d.get("weight", 1)) for u, v, d in g.edges(data=True)])


def c_cpm(a, k, v, p):
    exp = wsum(a[0])
    if len(a[0]) == 0:
        exp = 0
    try:
        x = complex(v)
    except Exception:  # noqa: BLE001
        return "count is %s" % brief(v)
    if not np.isfinite(x) or abs(x - exp) > 1e-6 * max(1.0, abs(exp)):
        return "perfect matchings: got %s, expected %s" % (v, exp)
    return None


op("count_perfect_matchings", lambda r: g_graph(r, [2, 3, 4, 5, 6, 7, 8], connected=r.random() < 0.7, planar=r.random() < 0.6), lambda p: ([make_graph(p)], {}), c_cpm, family="graph")
op("count_perfect_matchings_planar", lambda r: g_graph(r, [2, 3, 4, 5, 6, 7, 8], connected=r.random() < 0.7), lambda p: ([make_graph(p)], {}), c_cpm, family="graph")


def c_brute(a, k, v, p):
    g = a[0]
    if not isinstance(v, list):
        return "matchings are not a list"
    if len(g) == 0:
        return None
    exp = set(ref.matching_list(list(g.nodes), list(g.edges)))
    got = [frozenset(frozenset(e) for e in m) for m in v]
    if len(set(got)) != len(got):
        return "a perfect matching is listed twice"
    if set(got) != exp:
        return "enumerated %d matchings, expected %d" % (len(got), len(exp))
    return None


op("find_perfect_matchings_brute", lambda r: g_graph(r, [2, 3, 4, 5, 6], connected=r.random() < 0.7, planar=r.random() < 0.5), lambda p: ([make_graph(p)], {}), c_brute, family="graph")


def check_faces(g, F):
    if not isinstance(F, list):
        return "faces are not a list"
    seen = {}
    for i, f in enumerate(F):
        if not f:
            return "empty face"
        for (a, b), (c, d) in zip(f, f[1:] + f[:1]):
            if b != c:
                return "face %d is not a closed walk: %s" % (i, f)
        for e in f:
            e = tuple(e)
            if e in seen:
                return "directed edge %s appears in two faces (or twice)" % (e,)
            if not g.has_edge(*e):
                return "%s is not an edge" % (e,)
            seen[e] = i
    if len(seen) != 2 * g.number_of_edges():
        return "only %d of %d directed edges are on faces" % (len(seen), 2 * g.number_of_edges())
    if len(F) != g.number_of_edges() - g.number_of_nodes() + 2:
        return "Euler's formula fails: %d faces, %d edges, %d vertices" % (len(F), g.number_of_edges(), g.number_of_nodes())
    return None


op("faces", lambda r: g_graph(r, [2, 3, 4, 5, 6, 7, 8]), lambda p: ([make_graph(p)], {}), lambda a, k, v, p: check_faces(a[0], v), family="graph")


def check_pfo(g, pfo):
    pfo = np.asarray(pfo)
    nodes = list(g.nodes)
    n = len(nodes)
    if pfo.shape != (n, n):
        return "orientation has shape %s for %d nodes" % (pfo.shape, n)
    ix = {v: i for i, v in enumerate(nodes)}
    up = np.triu(pfo)
    adj = np.zeros((n, n))
    for u, v in g.edges:
        i, j = sorted((ix[u], ix[v]))
        adj[i, j] = 1
    if np.abs(np.abs(up) - adj).max(initial=0) > 1e-9:
        return "the orientation does not cover exactly the edges"
    k = up - up.T
    cnt = wsum(_unweighted(g))
    val_ = abs(ref.pfaffian(k)) if n % 2 == 0 else 0
    if abs(val_ - cnt) > 1e-6:
        return "signed sum over matchings is %s for %d matchings: signs differ" % (val_, cnt)
    return None


def _unweighted(g):
    import networkx as nx

    h = nx.Graph()
    h.add_nodes_from(g.nodes)
    h.add_edges_from(g.edges)
    return h


op("pfo_algorithm", lambda r: g_graph(r, [2, 3, 4, 5, 6, 7, 8]), lambda p: ([make_graph(p)], {}), lambda a, k, v, p: check_pfo(a[0], v), family="graph")


def g_tree(r):
    n = r.choice([1, 2, 3, 4, 6, 9])
    nodes = list(range(n))
    r.shuffle(nodes)
    es = [[i, r.randrange(i)] for i in range(1, n)]
    r.shuffle(es)
    return {"nodes": nodes, "edges": es, "labels": r.choice(["int", "str", "off"])}


def c_depth(a, k, v, p):
    g = a[0]
    root = next(iter(g.nodes))
    dist = {root: 0}
    todo = [root]
    while todo:
        x = todo.pop()
        for y in g.adj[x]:
            if y not in dist:
                dist[y] = dist[x] + 1
                todo.append(y)
    return None if v == max(dist.values()) else "depth %r, expected %r" % (v, max(dist.values()))


op("compute_tree_depth", g_tree, lambda p: ([make_graph(p)], {}), c_depth, family="graph")

# vectors and paths ----------------------------------------------------------


def g_vec(r):
    return {"seed": r.getrandbits(30), "n": r.choice([2, 2, 3, 4, 5]), "kind": r.choice(["r", "c", "basis", "last", "int"]), "lay": r.choice(["C", "view", "ro", "list", "col"])}


def vec(p, off=0):
    g = ref.rs(p["seed"] + off)
    n = p["n"]
    k = p["kind"]
    if k == "basis":
        v = np.zeros(n)
        v[g.randint(n)] = g.choice([1.0, -2.0])
    elif k == "last":
        v = g.standard_normal(n)
        v[0] = 0.0
    elif k == "int":
        v = g.randint(-3, 4, size=n)
        if not v.any():
            v[0] = 1
    elif k == "r":
        v = g.standard_normal(n)
    else:
        v = g.standard_normal(n) + 1j * g.standard_normal(n)
    return v


def vlay(p, v):
    if p["lay"] == "list":
        return v.tolist()
    if p["lay"] == "col":
        return v.reshape(-1, 1).copy()
    return lay(p, v)


def c_orth(a, k, v, p):
    x = np.asarray(a[0]).reshape(-1)
    n = len(x)
    v = np.asarray(v)
    if v.shape != (n, n):
        return "basis has shape %s" % (v.shape,)
    nx_ = np.sqrt(np.sum(np.abs(x) ** 2))
    if nx_ < 1e-12:
        return want(v, np.eye(n), "basis for the zero vector")
    if np.abs(v[:, 0] - x / nx_).max() > 1e-8:
        return "the first column is not the normalised input"
    if np.abs(v.conj().T @ v - np.eye(n)).max() > 1e-8:
        return "columns are not orthonormal: %.2e" % np.abs(v.conj().T @ v - np.eye(n)).max()
    return None


op("get_orthogonal_vectors", g_vec, lambda p: ([vlay(p, vec(p))], {}), c_orth, family="path")


def path_vectors(p):
    w, v = vec(p), vec(p, 3)
    # the paths are undefined for antiparallel vectors
    wn, vn = w / np.sqrt(np.sum(np.abs(w) ** 2)), v / np.sqrt(np.sum(np.abs(v) ** 2))
    if abs(np.vdot(wn, vn)) > 0.95:
        v = v.astype(complex) + 0.7 * np.roll(w, 1) + 0.3
        vn = v / np.sqrt(np.sum(np.abs(v) ** 2))
        if np.abs(np.vdot(wn, vn)) > 0.98:
            v = np.arange(1, len(w) + 1) * (1 + 0.5j)
    return w, v


def check_path(f, w, v, ts, unitary):
    w = np.asarray(w, dtype=complex).reshape(-1, 1)
    v = np.asarray(v, dtype=complex).reshape(-1, 1)
    w = w / np.sqrt(np.sum(np.abs(w) ** 2))
    v = v / np.sqrt(np.sum(np.abs(v) ** 2))
    a, b = f(0), f(1)
    if not close(np.asarray(a), w, 1e-7):
        return "the path does not start at the first vector: %s" % brief(np.asarray(a))
    if not close(np.asarray(b), v, 1e-7):
        return "the path does not end at the second vector: %s" % brief(np.asarray(b))
    for t in ts:
        x = np.asarray(f(t))
        if abs(np.sqrt(np.sum(np.abs(x) ** 2)) - 1) > 1e-7:
            return "norm %.9f at t=%s" % (np.sqrt(np.sum(np.abs(x) ** 2)), t)
        if not unitary:
            e = t * v + (1 - t) * w
            if not close(x, e / np.sqrt(np.sum(np.abs(e) ** 2)), 1e-7):
                return "linear path differs from the normalised interpolation at t=%s" % t
    if unitary and ts:
        d = 0.125
        ov = [complex(np.vdot(np.asarray(f(t)), np.asarray(f(t + d)))) for t in list(ts) + [0.0, 0.5]]
        if max(abs(o - ov[0]) for o in ov) > 1e-6:
            return "the unitary path does not move at constant speed"
    return None


op("build_unitary_path", g_vec, lambda p: ([vlay(p, x) for x in path_vectors(p)], {}), lambda a, k, v, p: check_path(v, a[0], a[1], [0.25, 0.8], True), family="path", kind="path")
op("build_linear_path", g_vec, lambda p: ([vlay(p, x) for x in path_vectors(p)], {}), lambda a, k, v, p: check_path(v, a[0], a[1], [0.25, 0.8], False), family="path", kind="path")

# printing -------------------------------------------------------------------


def a_print(p):
    g = ref.rs(p["seed"])
    k = p["pk"]
    x = {
        "arr": lambda: g.standard_normal((2, 3)), "carr": lambda: g.standard_normal(3) + 1j * g.standard_normal(3), "list": lambda: g.standard_normal(3).tolist(),
        "float": lambda: float(g.standard_normal()), "int": lambda: int(g.randint(100)), "complex": lambda: complex(g.standard_normal(), g.standard_normal()),
        "str": lambda: "text", "ragged": lambda: [[1, 2], [3]], "strlist": lambda: ["a", "b"], "none": lambda: None, "dict": lambda: {"a": 1},
        "matrix": lambda: np.matrix(g.standard_normal((2, 2))), "objarr": lambda: np.array(["x", None], dtype=object), "bools": lambda: np.array([True, False]),
        "tiny": lambda: g.standard_normal(4) * 1e-12, "big": lambda: g.standard_normal(40), "nearreal": lambda: g.standard_normal(3) + 1e-14j,
    }[k]()
    if isinstance(x, np.ndarray) and k in ("arr", "carr", "big"):
        x = lay(p, x)
    return ([x] if p["k"] is None else [x, p["k"]]), {}


PKINDS = ["arr", "carr", "list", "float", "int", "complex", "str", "ragged", "strlist", "none", "dict", "matrix", "objarr", "bools", "tiny", "big", "nearreal"]
op("print_custom", lambda r: {"seed": r.getrandbits(30), "pk": r.choice(PKINDS), "k": r.choice([None, 2, 4, 12]), "lay": r.choice(list(LAYOUTS))}, a_print,
   lambda a, k, v, p: None if v is None else "print_custom returned %r" % (v,), family="print")

# generators -----------------------------------------------------------------

SEEDS = [0, 1, 2, 7, 42, 123, 2**16, 2**31 - 1, 2**31, 2**32 - 2]


def g_seed(r):
    return r.choice(SEEDS) if r.random() < 0.35 else r.randrange(2**32 - 1)


GENERATORS = {}


def gen_op(name, variants, ns):
    """variants: list of keyword dictionaries."""
    def gen(r):
        return {"n": r.choice(ns), "kw": dict(r.choice(variants)), "seed": g_seed(r)}

    def args(p):
        kw = dict(p["kw"])
        if p["seed"] is not None:
            kw["seed"] = p["seed"]
        return [p["n"]], kw

    GENERATORS[name] = (variants, ns)
    op(name, gen, args, None, kind="seeded", family="gen")


gen_op("random_FF_rotation", [{}, {"returnH": True}, {"returnOrb": True}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("random_FF_state", [{}, {"fixedN": True}, {"pure": True}, {"pure": True, "returnH": True}, {"returnH": True}, {"fixedN": True, "returnH": True}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("random_H_generator", [{}, {"fixedN": True}], [1, 2, 3, 4, 5])
gen_op("random_qubit_state", [{}], [1, 2, 3, 4])
gen_op("random_qubit_pure_state", [{}], [1, 2, 3, 4, 5])
gen_op("random_FF_state_randH", [{}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("random_FF_state_rotPDF", [{}, {"returnS": True}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("random_FF_pure_state_W0", [{}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("random_FF_pure_state_WN", [{}, {"N": 0}, {"N": 1}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("random_FF_pure_state_CN", [{}], [1, 1, 2, 2, 2, 3, 3, 3, 4])
gen_op("generate_random_planar_graph", [{}], [1, 2, 3, 5, 8, 10, 14, 20])

CONTINUOUS = [n for n in GENERATORS if n != "generate_random_planar_graph"]


op("generate_random_bitstring", lambda r: {"n": r.choice([0, 1, 2, 5, 9]), "k": r.choice([-1, 0, 1, 2, 5, 9, 12])}, lambda p: ([p["n"], p["k"]], {}),
   lambda a, k, v, p: bitstring_error(v, p["n"], p["k"]), kind="unseeded", family="gen")
op("random_CHP_state", lambda r: {"n": r.choice([1, 2, 3])}, lambda p: ([p["n"]], {}), None, kind="chp", family="gen")


def bitstring_error(v, n, k):
    if k < 0 or k > n:
        return None if v is None else "impossible weight %d of %d gave %s" % (k, n, brief(v))
    if v is None:
        return "no bit string for weight %d of %d" % (k, n)
    v = np.asarray(v)
    if v.shape != (n,):
        return "bit string has shape %s, expected (%d,)" % (v.shape, n)
    if not np.isin(v, (0, 1)).all() or v.dtype.kind not in "iub":
        return "not a bit string: %s" % brief(v)
    if int(v.sum()) != k:
        return "bit string has weight %d, expected %d" % (int(v.sum()), k)
    return None


# ------------------------------------------------------------ running a described call

DET = [o for o in OPS.values() if o.kind in ("det", "path")]
FAMILIES = {}
for _o in OPS.values():
    FAMILIES.setdefault(_o.family, []).append(_o.name)


def make(spec):
    o = OPS[spec["op"]]
    args, kw = o.args(spec["p"])
    return o, args, kw


def gen_call(r, names=None, kinds=("det", "path")):
    if names is None:
        names = [n for n in sorted(OPS) if OPS[n].kind in kinds]
    n = r.choice(names)
    return {"op": n, "p": OPS[n].gen(r)}


def describe(spec):
    return "%s(%s)" % (spec["op"], ", ".join("%s=%s" % kv for kv in sorted(spec["p"].items())))[:300]


# ------------------------------------------------------------ frozen copies


def freeze(x):
    """A deep, comparable description of an argument or result."""
    if isinstance(x, np.ndarray):
        return ("arr", type(x).__name__, x.dtype.str, x.shape, x.flags.writeable, x.tobytes() if x.dtype.kind != "O" else repr(x.tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if hasattr(x, "adj") and hasattr(x, "nodes"):
        return ("graph", type(x).__name__, repr(ref.graph_key(x)))
    if isinstance(x, np.generic):
        return ("np", x.dtype.str, repr(x))
    if isinstance(x, io.IOBase) or callable(x):
        return ("obj", type(x).__name__)
    return (type(x).__name__, repr(x))
