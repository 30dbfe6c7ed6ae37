"""C15 Random draws follow their documented ensembles."""
import itertools
import json
import re
from math import comb

import numpy as np
from scipy.special import betainc, ndtr

from .. import ops, ref
from ..common import REAL_ALL, STUBS_ALL, Random, fail, harness_np_seed, run_spec, user_draw
from ..core import derive
from ..env import FAULT_EXC

ID = "C15"
LEVEL = "exploration"
LISTS = ("noise",)
RULE = ("A run draws one generator configuration 300-20000 times, unseeded, from one simulated stream, with other activity between the draws (the user's own "
        "draws from the shared streams, other generators, seeded calls with fresh seeds, interrupted calls), and tests the sample: Kolmogorov-Smirnov on "
        "functionals with an exactly known law (random directions of Haar states and rotations, covariance entries, Dirichlet spectra, Gaussian entries, "
        "phases), means and correlations within and between successive draws, outcome frequencies, reachability and repeats. Every threshold is at least 7.5 "
        "standard errors (KS level below 1e-14). Non-trivial: every run (the stream differs); distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL
STATES = "generator configuration x activity between the draws"
ASSUMPTIONS = ["a deviation smaller than the resolution of a sample (about 4.3/sqrt(M) in distribution function) is not seen", "sizes up to 3 modes, graphs of up to 8 nodes"]

# kind, n, options, samples in the quick tier (before scaling)
CONFIGS = []


def cfg(kind, n, m, **kw):
    m = int(m * 1.8)
    CONFIGS.append(dict(kind=kind, n=n, m=m, **kw))


for _n, _m in ((1, 1200), (2, 700), (3, 700)):
    cfg("rot", _n, _m, out="W")
    cfg("rot", _n, _m, out="Orb")
    cfg("rot", _n, _m, out="H")
    cfg("mixed", _n, _m, h=True)
    cfg("WN", _n, _m, N=None)
    cfg("CN", _n, _m)
    cfg("rotpdf", _n, _m)
for _n, _m in ((2, 700), (3, 700)):
    cfg("pure", _n, _m, h=False)
    cfg("pure", _n, _m, h=True)
    cfg("W0", _n, _m)
    cfg("mixed", _n, _m, h=False)
cfg("WN", 2, 700, N=1)
cfg("WN", 3, 700, N=0)
cfg("WN", 3, 700, N=2)
for _n, _m in ((1, 6000), (2, 5000), (3, 4000), (4, 3000)):
    cfg("Hgen", _n, _m, fixed=False)
    cfg("Hgen", _n, _m, fixed=True)
for _n, _m in ((1, 2500), (2, 2500)):
    cfg("fixedN", _n, _m // 2)
    cfg("randH", _n, _m)
for _n, _m in ((1, 6000), (2, 5000), (3, 3000)):
    cfg("qpure", _n, _m)
    cfg("qstate", _n, _m)
for _n, _m in ((2, 1500), (3, 4000), (4, 4000), (5, 4000), (6, 3000), (8, 2500)):
    cfg("planar", _n, _m)
for _n, _k in ((1, 0), (2, 1), (3, 1), (4, 2), (5, 2), (6, 3), (5, 4), (7, 1)):
    cfg("bits", _n, 12000, k=_k)
RUNS = {"quick": 2 * len(CONFIGS), "thorough": 20 * len(CONFIGS)}
NOISE = ["rand", "randn", "py", "perm", "gen", "seeded", "interrupt", "other"]


def gen(r, tier, index):
    c = dict(CONFIGS[index % len(CONFIGS)])
    if tier == "thorough":
        c["m"] = int(c["m"] * r.choice([1, 1, 2, 4]))
    noise = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        noise.append([r.choice(NOISE), r.choice([0.02, 0.1, 0.5])])
    return {"cfg": c, "noise": noise, "stream": r.randrange(2**32), "fseed": r.getrandbits(30), "base": r.randrange(2**32)}


def simplify(sc):
    for m in (300, sc["cfg"]["m"] // 2):
        if m < sc["cfg"]["m"]:
            c = json.loads(json.dumps(sc))
            c["cfg"]["m"] = m
            yield c


# ------------------------------------------------------------ statistics

KS, Z = 4.25, 7.5


class Tests:
    def __init__(self, e, tag, m):
        self.e, self.tag, self.m = e, tag, m
        self.worst = 0.0

    def bad(self, msg):
        fail("ensemble", "%s over %d draws: %s" % (self.tag, self.m, msg))

    def uniform(self, u, what, lag=True):
        """u should be independent uniforms."""
        u = np.asarray(u, dtype=float).ravel()
        m = len(u)
        self.e.stats["tests"] += 1
        if not np.isfinite(u).all():
            self.bad("%s is not finite" % what)
        x = np.sort(u)
        i = np.arange(1, m + 1)
        d = max((i / m - x).max(), (x - (i - 1) / m).max()) * np.sqrt(m)
        self.worst = max(self.worst, d / KS)
        if d > KS:
            self.bad("%s does not follow its law (KS distance %.3f, mean rank %.3f instead of 0.5)" % (what, d / np.sqrt(m), u.mean()))
        c = (u - 0.5) * np.sqrt(12)
        if m >= 300:
            self.zmean(c, 0.0, 1.0, "mean rank of " + what)
            self.zmean(c**2 - 1, 0.0, np.sqrt(0.8), "spread of " + what)
            if lag:
                for g in (1, 2):
                    self.zmean(c[g:] * c[:-g], 0.0, 1.0, "correlation of %s between draws %d apart" % (what, g))

    def zmean(self, x, mean, sigma, what):
        x = np.asarray(x, dtype=float).ravel()
        self.e.stats["tests"] += 1
        if not len(x):
            return
        z = abs(x.mean() - mean) / (sigma / np.sqrt(len(x)))
        self.worst = max(self.worst, z / Z)
        if not z <= Z:
            self.bad("%s is %.4f, expected %.4f (%.1f standard errors)" % (what, x.mean(), mean, z))

    def prob(self, hits, p, what):
        hits = np.asarray(hits, dtype=float).ravel()
        m = len(hits)
        if p in (0.0, 1.0):
            if (hits != p).any():
                self.bad("%s occurred in %d of %d draws, expected %s" % (what, int(hits.sum()), m, "always" if p else "never"))
            return
        # exact-ish tail for rare outcomes: require enough expected counts
        if m * min(p, 1 - p) < 40:
            if p > 0.5 and hits.sum() == 0 or m * p > 40 and hits.sum() == 0:
                self.bad("%s never occurred" % what)
            return
        self.zmean(hits, p, np.sqrt(p * (1 - p)), "frequency of " + what)

    def distinct(self, objs, what):
        keys = set()
        for x in objs:
            k = np.ascontiguousarray(np.round(np.asarray(x, dtype=complex), 9) + 0.0).tobytes()
            if k in keys:
                self.bad("%s: the same object was drawn twice" % what)
            keys.add(k)


def sphere_cdf(x, d):
    """Law of one coordinate of a uniform unit vector in d real dimensions."""
    return betainc((d - 1) / 2, (d - 1) / 2, np.clip((np.asarray(x) + 1) / 2, 0, 1))


def rand_unit(g, d, cplx):
    v = g.standard_normal(d) + (1j * g.standard_normal(d) if cplx else 0)
    return v / np.sqrt(np.sum(np.abs(v) ** 2))


def test_rotation(t, o, n, g):
    """o: samples of a matrix that should be Haar on SO(2n)."""
    big = 2 * n
    t.distinct(o, "rotation")
    dirs = [(np.eye(big)[i], np.eye(big)[j]) for i, j in ((0, 0), (0, big - 1), (big - 1, 0))] + [(rand_unit(g, big, False), rand_unit(g, big, False)) for _ in range(4)]
    for i, (u, v) in enumerate(dirs):
        t.uniform(sphere_cdf(np.einsum("i,mij,j->m", u, o, v), big), "matrix element %d of the rotation" % i)
    tr = np.einsum("mii->m", o)
    t.zmean(tr, 0.0, np.sqrt(2.0 if n == 1 else 1.0), "trace of the rotation")
    if n > 1:
        t.zmean(tr**2, 1.0, np.sqrt(3.0), "squared trace of the rotation")
        t.zmean(o[:, 0, 0] * o[:, 1, 1] - o[:, 0, 1] * o[:, 1, 0], 0.0, np.sqrt(1.0 / comb(big, 2)), "minor of the rotation")


def test_covariance(t, m, n, g, what="covariance"):
    """m: covariance matrices of pure Gaussian states spread uniformly over one parity."""
    big = 2 * n
    if n == 1:
        return
    for i in range(6):
        u = np.eye(big)[i % big] if i < 3 else rand_unit(g, big, False)
        v = np.eye(big)[(i + n) % big] if i < 3 else rand_unit(g, big, False)
        v = v - u * (u @ v)
        v = v / np.sqrt(v @ v)
        t.uniform(sphere_cdf(np.einsum("i,mij,j->m", u, m, v), big - 1), "%s element %d" % (what, i))


def test_ket(t, psi, d, g):
    """psi: samples of unit vectors uniform on the complex sphere."""
    t.distinct(psi, "state")
    for i in range(5):
        u = np.eye(d)[[0, d - 1][i]] if i < 2 else rand_unit(g, d, True)
        a = psi @ u.conj()
        t.uniform(1 - (1 - np.clip(np.abs(a) ** 2, 0, 1)) ** (d - 1), "overlap %d" % i)
        t.uniform((np.angle(a) / (2 * np.pi)) % 1.0, "phase of overlap %d" % i)
    a, b = psi[:, 0], psi[:, -1]
    t.uniform((np.angle(a * b.conj()) / (2 * np.pi)) % 1.0, "relative phase")


def test_spectrum(t, s, d):
    """s: unordered probability vectors uniform on the simplex."""
    mx, mn = s.max(axis=1), s.min(axis=1)
    u = np.zeros(len(mx))
    for k in range(d + 1):
        u += (-1) ** k * comb(d, k) * np.clip(1 - k * mx, 0, None) ** (d - 1)
    t.uniform(u, "largest eigenvalue")
    t.uniform(1 - np.clip(1 - d * mn, 0, 1) ** (d - 1), "smallest eigenvalue")
    t.zmean((s**2).sum(axis=1), 2 / (d + 1), 0.5, "purity")


def test_normals(t, x, scale, names):
    """Columns of x: independent normals of the given standard deviations."""
    z = x / scale
    for j, nm in enumerate(names):
        t.uniform(ndtr(z[:, j]), nm)
    # the shape of the law, pooled over alike entries: characteristic function and tails
    groups = {}
    for j, nm in enumerate(names):
        groups.setdefault(re.sub(r"[0-9]+", "d" if nm[1] == nm[2] else "o", nm), []).append(j)
    for key, js in groups.items():
        y = z[:, js].ravel()
        for s in (1.0, 2.0, 3.0):
            phi = np.exp(-s * s / 2)
            t.zmean(np.cos(s * y), phi, np.sqrt((1 + np.exp(-2 * s * s)) / 2 - phi**2), "characteristic function at %.0f of %s" % (s, key))
            t.zmean(np.sin(s * y), 0.0, np.sqrt((1 - np.exp(-2 * s * s)) / 2), "odd characteristic function at %.0f of %s" % (s, key))
    c = np.clip(z, -6, 6)
    for i, j in itertools.combinations(range(len(names)), 2):
        t.zmean(c[:, i] * c[:, j], 0.0, 1.0, "correlation of %s and %s" % (names[i], names[j]))
    t.distinct(x, "coefficients")


# ------------------------------------------------------------ reading coefficients off operators


def params(n, z):
    """Names, standard deviations and generating pairs (A, Z) of the free real parameters."""
    out = []
    for i in range(n):
        for j in range(i, n):
            for im in (0, 1):
                if i == j and im:
                    continue
                a = np.zeros((n, n), dtype=complex)
                a[i, j] += 1j if im else 1
                if i != j:
                    a[j, i] += -1j if im else 1
                out.append(("A%d%d%s" % (i, j, "im" if im else "re"), 2.0 if i == j else np.sqrt(2.0), a, np.zeros((n, n), dtype=complex)))
    if z:
        for i in range(n):
            for j in range(i + 1, n):
                for im in (0, 1):
                    b = np.zeros((n, n), dtype=complex)
                    b[i, j], b[j, i] = (1j, -1j) if im else (1, -1)
                    out.append(("Z%d%d%s" % (i, j, "im" if im else "re"), np.sqrt(2.0), np.zeros((n, n), dtype=complex), b))
    return out


def fit(mats, ps, make, what, t, tol=1e-6):
    """Coefficients of each matrix in the real-linear span of make(A, Z)."""
    basis = np.array([make(a, b).ravel() for _, _, a, b in ps]).T
    big = np.vstack([basis.real, basis.imag])
    y = np.array([np.asarray(m).ravel() for m in mats]).T
    y = np.vstack([y.real, y.imag])
    x, _, _, _ = np.linalg.lstsq(big, y, rcond=None)
    r = np.abs(big @ x - y).max()
    if not r < tol * max(1.0, np.abs(y).max()):
        t.bad("%s lies outside its documented form by %.2e" % (what, r))
    return x.T


# ------------------------------------------------------------ drawing


class Lib:
    """The library's functions by name, wherever they are exported."""

    def __getattr__(self, name):
        return fn_of(name)


class Noise:
    def __init__(self, e, sc):
        self.e, self.sc = e, sc
        self.r = Random(derive(sc["run_seed"], "noise"))
        self.count = 0

    def __call__(self):
        for kind, p in self.sc["noise"]:
            if self.r.random() < p:
                self.one(kind)

    def one(self, kind):
        e, r = self.e, self.r
        self.count += 1
        e.stats["noise:" + kind] += 1
        if kind in ("rand", "randn", "py", "perm"):
            user_draw(kind)
        elif kind == "gen":
            n = r.choice(["random_H_generator", "random_qubit_pure_state", "generate_random_planar_graph"])
            run_spec(e, {"op": n, "p": {"n": 2, "kw": {}, "seed": None}})
        elif kind == "other":
            run_spec(e, ops.gen_call(r, ["clean", "pf", "renyi_entropy", "build_H", "cast_to_pdf"]))
        elif kind == "seeded":
            # fresh, never repeated seeds: the stream restarts somewhere new
            seed = (self.sc["base"] + self.count * 2654435761) % 2**32
            Lib().random_H_generator(1, seed=seed)
            if self.sc["cfg"]["kind"] == "planar":
                Lib().generate_random_planar_graph(3, seed=seed)
        elif kind == "interrupt":
            out = e.call(lambda: fn_of("random_qubit_state")(1), {"kind": "line", "at": 1 + r.randrange(8), "exc": "KeyboardInterrupt"})
            if out.fired:
                e.nontrivial = True


def fn_of(name):
    return ops.OPS[name].fn()


def draw(e, sc, fn):
    noise = Noise(e, sc)
    out = []
    for i in range(sc["cfg"]["m"]):
        noise()
        o = e.call(fn)
        if not o.ok:
            fail("generator-raises", "draw %d of %s raised %s: %s" % (i, sc["cfg"], type(o.exc).__name__, str(o.exc)[:200]))
        out.append(o.value)
    return out


_COV = {}


def cov_tensor(n):
    if n not in _COV:
        g = ref.majoranas(n)
        _COV[n] = np.array([[-1j * (a @ b - b @ a) for b in g] for a in g])
    return _COV[n]


def cov_of_kets(psi, n):
    return np.real(np.einsum("ma,ijab,mb->mij", psi.conj(), cov_tensor(n), psi, optimize=True))


def cov_of_rho(rho, n):
    return np.real(np.einsum("mab,ijba->mij", rho, cov_tensor(n), optimize=True))


def rotation_of(ws, n):
    g = np.array(ref.majoranas(n))
    x = np.einsum("mba,jbc,mcd->mjad", ws.conj(), g, ws, optimize=True)
    o = np.einsum("iab,mjba->mij", g, x, optimize=True) / (2**n / 2)
    return np.real(o)


def kets(xs, d, t):
    a = np.array([np.asarray(x, dtype=complex).reshape(-1) for x in xs])
    if a.shape[1] != d:
        t.bad("state vectors have dimension %d" % a.shape[1])
    return a


def run(sc, e):
    c = sc["cfg"]
    ff = Lib()
    k, n, m = c["kind"], c["n"], c["m"]
    d = 2**n
    harness_np_seed(sc["stream"])
    e.rng_log_on = False
    g = ref.rs(sc["fseed"])
    tag = "%s %s" % (k, {x: c[x] for x in c if x not in ("kind", "m")})
    t = Tests(e, tag, m)
    if k == "rot":
        kw = {"W": {}, "Orb": {"returnOrb": True}, "H": {"returnH": True}}[c["out"]]
        xs = draw(e, sc, lambda: ff.random_FF_rotation(n, **kw))
        if c["out"] == "Orb":
            om = ref.omega(n)
            o = np.real(om @ np.array(xs) @ om.conj().T)
        else:
            o = rotation_of(np.array(xs if c["out"] == "W" else [ref.eigh_exp(x) for x in xs]), n)
        test_rotation(t, o, n, g)
    elif k == "pure":
        xs = draw(e, sc, lambda: ff.random_FF_state(n, pure=True, returnH=c["h"]))
        psi = kets([x[0] for x in xs] if c["h"] else xs, d, t)
        t.distinct(psi, "state")
        test_covariance(t, cov_of_kets(psi, n), n, g)
        if c["h"]:
            test_rotation(t, rotation_of(np.array([ref.eigh_exp(x[1]) for x in xs]), n), n, g)
    elif k == "mixed":
        xs = draw(e, sc, lambda: ff.random_FF_state(n, returnH=c["h"]))
        rhos = np.array([x[0] for x in xs] if c["h"] else xs)
        t.distinct(rhos, "state")
        if c["h"]:
            test_rotation(t, rotation_of(np.array([ref.eigh_exp(x[1]) for x in xs]), n), n, g)
            beta = []
            for rho, h in zip(rhos, (x[1] for x in xs)):
                w, v = np.linalg.eigh((h + h.conj().T) / 2)
                p = np.real(np.einsum("ij,ik,kj->j", v.conj(), rho, v))
                beta.append(np.log(max(p[0], 1e-300) / max(p[-1], 1e-300)) / max(w[-1] - w[0], 1e-12))
            t.uniform(np.exp(-np.clip(beta, 0, None)), "inverse temperature")
        if n > 1:
            cov = cov_of_rho(rhos, n)
            f = (cov**2).sum(axis=(1, 2))
            for i, j in ((0, 1), (0, n), (n - 1, 2 * n - 1)):
                t.prob(cov[:, i, j] > 0, 0.5, "positive covariance %d,%d" % (i, j))
                t.zmean(cov[:, i, j] ** 2 / f, 1 / (2 * n * (2 * n - 1)), 0.25, "share of covariance %d,%d" % (i, j))
    elif k in ("WN", "W0", "CN"):
        fn = {"W0": lambda: ff.random_FF_pure_state_W0(n), "CN": lambda: ff.random_FF_pure_state_CN(n),
              "WN": lambda: ff.random_FF_pure_state_WN(n) if c.get("N") is None else ff.random_FF_pure_state_WN(n, N=c["N"])}[k]
        psi = kets(draw(e, sc, fn), d, t)
        if n > 1:
            t.distinct(psi, "state")
        par = np.real(np.einsum("ma,a->m", np.abs(psi) ** 2, ref.parity_diag(n)))
        even = par > 0
        if k == "W0":
            pe = 1.0
        elif k == "WN" and c.get("N") is not None:
            pe = float(c["N"] % 2 == 0)
        else:
            pe = (n // 2 + 1) / (n + 1)
        t.prob(even, pe, "even particle number")
        if 0 < pe < 1:
            x = (even - pe) / np.sqrt(pe * (1 - pe))
            for q in (1, 2):
                t.zmean(x[q:] * x[:-q], 0.0, 1.0, "correlation of parities %d draws apart" % q)
        cov = cov_of_kets(psi, n)
        for sect in (True, False):
            if (even == sect).sum() > 100:
                test_covariance(t, cov[even == sect], n, g, "%s covariance" % ("even" if sect else "odd"))
    elif k == "rotpdf":
        xs = draw(e, sc, lambda: ff.random_FF_state_rotPDF(n, returnS=True))
        s = np.array([x[1] for x in xs])
        t.distinct(s, "spectrum")
        for j in range(d):
            t.uniform(1 - (1 - s[:, j]) ** (d - 1), "probability %d" % j)
        test_spectrum(t, s, d)
        if n > 1:
            v0 = []
            j = g.randint(d)
            for rho, sp in xs:
                w, v = np.linalg.eigh((rho + rho.conj().T) / 2)
                v0.append(v[:, int(np.argmin(np.abs(w - sp[j])))])
            test_covariance(t, cov_of_kets(np.array(v0), n), n, g, "covariance of eigenvector %d" % j)
    elif k == "Hgen":
        xs = draw(e, sc, lambda: ff.random_H_generator(n, fixedN=c["fixed"]))
        ps = params(n, not c["fixed"])
        x = fit(xs, ps, lambda a, b: ref.build_H(n, a, b), "Hamiltonian", t)
        test_normals(t, x, np.array([p[1] for p in ps]), [p[0] for p in ps])
    elif k == "fixedN":
        xs = draw(e, sc, lambda: ff.random_FF_state(n, fixedN=True, returnH=True))
        ps = params(n, False)
        x = fit([q[1] for q in xs], ps, lambda a, b: ref.build_op(n, ref.build_H(n, a, b)), "generator", t)
        test_normals(t, x, np.array([p[1] for p in ps]), [p[0] for p in ps])
    elif k == "randH":
        xs = draw(e, sc, lambda: ff.random_FF_state_randH(n))
        ps = params(n, True)
        logs = []
        for rho in xs:
            w, v = np.linalg.eigh((rho + rho.conj().T) / 2)
            lg = -(v * np.log(np.clip(w, 1e-300, None))) @ v.conj().T
            logs.append(lg - np.trace(lg) / d * np.eye(d))
        scale = 2.0 ** (2 - n)

        def make(a, b):
            h = ref.build_op(n, ref.build_V(n, a, b), direct=True) * scale
            return h - np.trace(h) / d * np.eye(d)

        x = fit(logs, ps, make, "logarithm of the state", t, tol=np.inf)
        # log of tiny eigenvalues is noisy: clip what the law itself makes rare
        test_normals(t, x, np.array([p[1] for p in ps]), [p[0] for p in ps])
    elif k == "qpure":
        test_ket(t, kets(draw(e, sc, lambda: ff.random_qubit_pure_state(n)), d, t), d, g)
    elif k == "qstate":
        rho = np.array(draw(e, sc, lambda: fn_of("random_qubit_state")(n)))
        t.distinct(rho, "state")
        w, v = np.linalg.eigh((rho + rho.conj().transpose(0, 2, 1)) / 2)
        test_spectrum(t, w, d)
        for i in range(4):
            u = np.eye(d)[[0, d - 1][i]] if i < 2 else rand_unit(g, d, True)
            for j in (0, d - 1):
                q = np.abs(np.einsum("a,ma->m", u.conj(), v[:, :, j])) ** 2
                t.uniform(1 - (1 - np.clip(q, 0, 1)) ** (d - 1), "overlap %d of eigenvector %d" % (i, j))
        t.uniform((np.angle(v[:, 0, 0] * v[:, -1, 0].conj()) / (2 * np.pi)) % 1.0, "relative phase of an eigenvector")
    elif k == "planar":
        graphs = draw(e, sc, lambda: ff.generate_random_planar_graph(n))
        adj = np.zeros((m, n, n))
        for i, gr in enumerate(graphs):
            if gr is None or sorted(gr.nodes) != list(range(n)):
                t.bad("draw %d gave %s" % (i, "no graph" if gr is None else "other nodes"))
            for u, v in gr.edges:
                adj[i, u, v] = adj[i, v, u] = 1
        edges = adj.sum(axis=(1, 2)) / 2
        pairs = list(itertools.combinations(range(n), 2))
        x = np.array([adj[:, i, j] for i, j in pairs]).T
        if n > 2:
            p = x.mean()
            for q, (i, j) in enumerate(pairs):
                t.zmean(x[:, q] - x.mean(axis=1), 0.0, max(np.sqrt(p * (1 - p)), 0.05), "edge %d-%d, compared with all pairs," % (i, j))
            deg = adj.sum(axis=2)
            for i in range(n):
                dv = deg[:, i] - deg.mean(axis=1)
                t.zmean(dv, 0.0, max(deg.std(), 0.1), "degree of node %d, compared with all nodes," % i)
            z = (edges - edges.mean()) / max(edges.std(), 1e-9)
            for q in (1, 2):
                t.zmean(z[q:] * z[:-q], 0.0, 1.0, "correlation of edge numbers %d draws apart" % q)
        if n <= 5:
            for ne in range(n - 1, max(n - 1, 2 * n - 3) + 1):
                if not (edges == ne).any():
                    t.bad("no graph with %d edges was drawn" % ne)
    elif k == "bits":
        xs = draw(e, sc, lambda: ff.generate_random_bitstring(n, c["k"]))
        outcomes = [tuple(int(i in s) for i in range(n)) for s in itertools.combinations(range(n), c["k"])]
        ix = {o: i for i, o in enumerate(outcomes)}
        seen = []
        for v in xs:
            key = tuple(int(b) for b in np.asarray(v).ravel())
            if key not in ix:
                t.bad("%s is not a string of weight %d" % (key, c["k"]))
            seen.append(ix[key])
        seen = np.array(seen)
        p = 1 / len(outcomes)
        for i, o in enumerate(outcomes):
            t.prob(seen == i, p if len(outcomes) > 1 else 1.0, "string %s" % (o,))
        if len(outcomes) > 1:
            same = (seen[1:] == seen[:-1]).astype(float)
            t.prob(same, p, "a string repeating the one before")
    e.nontrivial = True
    e.stats["draws"] += m
    e.log.append([k, n, m, [list(x) for x in sc["noise"]], round(t.worst, 6), sc["stream"]])
    e.states.add("%s:%s" % (tag, "+".join(sorted({x[0] for x in sc["noise"]})) or "quiet"))


_ = FAULT_EXC
