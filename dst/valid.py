"""When is an object returned by a generator a member of its documented class?"""
import itertools

import numpy as np

from . import ref
from .seams import REAL

T = 1e-7


def _fin(x):
    return np.isfinite(np.asarray(x)).all()


def density_err(rho, d):
    rho = np.asarray(rho)
    if rho.shape != (d, d):
        return "state has shape %s, expected (%d, %d)" % (rho.shape, d, d)
    if not _fin(rho):
        return "state has non-finite entries"
    if np.abs(rho - rho.conj().T).max() > T:
        return "density matrix is not Hermitian: %.2e" % np.abs(rho - rho.conj().T).max()
    if abs(np.trace(rho) - 1) > T:
        return "density matrix has trace %s" % np.trace(rho)
    w = REAL["numpy.eigvalsh"]((rho + rho.conj().T) / 2)
    if w.min() < -T:
        return "density matrix has eigenvalue %.3e" % w.min()
    return None


def ket_err(psi, d):
    psi = np.asarray(psi)
    if psi.shape != (d, 1):
        return "state vector has shape %s, expected (%d, 1)" % (psi.shape, d)
    if not _fin(psi):
        return "state vector has non-finite entries"
    n = np.sqrt(np.sum(np.abs(psi) ** 2))
    if abs(n - 1) > T:
        return "state vector has norm %.9f" % n
    return None


def parity_of(psi, n):
    p = ref.parity_diag(n)
    v = np.abs(np.asarray(psi).ravel()) ** 2
    return float(np.sum(p * v))


def gaussian_err(rho, n, what):
    p = ref.parity_diag(n)
    comm = np.abs(p[:, None] * rho - rho * p[None, :]).max()
    if comm > T:
        return "%s does not have definite parity symmetry: %.2e" % (what, comm)
    w = ref.wick_error(rho, n)
    if w > 1e-6:
        return "%s violates Wick's theorem by %.2e" % (what, w)
    return None


def quad_err(g, n, what):
    """Hermitian, and a linear combination of products of two mode operators."""
    g = np.asarray(g)
    d = 2**n
    if g.shape != (d, d):
        return "%s has shape %s" % (what, g.shape)
    if not _fin(g):
        return "%s has non-finite entries" % what
    if np.abs(g - g.conj().T).max() > T * max(1, np.abs(g).max()):
        return "%s is not Hermitian: %.2e" % (what, np.abs(g - g.conj().T).max())
    m = [x * np.sqrt(2) for x in ref.majoranas(n)]
    rest = g - np.trace(g) / d * np.eye(d)
    for i, j in itertools.combinations(range(2 * n), 2):
        op = 1j * m[i] @ m[j]
        rest = rest - np.trace(op.conj().T @ rest) / d * op
    if np.abs(rest).max() > 1e-6 * max(1, np.abs(g).max()):
        return "%s is not quadratic in the mode operators: %.2e" % (what, np.abs(rest).max())
    return None


def number_err(x, n, what):
    q = ref.number_diag(n)
    c = np.abs(q[:, None] * x - x * q[None, :]).max()
    return None if c <= T * max(1, np.abs(x).max()) else "%s does not commute with the number operator: %.2e" % (what, c)


def orbital_of(w, n):
    """C with W^dagger alpha_i W = sum_j C_ij alpha_j, and the residual."""
    w = np.asarray(w)
    al = ref.alphas(n)
    d = 2**n
    c = np.zeros((2 * n, 2 * n), dtype=complex)
    res = 0.0
    for i in range(2 * n):
        x = w.conj().T @ al[i] @ w
        for j in range(2 * n):
            c[i, j] = np.trace(al[j].conj().T @ x) / (d / 2)
        res = max(res, np.abs(x - sum(c[i, j] * al[j] for j in range(2 * n))).max())
    return c, res


def orb_err(c, n):
    c = np.asarray(c)
    if c.shape != (2 * n, 2 * n):
        return "orbital rotation has shape %s" % (c.shape,)
    if not _fin(c):
        return "orbital rotation has non-finite entries"
    om = ref.omega(n)
    o = om @ c @ om.conj().T
    if np.abs(o.imag).max() > T or np.abs(o @ o.T - np.eye(2 * n)).max() > T:
        return "the orbital action is not orthogonal in the Majorana basis"
    det = REAL["numpy.det"](o.real)
    if abs(det - 1) > 1e-6:
        return "the orbital action is not proper: det = %.6f" % det
    return None


def unitary_err(w, n):
    w = np.asarray(w)
    d = 2**n
    if w.shape != (d, d):
        return "rotation has shape %s" % (w.shape,)
    if not _fin(w):
        return "rotation has non-finite entries"
    if np.abs(w @ w.conj().T - np.eye(d)).max() > T:
        return "rotation is not unitary"
    c, res = orbital_of(w, n)
    if res > 1e-6:
        return "rotation does not map mode operators to their linear combinations: %.2e" % res
    return orb_err(c, n)


def pure_gauss(psi, n, parity=None):
    e = ket_err(psi, 2**n)
    if e:
        return e
    psi = np.asarray(psi)
    p = parity_of(psi, n)
    if abs(abs(p) - 1) > 1e-6:
        return "state has no definite parity: <P> = %.6f" % p
    if parity is not None and abs(p - parity) > 1e-6:
        return "state has parity %+.3f instead of %+d" % (p, parity)
    return gaussian_err(psi @ psi.conj().T, n, "state")


def stabilizer_err(psi, n):
    psi = np.asarray(psi)
    if psi.shape != (2**n, 1):
        return "state vector has shape %s" % (psi.shape,)
    if not _fin(psi) or abs(np.sum(np.abs(psi) ** 2) - 1) > 1e-5:
        return "state vector is not normalised"
    rho = psi @ psi.conj().T
    ones = 0
    for p in ref.pauli_group(n):
        v = np.trace(p @ rho).real
        if min(abs(v), abs(abs(v) - 1)) > 1e-4:
            return "Pauli expectation %.4f: not a stabilizer state" % v
        ones += abs(v) > 0.5
    return None if ones == 2**n else "%d stabilizers instead of %d" % (ones, 2**n)


def check(name, n, kw, v):
    d = 2**n
    kw = dict(kw)
    if name == "random_FF_rotation":
        if kw.get("returnOrb"):
            return orb_err(v, n)
        if kw.get("returnH"):
            return quad_err(v, n, "generator")
        return unitary_err(v, n)
    if name == "random_FF_state":
        h = None
        if kw.get("returnH"):
            if not isinstance(v, tuple) or len(v) != 2:
                return "returnH did not return a pair"
            v, h = v
            e = quad_err(h, n, "returned generator")
            if e:
                return e
            if kw.get("fixedN") and not kw.get("pure"):
                e = number_err(np.asarray(h), n, "returned generator")
                if e:
                    return e
        if kw.get("pure"):
            return pure_gauss(v, n, 1)
        e = density_err(v, d) or gaussian_err(np.asarray(v), n, "thermal state")
        if not e and kw.get("fixedN"):
            e = number_err(np.asarray(v), n, "fixed-number state")
        return e
    if name == "random_H_generator":
        h = np.asarray(v)
        if h.shape != (2 * n, 2 * n) or not _fin(h):
            return "generator has shape %s or non-finite entries" % (h.shape,)
        a, b = h[n:, n:], h[:n, n:]
        bad = max(np.abs(h - h.conj().T).max(), np.abs(h[:n, :n] + a.conj()).max(), np.abs(h[n:, :n] + b.conj()).max(), np.abs(b + b.T).max())
        if bad > T:
            return "not a Hermitian quadratic form [[-A*, B], [-B*, A]]: %.2e" % bad
        if kw.get("fixedN") and np.abs(b).max() > T:
            return "fixed-number generator has pairing terms"
        return None
    if name == "random_qubit_state":
        return density_err(v, d)
    if name == "random_qubit_pure_state":
        return ket_err(v, d)
    if name == "random_FF_state_randH":
        return density_err(v, d) or gaussian_err(np.asarray(v), n, "thermal state")
    if name == "random_FF_state_rotPDF":
        s = None
        if kw.get("returnS"):
            if not isinstance(v, tuple) or len(v) != 2:
                return "returnS did not return a pair"
            v, s = v
            s = np.asarray(s)
            if s.shape != (d,) or not _fin(s) or s.min() < -T or abs(s.sum() - 1) > T:
                return "returned spectrum is not a probability vector"
        e = density_err(v, d)
        if e:
            return e
        p = ref.parity_diag(n)
        c = np.abs(p[:, None] * v - v * p[None, :]).max()
        return None if c < T else "rotated mixture does not commute with parity: %.2e" % c
    if name == "random_FF_pure_state_W0":
        return pure_gauss(v, n, 1)
    if name == "random_FF_pure_state_WN":
        N = kw.get("N")
        return pure_gauss(v, n, None if N is None else (-1) ** N)
    if name == "random_FF_pure_state_CN":
        return pure_gauss(v, n)
    if name == "random_CHP_state":
        return stabilizer_err(v, n)
    return None
