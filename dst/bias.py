"""Legal but unlikely outcomes of the shared numpy stream."""
import numpy as np

from .core import derive
from .seams import REAL


class NpBias:
    """Replaces, with probability p, the outcome of a draw by another value the
    same draw could have delivered."""

    def __init__(self, env, seed, p, kinds):
        self.env = env
        self.r = REAL["Random"](derive(seed, "np-bias"))
        self.p = p
        self.kinds = set(kinds)

    def __call__(self, name, args, kw, out):
        if self.r.random() >= self.p:
            return out
        f = getattr(self, "_" + name, None)
        if f is None:
            return out
        new = f(args, kw, out)
        if new is None:
            return out
        self.env.fault_counts["draw:" + name] += 1
        return new

    # -- Gaussian draws: scaled, nearly sparse, repeated magnitudes, tails
    def _gauss(self, out, tail=6.0):
        r = self.r
        x = np.array(out, dtype=float)
        k = r.choice([m for m in ("scale", "sparse", "tail", "equal", "sign") if m in self.kinds] or ["none"])
        if x.ndim == 0:
            v = float(x)
            return {"scale": v * r.choice([1e-3, 3.0]), "sparse": v * 1e-4, "tail": r.choice([-1, 1]) * (3 + 2 * r.random()), "equal": r.choice([-1.0, 1.0]),
                    "sign": abs(v)}.get(k, v)
        if k == "scale":
            x *= r.choice([1e-2, 0.1, 2.0])
        elif k == "sparse":
            # most entries close to zero, none exactly zero
            m = np.array([r.random() < 0.6 for _ in range(x.size)]).reshape(x.shape)
            x = np.where(m, x * 1e-3, x)
            x.flat[r.randrange(x.size)] += r.choice([-2.0, 2.0])
        elif k == "tail":
            x.flat[r.randrange(x.size)] = r.choice([-1, 1]) * (tail - r.random())
        elif k == "equal":
            x = np.sign(x) * (1.0 + 1e-3 * np.abs(x))
        elif k == "sign":
            x = np.abs(x)
        return x

    def _normal(self, args, kw, out):
        if args[:2] not in ((), (0.0, 1.0), (0, 1)) and args:
            return None
        if kw.get("scale", 1.0) not in (1, 1.0) or kw.get("loc", 0.0) not in (0, 0.0):
            return None
        return self._gauss(out)

    def _standard_normal(self, args, kw, out):
        return self._gauss(out)

    def _randn(self, args, kw, out):
        return self._gauss(out)

    def _exponential(self, args, kw, out):
        if "exp" not in self.kinds or np.ndim(out):
            return None
        scale = args[0] if args else kw.get("scale", 1.0)
        return self.r.choice([1e-8, 1e-3, 0.3, 2.0, 4.5, 6.0, 8.0, 12.0]) * scale

    _standard_exponential = _exponential

    def _dirichlet(self, args, kw, out):
        if "dirichlet" not in self.kinds:
            return None
        x = np.array(out, dtype=float)
        if x.ndim != 1:
            return None
        n = x.size
        k = self.r.choice(["vertex", "uniform", "edge", "permute"])
        if k == "vertex":
            x[:] = 1e-300
            x[self.r.randrange(n)] = 1.0
        elif k == "uniform":
            x[:] = 1.0 / n
        elif k == "edge":
            y = np.full(n, 1e-14)
            i, j = self.r.sample(range(n), 2) if n > 1 else (0, 0)
            y[i] += 0.5
            y[j] += 0.5
            x = y / y.sum()
        else:
            x = x[self.r.sample(range(n), n)]
        return x

    def _randint(self, args, kw, out):
        if "randint" not in self.kinds:
            return None
        low = args[0] if args else kw.get("low")
        high = args[1] if len(args) > 1 else kw.get("high")
        if high is None:
            low, high = 0, low
        x = np.array(out)
        v = self.r.choice([low, high - 1])
        if np.ndim(low) or np.ndim(high) or not x.size:
            return None
        if x.ndim == 0:
            return type(out)(v) if not isinstance(out, int) else int(v)
        k = self.r.choice(["same", "pair", "few"])
        if k == "same":
            x[...] = v
        elif k == "pair" and x.size > 1:
            i, j = self.r.sample(range(x.size), 2)
            x.flat[i] = x.flat[j]
        elif k == "few":
            w = self.r.randrange(int(low), int(high))
            x[...] = np.where(np.array([self.r.random() < 0.5 for _ in range(x.size)]).reshape(x.shape), v, w)
        return x

    def _random_integers(self, args, kw, out):
        return None

    def _choice(self, args, kw, out):
        if "choice" not in self.kinds or not args:
            return None
        a = args[0]
        x = np.array(out)
        replace = kw.get("replace", args[2] if len(args) > 2 else True)
        if not isinstance(a, (int, np.integer)) or x.ndim != 1 or kw.get("p") is not None:
            return None
        if replace:
            x[...] = self.r.choice([0, int(a) - 1, int(x.flat[0]) if x.size else 0])
            return x
        k = self.r.choice(["first", "last", "reverse"])
        if k == "first":
            return np.arange(x.size, dtype=x.dtype)
        if k == "last":
            return np.arange(int(a) - x.size, int(a), dtype=x.dtype)
        return x[::-1].copy()

    def _permutation(self, args, kw, out):
        if "choice" not in self.kinds or not args or not isinstance(args[0], (int, np.integer)):
            return None
        x = np.arange(int(args[0]))
        return x if self.r.random() < 0.5 else x[::-1].copy()

    def _random_sample(self, args, kw, out):
        if "uniform" not in self.kinds:
            return None
        if np.ndim(out) == 0:
            return self.r.choice([1e-12, 1 - 1e-12, 0.5])
        x = np.array(out)
        k = self.r.choice(["low", "high", "tie", "sorted"])
        if k == "low":
            x *= 1e-6
        elif k == "high":
            x = 1 - x * 1e-6
        elif k == "tie":
            x[...] = x.flat[0] if x.size else 0
        else:
            x = np.sort(x.ravel()).reshape(x.shape)
        return x

    _rand = _random = _random_sample


ALL = ["scale", "sparse", "tail", "equal", "sign", "exp", "dirichlet", "randint", "choice", "uniform"]
