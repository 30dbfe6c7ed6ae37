"""Pieces shared by the properties."""
import threading

import numpy as np

from . import ops, ref, seams
from .core import HarnessError, Violation, derive
from .env import np_state, settings_diff  # noqa: F401
from .seams import REAL

Random = REAL["Random"]

STUBS_ALL = ["numpy/python shared random streams (real Mersenne twisters behind a logging, biasing seam)", "os.urandom/secrets entropy (seeded stub)",
             "wall clock (simulated, with jumps)", "sys.stdout (simulated stream)"]
REAL_ALL = ["all ff modules from the /repo working tree", "numpy", "scipy", "networkx", "matplotlib (Agg)"]


def fail(cls, detail):
    raise Violation(cls, detail)


def safe_check(o, args, kw, value, p):
    """The oracle; a value it cannot even read is a complaint, not a crash."""
    try:
        return o.check(args, kw, value, p)
    except (Violation, HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        return "unreadable result %s (%s: %s)" % (ops.brief(value), type(e).__name__, str(e)[:200])


def run_spec(e, spec, fault=None, prebuilt=None, budget=None):
    """Builds the arguments and makes the call; returns (op, args, kw, outcome)."""
    o, args, kw = prebuilt if prebuilt is not None else ops.make(spec)
    fn = o.fn()
    k = {} if budget is None else {"budget": budget}
    out = e.call(lambda: fn(*args, **kw), fault, **k)
    return o, args, kw, out


def harness_np_seed(v):
    """Harness-side seeding of the shared streams, invisible to the log."""
    import random

    save, seams.ENV = seams.ENV, None
    try:
        np.random.seed(v % 2**32)
        random.seed(v)
    finally:
        seams.ENV = save


def iso_results(e, specs, salt):
    """Results of the calls, each made alone in a pristine fork whose streams
    start elsewhere."""
    from . import core

    def body():
        out = []
        for i, spec in enumerate(specs):
            harness_np_seed(derive(salt, i))

            def one(spec=spec):
                o, a, k = ops.make(spec)
                try:
                    v = o.fn()(*a, **k)
                    return ("ok", portable(v))
                except Exception as ex:  # noqa: BLE001
                    return ("exc", type(ex).__name__ + ": " + str(ex)[:200])

            # every call in its own process image
            r = core.in_child(one)
            out.append(r[1] if r[0] == "ok" else ("exc", "%s: %s" % r))
        return out

    kind, val = core.in_child(body, 300.0)
    if kind != "ok":
        raise HarnessError("isolated reference run failed: %s" % (val,))
    return val


def portable(v):
    """A picklable stand-in for a result (graphs and arrays pickle; paths do not)."""
    if callable(v) and not isinstance(v, np.ndarray) and not hasattr(v, "adj"):
        return ("path", [np.asarray(v(t)) for t in (0.0, 0.3, 1.0)])
    return v


def same_portable(a, b, tol=1e-6):
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], str) and b[0] == "path":
        try:
            return all(ops.same(np.asarray(a(t)), x, tol) for t, x in zip((0.0, 0.3, 1.0), b[1]))
        except Exception:  # noqa: BLE001
            return False
    try:
        return bool(ops.same(a, b, tol))
    except Exception:  # noqa: BLE001
        return False


# ------------------------------------------------------------ user activity on the shared streams


def user_draw(what):
    import random

    r = np.random
    if what == "rand":
        return r.rand(3)
    if what == "randn":
        return r.randn(1)  # leaves a cached Gaussian behind
    if what == "randint":
        return r.randint(10, size=2)
    if what == "choice":
        return r.choice(5, size=2, replace=False)
    if what == "perm":
        return r.permutation(4)
    if what == "exp":
        return r.exponential()
    if what == "py":
        return random.random()
    if what == "pyint":
        return random.randint(0, 9)
    if what == "pygauss":
        return random.gauss(0, 1)
    raise HarnessError(what)


DRAWS = ["rand", "randn", "randint", "choice", "perm", "exp", "py", "pyint", "pygauss"]

FAULT_MENU = {
    "line": ["KeyboardInterrupt", "MemoryError", "RecursionError"],
    "backend": ["LinAlgError", "MemoryError", "KeyboardInterrupt"],
    "rng": ["MemoryError", "KeyboardInterrupt"],
    "stdout": ["BrokenPipeError", "ENOSPC", "EIO", "closed", "KeyboardInterrupt", "BlockingIOError", "encode"],
    "graph": ["MemoryError", "KeyboardInterrupt"],
}


def gen_fault(r, kinds=("line", "backend", "rng", "stdout"), frac=True):
    k = r.choice(list(kinds))
    f = {"kind": k, "exc": r.choice(FAULT_MENU[k])}
    if k == "line":
        f["frac"] = round(r.random() ** r.choice([0.5, 1, 1, 2]), 6)
    else:
        f["nth"] = r.choice([1, 1, 1, 2, 2, 3, 4])
        if k in ("stdout", "backend") and r.random() < 0.3:
            f["sticky"] = True
        if k == "stdout" and r.random() < 0.3:
            f["torn"] = True
    return f


def resolve_fault(f, lines):
    """Turns the fraction of a dry run's line count into a line number."""
    if f is None:
        return None
    f = dict(f)
    if f["kind"] == "line" and "at" not in f:
        f["at"] = max(1, min(lines, 1 + int(f["frac"] * lines)))
    return f


# ------------------------------------------------------------ caller-side mutation


def scribble(x, r, depth=0):
    """The caller changes an object it owns, in place.  Returns True if changed."""
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.size == 0:
            return False
        mode = r.choice(["neg", "zero", "add", "first", "swap"])
        with np.errstate(all="ignore"):
            if x.dtype.kind == "O":
                return False
            if x.dtype.kind == "b":
                x[...] = ~x
            elif mode == "neg":
                x *= -1
                x += 1 if x.dtype.kind in "iu" else 0.5
            elif mode == "zero":
                x[...] = 0
                x.flat[0] = 3
            elif mode == "add":
                x += 2
            elif mode == "first":
                x.flat[0] = x.flat[0] + 1
            else:
                x[...] = x[::-1].copy() * 3 + 1
        return True
    if isinstance(x, list):
        done = False
        if depth < 2:
            for y in x:
                if isinstance(y, (list, np.ndarray)):
                    done = scribble(y, r, depth + 1) or done
        if not done and x:
            if r.random() < 0.5:
                x[0], x[-1] = x[-1], x[0]
                x.append(x[0])
            else:
                x.clear()
            done = True
        return done
    if isinstance(x, tuple):
        done = False
        for y in x:
            done = scribble(y, r, depth + 1) or done
        return done
    if hasattr(x, "adj") and hasattr(x, "add_edge"):
        try:
            nodes = list(x.nodes)
            mode = r.choice(["node", "edge", "weight", "rmnode"])
            if mode == "edge" and x.number_of_edges():
                es = list(x.edges)
                x.remove_edge(*es[r.randrange(len(es))])
            elif mode == "weight" and x.number_of_edges():
                es = list(x.edges)
                u, v = es[r.randrange(len(es))][:2]
                x[u][v]["weight"] = 17
            elif mode == "rmnode" and len(nodes) > 1:
                x.remove_node(nodes[r.randrange(len(nodes))])
            else:
                x.add_node("extra")
            return True
        except Exception:  # noqa: BLE001
            return False
    return False


def me():
    return threading.get_ident()


def chunks(seq, n):
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


def close_(a, b, tol):
    return ops.close(a, b, tol)


__all__ = [n for n in dir() if not n.startswith("__")]
_ = ref
