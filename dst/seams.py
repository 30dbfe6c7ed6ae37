"""The seams between the library and everything nondeterministic beneath it.

install() must run before the library (and scipy.stats) is imported, so that
names bound at import time are the seams too.  While no simulation is active
every seam passes straight through to the real code.
"""
import builtins
import os
import random as _random
import sys
import threading
import time as _time

import numpy as np
import numpy.random.bit_generator as _bitgen
import numpy.random.mtrand as _mtrand

ENV = None  # the active Env, or None

REAL = {
    "Random": _random.Random,
    "RandomState": np.random.RandomState,
    "time": _time.time,
    "monotonic": _time.monotonic,
    "urandom": os.urandom,
    "Lock": threading.Lock,
    "RLock": threading.RLock,
    "print": builtins.print,
}

SIM_NP = None
SIM_PY = None


def is_ff(name):
    return name == "ff" or name.startswith("ff.")


def caller_is_ff(depth=2):
    return is_ff(sys._getframe(depth).f_globals.get("__name__", ""))


# ---------------------------------------------------------------- randomness

_NP_NAMES = [
    n for n in dir(np.random.RandomState)
    if not n.startswith("_") and callable(getattr(np.random.RandomState, n))
]


def _np_wrapper(name):
    base = getattr(np.random.RandomState, name)

    def method(self, *args, **kw):
        env = ENV
        if env is None or env.rng_depth:
            return base(self, *args, **kw)
        env.note_rng("np", name)
        env.rng_depth += 1
        try:
            out = base(self, *args, **kw)
            if env.np_bias is not None:
                out = env.np_bias(name, args, kw, out)
            return out
        finally:
            env.rng_depth -= 1

    method.__name__ = name
    return method


SimRandomState = type(
    "SimRandomState", (np.random.RandomState,), {n: _np_wrapper(n) for n in _NP_NAMES}
)


class SimRandom(_random.Random):
    """Python's shared stream.  Defines both primitives, so every derived
    method computes exactly what random.Random computes."""

    def random(self):
        env = ENV
        if env is not None and not env.rng_depth:
            env.note_rng("py", "random")
        return super().random()

    def getrandbits(self, k):
        env = ENV
        if env is not None and not env.rng_depth:
            env.note_rng("py", "getrandbits")
        return super().getrandbits(k)

    def seed(self, *a, **k):
        env = ENV
        if env is not None and not env.rng_depth:
            env.note_rng("py", "seed")
        return super().seed(*a, **k)

    def setstate(self, st):
        env = ENV
        if env is not None and not env.rng_depth:
            env.note_rng("py", "setstate")
        return super().setstate(st)

    def _randbelow(self, n):
        env = ENV
        if env is not None and env.py_bias is not None and not env.rng_depth:
            env.note_rng("py", "biased")
            env.rng_depth += 1
            try:
                v = env.py_bias(n)
            finally:
                env.rng_depth -= 1
            if v is not None:
                return v
        return self._randbelow_with_getrandbits(n)


# ---------------------------------------------------------------- entropy, clock


def _sim_urandom(n):
    env = ENV
    if env is None:
        return REAL["urandom"](n)
    return env.entropy(n)


def _sim_randbits(k):
    env = ENV
    nb = (k + 7) // 8
    data = REAL["urandom"](nb) if env is None else env.entropy(nb)
    return int.from_bytes(data, "little") >> (nb * 8 - k)


def _clock(name):
    real = getattr(_time, name)

    def fn():
        env = ENV
        if env is None or not caller_is_ff(2):
            return real()
        return env.clock.read(name)

    fn.__name__ = name
    return fn


def _sim_sleep(s):
    env = ENV
    if env is None or not caller_is_ff(2):
        return REAL["sleep"](s)
    env.clock.advance(s)


# ---------------------------------------------------------------- the machine


def _asked_by_ff(depth):
    """Is the question asked by library code, through os or collections at most?"""
    f = sys._getframe(depth)
    while f is not None and f.f_globals.get("__name__") in ("os", "_collections_abc", "collections.abc"):
        f = f.f_back
    return f is not None and is_ff(f.f_globals.get("__name__", ""))


def install_machine():
    """Environment variables that are not set, the process id and the number of processors are answered by the
    simulator when library code asks."""
    cls = type(os.environ)
    getitem = cls.__getitem__

    def __getitem__(self, key):
        try:
            return getitem(self, key)
        except KeyError:
            env = ENV
            if env is None or env.machine is None or not isinstance(key, str) or not _asked_by_ff(2):
                raise
        return env.fact("env:" + key, None)

    cls.__getitem__ = __getitem__

    def seam(mod, name, kind, wrap=None):
        real = getattr(mod, name, None)
        if real is None:
            return

        def fn(*a, **k):
            env = ENV
            if env is None or env.machine is None or not _asked_by_ff(2):
                return real(*a, **k)
            v = env.fact(kind, None)
            return wrap(v) if wrap else v

        fn.__name__ = name
        setattr(mod, name, fn)

    seam(os, "getpid", "pid")
    seam(os, "getppid", "pid:parent")
    seam(os, "cpu_count", "cpus")
    seam(os, "process_cpu_count", "cpus")
    seam(os, "sched_getaffinity", "cpus", lambda v: set(range(v)))
    seam(os, "getloadavg", "load")


# ---------------------------------------------------------------- locks


def _lock_factory(kind):
    def factory():
        env = ENV
        if caller_is_ff(2):
            return SimLock(kind == "RLock")
        return REAL[kind]()

    factory.__name__ = kind
    return factory


class SimLock:
    """A lock taken by library code: waiting is a scheduler decision."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            env = ENV
            if env is None or env.sched is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("lock already held and nobody left to release it")
            env.sched.blocked_yield()

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class Deadlock(BaseException):
    pass


# ---------------------------------------------------------------- numerical backend

BACKEND = {
    "numpy.linalg": [
        "eigvals", "eigvalsh", "eig", "eigh", "svd", "qr", "det", "slogdet", "inv",
        "solve", "matrix_rank", "pinv", "cholesky", "lstsq",
    ],
    "scipy.linalg": [
        "schur", "expm", "logm", "sqrtm", "eig", "eigh", "eigvals", "eigvalsh",
        "svd", "qr", "null_space", "orth", "det", "inv", "solve", "rsf2csf", "hessenberg",
    ],
}


def _backend_wrapper(modname, name, real):
    key = modname.split(".")[0] + "." + name

    def wrapper(*args, **kw):
        env = ENV
        if env is None or env.backend_depth or not caller_is_ff(2):
            return real(*args, **kw)
        return env.backend_call(key, real, args, kw)

    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    wrapper.__doc__ = real.__doc__
    return wrapper


# ---------------------------------------------------------------- networkx


def _graph_wrapper(name, real):
    def wrapper(*args, **kw):
        env = ENV
        if env is None or not caller_is_ff(2):
            return real(*args, **kw)
        return env.graph_call(name, real, args, kw)

    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    wrapper.__doc__ = real.__doc__
    return wrapper


class ShuffledSet(set):
    """A set whose iteration order the simulator chose."""

    order = None

    def __iter__(self):
        base = list(set.__iter__(self))
        env = ENV
        if env is not None and env.set_rng_seed is not None:
            r = REAL["Random"](env.set_rng_seed + len(base))
            try:
                base.sort(key=repr)
            except Exception:  # noqa: BLE001
                pass
            r.shuffle(base)
        return iter(base)


# ---------------------------------------------------------------- stim


class _SimTableau:
    pass


def _install_stim():
    try:
        import stim
    except Exception:  # noqa: BLE001
        return
    real = stim.Tableau.random

    def sim_random(n):
        env = ENV
        if env is None or env.clifford_rng is None:
            return real(n)
        env.stats["clifford_draws"] += 1
        r = env.clifford_rng
        c = stim.Circuit()
        c.append("I", list(range(n)))
        depth = r.choice([0, 1, 3, 8 * n * n])
        for _ in range(depth):
            g = r.choice(["H", "S", "X", "Z", "Y", "C_XYZ", "SQRT_X"] + (["CX", "CZ", "SWAP"] if n > 1 else []))
            if g in ("CX", "CZ", "SWAP"):
                c.append(g, r.sample(range(n), 2))
            else:
                c.append(g, [r.randrange(n)])
        return stim.Tableau.from_circuit(c)

    stim.Tableau.random = staticmethod(sim_random)


def install():
    global SIM_NP, SIM_PY
    # shared numpy stream
    old = _mtrand._rand
    SIM_NP = SimRandomState(old._bit_generator)
    _mtrand._rand = SIM_NP
    for n in _NP_NAMES:
        if n in vars(np.random):
            setattr(np.random, n, getattr(SIM_NP, n))
    np.random.ranf = SIM_NP.random_sample
    np.random.sample = SIM_NP.random_sample
    np.random.seed = SIM_NP.seed
    _bitgen.randbits = _sim_randbits
    # shared python stream
    SIM_PY = SimRandom(0)
    SIM_PY.setstate(_random._inst.getstate())
    _random._inst = SIM_PY
    for n in [
        "seed", "random", "uniform", "triangular", "randint", "choice", "randrange",
        "sample", "shuffle", "choices", "normalvariate", "lognormvariate", "expovariate",
        "vonmisesvariate", "gammavariate", "gauss", "betavariate", "binomialvariate",
        "paretovariate", "weibullvariate", "getstate", "setstate", "getrandbits", "randbytes",
    ]:
        if hasattr(_random, n):
            setattr(_random, n, getattr(SIM_PY, n))
    # entropy and clock
    os.urandom = _sim_urandom
    _random._urandom = _sim_urandom
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time", "process_time_ns"):
        setattr(_time, n, _clock(n))
    REAL["sleep"] = _time.sleep
    _time.sleep = _sim_sleep
    install_machine()
    # locks made by the library
    threading.Lock = _lock_factory("Lock")
    threading.RLock = _lock_factory("RLock")
    # numerical backend
    import importlib

    for modname, names in BACKEND.items():
        mod = importlib.import_module(modname)
        for n in names:
            real = getattr(mod, n, None)
            if real is not None:
                REAL[modname.split(".")[0] + "." + n] = real
                setattr(mod, n, _backend_wrapper(modname, n, real))
    # graph algorithms
    import networkx as nx

    for n in ("maximum_spanning_tree", "minimum_spanning_tree", "check_planarity", "gnm_random_graph"):
        real = getattr(nx, n)
        REAL["nx." + n] = real
        setattr(nx, n, _graph_wrapper(n, real))
    from networkx.classes import reportviews

    def sub(self, other):
        # as collections.abc.Set.__sub__: membership is orientation agnostic
        base = {x for x in self if x not in other}
        env = ENV
        if env is None or env.set_rng_seed is None or not caller_is_ff(2):
            return base
        env.stats["set_orders"] += 1
        return ShuffledSet(base)

    reportviews.EdgeView.__sub__ = sub
    _install_stim()


# ---------------------------------------------------------------- plotting

AXES_CALLS = ("add_collection", "add_patch", "add_line", "text", "set_title", "set_yscale", "legend", "stem", "plot", "grid", "autoscale_view")
LAYOUTS = ("planar_layout", "shell_layout", "circular_layout", "spring_layout", "kamada_kawai_layout", "spectral_layout")


def _draw_wrapper(name, real, only_ff):
    def wrapper(*args, **kw):
        env = ENV
        if env is not None and env.armed is not None and (not only_ff or caller_is_ff(2)):
            env.draw_point(name)
        return real(*args, **kw)

    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    wrapper.__doc__ = real.__doc__
    return wrapper


def install_plotting():
    """After pyplot is imported, before the library is."""
    import matplotlib.axes
    import matplotlib.pyplot as plt
    import networkx as nx

    for n in AXES_CALLS:
        setattr(matplotlib.axes.Axes, n, _draw_wrapper(n, getattr(matplotlib.axes.Axes, n), False))
    for n in LAYOUTS:
        setattr(nx, n, _draw_wrapper(n, getattr(nx, n), True))
    REAL["show"] = plt.show

    def show(*args, **kw):
        env = ENV
        if env is None:
            return None
        env.stats["shows"] += 1
        if env.on_show is not None:
            return env.on_show()
        return None

    plt.show = show


# ---------------------------------------------------------------- the library

FF = None
FF_CODES = None


def load_library(repo):
    """Imports the library from the working tree of `repo`, never from caches."""
    global FF
    src = os.path.join(repo, "src")
    sys.path.insert(0, src)
    old_prefix, old_flag = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.dont_write_bytecode = True
    import ff
    import ff.ff_combinatorics
    import ff.ff_distance_measures
    import ff.ff_graph_theory
    import ff.ff_lib
    import ff.ff_random_states
    import ff.ff_utils

    sys.pycache_prefix = old_prefix
    if os.path.realpath(ff.__file__) != os.path.realpath(os.path.join(src, "ff", "__init__.py")):
        raise RuntimeError("library imported from %s" % ff.__file__)
    FF = ff
    return ff
