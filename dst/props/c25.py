"""C25 Calls leave nothing behind."""
import atexit
import gc
import inspect
import json
import os
import signal
import sys
import threading
import tracemalloc
import weakref

import numpy as np

from .. import ops, seams
from ..boot import REPO
from ..common import REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed
from ..core import derive

ID = "C25"
LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 2600}
LISTS = ()
RULE = ("A run repeats calls of 1-3 functions, each time with new argument values of the same size, 650 times (some interrupted, failing in the backend or "
        "unable to print, some printing or plotting), in four stretches. After each stretch the process is inspected: threads, child processes, open files, "
        "files in the working and temporary directories, figures, signal handlers, hooks, exit handlers, modules' import path, print, floating-point, "
        "warning and locale settings, random streams' owners; objects passed in or received and dropped must be collectable but for a bounded number, and memory "
        "in use must stop growing. Non-trivial: every run with at least 100 completed calls; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL
STATES = "operation x kind of disturbance"
ASSUMPTIONS = ["at most 300 dropped objects may be kept by a cache", "memory growth below 40 bytes per call in the library's own lines (160 in what it calls) over the last two stretches is not a leak"]
SHAPES = {}
NAMES = [n for n in sorted(ops.OPS) if n != "random_CHP_state"]
LAZY = ("figs", "figures")
STRETCH = [250, 100, 150, 150]
KEPT = 300
BIGGER = [n for n in NAMES if ops.OPS[n].family in ("op", "util", "comb", "path", "diag")]
LIMITS = [(0, 40), (1, 160)]


def gen(r, tier, index):
    names = [NAMES[index % len(NAMES)]] + [r.choice(NAMES) for _ in range(r.choice([0, 0, 1, 2]))]
    f = None
    if r.random() < 0.6:
        f = [r.choice([0.05, 0.3, 0.8]), r.choice([["line"], ["line", "backend"], ["backend"], ["line", "backend", "rng", "stdout"]])]
    return {"names": names, "salt": r.getrandbits(40), "fault": f, "calls": STRETCH, "stream": r.randrange(2**32), "unseeded": r.random() < 0.3, "size": 3 if (index // len(NAMES)) % 2 else 2,
            "verbose": r.random() < 0.3, "warn": r.choice(["ignore", "ignore", "default", "always"])}


def simplify(sc):
    if sc["fault"]:
        yield dict(sc, fault=None)
    for i in range(len(sc["names"])):
        if len(sc["names"]) > 1:
            c = json.loads(json.dumps(sc))
            del c["names"][i]
            yield c


def spec_of(sc, name, i, sizes):
    """The i-th call: fresh values, the size fixed by the run."""
    key = (sc["salt"], name, sc["size"])
    if key not in SHAPES:
        SHAPES[key] = json.dumps(shape(sc, name))
    p = json.loads(SHAPES[key])
    r = Random(derive(sc["salt"], name, i))
    if "seed" in p:
        p["seed"] = r.getrandbits(30)
        if sc["unseeded"] and name in ops.GENERATORS:
            p["seed"] = None
    if "perm" in p:
        r.shuffle(p["perm"])
    if "edges" in p:
        p["edges"] = [[x[0], x[1], r.choice([1, 2, 3]) + round(r.random(), 6)] for x in p["edges"]]
    return {"op": name, "p": p}


def shape(sc, name):
    r = Random(derive(sc["salt"], name, "shape"))
    o = ops.OPS[name]
    best = None
    for _ in range(12):
        p = o.gen(r)
        n = p.get("n", 0) if not isinstance(p.get("n"), str) else 0
        n = len(p["nodes"]) if "nodes" in p else n
        if "nodes" in p and not 2 <= n <= 6:
            continue
        size = sc["size"] if name in BIGGER else 2
        if best is None or abs(n - size) < abs(best[0] - size):
            best = (n, p)
        if n == size:
            break
    return (best or (0, p))[1]


def verbosely(o, k):
    try:
        return dict(k, verbose=True) if o.family != "graph" and "verbose" in inspect.signature(o.fn()).parameters else k
    except (TypeError, ValueError):
        return k


def handlers():
    out = {}
    for s in sorted(signal.valid_signals()):
        try:
            out[int(s)] = repr(signal.getsignal(s))
        except (ValueError, OSError):
            pass
    return out


def listing(d):
    try:
        return sorted(os.listdir(d))
    except OSError:
        return None


def snapshot(e):
    import locale
    import logging
    import random
    import tempfile

    s = e.settings()
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["fds"] = len(os.listdir("/proc/self/fd"))
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as fh:
            s["children"] = fh.read()
    except OSError:
        pass
    s["signals"] = handlers()
    s["timer"] = signal.getitimer(signal.ITIMER_REAL)[0]
    s["cwdfiles"] = listing(".")
    s["tmpfiles"] = listing(tempfile.gettempdir())
    s["atexit"] = atexit._ncallbacks()
    s["path"] = list(sys.path)
    s["meta"] = len(sys.meta_path)
    s["hooks"] = [repr(sys.excepthook), repr(sys.displayhook), repr(sys.unraisablehook), repr(threading.excepthook), repr(sys.gettrace()), repr(sys.getprofile())]
    s["gccallbacks"] = len(gc.callbacks)
    s["gcthreshold"] = gc.get_threshold()
    s["garbage"] = len(gc.garbage)
    s["switch"] = sys.getswitchinterval()
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["umask"] = umask()
    every = [logging.root] + [x for x in list(logging.root.manager.loggerDict.values()) if isinstance(x, logging.Logger)]
    s["loggers"] = [sum(len(x.handlers) + len(x.filters) for x in every), logging.root.level, logging.root.manager.disable]
    s["stderr"] = sys.stderr is e.stderr if hasattr(e, "stderr") else None
    s["streams"] = [type(np.random.mtrand._rand).__name__, type(random._inst).__name__, repr(np.geterrcall())]
    s["figures"] = len(sys.modules["matplotlib.pyplot"].get_fignums()) if "matplotlib.pyplot" in sys.modules else 0
    s["intstr"] = sys.get_int_max_str_digits()
    return s


def memory():
    """Bytes in use that were allocated by the library, and by what it calls; not by this harness.
    scipy's wrappers of compiled code are left out: they keep a little themselves, and more when
    their callback is interrupted."""
    snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, REPO + "/src/ff/*"), tracemalloc.Filter(True, "*/site-packages/*")])
    snap = snap.filter_traces([tracemalloc.Filter(False, "*/site-packages/scipy/linalg/*")])
    out = [0, 0]
    for st in snap.statistics("filename"):
        out[0 if st.traceback[0].filename.startswith(REPO) else 1] += st.size
    return out


def umask():
    u = os.umask(0)
    os.umask(u)
    return u


def namespaces():
    """What other packages' names refer to; additions to modules are theirs (lazy imports)."""
    import builtins
    import itertools
    import math
    import random

    import matplotlib.pyplot as plt
    import networkx as nx
    import scipy.linalg
    import scipy.stats

    out = {}
    for m in (np, np.linalg, np.random, scipy.linalg, scipy.stats, plt, nx, builtins, itertools, math, random, os, sys, signal, threading, gc):
        for k, v in list(vars(m).items()):
            if callable(v):
                out[m.__name__ + "." + k] = id(v)
    for c in (nx.Graph, nx.DiGraph, nx.PlanarEmbedding, plt.Figure, threading.Thread):
        for k, v in list(vars(c).items()):
            out[c.__name__ + "." + k] = id(v)
        out[c.__name__] = len(vars(c))
    return out


def replaced(a, b):
    return sorted(k for k in a if a[k] != b.get(k))


class Watch:
    """Which of the objects that were passed in or received are still alive?"""

    def __init__(self):
        self.refs = []

    def add(self, x):
        if isinstance(x, (list, tuple)):
            for y in x:
                self.add(y)
        elif isinstance(x, np.ndarray) or hasattr(x, "adj") or callable(x):
            try:
                self.refs.append(weakref.ref(x))
            except TypeError:
                pass

    def alive(self):
        self.refs = [w for w in self.refs if w() is not None]
        return len(self.refs)


def confined(fn):
    """Runs fn in a scratch directory, with a temporary directory of its own."""
    import tempfile

    with tempfile.TemporaryDirectory(prefix="dst-c25-") as d:
        home, old = os.getcwd(), tempfile.tempdir
        work, tmp = os.path.join(d, "work"), os.path.join(d, "tmp")
        os.mkdir(work)
        os.mkdir(tmp)
        os.chdir(work)
        tempfile.tempdir = tmp
        try:
            fn()
        finally:
            os.chdir(home)
            tempfile.tempdir = old


def run(sc, e):
    harness_np_seed(sc["stream"])
    confined(lambda: body(sc, e))


def body(sc, e):
    e.rng_log_on = False
    import warnings

    warnings.simplefilter(sc.get("warn", "ignore"))
    watch = Watch()
    r = Random(derive(sc["run_seed"], "faults"))
    before = names = None
    start = snapshot(e)
    used = []
    i = completed = 0
    desc = "+".join(sc["names"])
    for m, n in enumerate(sc["calls"]):
        for _ in range(n):
            name = sc["names"][i % len(sc["names"])]
            completed += one(sc, e, name, i, r, watch)
            i += 1
            if i % 50 == 0:
                e.stdout.chunks.clear()
        e.stdout.chunks.clear()
        e.real_failures.clear()
        gc.collect()
        snap = snapshot(e)
        if before is None:
            # after the first stretch: lazily created things exist now
            diff, before = [k for k in start if k not in LAZY and start[k] != snap[k]], snap
            if diff:
                before = start
            tracemalloc.start()
        else:
            diff = [k for k in before if before[k] != snap[k]]
        names, old = namespaces(), names
        if old is not None and replaced(old, names):
            fail("left-behind", "%d calls of %s replaced %s" % (i, desc, replaced(old, names)[:5]))
        for k in diff:
            a, b = before[k], snap[k]
            fail("left-behind", "%d calls of %s left %s behind: %s -> %s" % (i, desc, k, str(a)[:200], str(b)[:200]))
        alive = watch.alive()
        if alive > KEPT:
            fail("objects-kept", "after %d calls of %s %d objects that were passed in or received and then dropped are still alive" % (i, desc, alive))
        if m:
            used.append(memory())
    tracemalloc.stop()
    per = [[(used[j + 1][w] - used[j][w]) / sc["calls"][j + 2] for j in range(len(used) - 1)] for w in (0, 1)]
    e.log.append([desc, i, completed, sc["fault"]])
    for n in sc["names"]:
        e.states.add("%s:%s" % (n, sc["fault"] and "+".join(sc["fault"][1])))
    for w, limit in LIMITS:
        if min(per[w]) > limit:
            fail("memory-grows", "memory in use grows by about %d bytes per call of %s, call after call" % (round(min(per[w]), -1), desc))
    e.nontrivial = completed >= 100
    e.stats["calls"] += i


def one(sc, e, name, i, r, watch):
    o, a, k = ops.make(spec_of(sc, name, i, None))
    if sc["verbose"]:
        k = verbosely(o, k)
    f = None
    if sc["fault"] and r.random() < sc["fault"][0]:
        f = gen_fault(r, sc["fault"][1])
        if f["kind"] == "line":
            f = {"kind": "line", "exc": f["exc"], "at": 1 + int(r.expovariate(1 / 25.0))}
    out = e.call(lambda: o.fn()(*a, **k), f)
    if not out.ok and not out.fired:
        fail("call-fails", "call %d of %s raised %s: %s" % (i, name, type(out.exc).__name__, str(out.exc)[:300]))
    watch.add(a)
    watch.add(list(k.values()))
    watch.add(out.value)
    return 1 if out.ok else 0


_ = seams
