"""C26 Importing the library changes nothing else, and can be tried again."""
import importlib
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import boot, env, ops, seams
from ..common import DRAWS, REAL_ALL, STUBS_ALL, Random, fail, harness_np_seed, run_spec, safe_check, user_draw
from ..core import VERIF, HarnessError
from . import c25

ID = "C26"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 12000}
LISTS = ("user", "attempts", "calls")
RULE = ("A run sets the process up as some user would (print, floating-point, warning and plotting settings, streams, figures, directory, output stream), forgets "
        "the library, and imports it one to six times: the whole, single modules, by name, by star, or reloading; attempts are interrupted at a chosen line, "
        "miss a dependency, or fail to read a source file. After each attempt the process must be as before, with nothing printed or drawn; after the last, "
        "every public name must be there and calls must satisfy the reference model, also after pickling. Every 14th run imports in a fresh interpreter under "
        "unusual options. Non-trivial: a failed or repeated attempt, or changed settings; distinct by event log.")
REAL = REAL_ALL + ["Python's import system", "fresh Python interpreters"]
STUBS = STUBS_ALL + ["module source loader (may fail)"]
STATES = "way of importing x fault x user setting"
ASSUMPTIONS = ["the library's dependencies are already imported when changes are measured", "import by one thread at a time"]
MODULES = ["ff", "ff.ff_combinatorics", "ff.ff_distance_measures", "ff.ff_graph_theory", "ff.ff_lib", "ff.ff_random_states", "ff.ff_utils"]
DEPS = ["matplotlib.pyplot", "networkx", "scipy.linalg", "scipy.stats", "matplotlib", "scipy", "numpy"]
WAYS = ["import", "import", "module", "module", "from", "star", "reload", "reload_all", "again"]
USER = ["print", "err", "seed", "draw", "figure", "rc", "warn", "cwd", "stdout", "reclimit", "gcoff", "env", "interactive", "backend"]
NAMES = [n for n in sorted(ops.OPS) if n not in ("compute_algebra_S", "random_CHP_state", "count_perfect_matchings_planar")]


def gen(r, tier, index):
    calls = []
    for _ in range(r.choice([2, 3, 5])):
        n = r.choice(NAMES)
        calls.append({"op": n, "p": ops.OPS[n].gen(r)})
    if index % 14 == 13:
        return {"mode": "fresh", "user": [], "attempts": [], "calls": [], "flags": r.choice([[], ["-O"], ["-OO"], ["-I"], ["-E"], ["-X", "dev"], ["-X", "utf8=0"], ["-B"], ["-u"]]),
                "quirk": r.choice(["none", "nostdout", "nostdin", "cwdgone", "asciiout", "werror", "hashseed", "nohome", "mplbackend", "thread"]), "module": r.choice(MODULES)}
    user = [[r.choice(USER), r.randrange(2**30)] for _ in range(r.choice([0, 1, 2, 4]))]
    attempts = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        attempts.append([r.choice(WAYS), r.choice(MODULES), gen_fault(r) if r.random() < 0.75 else None])
    attempts.append([r.choice(WAYS), r.choice(MODULES), None])
    return {"mode": "fork", "user": user, "attempts": attempts, "calls": calls, "pickle": r.random() < 0.3}


def gen_fault(r):
    k = r.choice(["line", "line", "line", "missing", "read"])
    if k == "line":
        return ["line", 1 + int(r.random() ** 1.5 * 250), r.choice(["KeyboardInterrupt", "MemoryError"])]
    if k == "missing":
        return ["missing", r.choice(DEPS), "ModuleNotFoundError"]
    return ["read", r.choice([1, 2, 3, 4, 5, 6, 7]), r.choice(["EIO", "MemoryError", "KeyboardInterrupt", "ENOSPC"])]


def simplify(sc):
    if sc["mode"] != "fork":
        return
    for i, a in enumerate(sc["attempts"]):
        if a[2] and a[2][0] == "line" and a[2][1] > 1:
            for at in (1, a[2][1] // 2, a[2][1] - 1):
                c = json.loads(json.dumps(sc))
                c["attempts"][i][2][1] = at
                yield c
        if a[2]:
            c = json.loads(json.dumps(sc))
            c["attempts"][i][2] = None
            yield c


def user(e, k, v):
    import warnings

    import matplotlib
    import matplotlib.pyplot as plt

    e.stats["user:" + k] += 1
    r = Random(v)
    if k == "print":
        np.set_printoptions(precision=r.choice([2, 6, 17]), threshold=r.choice([3, 1000]), suppress=r.choice([True, False]), linewidth=r.choice([20, 75, 200]))
    elif k == "err":
        np.seterr(**{x: r.choice(["ignore", "warn", "raise"]) for x in ("divide", "over", "under", "invalid")})
    elif k == "seed":
        harness_np_seed(v)
    elif k == "draw":
        user_draw(r.choice(DRAWS))
    elif k == "figure":
        plt.figure(r.choice([None, 7, "mine"]))
    elif k == "rc":
        matplotlib.rcParams[r.choice(["font.size", "lines.linewidth"])] = r.choice([3, 5])
    elif k == "warn":
        warnings.simplefilter(r.choice(["ignore", "default", "always", "once", "error"]))
    elif k == "cwd":
        os.makedirs("sub", exist_ok=True)
        os.chdir("sub")
    elif k == "stdout":
        e.user_stdout = True
    elif k == "reclimit":
        sys.setrecursionlimit(r.choice([900, 1500, 3000]))
    elif k == "gcoff":
        import gc

        gc.disable()
    elif k == "env":
        os.environ[r.choice(["LANG", "OMP_NUM_THREADS", "DEBUG", "TZ", "COLUMNS", "MPLBACKEND", "PYTHONWARNINGS"])] = r.choice(["C", "1", "x", "agg"])
    elif k == "backend":
        plt.switch_backend(r.choice(["svg", "pdf", "ps"]))
    elif k == "interactive":
        plt.ion() if r.random() < 0.5 else plt.ioff()


class Broken:
    """An output stream nothing can be written to."""

    encoding = "ascii"

    def write(self, s):
        raise BrokenPipeError(32, "Broken pipe")

    def flush(self):
        raise BrokenPipeError(32, "Broken pipe")


class Interrupter:
    """Counts lines executed by library files while they are being imported."""

    TOOL = 4

    def __init__(self, at, exc):
        self.at, self.exc, self.n, self.fired = at, exc, 0, None
        self.root = os.path.join(boot.REPO, "src", "ff") + os.sep

    def line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.at and line not in env._excluded_lines(code.co_filename):
            self.fired = "%s:%d" % (os.path.basename(code.co_filename), line)
            raise env.FAULT_EXC[self.exc]()
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "dst-import")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.register_callback(self.TOOL, sys.monitoring.events.LINE, None)
        sys.monitoring.free_tool_id(self.TOOL)


class Missing:
    def __init__(self, name):
        self.name, self.fired = name, None

    def __enter__(self):
        self.old = {k: v for k, v in sys.modules.items() if k == self.name}
        sys.modules[self.name] = None
        self.fired = "missing"
        return self

    def __exit__(self, *a):
        sys.modules.update(self.old)


class Unreadable:
    """The nth library file read by the import system fails."""

    def __init__(self, nth, exc):
        self.nth, self.exc, self.n, self.fired = nth, exc, 0, None
        self.root = os.path.join(boot.REPO, "src", "ff") + os.sep

    def __enter__(self):
        from importlib.machinery import SourceFileLoader

        self.cls, self.own = SourceFileLoader, "get_data" in vars(SourceFileLoader)
        real = self.real = SourceFileLoader.get_data

        def get_data(loader, path):
            if path.startswith(self.root) and path.endswith(".py"):
                self.n += 1
                if self.n == self.nth:
                    self.fired = os.path.basename(path)
                    raise env.FAULT_EXC[self.exc]()
            return real(loader, path)

        SourceFileLoader.get_data = get_data
        return self

    def __exit__(self, *a):
        if self.own:
            self.cls.get_data = self.real
        else:
            del self.cls.get_data


class Nothing:
    fired = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def disturb(f):
    if f is None:
        return Nothing()
    return {"line": lambda: Interrupter(f[1], f[2]), "missing": lambda: Missing(f[1]), "read": lambda: Unreadable(f[1], f[2])}[f[0]]()


def forget():
    for k in [k for k in sys.modules if k == "ff" or k.startswith("ff.")]:
        del sys.modules[k]


def attempt(way, module):
    if way == "import":
        importlib.import_module("ff")
    elif way == "module":
        importlib.import_module(module)
    elif way == "from":
        exec("from ff import jordan_wigner_alphas, random_FF_state, plot_graph_with_edge_weights, FAF", {})
    elif way == "star":
        ns = {}
        exec("from ff import *", ns)
        return ns
    elif way == "reload":
        importlib.import_module("ff")
        m = sys.modules.get(module)
        importlib.reload(m) if m is not None else importlib.import_module(module)
    elif way == "reload_all":
        importlib.import_module("ff")
        for k in MODULES[1:] + MODULES[:1]:
            importlib.reload(importlib.import_module(k))
    elif way == "again":
        forget()
        importlib.import_module(module)
    else:
        raise HarnessError(way)
    return None


def public(ff):
    # (Python itself does not bind surviving submodules to a package imported again)
    out = set(n for n in dir(ff) if not n.startswith("_") and "ff." + n not in MODULES)
    out.update("%s.%s" % (m, n) for m in MODULES[1:] for n in dir(sys.modules[m]) if not n.startswith("_"))
    return out


def judge(o, a, k, value, spec, first):
    if o.check is not None:
        return safe_check(o, a, k, value, spec["p"])
    if first is not None and not ops.same(value, first, 1e-6):
        return "result %s differs from the one before, %s" % (ops.brief(value), ops.brief(first))
    return None


def run(sc, e):
    if sc["mode"] == "fresh":
        return run_fresh(sc, e)
    c25.confined(lambda: body(sc, e))


def body(sc, e):
    import gc
    import warnings

    harness_np_seed(sc["run_seed"] % 2**32)
    want = public(seams.FF)
    old_all = list(seams.FF.__all__)
    # seeded generators have no closed formula: the same call before is the reference
    first = {}
    for i, spec in enumerate(sc["calls"]):
        if ops.OPS[spec["op"]].check is None and spec["p"].get("seed") is not None:
            r = run_spec(e, spec)[3]
            if r.ok:
                first[i] = r.value
    e.stdout.chunks.clear()
    e.user_stdout = False
    for k, v in sc["user"]:
        user(e, k, v)
    forget()
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, os.path.join(boot.REPO, "src"))
    gc.collect()
    before = c25.snapshot(e)
    before.update(e.settings(rng=True))
    names = c25.namespaces()
    writes = e.stdout_writes
    if sc["user"]:
        e.nontrivial = True
    star = None
    for i, (way, module, f) in enumerate(sc["attempts"]):
        d = disturb(f)
        if e.user_stdout:
            sys.stdout = Broken()
        exc = None
        e.rng_log_on, e.rng_ops = True, []
        try:
            with d:
                got = attempt(way, module)
                star = got if got is not None else star
        except BaseException as ex:  # noqa: BLE001
            exc = ex
        said = sys.stdout is not e.stdout and not isinstance(sys.stdout, Broken)
        if e.user_stdout:
            sys.stdout = e.stdout
        drawn = list(e.rng_ops)
        how = "%s %s%s" % (way, module, " (%s)" % f if f and d.fired else "")
        if exc is not None and not (f and d.fired):
            fail("import-fails", "attempt %d (%s), after %s, raised %s: %s" % (i, how, sc["attempts"][:i], type(exc).__name__, str(exc)[:300]))
        if said:
            fail("import-changes", "attempt %d (%s) replaced the output stream" % (i, how))
        if e.stdout_writes != writes or e.stdout.text():
            fail("import-prints", "attempt %d (%s) printed %r" % (i, how, e.stdout.text()[:100]))
        if sys.stderr.getvalue():
            fail("import-prints", "attempt %d (%s) printed %r on the error stream" % (i, how, sys.stderr.getvalue()[:200]))
        if drawn:
            fail("import-draws", "attempt %d (%s) used a shared random stream: %s" % (i, how, drawn[:3]))
        exc = None
        gc.collect()
        snap = c25.snapshot(e)
        snap.update(e.settings(rng=True))
        bad = [k for k in before if snap[k] != before[k]]
        if bad:
            fail("import-changes", "attempt %d (%s) changed %s: %s" % (i, how, bad, [(str(before[k])[:120], str(snap[k])[:120]) for k in bad[:2]]))
        now = c25.namespaces()
        if c25.replaced(names, now):
            fail("import-changes", "attempt %d (%s) replaced %s" % (i, how, c25.replaced(names, now)[:5]))
        if d.fired:
            e.fault_counts["import:" + f[0]] += 1
        e.log.append([way, module, str(d.fired), type(exc).__name__])
        e.states.add("%s:%s:%s" % (way, f[0] if f else None, d.fired))
        e.nontrivial = e.nontrivial or bool(d.fired) or i > 0
    ff = importlib.import_module("ff")
    for m in MODULES:
        importlib.import_module(m)
        if m != "ff":
            setattr(ff, m[3:], sys.modules[m])
    lost = sorted(want - public(ff))
    if lost or list(ff.__all__) != old_all:
        fail("names-lost", "after %s the library lacks %s" % (sc["attempts"], lost[:6]))
    if star is not None and any(n not in star for n in old_all):
        fail("names-lost", "from ff import * lacks %s" % [n for n in old_all if n not in star][:6])
    if sc["pickle"]:
        # names bound before a module was reloaded refer to its old functions
        importlib.reload(ff)
    seams.FF = ff
    seams.FF_CODES = env.ff_code_objects()
    e._install_monitor()
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    for i, spec in enumerate(sc["calls"]):
        o, a, k, out = run_spec(e, spec)
        if not out.ok and out.fault:
            continue
        if not out.ok:
            fail("call-fails", "%s raised %s: %s after %s" % (ops.describe(spec), type(out.exc).__name__, str(out.exc)[:300], sc["attempts"]))
        msg = judge(o, a, k, out.value, spec, first.get(i))
        if msg:
            fail("wrong-result", "%s after %s: %s" % (ops.describe(spec), sc["attempts"], msg))
        if sc["pickle"]:
            fn = o.fn()
            try:
                same = pickle.loads(pickle.dumps(fn))
            except Exception as ex:  # noqa: BLE001
                fail("call-fails", "%s cannot be pickled after %s: %s" % (spec["op"], sc["attempts"], ex))
            _, a, k = ops.make(spec)
            again = e.call(lambda: same(*a, **k))
            msg = judge(o, a, k, again.value, spec, first.get(i)) if again.ok else repr(again.exc)
            if msg and not again.fault:
                fail("wrong-result", "pickled %s after %s: %s" % (ops.describe(spec), sc["attempts"], msg))
        e.log.append([spec["op"]])


FRESH = """
import json, os, sys
quirk, module, verif, src, out = sys.argv[1:6]
sys.path.insert(0, src)
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
import warnings
warnings.simplefilter("ignore")
import gc, random, threading, signal, locale, atexit
import numpy as np
import scipy.linalg, scipy.stats, networkx, matplotlib
if quirk != "mplbackend":
    matplotlib.use("Agg")
import matplotlib.pyplot as plt
import networkx.algorithms.planar_drawing
if quirk == "werror":
    warnings.simplefilter("error")
    np.seterr(all="raise")

def look():
    return {"print": repr(np.get_printoptions()), "err": repr(np.geterr()), "filters": repr(warnings.filters), "np": repr(np.random.get_state()[1].tolist()[:5]) + repr(np.random.get_state()[2:]),
            "py": hash(random.getstate()), "rc": repr(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))), "figs": plt.get_fignums(), "rec": sys.getrecursionlimit(),
            "threads": len(threading.enumerate()), "sig": repr([signal.getsignal(s) for s in (2, 15, 10, 14)]), "loc": locale.setlocale(locale.LC_ALL), "atexit": atexit._ncallbacks(),
            "fds": len(os.listdir("/proc/self/fd")), "path": list(sys.path), "env": sorted(os.environ.items()), "gc": [gc.isenabled(), gc.get_threshold()],
            "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)], "hooks": [id(sys.excepthook), id(sys.displayhook)], "stdfns": [id(np.array), id(np.dot), id(np.kron), id(random.random)]}

def work():
    res = {}
    try:
        a = look()
        __import__(module)
        ff = sys.modules["ff"]
        b = look()
        res["diff"] = [k for k in a if a[k] != b[k]]
        res["missing"] = [n for n in ff.__all__ if not hasattr(ff, n)]
        np.seterr(all="ignore")
        W = np.eye(4)
        res["values"] = [float(ff.dt(np.diag([1.0, 2.0, 3.0]))), float(ff.hf(np.ones((4, 4)))), len(ff.jordan_wigner_alphas(2)), ff.random_FF_state(2, seed=3).shape if "seed" in ff.random_FF_state.__code__.co_varnames else None]
    except BaseException as ex:
        import traceback
        res["exc"] = traceback.format_exc()
    return res

box = []
if quirk == "thread":
    t = threading.Thread(target=lambda: box.append(work()))
    # the thread itself is there before and after
    t.start(); t.join()
else:
    box.append(work())
with open(out, "w") as fh:
    json.dump(box[0], fh, default=str)
"""


def run_fresh(sc, e):
    import tempfile

    q = sc["quirk"]
    envv = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix="dst-c26-") as d:
        out, text = os.path.join(d, "out"), os.path.join(d, "stdout")
        gone = os.path.join(d, "gone")
        os.mkdir(gone)
        if q == "hashseed":
            envv["PYTHONHASHSEED"] = "77"
        if q == "nohome":
            envv.pop("HOME", None)
            envv["MPLCONFIGDIR"] = d
        if q == "mplbackend":
            envv["MPLBACKEND"] = "svg"
        if q == "asciiout":
            envv.update(PYTHONIOENCODING="ascii:strict", LC_ALL="C")
        cmd = [sys.executable] + sc["flags"] + ["-c", FRESH, q, sc["module"], VERIF, os.path.join(boot.REPO, "src"), out]
        sh = "exec \"$@\" >%s 2>&1" % text
        if q == "nostdout":
            sh = "exec \"$@\" >&- 2>&-"
        if q == "nostdin":
            sh = "exec \"$@\" <&- >%s 2>&1" % text
        if q == "cwdgone":
            sh = "rmdir %s; exec \"$@\" >%s 2>&1" % (gone, text)
        p = subprocess.run(["sh", "-c", sh, "sh"] + cmd, env=envv, cwd=gone, timeout=900, stdin=subprocess.DEVNULL, capture_output=True)
        said = ""
        if os.path.exists(text):
            with open(text, errors="replace") as fh:
                said = fh.read()
        try:
            with open(out) as fh:
                res = json.load(fh)
        except (OSError, ValueError):
            raise HarnessError("fresh interpreter (%s %s) failed: %d %s" % (sc["flags"], q, p.returncode, said[-600:]))
    where = "in a fresh interpreter (%s, %s, importing %s)" % (sc["flags"], q, sc["module"])
    if "exc" in res:
        fail("import-fails", "%s: %s" % (where, res["exc"][-500:]))
    if res["diff"]:
        fail("import-changes", "%s: changed %s" % (where, res["diff"]))
    if said.strip() and q != "nostdout":
        fail("import-prints", "%s: printed %r" % (where, said[:200]))
    if res["missing"] or res["values"][:3] != [6.0, 3.0, 4] or res["values"][3] not in (None, [4, 4]):
        fail("wrong-result", "%s: missing %s, values %s" % (where, res["missing"], res["values"]))
    e.stats["fresh_processes"] += 1
    e.log.append(["fresh", sc["flags"], q, sc["module"]])
    e.states.add("fresh:%s:%s" % (sc["flags"], q))
    e.nontrivial = True
