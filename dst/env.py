"""One simulated execution: the state behind the seams, faults, schedules, observation."""
import ast
import decimal
import gc
import io
import locale
import logging
import os
import signal
import sys
import threading
import types
from collections import Counter

import numpy as np

from . import seams
from .core import HarnessError, Violation, derive
from .seams import REAL

Random = REAL["Random"]
NpRandom = REAL["RandomState"]

STEP_BUDGET = 1_500_000


class NoProgress(BaseException):
    """Raised into the library when a call exceeds its step budget."""


class SimKill(BaseException):
    """Raised into parked threads when a simulation is torn down."""


FAULT_EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
    "MemoryError": lambda: MemoryError("simulated allocation failure"),
    "LinAlgError": lambda: np.linalg.LinAlgError("simulated backend failure"),
    "BrokenPipeError": lambda: BrokenPipeError(32, "Broken pipe"),
    "ENOSPC": lambda: OSError(28, "No space left on device"),
    "EIO": lambda: OSError(5, "Input/output error"),
    "closed": lambda: ValueError("I/O operation on closed file."),
    "encode": lambda: UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range(128)"),
    "FloatingPointError": lambda: FloatingPointError("simulated"),
    "BlockingIOError": lambda: BlockingIOError(11, "Resource temporarily unavailable"),
    "RuntimeError": lambda: RuntimeError("simulated draw failure"),
    "RecursionError": lambda: RecursionError("maximum recursion depth exceeded"),
}


class Clock:
    """Simulated wall clock; it may jump."""

    def __init__(self, seed):
        self.rng = Random(derive(seed, "clock"))
        self.start = 1.6e9 + self.rng.random() * 1e8
        self.now = self.start
        self.reads = 0
        self.jumps = 0
        self.travelled = 0.0

    def read(self, name):
        self.reads += 1
        v = self.now
        return int(v * 1e9) if name.endswith("_ns") else v

    def advance(self, dt):
        self.now += dt
        self.travelled += abs(dt)

    def jump(self, dt):
        self.jumps += 1
        self.advance(dt)

    def elapsed(self):
        return self.travelled


class SimStdout(io.TextIOBase):
    def __init__(self, env):
        self.env = env
        self.chunks = []

    def writable(self):
        return True

    @property
    def encoding(self):
        return "utf-8"

    def write(self, s):
        env = self.env
        env.stdout_writes += 1
        f = env.armed
        if f is not None and f["kind"] == "stdout" and threading.get_ident() == env.armed_thread:
            env.fault_writes += 1
            hit = env.fault_writes == f["nth"] or (f.get("sticky") and env.fault_writes > f["nth"])
            if hit:
                if f.get("torn") and s:
                    self.chunks.append((env.thread_index(), s[: max(1, len(s) // 2)]))
                env.fire("stdout:" + f["exc"])
                raise FAULT_EXC[f["exc"]]()
        re = env.reenter
        self.chunks.append((env.thread_index() if re is None else ("level", re.level), s))
        if re is not None:
            re.wrote()
        return len(s)

    def flush(self):
        pass

    def text(self, thread=None):
        return "".join(c for t, c in self.chunks if thread is None or t == thread)


class Reenter:
    """Calls made from within a call: a signal handler running at chosen lines
    of the library, or the caller's output stream running code of its own.

    plan: list of {"at": line number within its level, "on": "line"|"write",
    "do": zero-argument function, "plan": [...] for the level inside}."""

    def __init__(self, env, plan):
        self.env = env
        self.stack = [self.frame(plan)]
        self.pending = []
        self.done = 0
        self.busy = False

    @staticmethod
    def frame(plan):
        return {"plan": sorted(plan, key=lambda x: x["at"]), "lines": 0, "writes": 0}

    @property
    def level(self):
        return len(self.stack) - 1

    def line(self):
        f = self.stack[-1]
        f["lines"] += 1
        while True:
            hit = [x for x in f["plan"] if x["on"] == "line" and x["at"] <= f["lines"]]
            if not hit:
                return
            f["plan"].remove(hit[0])
            self.pending.append(hit[0])
            signal.raise_signal(signal.SIGUSR1)

    def wrote(self):
        f = self.stack[-1]
        f["writes"] += 1
        for x in [x for x in f["plan"] if x["on"] == "write" and x["at"] <= f["writes"]]:
            f["plan"].remove(x)
            self.enter(x)

    def handler(self, *a):
        while self.pending:
            self.enter(self.pending.pop(0))

    def enter(self, x):
        self.stack.append(self.frame(x.get("plan", [])))
        self.done += 1
        self.env.stats["calls_within_calls"] += 1
        try:
            x["do"]()
        finally:
            self.stack.pop()


class Outcome:
    __slots__ = ("ok", "value", "exc", "fired", "steps", "text", "writes", "backend_calls", "fault")

    def __repr__(self):
        return "ok" if self.ok else "raised %s" % type(self.exc).__name__


# ---------------------------------------------------------------- ff code objects

_TOOL = 3
_lines_excluded = {}


def _excluded_lines(filename):
    """Lines of clean-up code (finally blocks, context manager headers and
    exits): an asynchronous exception landing there cannot be survived by any
    Python code, so fault points exclude them."""
    got = _lines_excluded.get(filename)
    if got is not None:
        return got
    out = set()
    try:
        with open(filename) as fh:
            tree = ast.parse(fh.read())
    except (OSError, SyntaxError):
        tree = None
    if tree is not None:
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                out.add(node.lineno)  # acquire; try: ... finally: release
                for st in node.finalbody:
                    out.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
                for h in node.handlers:
                    out.update(range(h.lineno, (h.end_lineno or h.lineno) + 1))
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                out.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if node.name in ("__exit__", "__enter__", "__del__"):
                    out.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))
    _lines_excluded[filename] = out
    return out


def ff_code_objects():
    root = os.path.dirname(os.path.abspath(seams.FF.__file__)) + os.sep
    found = set()

    def walk(code):
        if code in found and code not in fresh:
            return
        found.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    fresh = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(root):
            walk(o.__code__)
    return found


class Env:
    def __init__(self, scenario):
        self.scenario = scenario
        seed = scenario.get("run_seed", 0)
        self.seed = seed
        self.log = []
        self.stats = Counter()
        self.fault_counts = Counter()
        self.known = []
        self.states = set()
        self.nontrivial = False
        self.clock = Clock(seed)
        self.total_steps = 0
        # randomness
        self.rng_depth = 0
        self.rng_ops = []
        self.rng_log_on = True
        self.np_bias = None
        self.machine = None
        self.machine_facts = {}
        self.py_bias = None
        self._entropy = Random(derive(seed, "entropy"))
        self.clifford_rng = Random(derive(seed, "clifford"))
        # backend
        self.backend_depth = 0
        self.backend_count = 0
        self.backend_total = 0
        self.backend_alt = None  # None or {"seed":..., "kinds":[...]}
        self.alt_used = Counter()
        self.real_failures = []
        # graph seams
        self.graph_alt = None
        self.set_rng_seed = None
        self.graph_calls = Counter()
        # stdout
        self.stdout_writes = 0
        self.fault_writes = 0
        # faults
        self.armed = None
        self.armed_thread = None
        self.fired = False
        self.call_steps = 0
        self.budget = None
        self.step_sites = None
        # schedule
        self.sched = None
        self._threads = {}
        # python's own shared stream and numpy's start from the run seed, so
        # that no entropy of this process leaks into the run
        seams.ENV = None
        np.random.seed(derive(seed, "np") % (2**32))
        import random

        random.seed(derive(seed, "py"))
        self.stdout = SimStdout(self)
        sys.stdout = self.stdout
        sys.stderr = io.StringIO()
        import warnings

        warnings.simplefilter("ignore")
        # the user's own filter comes first, so that no library filter is already in place
        warnings.filterwarnings("ignore", "a user's own filter")
        seams.ENV = self
        self._install_monitor()

    # ---------------------------------------------------------------- steps

    def _install_monitor(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(_TOOL, "dst")
        except ValueError:
            pass
        mon.register_callback(_TOOL, mon.events.LINE, self._on_line)
        for code in (seams.FF_CODES or ff_code_objects()):
            mon.set_local_events(_TOOL, code, mon.events.LINE)
        mon.restart_events()

    def _on_line(self, code, line):
        if seams.ENV is not self:
            return
        self.total_steps += 1
        sched = self.sched
        if sched is not None:
            sched.on_line(code, line)
        f = self.armed
        if threading.get_ident() == self.armed_thread or self.armed_thread is None:
            if self.reenter is not None:
                self.reenter.line()
            if sched is None:
                self.call_steps += 1
                if self.budget is not None and self.call_steps > self.budget:
                    self.budget = None
                    raise NoProgress()
            if f is not None and f["kind"] == "line":
                if line not in _excluded_lines(code.co_filename):
                    self.fault_lines += 1
                    if self.step_sites is not None:
                        self.step_sites.append((code.co_name, line - code.co_firstlineno))
                    if self.fault_lines == f["at"]:
                        self.fire("line:" + f["exc"])
                        self.states.add("fault@%s" % code.co_name)
                        raise FAULT_EXC[f["exc"]]()

    fault_lines = 0
    reenter = None

    def fire(self, what):
        self.fired = True
        self.fault_counts[what] += 1

    # ---------------------------------------------------------------- threads

    def thread_index(self):
        return self._threads.get(threading.get_ident(), 0)

    # ---------------------------------------------------------------- randomness

    def note_rng(self, stream, name):
        self.stats["rng_ops"] += 1
        if self.rng_log_on:
            self.rng_ops.append((self.thread_index(), stream, name))
        if self.sched is not None:
            self.sched.note_rng(stream, name)
        f = self.armed
        if f is not None and f["kind"] == "rng" and threading.get_ident() == self.armed_thread:
            self.fault_rng += 1
            if self.fault_rng == f["nth"]:
                self.fire("rng:" + f["exc"])
                raise FAULT_EXC[f["exc"]]()

    fault_rng = 0
    real_failure = None

    # ---------------------------------------------------------------- the machine

    def fact(self, name, real):
        """What the machine tells the library about itself."""
        if self.machine is None:
            return real()
        if name not in self.machine_facts:
            r = Random(derive(self.machine, name))
            if name.startswith("env:"):
                v = r.choice(["1", "1", "0", "true", "yes", "", "3", "64", "4096", "1e-3", "debug"])
            else:
                v = {"pid": r.randrange(2, 4_000_000), "cpus": r.choice([1, 1, 2, 3, 64, 256]), "load": (r.choice([0.0, 50.0]),) * 3}[name.split(":")[0]]
            self.machine_facts[name] = v
            self.stats["machine:" + name.split(":")[0]] += 1
        return self.machine_facts[name]

    def entropy(self, n):
        self.stats["entropy_reads"] += 1
        return self._entropy.randbytes(n) if n else b""

    # ---------------------------------------------------------------- backend

    def backend_call(self, key, real, args, kw):
        self.backend_total += 1
        self.stats["backend:" + key] += 1
        f = self.armed
        if f is not None and f["kind"] == "backend" and threading.get_ident() == self.armed_thread:
            self.backend_count += 1
            hit = self.backend_count == f["nth"] or (f.get("sticky") and self.backend_count > f["nth"])
            if hit:
                self.fire("backend:%s:%s" % (key, f["exc"]))
                raise FAULT_EXC[f["exc"]]()
        self.backend_depth += 1
        try:
            try:
                out = real(*args, **kw)
            except np.linalg.LinAlgError as ex:
                # LAPACK itself gave up on finite input: a backend failure that
                # was not injected, but is one all the same
                m = str(ex).lower()
                if ("converge" in m or "schur" in m) and all(np.isfinite(x).all() for x in args if isinstance(x, np.ndarray)):
                    self.real_failure = key
                    self.real_failures.append(self.thread_index())
                    self.fired = True
                    self.stats["backend-gave-up:" + key] += 1
                raise
            if self.backend_alt is not None:
                from . import alternatives

                r = Random(derive(self.backend_alt["seed"], self.backend_total))
                out = alternatives.perturb(self, key, r, args, kw, out, self.backend_alt["kinds"])
            return out
        finally:
            self.backend_depth -= 1

    # ---------------------------------------------------------------- graph algorithms

    def graph_call(self, name, real, args, kw):
        self.graph_calls[name] += 1
        self.stats["nx:" + name] += 1
        f = self.armed
        if f is not None and f["kind"] == "graph" and threading.get_ident() == self.armed_thread:
            self.fault_graph += 1
            if self.fault_graph == f["nth"]:
                self.fire("graph:%s:%s" % (name, f["exc"]))
                raise FAULT_EXC[f["exc"]]()
        if self.graph_alt is None:
            out = real(*args, **kw)
        else:
            from . import alternatives

            out = alternatives.graph(self, name, real, args, kw)
        if self.embeddings is not None and name == "check_planarity":
            self.embeddings.append(out[1])
        return out

    embeddings = None

    fault_graph = 0

    # ---------------------------------------------------------------- plotting

    on_show = None
    fault_draw = 0

    def draw_point(self, name):
        f = self.armed
        if f is not None and f["kind"] == "draw" and threading.get_ident() == self.armed_thread:
            self.fault_draw += 1
            if self.fault_draw == f["nth"]:
                self.fire("draw:%s:%s" % (name, f["exc"]))
                raise FAULT_EXC[f["exc"]]()

    # ---------------------------------------------------------------- calls

    def call(self, fn, fault=None, budget=STEP_BUDGET):
        """Runs one library call, possibly with an armed fault."""
        out = Outcome()
        self.armed = dict(fault) if fault else None
        self.armed_thread = threading.get_ident()
        self.fired = False
        self.real_failure = None
        self.fault_lines = 0
        self.fault_writes = 0
        self.fault_rng = 0
        self.fault_graph = 0
        self.fault_draw = 0
        self.backend_count = 0
        self.call_steps = 0
        self.budget = budget
        mark = len(self.stdout.chunks)
        w0 = self.stdout_writes
        b0 = self.backend_total
        stim_saved = None
        if fault and fault["kind"] == "import":
            stim_saved = sys.modules.get(fault["module"])
            sys.modules[fault["module"]] = None
        try:
            out.value = fn()
            out.ok = True
            out.exc = None
        except (NoProgress, seams.Deadlock) as e:
            raise Violation("no-progress", "call did not finish within %d library steps (%s)" % (budget, type(e).__name__)) from None
        except (Violation, HarnessError):
            raise
        except BaseException as e:  # noqa: BLE001
            out.ok = False
            out.exc = e
            out.value = None
        finally:
            self.armed = None
            self.budget = None
            if fault and fault["kind"] == "import":
                if stim_saved is not None:
                    sys.modules[fault["module"]] = stim_saved
                else:
                    sys.modules.pop(fault["module"], None)
                self.fire("import:" + fault["module"])
        out.fired = self.fired
        out.fault = {"kind": "backend", "exc": "LinAlgError", "natural": self.real_failure} if self.real_failure else fault if self.fired else None
        out.steps = self.call_steps
        out.writes = self.stdout_writes - w0
        out.backend_calls = self.backend_total - b0
        out.text = "".join(c for _, c in self.stdout.chunks[mark:])
        return out

    def call_counting(self, fn):
        o = self.call(fn, {"kind": "line", "at": -1, "exc": "KeyboardInterrupt"})
        return {"lines": self.fault_lines, "writes": o.writes, "backend": o.backend_calls, "outcome": o}

    def dry_lines(self, fn):
        """The number of line fault points of a call, counted in a fork: the
        library in this process stays as cold as it was."""
        from . import core

        kind, val = core.in_child(lambda: self.call_counting(fn)["lines"])
        if kind != "ok":
            raise HarnessError("dry run failed: %s %s" % (kind, val))
        self.stats["dry_runs"] += 1
        return val

    # ---------------------------------------------------------------- process-wide settings

    def settings(self, rng=False):
        s = {"print": _plain(np.get_printoptions()), "err": np.geterr(), "rec": sys.getrecursionlimit(),
             "cwd": os.getcwd(), "env": hash(tuple(sorted(os.environ.items())))}
        import gc as _gc
        import warnings

        s["stdout"] = sys.stdout is self.stdout
        s["warnings"] = hash(repr(warnings.filters))
        s["gc"] = _gc.isenabled()
        import matplotlib

        s["rc"] = hash(repr(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))))
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            s["figs"] = tuple(plt.get_fignums())
        s["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()), repr(np.geterrcall()), np.getbufsize())
        s["interpreter"] = (sys.getswitchinterval(), _gc.get_threshold(), sys.get_int_max_str_digits(), threading.stack_size())
        s["signals"] = tuple(repr(signal.getsignal(n)) for n in _SIGNALS) + signal.getitimer(signal.ITIMER_REAL)
        s["locale"] = locale.setlocale(locale.LC_ALL)
        s["stderr"] = id(sys.stderr)
        s["path"] = hash(tuple(sys.path))
        c = decimal.getcontext()
        s["decimal"] = (c.prec, c.rounding)
        s["logging"] = (logging.root.level, logging.root.manager.disable, len(logging.root.handlers))
        if rng:
            s["np"] = np_state()
            import random

            s["py"] = hash(random.getstate())
        return s


_SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)


def _plain(d):
    return {k: repr(v) for k, v in d.items()}


def np_state():
    # read without going through the logging seam
    e, seams.ENV = seams.ENV, None
    try:
        st = np.random.get_state()
        return (st[0], hash(st[1].tobytes()), st[2], st[3], st[4])
    finally:
        seams.ENV = e


def settings_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


def prime():
    """Parses the clean-up line tables once, before runs fork."""
    for c in seams.FF_CODES:
        _excluded_lines(c.co_filename)
