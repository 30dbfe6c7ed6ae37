"""C13 Printing never changes numpy's print settings or the printed object."""
import json

import numpy as np

from .. import ops, ref, seams
from ..common import Random, fail, gen_fault, resolve_fault
from ..core import HarnessError, derive, in_child
from ..env import FAULT_EXC
from ..sched import Scheduler

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 40000}
LISTS = ("steps", "preempt")
RULE = ("A run prints 1-8 objects (numbers, arrays, matrices, lists, ragged and unconvertible objects, objects whose conversion or formatting fails on command "
        "or prints recursively) with random precisions, changing numpy's print settings in between, on a stream that fails or tears at chosen writes, or from "
        "2-3 threads preempted between library lines; the print settings of each thread must be as the user left them, the object byte-wise the same, and the "
        "text of an undisturbed print the one produced in a pristine process under the same other settings. Non-trivial: a fault fired, or a thread switch "
        "occurred inside a print, or settings differ from numpy's defaults; distinct by event log.")
REAL = ["all ff modules from the /repo working tree", "numpy formatting"]
STUBS = ["sys.stdout (simulated stream that fails, tears, or is interrupted)", "conversion and formatting hooks of user objects", "thread scheduling"]
ASSUMPTIONS = ["numpy's print settings belong to each thread (numpy >= 2.2)", "precisions are non-negative integers"]
KINDS = ops.PKINDS + ["zerod", "empty", "nan", "hooked", "hooked_list", "strfail", "nested", "rec", "subclass", "npfloat", "bigint", "cmatrix"]
HOOK_EXC = ["ValueError", "TypeError", "KeyboardInterrupt", "MemoryError", "RuntimeError", "FloatingPointError"]


class Hook:
    """A user object whose conversion and text go through the simulator."""

    def __init__(self, exc=None, at=1):
        self.exc, self.at, self.count = exc, at, 0

    def tick(self):
        self.count += 1
        if self.exc and self.count == self.at:
            raise {"ValueError": ValueError("sim"), "TypeError": TypeError("sim")}.get(self.exc) or FAULT_EXC[self.exc]()

    def __array__(self, dtype=None, copy=None):
        self.tick()
        return np.array(1.25)

    def __float__(self):
        self.tick()
        return 1.25

    def __repr__(self):
        self.tick()
        return "<hook>"


class Rec:
    """Prints something of its own while being printed."""

    def __repr__(self):
        seams.FF.print_custom(np.array([1.23456789]), 3)
        return "<rec>"


class Sub(np.ndarray):
    pass


def obj(p):
    g = ref.rs(p["seed"])
    k = p["pk"]
    if k in ops.PKINDS:
        return ops.a_print(dict(p, k=None))[0][0]
    return {
        "zerod": lambda: np.array(g.standard_normal()), "empty": lambda: np.zeros((0, 2)), "nan": lambda: np.array([np.nan, np.inf, -0.0, 1.5]),
        "hooked": lambda: Hook(p.get("exc"), p.get("at", 1)), "hooked_list": lambda: [Hook(p.get("exc"), p.get("at", 1)), 2.0], "strfail": lambda: {"x": Hook(p.get("exc"), 1)},
        "nested": lambda: [[1.123456789, 2.0], [3.0, 4.0]], "rec": Rec, "subclass": lambda: g.standard_normal((2, 2)).view(Sub), "npfloat": lambda: np.float64(g.standard_normal()),
        "bigint": lambda: 10**30, "cmatrix": lambda: np.matrix(g.standard_normal((2, 2)) + 1j),
    }[k]()


def gen_opts(r):
    o = {}
    if r.random() < 0.8:
        o["precision"] = r.choice([0, 1, 3, 8, 15, 17])
    if r.random() < 0.4:
        o["suppress"] = r.random() < 0.5
    if r.random() < 0.3:
        o["linewidth"] = r.choice([20, 75, 200])
    if r.random() < 0.3:
        o["threshold"] = r.choice([2, 10, 1000])
    if r.random() < 0.3:
        o["edgeitems"] = r.choice([1, 3])
    if r.random() < 0.2:
        o["floatmode"] = r.choice(["fixed", "unique", "maxprec", "maxprec_equal"])
    if r.random() < 0.2:
        o["sign"] = r.choice(["-", "+", " "])
    if r.random() < 0.15:
        o["nanstr"], o["infstr"] = "NAN!", "INF!"
    if r.random() < 0.1:
        o["formatter"] = r.choice([["plain", 0, None], ["fail", r.choice([1, 2, 3]), r.choice(HOOK_EXC)], ["print", 0, None]])
    return o


def gen_print(r):
    p = {"t": "print", "pk": r.choice(KINDS), "seed": r.getrandbits(30), "lay": r.choice(list(ops.LAYOUTS)), "k": r.choice([None, 0, 1, 2, 4, 7, 12, 15, 16, 20])}
    if p["pk"] in ("hooked", "hooked_list", "strfail") and r.random() < 0.8:
        p["exc"], p["at"] = r.choice(HOOK_EXC), r.choice([1, 1, 2, 3])
    elif r.random() < 0.45:
        p["fault"] = gen_fault(r, ("stdout", "stdout", "stdout", "line"))
    return p


def gen(r, tier, index):
    if r.random() < 0.25:
        nt = r.choice([2, 2, 3])
        threads = []
        for _ in range(nt):
            row = [dict(gen_opts(r), t="opts")] if r.random() < 0.8 else []
            for _ in range(r.choice([1, 2, 4])):
                q = gen_print(r)
                q.pop("fault", None)
                row.append(q)
            threads.append(row)
        step, pre = 0, []
        sc = r.choice([1, 1, 3])
        for _ in range(r.choice([3, 10, 40])):
            step += r.randint(1, 2 * sc)
            pre.append([step, r.randrange(nt)])
        return {"threads": threads, "preempt": pre, "steps": []}
    steps = []
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        if r.random() < 0.5:
            steps.append(dict(gen_opts(r), t="opts"))
        q = gen_print(r)
        steps.append(q)
        if r.random() < 0.4:
            q2 = json.loads(json.dumps(q))
            q2.pop("fault", None)
            steps.append(q2)
    return {"steps": steps, "threads": [], "preempt": []}


def simplify(sc):
    for i, s in enumerate(sc["steps"]):
        if s["t"] == "opts":
            for k in s:
                if k != "t":
                    c = json.loads(json.dumps(sc))
                    del c["steps"][i][k]
                    yield c
    for i, t in enumerate(sc["threads"]):
        for j in range(len(t)):
            if len(t) > 1:
                c = json.loads(json.dumps(sc))
                del c["threads"][i][j]
                yield c


def apply_opts(s):
    kw = {k: v for k, v in s.items() if k not in ("t", "formatter")}
    fm = s.get("formatter")
    if fm:
        state = {"n": 0}

        def f(x):
            state["n"] += 1
            if fm[0] == "fail" and state["n"] == fm[1]:
                raise {"ValueError": ValueError("sim"), "TypeError": TypeError("sim")}.get(fm[2]) or FAULT_EXC[fm[2]]()
            if fm[0] == "print" and state["n"] == 1:
                seams.FF.print_custom([0.123456789], 2)
            return "%.3g" % x

        kw["formatter"] = {"float_kind": f}
    np.set_printoptions(**kw)


def opts():
    return {k: (v if k != "formatter" else id(v) if v else None) for k, v in np.get_printoptions().items()}


def args_of(s, x):
    return [x] if s["k"] is None else [x, s["k"]]


def clean_text(s, settings, precision):
    """The text a pristine process prints for this object."""
    def body():
        if settings:
            apply_opts(settings)
        if "formatter" not in (settings or {}):
            np.set_printoptions(precision=precision)
        import io
        import sys
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            try:
                seams.FF.print_custom(*args_of(s, obj(s)))
                return ("ok", sys.stdout.getvalue())
            except BaseException as ex:  # noqa: BLE001
                return ("exc", type(ex).__name__)
        finally:
            sys.stdout = old

    kind, v = in_child(body)
    if kind != "ok":
        raise HarnessError("reference print failed: %s" % (v,))
    return v


DEFAULT = None


def run(sc, e):
    global DEFAULT
    DEFAULT = opts()
    e.settings()
    if sc["threads"]:
        return run_threads(sc, e)
    cur = None
    r = Random(derive(sc["run_seed"], "refprec"))
    for s in sc["steps"]:
        if s["t"] == "opts":
            np.set_printoptions(**{k: v for k, v in DEFAULT.items() if k not in ("formatter", "legacy", "override_repr")}, formatter=None)
            apply_opts(s)
            cur = s
            e.log.append(["opts", sorted(s)])
            continue
        one(e, s, cur, r)


def state_of(x):
    inner = list(x.values()) if isinstance(x, dict) else x if isinstance(x, list) else [x]
    if any(isinstance(y, (Hook, Rec)) for y in inner):
        return [type(y).__name__ if isinstance(y, (Hook, Rec)) else repr(y) for y in inner]  # conversion hooks count their calls
    return ops.freeze(x)


def one(e, s, cur, r):
    x = obj(s)
    fz, before, gl = state_of(x), opts(), e.settings()
    f = s.get("fault")
    if f and f["kind"] == "line":
        f = resolve_fault(f, 14)
    out = e.call(lambda: seams.FF.print_custom(*args_of(s, x)), f)
    after = opts()
    desc = "print_custom(%s, %s)%s" % (s["pk"], s["k"], " with %s" % (f or s.get("exc")) if f or s.get("exc") else "")
    hit = out.fired or bool(s.get("exc"))
    if hit:
        e.fault_counts["conversion:" + s["exc"] if s.get("exc") else "print-fault"] += 1
    if before != after:
        fail("print-settings-changed", "%s changed numpy's print settings: %s" % (desc, [(k, before[k], after[k]) for k in before if before[k] != after[k]]))
    gl2 = e.settings()
    if [k for k in gl if gl[k] != gl2[k]]:
        fail("settings-changed", "%s changed process settings" % desc)
    if state_of(x) != fz:
        fail("object-changed", "%s changed the printed object" % desc)
    e.log.append([s["pk"], s["k"], out.ok, out.fired, out.text])
    e.states.add("%s:%s:%s" % (s["pk"], f["kind"] if f else s.get("exc"), "opts" if before != DEFAULT else "default"))
    if hit or before != DEFAULT:
        e.nontrivial = True
    if not out.fired:
        want = clean_text(s, cur, r.choice([0, 2, 5, 16]))
        got = ("ok", out.text) if out.ok else ("exc", type(out.exc).__name__)
        e.stats["texts_compared"] += 1
        if got != want:
            fail("text-depends-on-history", "%s printed %r, alone it gives %r" % (desc, got, want))
        if out.ok and out.value is not None:
            fail("text-depends-on-history", "%s returned %r" % (desc, out.value))


def run_threads(sc, e):
    from ..env import SimKill

    notes = []
    sch = Scheduler(e, sc["preempt"])

    def body_of(row):
        def body(i):
            for s in row:
                if s["t"] == "opts":
                    np.set_printoptions(**{k: v for k, v in DEFAULT.items() if k not in ("formatter", "legacy", "override_repr")}, formatter=None)
                    apply_opts(s)
                    continue
                x = obj(s)
                fz, before = state_of(x), opts()
                mark = len(e.stdout.chunks)
                try:
                    seams.FF.print_custom(*args_of(s, x))
                    res = ("ok", "".join(c for t, c in e.stdout.chunks[mark:] if t == i + 1))
                except SimKill:
                    raise
                except BaseException as ex:  # noqa: BLE001
                    res = ("exc", type(ex).__name__)
                after = opts()
                notes.append((i, s, res, [(k, before[k], after[k]) for k in before if before[k] != after[k]], state_of(x) == fz))
        return body

    before = opts()
    sch.run([body_of(row) for row in sc["threads"]])
    e.stats["preemptions"] += len([x for x in sch.switches if x[3] != "end"])
    e.nontrivial = any(x[3] != "end" for x in sch.switches)
    for x in sch.switches:
        e.states.add("switch@" + x[3])
    e.log.append([list(x) for x in sch.switches])
    if opts() != before:
        fail("print-settings-changed", "printing threads changed the main thread's print settings")
    r = Random(derive(sc["run_seed"], "refprec"))
    for i, s, res, diff, same in notes:
        desc = "thread %d print_custom(%s, %s)" % (i, s["pk"], s["k"])
        if diff:
            fail("print-settings-changed", "%s changed numpy's print settings: %s" % (desc, diff))
        if not same:
            fail("object-changed", "%s changed the printed object" % desc)
        cur = None
        for q in sc["threads"][i]:
            if q is s:
                break
            if q["t"] == "opts":
                cur = q
        if cur is not None and "formatter" in cur and cur["formatter"][0] != "plain":
            continue  # stateful formatter
        want = clean_text(s, cur, r.choice([0, 2, 5, 16]))
        e.log.append([i, s["pk"], res])
        e.stats["texts_compared"] += 1
        if res != want:
            fail("text-depends-on-history", "%s printed %r, alone it gives %r" % (desc, res, want))
