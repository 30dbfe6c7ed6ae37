"""C14 Interpolation paths are fixed once built."""
import gc
import json

import numpy as np

from .. import ops, ref, seams
from ..common import REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed, run_spec, safe_check, scribble, settings_diff, user_draw
from ..core import HarnessError, derive, in_child
from ..env import FAULT_EXC
from ..sched import Scheduler

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 24000}
LISTS = ("steps", "preempt")
RULE = ("A run builds 1-5 paths (unitary and linear; free, orthogonal, equal, phase-related, nearly parallel and nearly opposite end points; every vector layout) "
        "and evaluates them at drawn parameters in any order and repeatedly, between interrupted and failing evaluations and builds, other paths and other "
        "library calls, changes of the caller's vectors and of received vectors, dropped arguments, backends giving other legal answers, or from 2-3 threads "
        "preempted between library lines. Every value must equal the one a pristine fork taken right after the build gives for that parameter; end points, "
        "norm, the linear formula and stationarity of the unitary path are checked on both. Non-trivial: a fault fired, a caller change or preemption came "
        "between build and a later evaluation; distinct by event log.")
REAL = REAL_ALL + ["threads (real Python threads, one running at a time)"]
STUBS = STUBS_ALL + ["decompositions and matrix functions (real, or another legal answer, or failing on command)", "thread scheduling"]
ASSUMPTIONS = ["parameters lie in [-3, 4]", "a linear path between nearly opposite vectors is not sampled (its formula is ill-conditioned there)"]
STATES = "path kind x relation of end points x event between build and evaluation"
RELS = ["free", "free", "free", "orth", "equal", "phase", "near", "opp", "scaled", "realcplx"]
LAYS = ["C", "view", "ro", "list", "col", "neg"]
TS = [0, 1, 0.0, 1.0, 0.5, 0.25, 0.125, 0.75, 0.3, 0.3001, 1e-3, 1 - 1e-3, 1e-7]
OTHER = ["get_orthogonal_vectors", "random_unitary", "build_linear_path", "build_unitary_path", "eigh_sp", "random_qubit_pure_state"]
ALTS = [None, None, ["order"], ["ulp"], ["order", "ulp"]]


def gen_path(r):
    return {"unitary": r.random() < 0.7, "n": r.choice([2, 2, 2, 3, 3, 4, 5, 8]), "seed": r.getrandbits(30), "rel": r.choice(RELS), "kind": r.choice(["r", "c", "c", "basis", "last", "int"]),
            "wlay": r.choice(LAYS), "vlay": r.choice(LAYS), "alt": r.choice(ALTS), "scale": r.choice([1, 1, 1, 1e-3, 1e4])}


def gen_t(r, pool):
    if pool and r.random() < 0.5:
        t = r.choice(pool)
        if r.random() < 0.25:
            t = t + r.choice([1e-2, -1e-2, 1e-3, 1e-4, -1e-4, 1e-6])
            t = min(1.0, max(0.0, t)) if r.random() < 0.8 else t
    elif r.random() < 0.15:
        t = r.choice([-1, 2, -0.5, 1.5, 3.0, round(r.uniform(-3, 4), 3)])
    else:
        t = r.choice(TS) if r.random() < 0.5 else round(r.random(), 6)
    pool.append(t)
    return t


def gen_eval(r, npaths, pool, focus):
    i = focus if r.random() < 0.6 else r.randrange(npaths)
    return {"t": "eval", "path": i, "at": gen_t(r, pool), "form": r.choice(["float", "float", "float", "np", "zerod", "np32"])}


def gen_bfault(r):
    if r.random() < 0.6:
        return {"kind": "line", "exc": r.choice(["KeyboardInterrupt", "MemoryError"]), "at": 1 + int(r.expovariate(1 / 15.0))}
    return gen_fault(r, ("backend",))


def gen_efault(r):
    if r.random() < 0.5:
        return {"kind": "line", "exc": r.choice(["KeyboardInterrupt", "MemoryError"]), "at": r.choice([1, 1, 1, 2, 3, 5, 8])}
    return gen_fault(r, ("backend",))


def gen(r, tier, index):
    paths = [gen_path(r)]
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        if r.random() < 0.6:
            q = json.loads(json.dumps(r.choice(paths)))
            k = r.random()
            if k < 0.5:
                q["seed"] = r.getrandbits(30)
            elif k < 0.7:
                q["unitary"] = not q["unitary"]
        else:
            q = gen_path(r)
        paths.append(q)
    pool = []
    if r.random() < 0.25:
        nt = r.choice([2, 2, 3])
        threads = []
        for _ in range(nt):
            row = []
            for _ in range(r.choice([1, 2, 4, 6])):
                if r.random() < 0.2:
                    row.append({"t": "own", "path": gen_path(r), "at": gen_t(r, pool)})
                else:
                    row.append(gen_eval(r, len(paths), pool, 0))
            threads.append(row)
        step, pre = 0, []
        sc = r.choice([1, 1, 1, 4, 20])
        for _ in range(r.choice([3, 10, 40, 100])):
            step += r.randint(1, 2 * sc)
            pre.append([step, r.randrange(nt)])
        inj = []
        if r.random() < 0.25:
            inj.append([r.randrange(nt), r.choice([1, 2, 5, 20]), r.choice(["KeyboardInterrupt", "MemoryError"])])
        return {"paths": paths, "steps": [], "threads": threads, "preempt": pre, "inject": inj, "stream": r.randrange(2**32)}
    steps = []
    built = 0
    order = list(range(len(paths)))
    for _ in range(r.choice([3, 6, 10, 16, 24])):
        if built < len(paths) and (built == 0 or r.random() < 0.3):
            st = {"t": "build", "path": order[built]}
            if r.random() < 0.2:
                st["fault"] = gen_bfault(r)
            steps.append(st)
            built += 1
            continue
        k = r.random()
        focus = r.randrange(built)
        if k < 0.55:
            st = gen_eval(r, built, pool, focus)
            if r.random() < 0.2:
                st["fault"] = gen_efault(r)
            if r.random() < 0.3:
                st["scribble"] = True
            if r.random() < 0.15:
                st["alt"] = ["ulp"]
            steps.append(st)
        elif k < 0.7:
            steps.append({"t": "scribble", "path": r.randrange(built)})
        elif k < 0.78:
            steps.append({"t": "drop", "path": r.randrange(built)})
        elif k < 0.84:
            steps.append({"t": "draw", "what": r.choice(["randn", "rand", "py", "perm"])})
        elif k < 0.92:
            n = r.choice([x for x in OTHER if x in ops.OPS])
            steps.append({"t": "other", "spec": {"op": n, "p": ops.OPS[n].gen(r)}})
        else:
            steps.append({"t": "fork", "path": focus, "at": gen_t(r, pool)})
    return {"paths": paths, "steps": steps, "threads": [], "preempt": [], "inject": [], "stream": r.randrange(2**32)}


def simplify(sc):
    for i, p in enumerate(sc["paths"]):
        for k, v in (("n", 2), ("rel", "free"), ("alt", None), ("wlay", "C"), ("vlay", "C"), ("scale", 1)):
            if p[k] != v:
                c = json.loads(json.dumps(sc))
                c["paths"][i][k] = v
                yield c
    for i, s in enumerate(sc["steps"]):
        for k in ("scribble", "alt", "fault"):
            if k in s and s["t"] != "scribble":
                c = json.loads(json.dumps(sc))
                del c["steps"][i][k]
                yield c
    for i, t in enumerate(sc["threads"]):
        for j in range(len(t)):
            if len(t) > 1:
                c = json.loads(json.dumps(sc))
                del c["threads"][i][j]
                yield c


def ends(p):
    """The end points of a path, as plain vectors."""
    n = p["n"]
    g = ref.rs(p["seed"] + 77)
    w = ops.vec({"seed": p["seed"], "n": n, "kind": p["kind"]})
    nw = np.sqrt(np.sum(np.abs(w) ** 2))
    x = g.standard_normal(n) + 1j * g.standard_normal(n)
    rel = p["rel"]
    if rel == "opp" and not p["unitary"]:
        rel = "free"
    if rel == "orth":
        v = x - w * (np.vdot(w, x) / nw**2)
        v = v / np.sqrt(np.sum(np.abs(v) ** 2))
    elif rel == "equal":
        v = w.copy()
    elif rel == "phase":
        v = w * np.exp(1j * g.uniform(-2.5, 2.5))
    elif rel == "near":
        v = w + 1e-2 * nw * x
    elif rel == "opp":
        v = -w + 0.05 * nw * x
    elif rel == "scaled":
        v = w * 2.5
    else:
        _, v = ops.path_vectors({"seed": p["seed"], "n": n, "kind": "c" if rel == "realcplx" else p["kind"]})
        wn = w / nw
        vn = v / np.sqrt(np.sum(np.abs(v) ** 2))
        if abs(1 + np.vdot(wn, vn)) < 0.2:
            v = -v
    if p["scale"] != 1 and v.dtype.kind in "fc":
        v = v * p["scale"]
    return w, v


def build_args(p):
    w, v = ends(p)
    return [ops.vlay({"lay": p["wlay"]}, w), ops.vlay({"lay": p["vlay"]}, v)]


def name_of(p):
    return "build_unitary_path" if p["unitary"] else "build_linear_path"


def t_form(s):
    t = s["at"]
    return {"float": lambda: t, "np": lambda: np.float64(t), "zerod": lambda: np.array(float(t)), "np32": lambda: np.float64(np.float32(t))}[s.get("form", "float")]()


def t_key(s):
    return float(np.float32(s["at"])) if s.get("form") == "np32" else float(s["at"])


def grid(sc, i):
    """All parameters path i is evaluated at."""
    ts = {0.0, 1.0}
    for s in list(sc["steps"]) + [q for row in sc["threads"] for q in row]:
        if s["t"] in ("eval", "fork") and s["path"] == i:
            ts.add(t_key(s))
    ts = sorted(ts)
    r = Random(derive(sc["run_seed"], "grid", i))
    keep = ts[:]
    for _ in range(2):
        keep.append(round(r.random(), 4))
    return keep


def reference(path, ts, r):
    """Values in a pristine fork of this moment, each parameter on its own."""
    order = ts[:]
    r.shuffle(order)

    def body():
        out = {}
        for t in order:
            kind, v = in_child(lambda t=t: np.array(path(t)))
            if kind != "ok":
                return ("bad", t, "%s" % (v,))
            out[t] = v
        return ("ok", out)

    kind, v = in_child(body, 300.0)
    if kind != "ok":
        raise HarnessError("reference evaluation failed: %s" % (v,))
    return v


def unit(x):
    x = np.asarray(x, dtype=complex).reshape(-1, 1)
    return x / np.sqrt(np.sum(np.abs(x) ** 2))


def judge(p, refs, desc):
    """End points, norm, formula and speed on the reference values."""
    w, v = (unit(x) for x in ends(p))
    tol = 1e-7
    for t, x in refs.items():
        x = np.asarray(x)
        if x.shape != w.shape:
            fail("wrong-path", "%s: value at %s has shape %s" % (desc, t, x.shape))
        nx = float(np.sqrt(np.sum(np.abs(x) ** 2)))
        if not abs(nx - 1) < tol:
            fail("wrong-path", "%s: norm %.9f at t=%s" % (desc, nx, t))
        if t == 0.0 and np.abs(x - w).max() > tol:
            fail("wrong-path", "%s does not start at the first vector" % desc)
        if t == 1.0 and np.abs(x - v).max() > tol:
            fail("wrong-path", "%s does not end at the second vector" % desc)
        if not p["unitary"]:
            y = unit(t * v + (1 - t) * w)
            if np.abs(x - y).max() > tol:
                fail("wrong-path", "%s differs from the normalised interpolation at t=%s" % (desc, t))


def stationary(e, f, p, r, desc):
    """<f(t), f(t+d)> does not depend on t: constant speed along one generator."""
    d = r.choice([0.05, 0.125, 0.25])
    ts = [0.0, 1 - d] + [round(r.uniform(0, 1 - d), 5) for _ in range(3)]
    if r.random() < 0.5:
        ts += [round(r.uniform(-2, 3), 5), r.choice([-d, 1.0, -1.0, 2.0])]
    r.shuffle(ts)
    ov = []
    for t in ts:
        out = e.call(lambda: np.vdot(np.asarray(f(t)), np.asarray(f(t + d))))
        if not out.ok:
            fail("evaluation-fails", "%s raised %s at t=%s" % (desc, type(out.exc).__name__, t))
        ov.append(complex(out.value))
    if max(abs(o - ov[0]) for o in ov) > 1e-6:
        fail("wrong-path", "%s does not move at constant speed: %s" % (desc, [(t, o) for t, o in zip(ts, ov)]))


class Live:
    pass


def build(e, sc, i, fault=None):
    """Builds path i and takes its reference values; None if the build failed under a fault."""
    p = sc["paths"][i]
    args = build_args(p)
    fz = ops.freeze(args)
    fn = getattr(seams.FF, name_of(p))
    e.backend_alt = {"seed": derive(sc["run_seed"], "alt", i), "kinds": p["alt"]} if p["alt"] else None
    try:
        out = e.call(lambda: fn(*args), fault)
    finally:
        e.backend_alt = None
    desc = "%s(n=%d, %s, %s)" % (name_of(p), p["n"], p["rel"], p["kind"])
    e.log.append(["build", i, out.ok, out.fired])
    if ops.freeze(args) != fz:
        fail("argument-changed", "%s changed its arguments" % desc)
    if not out.ok:
        if not out.fired:
            fail("build-fails", "%s raised %s: %s" % (desc, type(out.exc).__name__, str(out.exc)[:300]))
        e.nontrivial = True
        return None
    lv = Live()
    lv.f, lv.p, lv.args, lv.desc, lv.event, lv.last = out.value, p, args, desc, "clean", []
    r = Random(derive(sc["run_seed"], "ref", i))
    got = reference(lv.f, grid(sc, i), r)
    if got[0] == "bad":
        fail("evaluation-fails", "%s: evaluation at t=%s right after the build gave %s" % (desc, got[1], got[2][:300]))
    lv.refs = got[1]
    judge(p, lv.refs, desc)
    return lv


def compare(e, lv, s, value, how):
    t = t_key(s)
    want = lv.refs[t]
    x = np.asarray(value)
    if x.shape != want.shape or not np.abs(x - want).max() < 1e-9 + (1e-12 if not s.get("alt") else 1e-8):
        fail("path-changed", "%s at t=%s %s gave %s, right after the build it gives %s" % (lv.desc, t, how, ops.brief(x), ops.brief(want)))
    e.stats["values_compared"] += 1
    e.states.add("%s:%s:%s" % (name_of(lv.p), lv.p["rel"], lv.event))


def run(sc, e):
    harness_np_seed(sc["stream"])
    base = e.settings()
    live = {}
    if sc["threads"]:
        run_threads(sc, e, live)
    else:
        run_steps(sc, e, live)
    for i in sorted(live):
        lv = live[i]
        r = Random(derive(sc["run_seed"], "final", i))
        todo = sorted(lv.refs)
        r.shuffle(todo)
        for t in todo:
            out = e.call(lambda t=t: lv.f(t))
            if not out.ok:
                fail("evaluation-fails", "%s at t=%s raised %s in the end" % (lv.desc, t, type(out.exc).__name__))
            compare(e, lv, {"at": t}, out.value, "in the end (%s)" % lv.event)
        if lv.p["unitary"]:
            stationary(e, lv.f, lv.p, r, lv.desc)
        for x, fr in lv.last:
            if ops.freeze(x) != fr:
                fail("result-changed", "a vector received from %s was changed by later activity" % lv.desc)
    d = settings_diff(base, e.settings())
    if d:
        fail("settings-changed", "paths changed process settings: %s" % (d,))


def mark(live, ev):
    for lv in live.values():
        lv.event = ev if lv.event == "clean" else "mixed"


def run_steps(sc, e, live):
    for j, s in enumerate(sc["steps"]):
        r = Random(derive(sc["run_seed"], "step", j))
        if s["t"] == "build":
            lv = build(e, sc, s["path"], s.get("fault"))
            if lv is None:
                lv = build(e, sc, s["path"])  # try again after the fault
            if live:
                mark(live, "other-path")
            live[s["path"]] = lv
        elif s["t"] == "draw":
            user_draw(s["what"])
        elif s["t"] == "other":
            o, a, k, out = run_spec(e, s["spec"])
            if o.kind in ("det", "path") and out.ok:
                msg = safe_check(o, a, k, out.value, s["spec"]["p"])
                if msg:
                    fail("wrong-result", "%s: %s" % (ops.describe(s["spec"]), msg))
        elif s["path"] not in live:
            continue
        elif s["t"] == "scribble":
            lv = live[s["path"]]
            if lv.args is not None:
                done = [scribble(x, r) for x in lv.args]
                if any(done):
                    lv.event = "caller-change" if lv.event == "clean" else "mixed"
                    e.nontrivial = True
                    e.stats["caller_changes"] += 1
        elif s["t"] == "drop":
            lv = live[s["path"]]
            lv.args = None
            gc.collect()
        elif s["t"] == "fork":
            lv = live[s["path"]]
            kind, v = in_child(lambda: np.array(lv.f(s["at"])))
            if kind != "ok":
                fail("evaluation-fails", "%s at t=%s raised in a forked process: %s" % (lv.desc, s["at"], v))
            compare(e, lv, s, v, "in a forked process (%s)" % lv.event)
        else:
            lv = live[s["path"]]
            t = t_form(s)
            e.backend_alt = {"seed": derive(sc["run_seed"], "ealt", j), "kinds": s["alt"]} if s.get("alt") else None
            try:
                out = e.call(lambda: lv.f(t), s.get("fault"))
            finally:
                e.backend_alt = None
            e.log.append(["eval", s["path"], s["at"], out.ok, out.fired])
            if out.fired:
                e.nontrivial = True
            if not out.ok:
                if not out.fired:
                    fail("evaluation-fails", "%s at t=%s raised %s after %s: %s" % (lv.desc, s["at"], type(out.exc).__name__, lv.event, str(out.exc)[:200]))
                mark(live, "failed-evaluation")
                continue
            compare(e, lv, s, out.value, "after %s" % lv.event)
            if s.get("scribble"):
                if scribble(out.value, r):
                    e.nontrivial = True
                    mark(live, "result-change")
            elif len(lv.last) < 12:
                lv.last.append((out.value, ops.freeze(out.value)))


def run_threads(sc, e, live):
    from ..env import SimKill

    for i in range(len(sc["paths"])):
        live[i] = build(e, sc, i)
    notes = []
    sch = Scheduler(e, sc["preempt"])
    for t, n, exc in sc["inject"]:
        if t < len(sc["threads"]):
            sch.inject[t] = [n, FAULT_EXC[exc]]

    def body_of(row):
        def body(i):
            for s in row:
                if s["t"] == "eval" and s["path"] not in live:
                    continue
                try:
                    if s["t"] == "own":
                        f = getattr(seams.FF, name_of(s["path"]))(*build_args(s["path"]))
                        v = (f, f(s["at"]))
                    else:
                        v = live[s["path"]].f(t_form(s))
                    notes.append((i, s, "ok", v))
                except SimKill:
                    raise
                except (KeyboardInterrupt, MemoryError) as ex:
                    notes.append((i, s, "fault", ex))
                except Exception as ex:  # noqa: BLE001
                    notes.append((i, s, "exc", ex))
        return body

    sch.run([body_of(row) for row in sc["threads"]])
    sw = [x for x in sch.switches if x[3] != "end"]
    e.stats["preemptions"] += len(sw)
    e.nontrivial = bool(sw)
    for x in sw:
        e.states.add("switch@" + x[3])
    for t, where in sch.injected:
        e.fault_counts["thread-line"] += 1
    e.log.append([list(x) for x in sch.switches])
    mark(live, "threads")
    hit = {t for t, _ in sch.injected}
    for i, s, st, v in notes:
        e.log.append([i, s["t"], st])
        if st == "fault" and i in hit:
            continue
        what = "thread %d" % i
        if st != "ok":
            fail("evaluation-fails", "%s: %s raised %s: %s" % (what, s["t"], type(v).__name__, str(v)[:200]))
        if s["t"] == "own":
            w, x = build_args(s["path"])
            f, val = v
            desc = "%s built in %s" % (name_of(s["path"]), what)
            again = e.call(lambda: np.array(f(s["at"])))
            if not again.ok or not np.abs(np.asarray(val) - again.value).max() < 1e-9:
                fail("path-changed", "%s gave %s at t=%s, later %s" % (desc, ops.brief(np.asarray(val)), s["at"], again))
            msg = ops.check_path(f, w, x, [0.3], s["path"]["unitary"])
            if msg:
                fail("wrong-path", "%s: %s" % (desc, msg))
            continue
        compare(e, live[s["path"]], s, v, "in " + what)
