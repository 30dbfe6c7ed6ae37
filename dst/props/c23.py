"""C23 Deterministic functions depend on their arguments alone."""
import gc
import json
import os
import pickle
import subprocess
import sys
import threading

import numpy as np

from .. import ops, twins
from ..common import REAL_ALL, STUBS_ALL, Random, fail, harness_np_seed, run_spec, safe_check, settings_diff, user_draw
from ..core import VERIF, HarnessError, derive, in_child

ID = "C23"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 20000}
LISTS = ("steps", "env")
RULE = ("A run calls a pool of deterministic calls and their twins (arguments that agree in shape, sum, entries up to order or sign, corners, memory or all but a "
        "few digits) 4-400 times in any order, with arguments rebuilt, kept, or dropped so that their memory is used again, under changed print options, "
        "floating-point error handling, streams, clock, garbage collector, stack depth, directory, environment, from other threads one after another and from "
        "forked processes; every 40th run repeats its calls in a fresh interpreter with another hash seed and options. Each result must satisfy the reference "
        "model. Non-trivial: at least one call followed a twin of it or a change of the environment; distinct by event log.")
REAL = REAL_ALL + ["fresh Python interpreters"]
STUBS = STUBS_ALL
STATES = "operation x relation to earlier calls x environment"
ASSUMPTIONS = ["sizes up to 3 modes for operators, 8 nodes for graphs, 40x40 for matrices", "floating-point warnings are ignored or reported, not turned into errors"]
DETS = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "path")]
BIG = ["trace_distance", "partial_trace_diagblocksum", "partial_trace_blockTr", "cast_to_pdf", "cast_to_density_matrix", "kron_plus", "dt_eigen"]
CHEAP = [n for n in DETS if n not in ("count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute", "compute_algebra_S", "SRE", "stabilizer_distribution")]
ENV = ["print", "err", "seed", "draw", "clock", "gc", "gcoff", "cwd", "environ", "warn", "depth", "thread", "fork", "machine", "machine", "tty", "argv", "profile", "reclimit", "legacy"]


def gen_spec(r, names=DETS, small=False):
    n = r.choice(names)
    p = ops.OPS[n].gen(r)
    for _ in range(12):
        # the operation's own generator knows which sizes are legal
        if small and isinstance(p.get("n"), int) and p["n"] > 2 and n not in twins.SQUARE and "edges" not in p:
            p = ops.OPS[n].gen(r)
    if n in BIG and r.random() < 0.3:
        if n == "trace_distance":
            p.update(form="rho", form2="rho", n=5)
        elif n.startswith("partial"):
            p.update(d=r.choice([2, 4, 5]), n=40)
        elif n == "kron_plus":
            p.update(n=r.choice([17, 20]), m=r.choice([17, 20]))
        elif n == "dt_eigen":
            pass
        else:
            p.update(n=5, form=r.choice(["rho", "psi"]))
    return {"op": n, "p": p}


def gen(r, tier, index):
    if index % 40 == 39:
        return {"mode": "fresh", "steps": [gen_call(r, [gen_spec(r) for _ in range(20)]) for _ in range(60)], "hashseed": r.randrange(1, 10000),
                "flags": r.choice([[], ["-O"], ["-OO"], ["-X", "utf8=0"], ["-E"]]), "env": []}
    mode = r.choice(["mixed", "one", "sweep", "sweep", "sweep", "long"])
    if mode == "sweep":
        # one call and all its twins, with the call itself in between
        spec = gen_spec(r)
        hows = twins.kinds(spec["op"])
        r.shuffle(hows)
        v = r.choice([0, 1, r.getrandbits(30)])
        steps = []
        for h in hows:
            for t in r.choice([["same", h], [h], [h, "same"]]):
                steps.append({"spec": spec, "twin": [t, v], "keep": r.choice(["hold", "drop"])})
        env = gen_env(r, len(steps), 0.5)
        if r.random() < 0.4:
            env.append([0, "print", r.randrange(2**30)])
        return {"mode": mode, "steps": steps, "env": sorted(env)}
    if mode == "long":
        names = [r.choice(CHEAP)]
        pool = [gen_spec(r, names, True) for _ in range(3)]
        n = r.choice([60, 140, 300] if tier == "quick" else [140, 300, 600])
        steps = []
        for i in range(n):
            s = gen_call(r, pool)
            if r.random() < 0.75:
                s["twin"] = ["reseed", r.getrandbits(30)]
            s["keep"] = r.choice(["drop", "drop", "hold"])
            steps.append(s)
        # the first ones again
        for s in steps[:10]:
            steps.append(dict(s))
        return {"mode": "long", "steps": steps, "env": gen_env(r, len(steps), 0.3)}
    if mode == "one":
        pool = [gen_spec(r)]
    else:
        pool = [gen_spec(r) for _ in range(r.choice([2, 3, 5]))]
    steps = [gen_call(r, pool) for _ in range(r.choice([4, 8, 12, 20]))]
    return {"mode": mode, "steps": steps, "env": gen_env(r, len(steps), 0.7)}


def gen_call(r, pool):
    spec = json.loads(json.dumps(r.choice(pool)))
    return {"spec": spec, "twin": [r.choice(["same"] + twins.kinds(spec["op"])), r.randrange(2**30) if r.random() < 0.3 else r.randrange(4)],
            "keep": r.choice(["hold", "hold", "drop", "again"])}


def gen_env(r, n, p):
    out = []
    if r.random() > p:
        return out
    for _ in range(r.choice([1, 2, 4, 8])):
        k = r.choice(ENV)
        out.append([r.randrange(n), k, r.randrange(2**30)])
    return sorted(out)


def simplify(sc):
    for i, s in enumerate(sc["steps"]):
        if s["spec"]["op"] != "linear_entropy" and isinstance(s["spec"]["p"].get("n"), int) and len(sc["steps"]) < 12:
            for n in range(2 if ops.OPS[s["spec"]["op"]].family == "path" else 1, min(s["spec"]["p"]["n"], 4)):
                c = json.loads(json.dumps(sc))
                for t in c["steps"]:
                    if t["spec"] == s["spec"]:
                        t["spec"]["p"]["n"] = n
                yield c


def make(s):
    made = ops.make(s["spec"])
    t = twins.apply(s["spec"], s["twin"], made)
    if t is None:
        return made
    return (made[0],) + tuple(t)


def judge(s, o, a, k, ok, value, exc, how):
    desc = ops.describe(s["spec"]) + ("" if s["twin"][0] == "same" else " changed by %s" % s["twin"])
    if not ok:
        fail("call-fails", "%s raised %s: %s (%s)" % (desc, type(exc).__name__, str(exc)[:300], how))
    msg = safe_check(o, a, k, value, s["spec"]["p"])
    if msg:
        fail("wrong-result", "%s (%s): %s" % (desc, how, msg))


def deep(fn, depth):
    if depth <= 0:
        return fn()
    return deep(fn, depth - 1)


def run(sc, e):
    harness_np_seed(sc["run_seed"] % 2**32)
    if sc["mode"] == "fresh":
        return run_fresh(sc, e)
    held, seen, env, changed = {}, set(), [list(x) for x in sc["env"]], set()
    home = os.getcwd()
    once = None
    for i, s in enumerate(sc["steps"]):
        once = None
        while env and env[0][0] <= i:
            _, k, v = env.pop(0)
            if k in ("depth", "thread", "fork"):
                once = (k, v)
            else:
                environment(e, k, v)
                changed.add(k)
        key = json.dumps([s["spec"], s["twin"]], sort_keys=True)
        if s["keep"] == "again" and key in held:
            o, a, k = held[key]
        else:
            o, a, k = make(s)
        before = e.settings()
        body = lambda: e.call(lambda: o.fn()(*a, **k))  # noqa: E731
        if once and once[0] == "depth":
            out = deep(body, once[1] % 300)
        elif once and once[0] == "thread":
            out = in_thread(body)
        elif once and once[0] == "fork":
            kind, msg = in_child(lambda: forked(s, o, a, k, e))
            if kind != "ok":
                raise HarnessError("forked call: %s" % msg)
            if msg:
                fail(*msg)
            out = body()
        else:
            out = body()
        d = settings_diff(before, e.settings())
        if d:
            fail("settings-changed", "%s changed process settings: %s" % (ops.describe(s["spec"]), d))
        rel = "repeat" if key in seen else "sibling" if seen else "first"
        how = "%s, call %d%s%s" % (rel, i, ", environment " + "+".join(sorted(changed)) if changed else "", ", " + once[0] if once else "")
        if not out.ok and out.fault:
            e.log.append(["backend gave up", s["spec"]["op"]])
            continue
        judge(s, o, a, k, out.ok, out.value, out.exc, how)
        if seen or changed or once:
            e.nontrivial = True
        seen.add(key)
        if s["keep"] == "drop":
            held.pop(key, None)
            o = a = k = out = body = None
        elif len(held) < 30:
            held[key] = (o, a, k)
        e.log.append([s["spec"]["op"], s["twin"][0], rel, s["keep"]])
        e.states.add("%s:%s:%s:%s" % (s["spec"]["op"], s["twin"][0], rel, once[0] if once else "+".join(sorted(changed))[:40]))
    os.chdir(home)


def forked(s, o, a, k, e):
    from ..core import Violation

    out = e.call(lambda: o.fn()(*a, **k))
    if not out.ok and out.fault:
        return None
    try:
        judge(s, o, a, k, out.ok, out.value, out.exc, "in a forked process")
    except Violation as v:
        return (v.cls, v.detail)
    return None


def in_thread(body):
    """The call is made by another thread, while this one waits."""
    box = []

    def target():
        box.append(body())

    t = threading.Thread(target=target)
    t.start()
    t.join()
    if not box:
        raise HarnessError("helper thread ended without a result")
    return box[0]


def quiet(frame, event, arg):
    return None


def environment(e, k, v):
    e.stats["environment:" + k] += 1
    r = Random(v)
    if k == "print":
        np.set_printoptions(precision=r.choice([2, 8, 17]), threshold=r.choice([3, 1000]), edgeitems=r.choice([1, 3]), suppress=r.choice([True, False]), linewidth=r.choice([20, 75]))
    elif k == "err":
        np.seterr(**{x: r.choice(["ignore", "warn"]) for x in ("divide", "over", "under", "invalid")})
    elif k == "seed":
        harness_np_seed(v)
    elif k == "draw":
        user_draw(r.choice(["rand", "randn", "py", "perm"]))
    elif k == "clock":
        e.clock.jump(r.choice([1.0, 3600.0, 1e7, -5000.0]))
    elif k == "gc":
        gc.collect()
    elif k == "gcoff":
        (gc.disable if r.random() < 0.5 else gc.enable)()
    elif k == "cwd":
        os.chdir(r.choice(["/", "/tmp", VERIF]))
    elif k == "environ":
        os.environ[r.choice(["LANG", "OMP_NUM_THREADS", "DEBUG", "FF_DEBUG", "TZ", "COLUMNS"])] = r.choice(["C", "1", "2", "x"])
    elif k == "machine":
        e.machine, e.machine_facts = v, {}
    elif k == "tty":
        e.stdout.isatty = lambda: True
    elif k == "argv":
        sys.argv = [r.choice(["", "-c", "prog"]), r.choice(["--debug", "-v", "x"])]
        (setattr if r.random() < 0.5 else lambda o, n, v: vars(o).pop(n, None))(sys, "ps1", ">>> ")
    elif k == "profile":
        sys.setprofile(None if sys.getprofile() else quiet)
    elif k == "reclimit":
        sys.setrecursionlimit(r.choice([900, 1500, 20000]))
    elif k == "legacy":
        np.set_printoptions(legacy=r.choice(["1.13", "1.21", False]), floatmode=r.choice(["fixed", "unique", "maxprec"]), sign=r.choice(["-", "+", " "]))
    elif k == "warn":
        import warnings

        warnings.simplefilter(r.choice(["ignore", "default", "always", "once"]))


FRESH = """
import sys, pickle
sys.path.insert(0, %r)
from dst import boot
boot.boot()
import warnings
warnings.simplefilter("ignore")
from dst.props import c23
steps = pickle.load(sys.stdin.buffer)
out = []
for s in steps:
    o, a, k = c23.make(s)
    try:
        v = o.fn()(*a, **k)
        m = None
        if o.kind == "path":
            m = o.check(a, k, v, s["spec"]["p"])
            v = None
        out.append(("ok", v, m))
    except Exception as ex:
        out.append(("exc", "%%s: %%s" %% (type(ex).__name__, ex), None))
data = pickle.dumps(out, protocol=4)
open(sys.argv[1], "wb").write(data)
"""


def run_fresh(sc, e):
    import tempfile

    envv = {k: v for k, v in os.environ.items()}
    envv["PYTHONHASHSEED"] = str(sc["hashseed"])
    with tempfile.TemporaryDirectory(prefix="dst-fresh-") as d:
        path = os.path.join(d, "out")
        flags = [f for f in sc["flags"] if f != "-E"]
        p = subprocess.run([sys.executable] + flags + ["-c", FRESH % VERIF, path], input=pickle.dumps(sc["steps"]), env=envv, capture_output=True, timeout=900)
        if p.returncode:
            raise HarnessError("fresh interpreter failed: %s" % p.stderr.decode()[-800:])
        with open(path, "rb") as fh:
            got = pickle.load(fh)
    for s, (kind, v, msg) in zip(sc["steps"], got):
        o, a, k = make(s)
        desc = ops.describe(s["spec"])
        if kind != "ok":
            fail("call-fails", "%s raised %s in a fresh process (%s)" % (desc, v, sc["flags"]))
        if o.kind != "path":
            msg = safe_check(o, a, k, v, s["spec"]["p"])
        if msg:
            fail("wrong-result", "%s in a fresh process (PYTHONHASHSEED=%d %s): %s" % (desc, sc["hashseed"], sc["flags"], msg))
        e.log.append([s["spec"]["op"], "fresh"])
        e.states.add("%s:fresh:%s" % (s["spec"]["op"], sc["flags"]))
    e.stats["fresh_processes"] += 1
    e.nontrivial = True


_ = run_spec
