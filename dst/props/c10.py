"""C10 Concurrent callers get the results they would get alone."""
import json

from .. import ops, valid
from ..common import REAL_ALL, STUBS_ALL, fail, harness_np_seed, iso_results, safe_check, same_portable, settings_diff
from ..env import FAULT_EXC
from ..sched import Scheduler

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 70000}
LISTS = ("threads", "preempt", "faults")
KNOWN_ID = "concurrent-generators"
RULE = ("A run starts 2-4 caller threads, each making 1-4 calls (the same function on other or shared arguments, or a mixture; at most one thread uses the "
        "random generators in most runs), and preempts them between source lines of the library by a seeded list of (step, next thread); a thread may be hit by an "
        "exception at a chosen line. Each result is compared with the reference model, or for seeded generators with the same call made alone in a pristine "
        "fork; shared arguments and process settings are compared byte-wise. Non-trivial: at least two preemptions that switched between unfinished calls; "
        "distinct by the sequence of (step, from, to, function) switches and results.")
REAL = REAL_ALL + ["threads (real Python threads, one running at a time)"]
STUBS = STUBS_ALL + ["thread scheduling (cooperative, every library source line is a scheduling point)", "locks created by the library (simulated)"]
STATES = "functions in which a thread was preempted, per next function"
ASSUMPTIONS = ["threads interleave at source lines of the library, not inside numpy, scipy or networkx",
               "several threads drawing from one shared random stream at once is a listed known finding"]
DETS = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "path") and ops.OPS[n].family != "print"]
GEN = sorted(ops.GENERATORS)


def small(spec):
    """Keeps the calls short enough to interleave."""
    p = spec["p"]
    if spec["op"] in ("generate_pauli_group", "stabilizer_distribution", "SRE", "build_op", "generate_gaussian_state") and p.get("n", 1) > 2:
        p["n"] = 2
    if spec["op"] in ("pf", "hf", "pt", "dt") and p.get("n", 1) > 4:
        p["n"] = 4
    return spec


def det(r, name=None):
    n = name or r.choice(DETS + ["print_custom"])
    return small({"op": n, "p": ops.OPS[n].gen(r)})


def variant(r, spec):
    """The same call on other values of the same shape."""
    s = json.loads(json.dumps(spec))
    if "seed" in s["p"]:
        s["p"]["seed"] = r.getrandbits(30)
    else:
        return det(r, spec["op"])
    return s


SIZED = ["jordan_wigner_lowering", "jordan_wigner_alphas", "jordan_wigner_majoranas", "build_Omega", "build_reordering_xx_to_xp", "build_K", "generate_pauli_group", "kitaev_chain"]


def gen(r, tier, index):
    nt = r.choice([2, 2, 2, 3, 4])
    mode = r.choice(["same", "same", "variant", "variant", "mixed", "mixed", "gen", "gens", "sizes"])
    base = det(r)
    sized = r.choice(SIZED)
    threads = []
    for t in range(nt):
        calls = []
        for _ in range(r.choice([1, 1, 2, 4]) if mode != "sizes" else r.choice([2, 3, 5])):
            if mode == "sizes":
                c = det(r, sized)
            elif mode == "same":
                c = det(r, base["op"])
            elif mode == "variant":
                c = variant(r, base)
            else:
                c = det(r)
            if (mode == "gen" and t == 0) or (mode == "gens" and r.random() < 0.7):
                n = r.choice(GEN)
                c = {"op": n, "p": ops.OPS[n].gen(r)}
                if mode == "gens" and r.random() < 0.3:
                    c["p"]["seed"] = None
            calls.append({"spec": c})
        threads.append(calls)
    if r.random() < 0.5:
        # some calls of different threads get the very same argument objects
        shared = json.loads(json.dumps(r.choice(r.choice(threads))["spec"]))
        if ops.OPS[shared["op"]].kind in ("det", "path"):
            for t in threads:
                if r.random() < 0.8:
                    t[r.randrange(len(t))] = {"spec": json.loads(json.dumps(shared)), "share": True}
    preempt = []
    step = 0
    scale = r.choice([1, 2, 5, 20, 100, 500])
    for _ in range(r.choice([2, 5, 20, 80, 200])):
        g = scale if r.random() < 0.8 else r.choice([1, 1, 2, 10, 1000])
        step += 1 + int(r.expovariate(1.0 / g)) if g > 1 else 1
        preempt.append([step, r.randrange(nt)])
    if r.random() < 0.25:
        # lockstep: everyone takes a few lines in turn, with slips
        stride, slip = r.choice([1, 1, 1, 2, 3]), r.choice([0.0, 0.05, 0.3])
        preempt, step = [], r.randrange(4)
        for j in range(r.choice([40, 200, 400])):
            step += stride + (r.randrange(3) if r.random() < slip else 0)
            preempt.append([step, (j + 1) % nt if r.random() >= slip else r.randrange(nt)])
    faults = []
    if r.random() < 0.15:
        faults.append([r.randrange(nt), 1 + int(r.expovariate(1 / r.choice([5, 40, 300]))), r.choice(["KeyboardInterrupt", "MemoryError"])])
    return {"threads": threads, "preempt": preempt, "faults": faults, "stream": r.randrange(2**32)}


def simplify(sc):
    for i, t in enumerate(sc["threads"]):
        for j in range(len(t)):
            if len(t) > 1:
                c = json.loads(json.dumps(sc))
                del c["threads"][i][j]
                yield c
            p = t[j]["spec"]["p"]
            if isinstance(p.get("n"), int):
                for n in range(1, p["n"]):
                    c = json.loads(json.dumps(sc))
                    c["threads"][i][j]["spec"]["p"]["n"] = n
                    yield c


def run(sc, e):
    harness_np_seed(sc["stream"])
    pool = {}
    plan = []
    for t in sc["threads"]:
        row = []
        for c in t:
            key = json.dumps(c["spec"], sort_keys=True)
            if c.get("share"):
                if key not in pool:
                    pool[key] = ops.make(c["spec"])
                o, a, k = pool[key]
            else:
                o, a, k = ops.make(c["spec"])
            row.append({"spec": c["spec"], "o": o, "a": a, "k": k, "frozen": ops.freeze((a, k)), "share": bool(c.get("share")), "out": None})
        plan.append(row)
    seeded = [c["spec"] for t in sc["threads"] for c in t if c["spec"]["op"] in ops.GENERATORS and c["spec"]["p"].get("seed") is not None]
    alone = {}
    if seeded:
        for s, v in zip(seeded, iso_results(e, seeded, sc["run_seed"])):
            alone[json.dumps(s, sort_keys=True)] = v
    harness_np_seed(sc["stream"])
    before = e.settings()
    sch = Scheduler(e, sc["preempt"])
    for t, at, exc in sc["faults"]:
        sch.inject[t] = [at, FAULT_EXC[exc]]

    def body_of(row):
        def body(i):
            for c in row:
                c["rng0"] = len(sch.rng_log)
                n_inj = len([x for x in sch.injected if x[0] == i])
                n_real = e.real_failures.count(e.thread_index())
                try:
                    c["out"] = ("ok", c["o"].fn()(*c["a"], **c["k"]))
                except (KeyboardInterrupt, Exception) as ex:  # noqa: BLE001
                    c["out"] = ("exc", ex)
                c["hit"] = len([x for x in sch.injected if x[0] == i]) > n_inj or e.real_failures.count(e.thread_index()) > n_real
                c["rng1"] = len(sch.rng_log)
        return body

    sch.run([body_of(row) for row in plan])
    for x in sch.injected:
        e.fault_counts["thread-line"] += 1
        e.states.add("fault@" + x[1])
    e.stats["preemptions"] += len([s for s in sch.switches if s[3] != "end"])
    for a, b in zip(sch.switches, sch.switches[1:]):
        e.states.add("%s>%s" % (a[3], b[3]))
    e.nontrivial = len([s for s in sch.switches if s[3] != "end"]) >= 2
    e.log.append([list(s) for s in sch.switches])
    d = settings_diff(before, e.settings())
    if d:
        fail("settings-changed", "concurrent calls changed process settings: %s" % d)
    for i, row in enumerate(plan):
        for c in row:
            judge(e, sch, i, c, alone)


def interfered(sch, i, c):
    """Did another thread use the same shared stream inside this call's draws?"""
    win = list(enumerate(sch.rng_log))[c["rng0"]:c["rng1"]]
    for stream in ("np", "py"):
        mine = [j for j, x in win if x[0] == i + 1 and x[1] == stream]
        if mine and any(x[0] != i + 1 and x[1] == stream for j, x in win if mine[0] < j < mine[-1]):
            return True
    return False


def judge(e, sch, i, c, alone):
    spec, o = c["spec"], c["o"]
    desc = "thread %d: %s" % (i, ops.describe(spec))
    kind, v = c["out"]
    e.log.append([i, spec["op"], kind, c["hit"]])
    if ops.freeze((c["a"], c["k"])) != c["frozen"]:
        fail("argument-changed", "%s: %s arguments were modified" % (desc, "shared" if c["share"] else "its"))
    if c["hit"]:
        if kind == "exc":
            return
    if kind == "exc":
        if spec["op"] in ops.GENERATORS and interfered(sch, i, c):
            e.known.append(KNOWN_ID)
            return
        fail("call-fails", "%s raised %s when run with other threads: %s" % (desc, type(v).__name__, str(v)[:300]))
    if o.kind in ("det", "path"):
        msg = safe_check(o, c["a"], c["k"], v, spec["p"])
        if msg:
            fail("wrong-result", "%s: %s" % (desc, msg))
    elif spec["p"].get("seed") is None:
        if spec["op"] != "generate_random_planar_graph":
            msg = valid.check(spec["op"], spec["p"]["n"], spec["p"].get("kw", {}), v)
            if msg:
                fail("wrong-result", "%s: %s" % (desc, msg))
    else:
        ref = alone[json.dumps(spec, sort_keys=True)]
        if ref[0] != "ok":
            fail("call-fails", "%s alone raised %s" % (desc, ref[1]))
        if not same_portable(v, ref[1]):
            if interfered(sch, i, c):
                e.known.append(KNOWN_ID)
                e.stats["known_interference"] += 1
                return
            fail("wrong-result", "%s: got %s, alone it returns %s; no other thread drew from the stream meanwhile" % (desc, ops.brief(v), ops.brief(ref[1])))


def known_concurrent():
    """Two threads each ask for a seeded state; the second reseeds the shared stream in the middle of the first."""
    a = {"spec": {"op": "random_FF_state_randH", "p": {"n": 2, "kw": {}, "seed": 1}}}
    b = {"spec": {"op": "random_FF_state_randH", "p": {"n": 2, "kw": {}, "seed": 2}}}
    return {"threads": [[a], [b]], "preempt": [[s, s % 2] for s in range(1, 60)], "faults": [], "stream": 1}


KNOWN = {KNOWN_ID: known_concurrent}
