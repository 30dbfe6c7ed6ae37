"""C24 A call made from within another call gets, and leaves, correct results."""
import json
import signal

from .. import ops, seams, valid
from ..common import REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed, iso_results, portable, resolve_fault, safe_check, same_portable, settings_diff
from ..core import HarnessError, derive, in_child
from ..env import Reenter
from .c08 import failed_answer_allowed

ID = "C24"
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 40000}
LISTS = ("calls",)
RULE = ("A run makes 1-4 calls; while each is in progress, further library calls (another function, the same function on the same objects, on like objects, "
        "printing, generators) are made in the same thread at 1-3 chosen source lines, as a signal handler or finaliser does, or from within a write to the "
        "caller's output stream, up to two levels deep; some calls are also interrupted. Inner and outer results must satisfy the reference model (seeded generators: as alone in a pristine "
        "fork; unseeded generators: as without the inner calls, from the same stream), printed text must be as alone, arguments and settings unchanged. "
        "Non-trivial: at least one inner call ran; distinct by event log.")
REAL = REAL_ALL + ["Python signal handling (real, raised at a chosen line)"]
STUBS = STUBS_ALL
STATES = "outer operation x inner operation x place"
ASSUMPTIONS = ["a generator is not run inside another generator: they share one stream by design (see the finding under C10)"]
DETS = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "path")]
GEN = sorted(ops.GENERATORS)
UNSEEDED = ["generate_random_bitstring", "random_CHP_state"]


def pick(r, names):
    n = r.choice(names)
    return {"op": n, "p": ops.OPS[n].gen(r)}


def gen_inner(r, outer, depth):
    isgen = outer["op"] in GEN or outer["op"] in UNSEEDED
    k = r.random()
    if not isgen and k < 0.25:
        x = {"same": True, "spec": json.loads(json.dumps(outer))}
    elif not isgen and k < 0.5:
        spec = json.loads(json.dumps(outer))
        if "seed" in spec["p"]:
            spec["p"]["seed"] = r.getrandbits(30)
        x = {"spec": spec}
    elif not isgen and k < 0.62:
        # the same function on arguments of another size or kind
        x = {"spec": pick(r, [outer["op"]])}
    elif not isgen and k < 0.67:
        x = {"spec": pick(r, GEN + UNSEEDED)}
    elif k < 0.72:
        x = {"spec": pick(r, ["print_custom"])}
    else:
        fam = [n for n in ops.FAMILIES[ops.OPS[outer["op"]].family] if ops.OPS[n].kind in ("det", "path")]
        x = {"spec": pick(r, fam if fam and r.random() < 0.5 else DETS)}
    x["on"] = "write" if outer["op"] == "print_custom" and r.random() < 0.5 else "line"
    x["frac"] = round(r.random() ** r.choice([0.5, 1, 2]), 6)
    if depth < 2 and r.random() < 0.25:
        x["in"] = [gen_inner(r, x["spec"], depth + 1)]
        if isgen or x["spec"]["op"] in GEN + UNSEEDED:
            x["in"] = [y for y in x["in"] if y["spec"]["op"] in DETS]
    return x


def gen(r, tier, index):
    calls = []
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.random()
        outer = pick(r, DETS if k < 0.75 else ["print_custom"] if k < 0.82 else GEN)
        if outer["op"] in ops.GENERATORS and r.random() < 0.4:
            outer["p"]["seed"] = None
        c = {"spec": outer, "in": [gen_inner(r, outer, 1) for _ in range(r.choice([1, 1, 2, 3]))]}
        if r.random() < 0.2:
            c["fault"] = gen_fault(r, ("line", "line", "backend"))
        calls.append(c)
    return {"calls": calls, "stream": r.randrange(2**32)}


def simplify(sc):
    for i, c in enumerate(sc["calls"]):
        for j in range(len(c["in"])):
            d = json.loads(json.dumps(sc))
            del d["calls"][i]["in"][j]
            yield d
        for j, x in enumerate(c["in"]):
            if x.get("in"):
                d = json.loads(json.dumps(sc))
                d["calls"][i]["in"][j]["in"] = []
                yield d


def specs_of(sc):
    todo = list(sc["calls"])
    while todo:
        x = todo.pop()
        yield x["spec"]
        todo += x.get("in", [])


def run(sc, e):
    seeded = [s for s in specs_of(sc) if s["op"] in ops.GENERATORS and s["p"].get("seed") is not None]
    alone = {}
    if seeded:
        for s, v in zip(seeded, iso_results(e, seeded, sc["run_seed"])):
            alone[json.dumps(s, sort_keys=True)] = v
    harness_np_seed(sc["stream"])
    for i, c in enumerate(sc["calls"]):
        one(sc, e, c, alone, Random(derive(sc["run_seed"], "call", i)))


def one(sc, e, c, alone, r):
    o, a, k = ops.make(c["spec"])
    free = c["spec"]["op"] in ops.GENERATORS and c["spec"]["p"].get("seed") is None
    desc = ops.describe(c["spec"])
    quiet = None
    if free or o.name == "print_custom":
        # what the call gives when nothing happens during it
        kind, quiet = in_child(lambda: undisturbed(e, o, a, k))
        if kind != "ok":
            raise HarnessError("undisturbed call: %s" % (quiet,))
    lines = e.dry_lines(lambda: o.fn()(*a, **k))
    notes = []
    plan = [item(e, x, max(1, lines), (o, a, k), notes, 1, desc) for x in c["in"]]
    frozen = ops.freeze((a, k))
    before = e.settings()
    re = Reenter(e, plan)
    old = signal.signal(signal.SIGUSR1, re.handler)
    e.reenter = re
    mark = len(e.stdout.chunks)
    try:
        out = e.call(lambda: o.fn()(*a, **k), resolve_fault(c.get("fault"), lines))
    finally:
        e.reenter = None
        signal.signal(signal.SIGUSR1, old)
    d = settings_diff(before, e.settings())
    chunks = e.stdout.chunks[mark:]
    for n in notes:
        judge_inner(e, n, alone)
    how = "with %d calls made during it" % len(notes)
    e.log.append([o.name, len(notes), [n["spec"]["op"] for n in notes], out.ok])
    if notes:
        e.nontrivial = True
    if d:
        fail("settings-changed", "%s %s changed process settings: %s" % (desc, how, d))
    if ops.freeze((a, k)) != frozen:
        fail("argument-changed", "%s %s changed its arguments" % (desc, how))
    if not out.ok and out.fault:
        # the disturbed call is made once more, in peace
        e.states.add("interrupted %s" % o.name)
        if free or not c.get("fault"):
            return
        out = e.call(lambda: o.fn()(*a, **k))
        how = "after an interrupted call that others were made in"
        if not out.ok and out.fault:
            return
        if o.name == "print_custom":
            quiet = None
    if not out.ok:
        fail("outer-call-fails", "%s %s raised %s: %s" % (desc, how, type(out.exc).__name__, str(out.exc)[:300]))
    if o.name == "print_custom" and quiet is not None and not out.fired:
        text = "".join(t for who, t in chunks if who == ("level", 0))
        if text != quiet[2]:
            fail("wrong-text", "%s %s printed %r, alone %r" % (desc, how, text, quiet[2]))
    if out.fired and out.value is None and failed_answer_allowed(o.name, out.fault):
        return
    msg = check(e, o, a, k, c["spec"], out.value, alone)
    if not msg and free:
        msg = None if quiet[0] == "ok" and same_portable(out.value, quiet[1]) else "got %s, from the same stream without inner calls %s" % (
            ops.brief(portable(out.value)), ops.brief(quiet[1]))
    if msg:
        fail("wrong-outer-result", "%s %s: %s" % (desc, how, msg))


def undisturbed(e, o, a, k):
    mark = len(e.stdout.chunks)
    try:
        v = ("ok", portable(o.fn()(*a, **k)))
    except Exception as ex:  # noqa: BLE001
        v = ("exc", repr(ex))
    return v + ("".join(t for _, t in e.stdout.chunks[mark:]),)


def check(e, o, a, k, spec, value, alone):
    if o.kind in ("det", "path"):
        return safe_check(o, a, k, value, spec["p"])
    if o.name == "generate_random_bitstring":
        return ops.bitstring_error(value, spec["p"]["n"], spec["p"]["k"])
    if o.name in ops.GENERATORS:
        if spec["p"].get("seed") is None:
            return valid.check(o.name, spec["p"]["n"], spec["p"].get("kw", {}), value) if o.name != "generate_random_planar_graph" else None
        ref = alone[json.dumps(spec, sort_keys=True)]
        return None if ref[0] == "ok" and same_portable(value, ref[1]) else "got %s, alone it returns %s" % (ops.brief(portable(value)), ops.brief(ref[1]))
    return valid.check(o.name, spec["p"]["n"], spec["p"].get("kw", {}), value)


def item(e, x, lines, outer, notes, depth, path):
    """One entry of the plan: what is called, and where."""
    made = outer if x.get("same") else ops.make(x["spec"])
    o, a, k = made
    note = {"spec": x["spec"], "made": made, "frozen": ops.freeze((a, k)), "path": path, "on": x["on"]}
    if o.name == "print_custom":
        kind, quiet = in_child(lambda: undisturbed(e, o, a, k))
        if kind != "ok":
            raise HarnessError("undisturbed call: %s" % (quiet,))
        note["quiet"] = quiet

    def do():
        b = e.settings()
        m = len(e.stdout.chunks)
        lv = e.reenter.level
        try:
            note["value"] = o.fn()(*a, **k)
            note["ok"] = True
        except (KeyboardInterrupt, MemoryError) as ex:
            if not e.fired:
                raise
            note["ok"], note["exc"], note["fault"] = False, ex, True
        except Exception as ex:  # noqa: BLE001
            note["ok"], note["exc"], note["fault"] = False, ex, e.fired
        note["text"] = "".join(t for who, t in e.stdout.chunks[m:] if who == ("level", lv))
        note["settings"] = settings_diff(b, e.settings())
        notes.append(note)

    plan = [item(e, y, max(1, lines), made, notes, depth + 1, path + " > " + o.name) for y in x.get("in", [])]
    at = 1 + int(x["frac"] * lines) if x["on"] == "line" else 1 + int(x["frac"] * 3)
    return {"at": at, "on": x["on"], "do": do, "plan": plan}


def judge_inner(e, n, alone):
    o, a, k = n["made"]
    spec = n["spec"]
    desc = "%s, called during %s," % (ops.describe(spec), n["path"])
    e.states.add("%s in %s on %s" % (o.name, n["path"].split("(")[0], n["on"]))
    if n["settings"]:
        fail("settings-changed", "%s changed process settings: %s" % (desc, n["settings"]))
    if ops.freeze((a, k)) != n["frozen"]:
        fail("argument-changed", "%s changed its arguments" % desc)
    if not n["ok"] and n["fault"]:
        return
    if not n["ok"]:
        fail("inner-call-fails", "%s raised %s: %s" % (desc, type(n["exc"]).__name__, str(n["exc"])[:300]))
    if o.name == "print_custom":
        # during another print the precision in force is the outer call's business: compare when it was given
        if spec["p"]["k"] is not None and n["text"] != n["quiet"][2]:
            fail("wrong-text", "%s printed %r, alone %r" % (desc, n["text"], n["quiet"][2]))
    if e.fired and n["value"] is None:
        return
    msg = check(e, o, a, k, spec, n["value"], alone)
    if msg:
        fail("wrong-inner-result", "%s: %s" % (desc, msg))


_ = seams
