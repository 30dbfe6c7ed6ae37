"""Run control: seeds, forked runs, batches, minimisation, replay files, evidence."""
import hashlib
import json
import os
import pickle
import random as _random_mod
import select
import signal
import sys
import time as _time_mod
import traceback
from collections import Counter

# captured before any seam is installed: the harness never uses patched names
Random = _random_mod.Random
monotonic = _time_mod.monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, cls, detail):
        super().__init__(cls, detail)
        self.cls = cls
        self.detail = detail


class HarnessError(Exception):
    pass


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
# forked execution


TICK = 5.0
IDLE_TICKS = 12
WALL_FACTOR = 8.0


def cpu_time(pid):
    """Processor seconds used so far by a process, its children and theirs."""
    total, todo, hz = 0.0, [pid], os.sysconf("SC_CLK_TCK")
    while todo:
        p = todo.pop()
        try:
            with open("/proc/%d/stat" % p) as fh:
                f = fh.read().rsplit(")", 1)[1].split()
            total += sum(int(x) for x in f[11:15]) / hz
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/children" % (p, t)) as fh:
                    todo += [int(x) for x in fh.read().split()]
        except (OSError, IndexError, ValueError):
            pass
    return total


def kill_tree(pid):
    todo, seen = [pid], []
    while todo:
        p = todo.pop()
        seen.append(p)
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/children" % (p, t)) as fh:
                    todo += [int(x) for x in fh.read().split()]
        except (OSError, ValueError):
            pass
    for p in seen:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def in_child(fn, timeout=150.0):
    """Runs fn() in a forked child; returns ('ok', value), ('exc', text) or
    ('hang'|'died', text).  The limit is in processor seconds of the child, not
    in seconds of a machine that may be busy; a child that uses no processor
    time at all for a minute is stuck as well."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            # whatever the library prints must not reach the check's output
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                out = ("ok", fn())
            except BaseException:  # noqa: BLE001 - reported to the parent
                sys.settrace(None)
                out = ("exc", traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    status = None
    used, idle, begin = 0.0, 0, monotonic()
    while True:
        ready, _, _ = select.select([r], [], [], TICK)
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
            continue
        now = cpu_time(pid)
        idle = idle + 1 if now - used < 0.02 else 0
        used = max(now, used)
        if used > timeout:
            status = "no result within %.0f s of processor time" % timeout
        elif idle >= IDLE_TICKS:
            status = "blocked: no processor time used for %.0f s" % (idle * TICK)
        elif monotonic() - begin > WALL_FACTOR * timeout:
            status = "no result within %.0f s" % (WALL_FACTOR * timeout)
        if status:
            break
    os.close(r)
    if status:
        kill_tree(pid)
        os.waitpid(pid, 0)
        return ("hang", status)
    _, st = os.waitpid(pid, 0)
    if not chunks:
        return ("died", "child ended with status %d" % st)
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return ("died", "child ended with status %d (truncated result)" % st)


RUN_TIMEOUT = 150.0


def is_violation(res):
    return res["viol"] is not None


def execute(prop, scenario, timeout=RUN_TIMEOUT, retry=True):
    """One simulated run in a fresh fork of this (pristine) process."""

    def body():
        import resource

        from . import env as envmod

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        e = envmod.Env(scenario)
        viol = None
        try:
            prop.run(scenario, e)
        except Violation as v:
            sys.settrace(None)
            viol = {"cls": v.cls, "detail": v.detail}
        finally:
            sys.settrace(None)
        return {
            "viol": viol,
            "log": e.log,
            "stats": dict(e.stats),
            "faults": dict(e.fault_counts),
            "known": list(e.known),
            "simtime": e.clock.elapsed(),
            "steps": e.total_steps,
            "nontrivial": e.nontrivial,
            "states": sorted(e.states),
        }

    kind, val = in_child(body, timeout)
    if kind == "ok":
        val["error"] = None
        return val
    res = {
        "viol": None, "log": [], "stats": {}, "faults": {}, "known": [],
        "simtime": 0.0, "steps": 0, "nontrivial": False, "states": [], "error": None,
    }
    if kind in ("hang", "died"):
        # what the step budgets did not classify: a call that never came back
        # or took the process down.  Only a second identical outcome counts.
        if retry:
            again = execute(prop, scenario, timeout, retry=False)
            if again.get("hang") == kind:
                res["viol"] = {"cls": "process-" + kind, "detail": "the simulated process %s (%s)" % ({"hang": "hung", "died": "died"}[kind], val)}
                res["hang"] = kind
                return res
            if not again.get("hang"):
                return again
        res["error"] = "%s: %s" % (kind, val)
        res["hang"] = kind
    else:
        res["error"] = val
    return res


# --------------------------------------------------------------------------
# batches over worker processes


def batch(prop, base_seed, tier, n_runs, workers, soft_deadline, on_result=None):
    """Runs scenarios 0..n_runs-1; returns (aggregate, first violation or None).

    Workers take indices round robin; an index above the lowest violating one
    is skipped, so that the reported violation does not depend on the number
    of workers."""
    import mmap
    import shutil
    import tempfile

    shared = mmap.mmap(-1, 8)
    shared[:8] = (1 << 62).to_bytes(8, "little")

    def lowest():
        return int.from_bytes(shared[:8], "little")

    tmp = tempfile.mkdtemp(prefix="dst-")
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for w in range(workers):
        path = os.path.join(tmp, "w%d" % w)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                with open(path, "wb") as out:
                    for i in range(w, n_runs, workers):
                        if i > lowest():
                            continue
                        if monotonic() > soft_deadline:
                            break
                        sc = make_scenario(prop, base_seed, tier, i)
                        began = monotonic()
                        res = execute(prop, sc)
                        took = monotonic() - began
                        if is_violation(res) and i < lowest():
                            shared[:8] = i.to_bytes(8, "little")
                        keep = res["viol"] is not None or res["error"] is not None
                        rec = {
                            "i": i, "viol": res["viol"], "error": res["error"], "hang": res.get("hang"),
                            "stats": res["stats"], "faults": res["faults"], "known": res["known"],
                            "simtime": res["simtime"], "steps": res["steps"],
                            "nontrivial": res["nontrivial"], "states": res["states"],
                            "digest": digest(res["log"]), "took": took,
                            "sample": sc if i < 3 else None,
                            "scenario": sc if keep else None,
                        }
                        pickle.dump(rec, out, protocol=4)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            os._exit(code)
        kids.append((pid, path))
    recs = []
    failed_workers = 0
    for pid, path in kids:
        _, st = os.waitpid(pid, 0)
        if st:
            failed_workers += 1
        try:
            with open(path, "rb") as fh:
                while True:
                    try:
                        recs.append(pickle.load(fh))
                    except EOFError:
                        break
        except (OSError, pickle.UnpicklingError):
            failed_workers += 1
    shutil.rmtree(tmp, ignore_errors=True)
    recs.sort(key=lambda x: x["i"])
    agg = {
        "runs": 0, "stats": Counter(), "faults": Counter(), "known": Counter(),
        "simtime": 0.0, "steps": 0, "digests": set(), "nontrivial": set(),
        "states": set(), "samples": [], "errors": [], "failed_workers": failed_workers,
        "digest_list": [], "longest": (0.0, -1),
    }
    first = None
    for rec in recs:
        agg["runs"] += 1
        agg["longest"] = max(agg["longest"], (rec["took"], rec["i"]))
        agg["stats"].update(rec["stats"])
        agg["faults"].update(rec["faults"])
        agg["known"].update(rec["known"])
        agg["simtime"] += rec["simtime"]
        agg["steps"] += rec["steps"]
        agg["digests"].add(rec["digest"])
        agg["digest_list"].append((rec["i"], rec["digest"]))
        agg["states"].update(rec["states"])
        if rec["nontrivial"]:
            agg["nontrivial"].add(rec["digest"])
        if rec["sample"] is not None:
            agg["samples"].append(rec["sample"])
        if rec["error"]:
            agg["errors"].append(rec)
        if is_violation(rec) and first is None:
            first = rec
    return agg, first


def make_scenario(prop, base_seed, tier, index):
    seed = derive(base_seed, prop.ID, index)
    rng = Random(seed)
    sc = prop.gen(rng, tier, index)
    sc["prop"] = prop.ID
    sc["run_seed"] = seed
    sc["index"] = index
    return json.loads(json.dumps(sc))


# --------------------------------------------------------------------------
# minimisation


def minimise(prop, scenario, cls, budget_s=90.0, max_tries=400):
    """Delta debugging over the list-valued keys, then property-specific
    simplifications, keeping the violation class."""
    t_end = monotonic() + budget_s
    tries = [0]

    def fails(sc):
        if monotonic() > t_end or tries[0] >= max_tries:
            return False
        tries[0] += 1
        res = execute(prop, sc, timeout=60.0)
        return bool(res["viol"]) and res["viol"]["cls"] == cls

    cur = scenario
    keys = getattr(prop, "LISTS", ("preempt", "faults", "steps"))

    def get(sc, key):
        for part in key.split("."):
            sc = sc[int(part)] if isinstance(sc, list) else sc.get(part)
            if sc is None:
                return None
        return sc

    def with_list(sc, key, lst):
        sc = json.loads(json.dumps(sc))
        parts = key.split(".")
        tgt = sc
        for part in parts[:-1]:
            tgt = tgt[int(part)] if isinstance(tgt, list) else tgt[part]
        if isinstance(tgt, list):
            tgt[int(parts[-1])] = lst
        else:
            tgt[parts[-1]] = lst
        return sc

    def ddmin(cur, key):
        lst = get(cur, key)
        if not lst:
            return cur
        n = 1
        chunk = len(lst)
        while chunk >= 1:
            i = 0
            while i < len(lst):
                cand = lst[:i] + lst[i + chunk:]
                sc = with_list(cur, key, cand)
                if fails(sc):
                    cur, lst = sc, cand
                else:
                    i += chunk
            chunk //= 2
            n += 1
        return cur

    progress = True
    while progress and monotonic() < t_end and tries[0] < max_tries:
        before = json.dumps(cur, sort_keys=True)
        ks = keys(cur) if callable(keys) else keys
        for key in ks:
            cur = ddmin(cur, key)
        simp = getattr(prop, "simplify", None)
        if simp:
            again = True
            while again and monotonic() < t_end:
                again = False
                for cand in simp(cur):
                    if fails(cand):
                        cur = cand
                        again = True
                        break
        progress = json.dumps(cur, sort_keys=True) != before
    return cur, tries[0]
