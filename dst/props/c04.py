"""C04 Objects returned together come from the same draw."""
import json

import numpy as np

from .. import bias, ops, ref, seams, valid
from ..common import DRAWS, REAL_ALL, STUBS_ALL, Random, fail, gen_fault, harness_np_seed, resolve_fault, run_spec, user_draw
from ..core import derive
from .c02 import restore, save

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 40000}
LISTS = ("items",)
RULE = ("A run makes 1-5 joint requests (pure or thermal state with its generator, rotated mixture with its spectrum, rotation/generator/orbital matrix of one "
        "seed or of one stream state), each seeded or from a random stream state (with or without a cached Gaussian), under rounding-level changes of the "
        "matrix functions, with other draws, generator calls, failed and interrupted calls before and in between; partners are checked against each other "
        "and the state against the one obtained without the flag. Non-trivial: at least one joint object on two or more modes; distinct by event log.")
REAL = REAL_ALL
STUBS = STUBS_ALL + ["rounding of expm/logm/det results (real call, last digits varied)"]
ASSUMPTIONS = ["tolerance 1e-6 on matrix identities"]
KINDS = ["pure", "thermal", "fixed", "rotpdf", "rotation"]
NOISE = sorted(ops.GENERATORS) + ["generate_random_bitstring"]


def noise(r):
    k = r.choice(["draw", "gen", "fault", "bad", "seed"])
    if k == "draw":
        return {"t": "draw", "what": r.choice(DRAWS)}
    if k == "seed":
        return {"t": "seed", "v": r.randrange(2**32)}
    n = r.choice(NOISE)
    p = ops.OPS[n].gen(r)
    if k == "bad":
        return {"t": "call", "spec": {"op": "random_FF_pure_state_WN", "p": {"n": 2, "kw": {"N": 5}, "seed": r.choice([None, 3])}}}
    s = {"t": "call", "spec": {"op": n, "p": p}}
    if k == "fault":
        s["fault"] = gen_fault(r, ("line", "backend", "rng"))
    return s


def gen(r, tier, index):
    items = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.choice(KINDS)
        n = r.choice([1, 2, 2, 3, 3] + ([4] if r.random() < 0.05 or tier == "thorough" else []))
        items.append({"k": k, "n": n, "seed": ops.g_seed(r) if r.random() < 0.5 else None, "stream": r.randrange(2**32), "skip": r.choice([0, 0, 1, 1, 2, 5]),
                      "bias": r.choice([0.0, 0.0, 0.2, 0.5]), "order": r.sample(range(3), 3), "pre": [noise(r) for _ in range(r.choice([0, 1, 3]))],
                      "mid": [noise(r) for _ in range(r.choice([0, 1, 2]))]})
    return {"items": items, "ulp": r.random() < 0.4}


def simplify(sc):
    for i, t in enumerate(sc["items"]):
        for key, val in (("pre", []), ("mid", []), ("bias", 0.0), ("skip", 0)):
            if t[key] != val:
                c = json.loads(json.dumps(sc))
                c["items"][i][key] = val
                yield c
        for n in range(1, t["n"]):
            c = json.loads(json.dumps(sc))
            c["items"][i]["n"] = n
            yield c
    if sc["ulp"]:
        yield dict(sc, ulp=False)


def disturb(e, steps):
    for st in steps:
        if st["t"] == "draw":
            user_draw(st["what"])
        elif st["t"] == "seed":
            harness_np_seed(st["v"])
        else:
            f = st.get("fault")
            if f and f["kind"] == "line":
                o, a, k = ops.make(st["spec"])
                f = resolve_fault(f, e.dry_lines(lambda: o.fn()(*a, **k)))
            run_spec(e, st["spec"], f)


def gibbs_error(rho, h):
    """Distance of rho from the Gibbs state of h whose energy is that of rho; None if beta <= 0."""
    h = (h + h.conj().T) / 2
    w, v = ref.eigh(h)
    w = w - w.min()
    rho = np.asarray(rho)
    en = float(np.real(np.trace(rho @ (v * w) @ v.conj().T)))

    def state(b):
        p = np.exp(-b * w)
        return p / p.sum()

    if w.max() < 1e-9:
        return np.abs(rho - np.eye(len(w)) / len(w)).max(), 1.0
    if en > float(w @ state(0.0)) + 1e-7 * max(1.0, w.max()):
        return np.inf, -1.0
    lo, hi = 0.0, 1.0
    while w @ state(hi) > en and hi < 1e9:
        hi *= 2
    for _ in range(200):
        m = (lo + hi) / 2
        if w @ state(m) > en:
            lo = m
        else:
            hi = m
    b = (lo + hi) / 2
    return np.abs(rho - (v * state(b)) @ v.conj().T).max(), b


def run(sc, e):
    ff = seams.FF
    if sc["ulp"]:
        e.backend_alt = {"seed": derive(sc["run_seed"], "ulp"), "kinds": ["ulp"]}
    vac = {n: np.eye(2**n)[:, :1].astype(complex) for n in (1, 2, 3, 4)}
    for it in sc["items"]:
        n, k, seed = it["n"], it["k"], it["seed"]
        disturb(e, it["pre"])
        harness_np_seed(it["stream"])
        for _ in range(it["skip"]):
            np.random.randn(1)
        st0 = save()

        def call(name, biased=False, **kw):
            if seed is None:
                restore(st0)
            else:
                kw["seed"] = seed
            e.np_bias = bias.NpBias(e, sc["run_seed"], it["bias"], bias.ALL[:6]) if biased and it["bias"] else None
            out = e.call(lambda: getattr(ff, name)(n, **kw))
            e.np_bias = None
            if not out.ok:
                fail("generator-raises", "%s(%d, %s) raised %s: %s" % (name, n, kw, type(out.exc).__name__, str(out.exc)[:200]))
            return out.value

        tag = "%s n=%d %s" % (k, n, "seed=%s" % seed if seed is not None else "stream")
        e.log.append([k, n, seed is None, it["skip"], bool(it["bias"])])
        e.states.add("%s:n%d:%s:%s" % (k, n, "seed" if seed is not None else "stream", "cached" if it["skip"] % 2 else "clean"))
        if n >= 2:
            e.nontrivial = True
        if k in ("pure", "thermal", "fixed", "rotpdf"):
            flags = {"pure": {"pure": True}, "thermal": {}, "fixed": {"fixedN": True}, "rotpdf": {}}[k]
            name = "random_FF_state_rotPDF" if k == "rotpdf" else "random_FF_state"
            extra = {"returnS": True} if k == "rotpdf" else {"returnH": True}
            pair = call(name, biased=True, **flags, **extra)
            if not (isinstance(pair, (tuple, list)) and len(pair) == 2):
                fail("not-a-pair", "%s did not return two objects" % tag)
            x, g = np.asarray(pair[0]), np.asarray(pair[1])
            if k == "pure":
                want = ref.eigh_exp(g) @ vac[n]
                d = np.abs(x - want).max() if x.shape == want.shape else np.inf
                if not d < 1e-6:
                    fail("state-is-not-evolution-of-vacuum", "%s: psi differs from exp(-iH)|0> by %.3g" % (tag, d))
            elif k == "rotpdf":
                p = ref.parity_diag(n)
                for s in (1.0, -1.0):
                    ix = np.where(p == s)[0]
                    w = np.sort(np.linalg.eigvalsh(x[np.ix_(ix, ix)]))
                    if np.abs(w - np.sort(g[ix])).max(initial=0) > 1e-6:
                        fail("spectrum-mismatch", "%s: parity %+d sector has spectrum %s, returned %s" % (tag, s, np.round(w, 6), np.round(np.sort(g[ix]), 6)))
                if np.abs(p[:, None] * x - x * p[None, :]).max() > 1e-6:
                    fail("spectrum-mismatch", "%s mixes parity sectors" % tag)
            else:
                err, b = gibbs_error(x, g)
                if b <= 0 or err > 1e-6:
                    fail("state-is-not-gibbs", "%s: not a Gibbs state of the returned generator (distance %.3g, beta %.3g)" % (tag, err, b))
            disturb(e, it["mid"])
            if it["bias"] == 0.0:
                plain = np.asarray(call(name, **flags))
                again = np.asarray(call(name, **flags, **extra)[0])
                if plain.shape != x.shape or np.abs(plain - x).max() > 1e-6 or np.abs(again - x).max() > 1e-6:
                    fail("flag-changes-state", "%s: the state differs when %s is asked for" % (tag, list(extra)[0]))
        else:
            got = {}
            for j in it["order"]:
                kw = [{}, {"returnH": True}, {"returnOrb": True}][j]
                got[j] = np.asarray(call("random_FF_rotation", **kw))
                disturb(e, it["mid"])
            w, g, c = got[0], got[1], got[2]
            d = np.abs(w - ref.eigh_exp(g)).max()
            if not d < 1e-6:
                fail("rotation-generator-mismatch", "%s: W differs from exp(-iG) by %.3g" % (tag, d))
            c2, res = valid.orbital_of(w, n)
            if res > 1e-6 or c.shape != c2.shape or not np.abs(c2 - c).max() < 1e-6:
                fail("rotation-orbital-mismatch", "%s: W acts on the mode operators as another matrix than the orbital one: %.3g" % (tag, np.abs(c2 - c).max() if c.shape == c2.shape else np.inf))
