"""C16 Plotting helpers only draw: data and global plot settings are untouched."""
import itertools
import json

import numpy as np

from .. import ops, ref, seams
from ..common import REAL_ALL, Random, fail, harness_np_seed, run_spec
from ..core import derive
from ..env import FAULT_EXC

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 1700, "thorough": 20000}
LISTS = ("steps",)
RULE = ("A run is a history of user figure operations (figures opened, selected, closed, split into axes, drawn on, plot configuration changed), plotting helper "
        "calls and numerical calls; showing is simulated (it returns, closes windows, selects another window, fails or is interrupted) and drawing fails at chosen "
        "calls or lines. At each show and after each call the artists added to the axes that were current are read back and compared with the data: labels, edge set, "
        "weights, highlighted matching, arrow directions, crossings, populations, titles; inputs, rcParams, figure numbers, other figures and axes and the user's "
        "artists must be as before. Non-trivial: a figure existed before a plot, a fault fired, or a show did something; distinct by event log.")
REAL = REAL_ALL
STUBS = ["plt.show (simulated window system)", "matplotlib axes calls and networkx layouts fail on command (otherwise real)", "sys.stdout (simulated stream)"]
ASSUMPTIONS = ["the matching passed for highlighting names nodes by their row in the matrix, as in the returned graph", "the canvas itself is the real Agg canvas, rendered in some runs only"]
STATES = "helper x figure situation x show behaviour x fault kind"
SHOWS = ["noop", "noop", "noop", "close_all", "close_current", "switch", "render"]
SHOW_EXC = ["KeyboardInterrupt", "RuntimeError", "BrokenPipeError", "MemoryError"]
RC = [["lines.linewidth", 3.0], ["font.size", 14.0], ["axes.grid", True], ["figure.figsize", [3.0, 2.0]], ["axes.titlesize", "small"], ["figure.max_open_warning", 3], ["image.cmap", "gray"],
      ["legend.loc", "upper left"], ["figure.autolayout", True]]
NUM = [n for n in sorted(ops.OPS) if ops.OPS[n].kind in ("det", "seeded", "path", "unseeded")]


def gen_matrix(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    return {"k": r.choice(["sym", "sym", "asym", "asym", "anti", "zero", "int", "loops", "graph", "graph", "digraph"]), "n": n, "w": r.choice(["n", "n", "n", "small", "tiny", "pos", "neg", "big"]), "seed": r.getrandbits(30),
            "lay": r.choice(list(ops.LAYOUTS)), "matching": r.choice([None, None, "some", "some", "empty", "lists"]), "title": r.choice([None, "my plot", ""])}


def gen_planar(r):
    g = ops.g_graph(r, [2, 3, 4, 4, 5, 6, 7, 8], weighted=0.3)
    return {"g": g, "pfo": r.choice([None, "own", "own", "rand", "rand"]), "seed": r.getrandbits(30), "title": r.choice([None, None, "emb", ""])}


def gen_pdf(r):
    return {"n": r.choice([1, 1, 2, 2, 3]), "seed": r.getrandbits(30), "k": r.choice(["pdf", "pdflist", "ket", "col", "rho", "diag", "sparse"]), "lay": r.choice(list(ops.LAYOUTS)),
            "name": r.choice([None, "a state", ""]), "stem": r.random() < 0.5}


def gen_user(r):
    k = r.choice(["figure", "figure", "figure", "close", "close_all", "subplots", "sca", "line", "text", "title", "rc", "ion", "ioff", "cla", "yscale", "legend"])
    st = {"t": "user", "k": k}
    if k in ("figure", "close", "sca"):
        st["n"] = r.choice([1, 2, 3, 7])
    if k == "subplots":
        st["n"], st["rows"] = r.randrange(4), r.choice([1, 2])
    if k == "rc":
        st["rc"] = r.choice(RC)
    return st


def gen_fault(r):
    k = r.choice(["line", "draw", "draw", "show"])
    f = {"kind": k, "exc": r.choice(["KeyboardInterrupt", "MemoryError"] + (["RuntimeError"] if k == "draw" else []))}
    if k == "line":
        f["at"] = 1 + int(r.expovariate(1 / 30.0))
    elif k == "draw":
        f["nth"] = 1 + int(r.expovariate(1 / 4.0))
    else:
        f["exc"] = r.choice(SHOW_EXC)
        f["nth"] = r.choice([1, 1, 1, 2, 3])
    return f


def gen(r, tier, index):
    steps = []
    prev = None
    for _ in range(r.choice([1, 2, 4, 6, 9])):
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            steps.append(gen_user(r))
        k = r.random()
        if prev is not None and k < 0.15:
            st = json.loads(json.dumps(prev))
            st.pop("fault", None)
        elif k < 0.38:
            st = {"t": "weights", "p": gen_matrix(r)}
        elif k < 0.6:
            st = {"t": "planar", "p": gen_planar(r)}
        elif k < 0.76:
            st = {"t": "pdf", "p": gen_pdf(r)}
        elif k < 0.84:
            st = {"t": "pfo", "p": {"g": ops.g_graph(r, [2, 3, 4, 5, 6], weighted=0.2)}}
        else:
            n = r.choice(NUM)
            st = {"t": "num", "spec": {"op": n, "p": ops.OPS[n].gen(r)}}
        if st["t"] != "num":
            prev = st
            st["show"] = r.choice(SHOWS)
            if r.random() < 0.25:
                st["fault"] = gen_fault(r)
        steps.append(st)
    return {"steps": steps}


def simplify(sc):
    for i, s in enumerate(sc["steps"]):
        for k, v in (("fault", None), ("show", "noop")):
            if s.get(k) not in (None, v):
                c = json.loads(json.dumps(sc))
                c["steps"][i][k] = v
                yield c
        if s["t"] == "weights":
            for k, v in (("matching", None), ("title", None), ("n", 2), ("lay", "C")):
                if s["p"][k] != v:
                    c = json.loads(json.dumps(sc))
                    c["steps"][i]["p"][k] = v
                    yield c


# ------------------------------------------------------------ reading figures back


def art(a):
    """Content of one artist."""
    import matplotlib.collections as mc
    import matplotlib.lines as ml
    import matplotlib.patches as mp
    import matplotlib.text as mt

    base = (type(a).__name__, a.get_visible(), a.get_alpha() if not isinstance(a.get_alpha(), np.ndarray) else "arr", a.get_zorder())
    if isinstance(a, mt.Text):
        return base + (a.get_text(), tuple(map(float, a.get_position())) if type(a) is mt.Text else None, str(a.get_color()))
    if isinstance(a, ml.Line2D):
        return base + (np.asarray(a.get_xydata()).tobytes(), str(a.get_color()), str(a.get_linestyle()), str(a.get_marker()))
    if isinstance(a, mc.LineCollection):
        return base + (tuple(np.asarray(s).tobytes() for s in a.get_segments()), np.asarray(a.get_color()).tobytes())
    if isinstance(a, mc.Collection):
        return base + (np.asarray(a.get_offsets()).tobytes(), np.asarray(a.get_facecolor()).tobytes())
    if isinstance(a, mp.FancyArrowPatch):
        return base + (repr(getattr(a, "_posA_posB", None)), str(a.get_edgecolor()))
    return base


FRAME = ("Spine", "XAxis", "YAxis", "Legend")


def content(ax):
    """The data artists of axes, in drawing order."""
    titles = {id(ax.title), id(getattr(ax, "_left_title", None)), id(getattr(ax, "_right_title", None)), id(ax.patch)}
    return [a for a in ax.get_children() if type(a).__name__ not in FRAME and id(a) not in titles]


def ax_state(ax):
    return (ax.get_title(), ax.get_xscale(), ax.get_yscale(), tuple(ax.get_xlim()), tuple(ax.get_ylim()), ax.get_xlabel(), ax.get_ylabel(), ax.get_legend() is not None,
            tuple(art(a) for a in content(ax)))


class World:
    """What was there before a call."""

    def __init__(self):
        import matplotlib
        import matplotlib.pyplot as plt

        self.nums = list(plt.get_fignums())
        self.interactive = plt.isinteractive()
        self.rc = rc_state()
        self.backend = matplotlib.get_backend()
        self.fig = plt.gcf() if self.nums else None
        self.cur = self.fig.number if self.nums else None
        self.current = {self.cur}  # figures that were current at some time of the call
        self.ax = plt.gca() if self.fig is not None and self.fig.axes else None
        self.figs = {n: plt.figure(n) for n in self.nums}
        if self.cur is not None:
            plt.figure(self.cur)
            if self.ax is not None:
                plt.sca(self.ax)
        self.others = []
        for n, f in self.figs.items():
            for a in f.axes:
                if a is not self.ax:
                    self.others.append((n, a, ax_state(a)))
        self.axes = {n: list(f.axes) for n, f in self.figs.items()}
        self.mine = [(a, art(a)) for a in content(self.ax)] if self.ax is not None else []
        self.closed = set()
        self.moved = False
        self.shows = 0
        self.seen = []  # artists already attributed to an earlier show of the same call
        self.captures = []


def rc_state():
    import matplotlib

    return {k: repr(v) for k, v in dict.items(matplotlib.rcParams) if k not in ("backend",)}


def untouched(w, desc):
    """Everything but the current axes is as before."""
    import matplotlib.pyplot as plt

    rc = rc_state()
    d = [k for k in w.rc if rc.get(k) != w.rc[k]] + [k for k in rc if k not in w.rc]
    if d:
        fail("plot-settings-changed", "%s changed rcParams %s" % (desc, [(k, w.rc.get(k), rc.get(k)) for k in d][:4]))
    if plt.isinteractive() != w.interactive:
        fail("plot-settings-changed", "%s switched interactive mode" % desc)
    now = plt.get_fignums()
    gone = [n for n in w.nums if n not in now and n not in w.closed]
    if gone:
        fail("figure-changed", "%s closed figure %s" % (desc, gone))
    for n, a, st in w.others:
        if n in w.closed:
            continue
        if a not in w.figs[n].axes:
            fail("figure-changed", "%s removed axes of figure %s" % (desc, n))
        if ax_state(a) != st:
            fail("figure-changed", "%s changed axes of figure %s that were not current" % (desc, n))
    for n in w.nums:
        if n not in w.closed and n not in w.current and len(w.figs[n].axes) != len(w.axes[n]):
            fail("figure-changed", "%s added axes to figure %s" % (desc, n))
    if w.ax is not None and w.cur not in w.closed:
        if w.ax not in w.fig.axes:
            fail("figure-changed", "%s removed the current axes" % desc)
        kids = {id(a) for a in w.ax.get_children()}
        for a, st in w.mine:
            if id(a) not in kids or art(a) != st:
                fail("figure-changed", "%s removed or changed what the user had drawn on the current axes" % desc)


def target(w, desc):
    """The axes the call should have drawn on, and the artists it added there."""
    import matplotlib.pyplot as plt

    if not plt.get_fignums():
        fail("nothing-drawn", "%s drew on no figure" % desc)
    fig = plt.gcf()
    if w.cur is not None and w.cur not in w.closed and fig is not w.fig and not w.moved:
        fail("wrong-axes", "%s drew on another figure than the current one" % desc)
    ax = plt.gca()
    if w.ax is not None and w.cur not in w.closed and ax is not w.ax and not w.moved:
        fail("wrong-axes", "%s drew on other axes than the current ones" % desc)
    if (w.ax is None or w.cur in w.closed) and len(fig.axes) != 1 and not w.moved:
        fail("wrong-axes", "%s left %d axes on a fresh figure" % (desc, len(fig.axes)))
    old = {id(a) for a, _ in w.mine} | {id(a) for a in w.seen}
    new = [a for a in content(ax) if id(a) not in old]
    return ax, new


def key(p):
    return (round(float(p[0]), 6) + 0.0, round(float(p[1]), 6) + 0.0)


def is_red(c):
    c = np.atleast_2d(np.asarray(c, dtype=float))
    return bool(len(c)) and np.allclose(c[0][:3], (1, 0, 0), atol=0.02)


class Drawing:
    """Network content of new artists: label positions, edges, highlights, edge labels."""

    def __init__(self, new, desc):
        import matplotlib.collections as mc
        import matplotlib.colors as colors
        import matplotlib.patches as mp
        import matplotlib.text as mt

        self.labels, self.wlabels, self.plain, self.red, self.dots = {}, [], [], [], []
        for a in new:
            if isinstance(a, mt.Text):
                if hasattr(a, "arrow"):
                    self.wlabels.append((a.get_text(), tuple(map(key, a.arrow._posA_posB))))
                elif a.get_fontsize() == 20 and str(a.get_color()) not in ("blue", "b"):
                    k = key(a.get_position())
                    if k in self.labels:
                        fail("wrong-drawing", "%s: labels %s and %s at one place" % (desc, self.labels[k], a.get_text()))
                    self.labels[k] = a.get_text()
                elif a.get_text():
                    self.wlabels.append((a.get_text(), None))
            elif isinstance(a, mc.LineCollection):
                red = is_red(colors.to_rgba_array(a.get_color()))
                for s in a.get_segments():
                    (self.red if red else self.plain).append((key(s[0]), key(s[-1]), False))
            elif isinstance(a, mc.PathCollection):
                self.dots += [key(p) for p in np.asarray(a.get_offsets())]
            elif isinstance(a, mp.FancyArrowPatch):
                red = is_red(colors.to_rgba_array(a.get_edgecolor()))
                p = a._posA_posB
                (self.red if red else self.plain).append((key(p[0]), key(p[1]), True))
        self.desc = desc
        if sorted(self.dots) != sorted(self.labels):
            fail("wrong-drawing", "%s: %d node markers for %d labels, or elsewhere" % (desc, len(self.dots), len(self.labels)))

    def name(self, p):
        if p not in self.labels:
            fail("wrong-drawing", "%s: an edge ends at %s, where no node is" % (self.desc, p))
        return self.labels[p]

    def edges(self, what, directed):
        out = []
        for a, b, arrow in what:
            e = (self.name(a), self.name(b))
            out.append(e if directed and arrow else tuple(sorted(e)))
        return sorted(out)


def crossing(segs):
    """Do two of the segments cross properly?"""
    def side(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    for (a, b), (c, d) in itertools.combinations(segs, 2):
        if len({a, b, c, d}) < 4:
            continue
        if side(a, b, c) * side(a, b, d) < -1e-9 and side(c, d, a) * side(c, d, b) < -1e-9:
            return True
    return False


# ------------------------------------------------------------ the helpers' data


def matrix(p):
    g = ref.rs(p["seed"])
    n, k = p["n"], p["k"]
    x = np.round(g.uniform(-3, 3, (n, n)), g.choice([1, 5]))
    x[g.random_sample((n, n)) < 0.3] = 0
    w = p.get("w", "n")
    if w == "small":
        x = np.where(g.random_sample((n, n)) < 0.5, np.round(x / 300, 5), x)
    elif w == "tiny":
        x = np.sign(x) * g.choice([1e-4, 2e-4, 1e-3, 3e-3], size=(n, n))
    elif w in ("pos", "neg"):
        x = np.abs(x) * (1 if w == "pos" else -1)
    elif w == "big":
        x = x * 1000
    if k in ("sym", "graph", "int"):
        x = np.triu(x) + np.triu(x, 1).T
        np.fill_diagonal(x, 0)
        if k == "int":
            x = np.round(x).astype(int)
    elif k == "anti":
        x = x - x.T
    elif k == "zero":
        x = np.zeros((n, n))
    elif k in ("asym", "digraph"):
        np.fill_diagonal(x, 0)
    return x


def weights_args(p):
    import networkx as nx

    x = matrix(p)
    n = p["n"]
    a = ops.lay(p, x)
    if p["k"] in ("graph", "digraph"):
        a = nx.DiGraph() if p["k"] == "digraph" else nx.Graph()
        a.add_nodes_from(range(n))
        for i, j in itertools.product(range(n), repeat=2):
            if x[i, j] != 0 and (p["k"] == "digraph" or i < j):
                a.add_edge(i, j, weight=float(x[i, j]))
    r = Random(derive(p["seed"], "match"))
    pairs = [(i, j) for i in range(n) for j in range(n) if x[i, j] != 0 and i != j]
    m = None
    if p["matching"] == "empty":
        m = []
    elif p["matching"]:
        m, used = [], set()
        r.shuffle(pairs)
        for i, j in pairs:
            if i not in used and j not in used:
                used |= {i, j}
                m.append((i, j) if p["matching"] == "some" else [i, j])
    kw = {}
    if m is not None:
        kw["matching"] = m
    if p["title"] is not None:
        kw["title"] = p["title"]
    return x, a, kw


def check_weights(p, x, kw, ret, w, ax, new, desc):
    n = p["n"]
    directed = not np.allclose(x, x.T)
    d = Drawing(new, desc)
    if sorted(d.labels.values()) != sorted(map(str, range(n))):
        fail("wrong-drawing", "%s: node labels %s" % (desc, sorted(d.labels.values())))
    pairs = [(i, j) for i in range(n) for j in range(n) if x[i, j] != 0 and (directed or i < j)]
    want = sorted((str(i), str(j)) if directed else tuple(sorted((str(i), str(j)))) for i, j in pairs)
    m = kw.get("matching") or []
    hl = sorted((str(i), str(j)) if directed else tuple(sorted((str(i), str(j)))) for i, j in m)
    got = d.edges(d.plain, directed)
    if got != want:
        fail("wrong-drawing", "%s: drew edges %s, the data has %s" % (desc, got, want))
    if d.edges(d.red, directed) != hl:
        fail("wrong-drawing", "%s: highlighted %s, the matching is %s" % (desc, d.edges(d.red, directed), hl))
    texts = sorted(round(float(t), 9) for t, _ in d.wlabels)
    vals = sorted(round(round(10e3 * float(x[i, j])) / 10e3, 9) for i, j in pairs)
    if len(texts) != len(vals) or not np.allclose(texts, vals, atol=1.01e-4):
        fail("wrong-drawing", "%s: edge labels %s, weights %s" % (desc, texts, vals))
    byname = {v: k for k, v in d.labels.items()}
    for t, ends in d.wlabels:
        if ends is None:
            continue
        i, j = int(d.name(ends[0])), int(d.name(ends[1]))
        if min(abs(float(t) - x[i, j]), np.inf if directed else abs(float(t) - x[j, i])) > 1.01e-4:
            fail("wrong-drawing", "%s: label %s on edge %s-%s of weight %s" % (desc, t, i, j, x[i, j]))
    if len(byname) != n:
        fail("wrong-drawing", "%s: %d nodes drawn" % (desc, len(byname)))
    if kw.get("title") is not None and ax.get_title() != kw["title"]:
        fail("wrong-drawing", "%s: title %r" % (desc, ax.get_title()))
    if ret is not None:
        check_returned(p, x, ret, desc)


def check_returned(p, x, g, desc):
    n = p["n"]
    directed = not np.allclose(x, x.T)
    if sorted(g.nodes) != list(range(n)) or g.is_directed() != directed:
        fail("wrong-graph", "%s returned %s" % (desc, g))
    want = {(i, j) for i in range(n) for j in range(n) if x[i, j] != 0 and (directed or i < j)}
    got = {(u, v) if directed else (min(u, v), max(u, v)) for u, v in g.edges}
    if want != got:
        fail("wrong-graph", "%s returned edges %s, the data has %s" % (desc, sorted(got), sorted(want)))
    for u, v in want:
        if abs(g[u][v]["weight"] - x[u, v]) > 0.51e-4:
            fail("wrong-graph", "%s returned weight %s for %s" % (desc, g[u][v]["weight"], x[u, v]))


def planar_args(p, e):
    g = ops.make_graph(p["g"])
    n = g.number_of_nodes()
    nodes = list(g.nodes)
    m = None
    if p["pfo"] == "rand":
        s = ref.rs(p["seed"])
        m = np.zeros((n, n))
        for u, v in g.edges:
            i, j = sorted((nodes.index(u), nodes.index(v)))
            m[i, j] = s.choice([-1.0, 0.0, 1.0, 2.5])
            m[j, i] = -m[i, j]
    elif p["pfo"] == "own":
        out = e.call(lambda: seams.FF.pfo_algorithm(g))
        if not out.ok:
            fail("call-fails", "pfo_algorithm raised %s" % type(out.exc).__name__)
        m = out.value
    kw = {}
    if m is not None:
        kw["pfo"] = m
    if p["title"] is not None:
        kw["title"] = p["title"]
    return g, kw


def check_planar(g, pfo, new, desc):
    """Returns the drawing; edges, labels, no crossings, arrows by sign."""
    nodes = list(g.nodes)
    d = Drawing(new, desc)
    if sorted(d.labels.values()) != sorted(map(str, nodes)):
        fail("wrong-drawing", "%s: node labels %s" % (desc, sorted(d.labels.values())))
    want = sorted(tuple(sorted((str(u), str(v)))) for u, v in g.edges)
    if d.edges(d.plain, False) != want:
        fail("wrong-drawing", "%s: drew edges %s, the graph has %s" % (desc, d.edges(d.plain, False), want))
    if crossing([(a, b) for a, b, _ in d.plain]):
        fail("wrong-drawing", "%s: edges cross" % desc)
    arrows = d.edges(d.red, True)
    exp = []
    if pfo is not None:
        for u, v in g.edges:
            i, j = sorted((nodes.index(u), nodes.index(v)))
            if pfo[i, j] < 0:
                exp.append((str(nodes[i]), str(nodes[j])))
            elif pfo[i, j] > 0:
                exp.append((str(nodes[j]), str(nodes[i])))
    if arrows != sorted(exp):
        fail("wrong-drawing", "%s: arrows %s, the orientation has %s" % (desc, arrows, sorted(exp)))


def pdf_args(p):
    g = ref.rs(p["seed"])
    d = 2 ** p["n"]
    k = p["k"]
    if k in ("pdf", "pdflist", "diag", "sparse"):
        x = g.dirichlet(np.ones(d))
        if k == "sparse":
            x[: d // 2] = 0
            x = x / x.sum()
        if abs(np.sqrt((x**2).sum()) - 1) < 1e-3:
            x = np.full(d, 1 / d)
        rho = np.diag(x).astype(complex)
        a = x.tolist() if k == "pdflist" else np.diag(x) if k == "diag" else x
    elif k in ("ket", "col"):
        x = g.standard_normal(d) + 1j * g.standard_normal(d)
        x = x / np.sqrt((np.abs(x) ** 2).sum())
        rho = np.outer(x, x.conj())
        a = x.reshape(-1, 1) if k == "col" else x
    else:
        b = g.standard_normal((d, d)) + 1j * g.standard_normal((d, d))
        rho = b @ b.conj().T
        rho = rho / np.trace(rho).real
        a = rho
    if isinstance(a, np.ndarray):
        a = ops.lay(p, a)
    kw = {"stem": p["stem"]}
    if p["name"] is not None:
        kw["name"] = p["name"]
    return rho, a, kw


def check_pdf(p, rho, kw, ax, new, desc):
    import matplotlib.lines as ml

    d = len(rho)
    diag = np.real(np.diag(rho))
    ev = np.sort(seams.REAL["numpy.eigvalsh"](rho))[::-1]
    lines = [a for a in new if isinstance(a, ml.Line2D) and len(a.get_xydata()) == d and str(a.get_marker()) in ("o", "^")]
    got = {str(a.get_marker()): np.asarray(a.get_ydata(orig=True), dtype=float) for a in lines}
    xs = [np.asarray(a.get_xdata(orig=True), dtype=float) for a in lines]
    if set(got) != {"o", "^"} or len(lines) != 2:
        fail("wrong-drawing", "%s: %d data lines drawn" % (desc, len(lines)))
    if any(np.abs(x - np.arange(d)).max() > 1e-9 for x in xs):
        fail("wrong-drawing", "%s: data not drawn at their indices" % desc)
    for m, want, what in (("o", diag, "diagonal"), ("^", ev, "eigenvalues")):
        if np.abs(got[m] - want).max() > 2e-6:
            fail("wrong-drawing", "%s: %s drawn as %s, expected %s" % (desc, what, np.round(got[m], 6), np.round(want, 6)))
    if ax.get_yscale() != "log":
        fail("wrong-drawing", "%s: the scale is %s" % (desc, ax.get_yscale()))
    if ax.get_legend() is None or not {"diag(ρ)", "eigenvalues"} <= {t.get_text() for t in ax.get_legend().get_texts()}:
        fail("wrong-drawing", "%s: no legend for the drawn data" % desc)
    if kw.get("name") is not None and kw["name"] not in ax.get_title():
        fail("wrong-drawing", "%s: title %r" % (desc, ax.get_title()))


# ------------------------------------------------------------ the run


def user(s, r):
    import matplotlib.pyplot as plt

    k = s["k"]
    if k == "figure":
        plt.figure(s["n"])
    elif k == "close":
        plt.close(s["n"])
    elif k == "close_all":
        plt.close("all")
    elif k == "subplots":
        plt.figure()
        axs = [plt.subplot(s["rows"], 2, i + 1) for i in range(2 * s["rows"])]
        plt.sca(axs[s["n"] % len(axs)])
    elif k == "sca":
        if plt.get_fignums() and plt.gcf().axes:
            a = plt.gcf().axes
            plt.sca(a[s["n"] % len(a)])
    elif k == "line":
        plt.plot([0, 1, 2], [r.random() for _ in range(3)], label="user data")
    elif k == "text":
        plt.text(0.5, 0.5, "note %d" % r.randrange(100))
    elif k == "title":
        plt.title("user title %d" % r.randrange(100))
    elif k == "rc":
        plt.rcParams[s["rc"][0]] = s["rc"][1]
    elif k == "ion":
        plt.ion()
    elif k == "ioff":
        plt.ioff()
    elif k == "cla":
        if plt.get_fignums():
            plt.cla()
    elif k == "yscale":
        plt.yscale("log")
    elif k == "legend":
        plt.plot([0, 1], [1, 2], label="mine")
        plt.legend()


def run(sc, e):
    import matplotlib.pyplot as plt

    plt.close("all")
    harness_np_seed(sc["run_seed"])
    for j, s in enumerate(sc["steps"]):
        r = Random(derive(sc["run_seed"], "step", j))
        if s["t"] == "user":
            user(s, r)
            e.log.append(["user", s["k"]])
            continue
        w = World()
        situation = "nofig" if w.cur is None else "axes" if w.ax is not None else "empty"
        if situation != "nofig":
            e.nontrivial = True
        if s["t"] == "num":
            shown = e.stats["shows"]
            _, _, _, out = run_spec(e, s["spec"])
            desc = ops.describe(s["spec"])
            nums = plt.get_fignums()
            if list(nums) != w.nums or e.stats["shows"] != shown:
                fail("numerical-call-plots", "%s opened, closed or showed a figure" % desc)
            untouched(w, desc)
            if w.ax is not None and [id(a) for a in content(w.ax)] != [id(a) for a, _ in w.mine]:
                fail("numerical-call-plots", "%s drew on the current axes" % desc)
            if w.cur is not None and plt.gcf().number != w.cur:
                fail("numerical-call-plots", "%s selected another figure" % desc)
            e.log.append(["num", s["spec"]["op"], out.ok])
            continue
        one(e, s, w, r, situation)
    plt.close("all")


def one(e, s, w, r, situation):
    import matplotlib.pyplot as plt

    ff = seams.FF
    t, p = s["t"], s["p"]
    extra = None
    if t == "weights":
        x, a, kw = weights_args(p)
        args = (a,)
        fn = ff.plot_graph_with_edge_weights
        desc = "plot_graph_with_edge_weights(%s, n=%d)" % (p["k"], p["n"])
    elif t == "planar":
        g, kw = planar_args(p, e)
        args = (g,)
        fn = ff.plot_planar_embedding
        desc = "plot_planar_embedding(%s, pfo=%s)" % (p["g"], p["pfo"])
    elif t == "pdf":
        rho, a, kw = pdf_args(p)
        args = (a,)
        fn = ops.OPS["cast_to_pdf"].fn().__globals__.get("analyze_pdf") or ff.analyze_pdf
        desc = "analyze_pdf(%s, n=%d)" % (p["k"], p["n"])
    else:
        g = ops.make_graph(p["g"])
        args, kw = (g,), {"verbose": True}
        fn = ff.pfo_algorithm
        desc = "pfo_algorithm(%s, verbose=True)" % (p["g"],)
    fz = ops.freeze((args, kw))
    f = s.get("fault")
    if t == "pfo":
        import networkx as nx
        extra = nx.convert_node_labels_to_integers(g)

    def examine(ret=None):
        ax, new = target(w, desc)
        if t == "weights":
            check_weights(p, x, kw, ret, w, ax, new, desc)
        elif t == "planar":
            check_planar(g, kw.get("pfo"), new, desc)
            if kw.get("title") and ax.get_title() != kw["title"]:
                fail("wrong-drawing", "%s: title %r" % (desc, ax.get_title()))
        elif t == "pdf":
            check_pdf(p, rho, kw, ax, new, desc)
        else:
            d = Drawing(new, desc)
            arrows = d.edges(d.red, True)
            if crossing([(q[0], q[1]) for q in d.plain]):
                fail("wrong-drawing", "%s: edges cross in plot %d" % (desc, w.shows))
            plain = d.edges(d.plain, False)
            w.captures.append((ax.get_title(), sorted(d.labels.values()), plain, arrows))

    def on_show():
        w.shows += 1
        examine()
        ax, new = target(w, desc)
        w.seen += new
        e.states.add("%s:%s:%s:%s" % (t, situation, s["show"], f["kind"] if f else None))
        if f and f["kind"] == "show" and w.shows == f["nth"]:
            e.fire("show:" + f["exc"])
            raise FAULT_EXC[f["exc"]]()
        k = s["show"]
        if k != "noop":
            e.nontrivial = True
        if k == "close_all":
            w.closed |= set(plt.get_fignums())
            plt.close("all")
        elif k == "close_current":
            w.closed.add(plt.gcf().number)
            plt.close()
            w.moved = True
        elif k == "switch":
            nums = plt.get_fignums()
            plt.figure(nums[r.randrange(len(nums))])
            w.moved = True
        elif k == "render":
            if r.random() < 0.3:
                try:
                    plt.gcf().canvas.draw()
                except RuntimeError:  # FreeType refuses glyphs of degenerate layouts; real windows report it elsewhere
                    e.stats["show:unrenderable"] += 1
        if w.moved or w.closed:
            rebase(w)
        e.stats["show:" + k] += 1

    e.on_show = on_show
    try:
        out = e.call(lambda: fn(*args, **kw), f if f and f["kind"] != "show" else None)
    finally:
        e.on_show = None
    fired = out.fired or (f is not None and f["kind"] == "show" and w.shows >= f["nth"])
    e.log.append([t, situation, s["show"], f and f["kind"], out.ok, w.shows, fired])
    if fired:
        e.nontrivial = True
    if ops.freeze((args, kw)) != fz:
        fail("argument-changed", "%s changed its arguments" % desc)
    untouched(w, desc)
    if not out.ok:
        if not fired:
            fail("plot-fails", "%s raised %s: %s" % (desc, type(out.exc).__name__, str(out.exc)[:300]))
        return
    nums = [n for n in plt.get_fignums() if n not in w.nums]
    if len(nums) > (0 if w.cur is not None and not w.closed and not w.moved else 1):
        fail("figure-changed", "%s opened %d figures" % (desc, len(nums)))
    if fired:
        return  # survived the fault, drawing unspecified
    if w.shows == 0:
        examine(out.value if t == "weights" else None)
        e.states.add("%s:%s:unshown" % (t, situation))
    if t == "weights":
        if out.value is None:
            fail("wrong-graph", "%s returned nothing" % desc)
        check_returned(p, x, out.value, desc)
    elif t == "pfo":
        check_captures(e, extra, out.value, w, desc)
    elif out.value is not None:
        fail("wrong-graph", "%s returned %s" % (desc, ops.brief(out.value)))


def rebase(w):
    """The window system changed what is current: later drawing of the same call goes there."""
    import matplotlib.pyplot as plt

    w.others = [(n, a, st) for n, a, st in w.others if n not in w.closed]
    if plt.get_fignums():
        w.current.add(plt.gcf().number)
    if plt.get_fignums() and plt.gcf().axes:
        ax = plt.gca()
        w.others = [(n, a, st) for n, a, st in w.others if a is not ax]
        w.seen += content(ax)


def check_captures(e, g, pfo, w, desc):
    pfo = np.asarray(pfo)
    want = sorted(tuple(sorted((str(u), str(v)))) for u, v in g.edges)
    labels = sorted(map(str, g.nodes))
    full = []
    for u, v in g.edges:
        i, j = sorted((u, v))
        if pfo[i, j] < 0:
            full.append((str(i), str(j)))
        elif pfo[i, j] > 0:
            full.append((str(j), str(i)))
    full = sorted(full)
    if len(full) != len(want):
        fail("wrong-result", "%s returned an orientation with %d of %d edges" % (desc, len(full), len(want)))
    if not w.captures:
        return
    last = w.captures[-1]
    if last[1] != labels or last[2] != want or last[3] != full:
        fail("wrong-drawing", "%s: the last plot shows arrows %s, the result has %s" % (desc, last[3], full))
    for title, labs, plain, arrows in w.captures:
        if title in ("T", "H"):
            continue
        if labs != labels or plain != want or not set(arrows) <= set(full):
            fail("wrong-drawing", "%s: plot %r does not show the orientation being built" % (desc, title))
