"""C24 drawings, layouts and feature projections (Drawing.tla): what is on the axes after a call, read back from the artists."""
from common import *
import math, multiprocessing, warnings
import matplotlib
matplotlib.use("Agg")
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_hex
from matplotlib.collections import PatchCollection
from matplotlib.patches import Arc, Circle, FancyArrow, PathPatch
import sklearn
import dhg
import dhg.visualization as vis

warnings.simplefilter("ignore")
PALETTE = ["tab:blue", "tab:orange", "tab:green", "tab:red", "tab:purple", "tab:brown", "tab:pink", "tab:olive", "tab:cyan", "gold", "navy", "teal",
           "lime", "indigo", "salmon", "khaki", "plum", "peru", "azure", "coral", "wheat", "orchid", "sienna", "maroon", "beige", "tan", "snow", "linen"]
NONE = {"f": "none", "v": []}


# ---------------------------------------------------------------- structures
def make(st):
    nu, nv, es = st["nu"], st["nv"], st["es"]
    k = st["kind"]
    if k == "G":
        return dhg.Graph(nv, [tuple(e) for e in es])
    if k == "D":
        return dhg.DiGraph(nv, [tuple(e) for e in es])
    if k == "B":
        return dhg.BiGraph(nu, nv, [tuple(e) for e in es])
    h = dhg.Hypergraph(nv)
    for i, e in enumerate(es):
        h.add_hyperedges([list(e)], group_name="extra" if i in st["extra"] else "main")
    return h


def content(o):
    r = [o.num_e, [list(x) for x in o.e[0]], list(o.e[1])]
    if isinstance(o, dhg.Hypergraph):
        r.append([(n, [list(x) for x in o.e_of_group(n)[0]]) for n in sorted(o.group_names)])
    return r


def edges_of(o, kind, nu):
    """the edges in the library's order; vertices of V of a bipartite graph after those of U"""
    if kind == "B":
        return [[u, v + nu] for u, v in o.e[0]]
    return [list(e) for e in o.e[0]]


# ---------------------------------------------------------------- options
def color(g, name):
    rgb = matplotlib.colors.to_rgb(name)
    return g.choice([name, name, to_hex(name), tuple(rgb), list(rgb)])


def colors(g, form, n):
    """option value and what it says"""
    if form == "none":
        return None, NONE
    if form == "one":
        c = g.choice(PALETTE)
        v = g.choice([c, to_hex(c), list(matplotlib.colors.to_rgb(c))])
        return v, {"f": "one", "v": [to_hex(c)]}
    k = n + {"list": 0, "short": -1, "long": 1}[form]
    cs = g.sample(PALETTE, k) if k <= len(PALETTE) else [g.choice(PALETTE) for _ in range(k)]
    return [color(g, c) for c in cs], {"f": "list", "v": [to_hex(c) for c in cs]}


def sizes(g, form, n, low=1, high=12):
    if form == "none":
        return None, NONE
    q = lambda: g.randint(low, high)
    if form == "one":
        x = q()
        return (x // 4 if x % 4 == 0 and g.random() < 0.5 else x / 4), {"f": "one", "v": [x]}
    k = n + {"list": 0, "short": -1, "long": 1}[form]
    v = [q() for _ in range(k)]
    return [x / 4 for x in v], {"f": "list", "v": v}


def labels(g, form, n):
    if form in ("none", "one"):
        return None, NONE
    k = n + {"list": 0, "short": -1, "long": 1}[form]
    v = ["%s%d" % (g.choice(["v", "x ", "é"]), i) if g.random() < 0.85 else "" for i in range(k)]
    return (tuple(v) if g.random() < 0.2 else list(v)), {"f": "list", "v": v}


ARGS = {"vsz": "v_size", "vlw": "v_line_width", "vcol": "v_color", "vlab": "v_label", "usz": "u_size", "ulw": "u_line_width", "ucol": "u_color", "ulab": "u_label",
        "elw": "e_line_width", "ecol": "e_color", "efill": "e_fill_color"}
BYKIND = {"G": ["vsz", "vlw", "vcol", "vlab", "elw", "ecol", "efill"], "D": ["vsz", "vlw", "vcol", "vlab", "elw", "ecol"], "H": ["vsz", "vlw", "vcol", "vlab", "elw", "ecol", "efill"],
          "B": ["vsz", "vlw", "vcol", "vlab", "usz", "ulw", "ucol", "ulab", "elw", "ecol"]}
STRENGTHS = {"G": ["push_v_strength", "push_e_strength", "pull_e_strength", "pull_center_strength"],
             "B": ["push_u_strength", "push_v_strength", "push_e_strength", "pull_e_strength", "pull_u_center_strength", "pull_v_center_strength"]}
DRAW = {"G": vis.draw_graph, "D": vis.draw_digraph, "B": vis.draw_bigraph, "H": vis.draw_hypergraph}


def option(g, name, form, st, ne):
    n = st["nu"] if name[0] == "u" else ne if name[0] == "e" else st["nv"]
    if name.endswith("col") or name == "efill":
        return colors(g, form, n)
    if name.endswith("lab"):
        return labels(g, form, n)
    low = 0 if name == "vlw" or name == "ulw" or (name == "elw" and st["kind"] != "D") else 1
    high = 12 if name.endswith("lw") or g.random() < 0.7 else 48
    return sizes(g, form, n, low, high)


# ---------------------------------------------------------------- the canvas
def canvas(ax):
    V, T, A, P, R, K, other = [], [], [], [], [], [], 0

    def circle(path, lw, c):
        v = np.asarray(path.vertices)
        lo, hi = v.min(0), v.max(0)
        V.append({"x": enc((lo[0] + hi[0]) / 2), "y": enc((lo[1] + hi[1]) / 2), "r": enc((hi[0] - lo[0]) / 2), "lw": enc(lw), "c": c})

    for o in ax.collections:
        if isinstance(o, PatchCollection):
            f, w = o.get_facecolors(), o.get_linewidths()
            for i, p in enumerate(o.get_paths()):
                circle(p, w[i % len(w)], to_hex(f[i % len(f)]))
        else:
            other += 1
    for o in ax.patches:
        if isinstance(o, FancyArrow):
            A.append({"x0": enc(o._x), "y0": enc(o._y), "x1": enc(o._x + o._dx), "y1": enc(o._y + o._dy), "lw": enc(o.get_linewidth()), "c": to_hex(o.get_facecolor()), "head": bool(o._head_width > 0), "hw": enc(o._head_width)})
        elif isinstance(o, Arc):
            (x, y), r = o.get_center(), o.get_width() / 2
            pt = lambda t: (x + r * math.cos(math.radians(t)), y + r * math.sin(math.radians(t)))
            s, t = pt(o.theta1), pt(o.theta2)
            R.append({"x": enc(x), "y": enc(y), "r": enc(r), "sx": enc(s[0]), "sy": enc(s[1]), "ex": enc(t[0]), "ey": enc(t[1]),
                      "full": bool(abs(abs(o.theta2 - o.theta1) - 360) < 1e-6 and o.get_width() == o.get_height()), "lw": enc(o.get_linewidth()), "c": to_hex(o.get_edgecolor())})
        elif isinstance(o, Circle):
            if o.get_fill():
                circle(o.get_transform().transform_path(o.get_path()) if False else o.get_patch_transform().transform_path(o.get_path()), o.get_linewidth(), to_hex(o.get_facecolor()))
            else:
                (x, y), r = o.get_center(), o.get_radius()
                K.append({"x": enc(x), "y": enc(y), "r": enc(r), "lw": enc(o.get_linewidth()), "c": to_hex(o.get_edgecolor())})
        elif isinstance(o, PathPatch):
            segs, at = [], None
            for v, code in zip(o.get_path().vertices, o.get_path().codes):
                if code == 1:
                    at = v
                elif code == 2:
                    segs.append(encl([*at, *v]))
                    at = v
                else:
                    other += 1
            P.append({"segs": segs, "lw": enc(o.get_linewidth()), "c": to_hex(o.get_edgecolor()), "fill": to_hex(o.get_facecolor())})
        else:
            other += 1
    for t in ax.texts:
        x, y = t.get_position()
        T.append({"t": t.get_text(), "x": enc(x), "y": enc(y), "fs": enc(t.get_fontsize()), "fam": (t.get_fontfamily() or [""])[0]})
    other += len(ax.lines) + len(ax.images)
    return {"V": V, "T": T, "A": A, "P": P, "R": R, "K": K}, other


def draw(g, st, forms, style=None, pulled=False):
    """one drawing; forms: option name -> form"""
    k = st["kind"]
    o = make(st)
    es = edges_of(o, k, st["nu"])
    full = {n: dict(NONE) for n in ARGS}
    kw = {}
    for n in BYKIND[k]:
        f = forms.get(n, "default")
        if f == "default":
            continue
        if f == "short" and (st["nu"] if n[0] == "u" else len(es) if n[0] == "e" else st["nv"]) == 0:
            f = "long"
        v, full[n] = option(g, n, f, st, len(es))
        if n.endswith("lab") and f in ("none", "one"):
            v = None
        kw[ARGS[n]] = v
    style = style or g.choice(["line", "circle"] if k == "G" else ["circle"] if k == "H" else ["line"])
    if style != ("circle" if k == "H" else "line") or g.random() < 0.5:
        kw["e_style"] = style
    a = {**full, "vfs": 4, "ufs": 4, "fam": "sans-serif", "wrongtype": False}
    if g.random() < 0.6:
        a["vfs"] = g.randint(2, 10)
        kw["v_font_size" if k == "B" else "font_size"] = a["vfs"] / 4
    if k == "B" and g.random() < 0.6:
        a["ufs"] = g.randint(2, 10)
        kw["u_font_size"] = a["ufs"] / 4
    if g.random() < 0.3:
        a["fam"] = g.choice(["serif", "monospace"])
        kw["font_family"] = a["fam"]
    strengths = STRENGTHS["B" if k == "B" else "G"]
    if pulled:
        kw.update({s: 0.0 for s in strengths if s != "pull_e_strength"})
    else:
        for s in strengths:
            if g.random() < 0.2:
                kw[s] = g.choice([0.5, 1.0, 2.0, 1, None])
    how, target = g.choice(["function", "method"]), o
    if forms.get("wrongtype"):
        a["wrongtype"], how = True, "function"
        target = make({"kind": g.choice([x for x in "GDBH" if x != k]), "nu": 2, "nv": 3, "es": [[0, 1]], "extra": []})
    before, argb = content(target), repr(sorted(kw.items()))
    e = {"op": "draw", "st": {"kind": k, "nu": st["nu"], "nv": st["nv"], "es": es}, "style": style, "a": a, "pulled": pulled, "ok": True, "err": "", "c": {}, "other": 0,
         "lim": [0, 0, 0, 0], "sig": "%s:%s%s" % (k, style, ":pulled" if pulled else ""), "pure": True, "pureA": True}
    plt.close("all")
    np.random.seed(g.randrange(1 << 30))
    try:
        with sklearn.config_context(assume_finite=True, skip_parameter_validation=True):  # only for speed
            DRAW[k](target, **kw) if how == "function" else target.draw(**kw)
        ax = plt.gcf().axes[0]
        e["c"], e["other"] = canvas(ax)
        e["lim"] = encl([*ax.get_xlim(), *ax.get_ylim()])
        if len(plt.get_fignums()) != 1 or len(plt.gcf().axes) != 1:
            e["other"] += 1
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    plt.close("all")
    e["pure"] = content(target) == before
    e["pureA"] = repr(sorted(kw.items())) == argb
    return e


def random_structure(g, big=False):
    k = g.choice("GDBHH")
    if k == "B":
        nu, nv = g.randint(1, 6), g.randint(1, 6)
        pos = [(u, v) for u in range(nu) for v in range(nv)]
        return {"kind": k, "nu": nu, "nv": nv, "es": [list(e) for e in g.sample(pos, g.randint(1, min(9, len(pos))))], "extra": []}
    nv = g.randint(1 if k == "H" else 2, 9)
    if k == "H":
        es = []
        for _ in range(g.randint(1, 10 if big else 6)):
            m = g.sample(range(nv), min(nv, g.choice([1, 2, 2, 3, 3, 4, 5, 6])))
            if sorted(m) not in [sorted(x) for x in es]:
                es.append(m)
        extra = []
        if g.random() < 0.4:  # the same hyperedge in two groups
            es.append(list(g.choice(es)))
            extra = [len(es) - 1]
        return {"kind": k, "nu": 0, "nv": nv, "es": es, "extra": extra}
    pos = [(u, v) for u in range(nv) for v in range(nv) if (k == "D" or u <= v) and (u != v or g.random() < 0.2)]
    return {"kind": k, "nu": 0, "nv": nv, "es": [list(e) for e in g.sample(pos, g.randint(1, min(9, len(pos))))], "extra": []}


def matching(g):
    """disjoint edges and isolated vertices on every side"""
    k = g.choice("GDBBH")
    m = g.randint(1, 4)
    if k == "B":
        nu, nv = m + 5, m + 5
        us, vs = g.sample(range(nu), m), g.sample(range(nv), m)
        return {"kind": k, "nu": nu, "nv": nv, "es": [[u, v] for u, v in zip(us, vs)], "extra": []}
    size = 2 if k != "H" else g.choice([2, 3])
    nv = m * size + 8
    vs = g.sample(range(nv), m * size)
    return {"kind": k, "nu": 0, "nv": nv, "es": [vs[i * size:(i + 1) * size] for i in range(m)], "extra": []}


def forms_for(g, k):
    return {n: g.choice(["none", "one", "list", "list", "default"]) for n in BYKIND[k] if g.random() < 0.6}


def job(a):
    kind, seed, arg = a
    g = random.Random(seed)
    if kind == "model":
        nu = 2 if arg["kind"] == "B" else 0
        st = {"kind": arg["kind"], "nu": nu, "nv": 2 if nu else 3, "es": arg["es"], "extra": []}
        if arg["o"] not in BYKIND[st["kind"]]:
            return []
        ok = [s for s in ("line", "circle") if s in ({"G": ["line", "circle"], "H": ["circle"]}.get(st["kind"], ["line"]))]
        ev = [draw(g, st, {"vlab": "list", "ulab": "list"}, g.choice(ok))] if g.random() < 0.5 else []
        ev.append(draw(g, st, {arg["o"]: arg["f"]}, arg["style"]))
        if arg["f"] in ("short", "long") or arg["style"] not in ok:
            ev.append(draw(g, st, forms_for(g, st["kind"])))
        return ev
    if kind == "random":
        st = random_structure(g, g.random() < 0.3)
        ev = [draw(g, st, forms_for(g, st["kind"])) for _ in range(2)]
        if g.random() < 0.1:
            ev.append(draw(g, st, {"wrongtype": True}))
        return ev
    if kind == "pulled":
        return [draw(g, matching(g), {}, pulled=True)]
    if kind == "layout":
        return layout(g)
    if kind == "ball":
        return ball(g)
    return scatter(g)


# ---------------------------------------------------------------- the layout alone
def layout(g):
    from dhg.visualization.structure.simulator import Simulator as S
    n = g.randint(2, 6)
    while True:
        pos = [[g.randint(-24, 24) / 4, g.randint(-24, 24) / 4] for _ in range(n)]
        es = []
        for _ in range(g.randint(1, 4)):
            m = sorted(g.sample(range(n), g.randint(1, min(n, 4))))
            if m not in es:
                es.append(m)
        cs = [[sum(pos[v][d] for v in m) / len(m) for d in (0, 1)] for m in es]
        far = lambda ps: all(math.dist(p, q) > 0.5 for i, p in enumerate(ps) for q in ps[:i])
        if far(pos) and far(cs) and all(math.dist(pos[v], c) > 0.25 or len(m) == 1 for m, c in zip(es, cs) for v in m):
            break
    q = lambda: g.choice([0.0, 0.125, 0.03125, 0.0078125])
    two = g.random() < 0.5
    nf = g.randint(1, n - 1) if two else n
    pull, epush = q(), g.choice([None, q()])
    push, grav = ([q(), q()], [q(), q()]) if two else (q(), q())
    centers = [np.array([5, 0]), np.array([-5, 0])] if two else [np.array([0, 0])]
    steps = g.choice([1, 1, 2, 3])
    H = np.zeros((n, len(es)))
    for k, m in enumerate(es):
        H[m, k] = 1
    P = np.array(pos)
    pair = lambda x: [x, x] if not isinstance(x, list) else x
    e = {"op": "layout", "pos": encm(pos), "es": es, "nf": nf, "n": steps, "ok": True, "err": "", "out": [], "pure": True, "sig": "layout:%s" % ("two" if two else "one"),
         "f": {"pull": enc(pull), "push": encl(pair(push)), "epush": enc(epush or 0), "grav": encl(pair(grav)), "centers": [encl(c) for c in ([[5, 0], [-5, 0]] if two else [[0, 0], [0, 0]])]}}
    try:
        sim = S(nums=nf, forces={S.NODE_ATTRACTION: pull, S.NODE_REPULSION: push, S.EDGE_REPULSION: epush, S.CENTER_GRAVITY: grav}, centers=centers)
        e["out"] = encm(sim.simulate(P, H, max_iter=steps, epsilon=0.0).tolist())
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    e["pure"] = P.tolist() == pos and all(bool(H[v, k] == (v in m)) for k, m in enumerate(es) for v in range(n))
    return [e]


# ---------------------------------------------------------------- feature projections
def symmetric(g, dim):
    """unit rows whose principal axes are the coordinate axes: all sign changes of a few rows"""
    base = []
    for _ in range(g.randint(1, 3)):
        r = sorted([g.uniform(0.1, 1) * s for s in ([3, 1] if dim == 2 else [6, 2.5, 1])], reverse=True)
        n = math.sqrt(sum(x * x for x in r))
        base.append([x / n for x in r])
    X = [[x * s for x, s in zip(r, sg)] for r in base for sg in np.ndindex(*[2] * dim) for sg in [[1 - 2 * b for b in sg]]]
    var = [sum(r[d] ** 2 for r in X) for d in range(dim)]
    if any(var[d] < 1.2 * var[d + 1] for d in range(dim - 1)):
        return symmetric(g, dim)
    g.shuffle(X)
    return X


def ball(g):
    dim = g.choice([2, 3])
    exact = g.random() < 0.5
    if exact:
        X = symmetric(g, dim)
        mx = [max(abs(r[d]) for r in X) for d in range(dim)]
        U = [[2 * r[d] / mx[d] for d in range(dim)] for r in X]
        perm = g.sample(range(dim), dim)
        X = [[r[p] * k for p in perm] for r in X for k in [g.choice([0.5, 1, 3])]]   # the length of a row does not matter
    else:
        X = [[g.uniform(-1, 1) for _ in range(len(X0))] for X0 in [[0] * g.choice([3, 5, 8])] for _ in range(g.randint(4, 14))]
        U = []
        if g.random() < 0.2:
            X[g.randrange(len(X))] = [0.0] * len(X[0])
        if g.random() < 0.1:
            X = [list(X[0]) for _ in X]
    A = np.array(X)
    B = A.copy()
    kw = {} if dim == 2 and g.random() < 0.5 else {"dim": dim}
    e = {"op": "ball", "dim": dim, "n": len(X), "U": encm(U) if U else [], "ok": True, "err": "", "out": [], "pure": True, "sig": "ball:%d" % dim}
    try:
        e["out"] = encm(vis.project_to_poincare_ball(A, **kw).tolist())
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    e["pure"] = bool(np.array_equal(A, B))
    ev = [e]
    if g.random() < 0.3:
        b = {"op": "badcall", "ok": True, "sig": "ball:bad"}
        try:
            vis.project_to_poincare_ball(A, **g.choice([{"dim": 1}, {"dim": 4}, {"reduce_method": "umap"}]))
        except Exception:
            b["ok"] = False
        ev.append(b)
    return ev


def scatter(g):
    what = g.choice(["euclid", "ball-pca", "ball-pca", "ball-tsne", "movie-ball", "movie-euclid"])
    dim = 3 if what.startswith("movie") else g.choice([2, 3])
    n = g.randint(34, 45) if what in ("euclid", "ball-tsne", "movie-euclid") else g.randint(5, 20)
    A = np.array([[g.uniform(-1, 1) for _ in range(6)] for _ in range(n)])
    flat = what == "ball-pca" and g.random() < 0.15
    if flat:
        A = np.array([A[0].tolist()] * n)
    lab = np.array([g.randint(0, 4) for _ in range(n)]) if g.random() < 0.7 else None
    B = A.copy()
    e = {"op": "scatter", "dim": dim, "n": n, "ok": True, "err": "", "out": [], "proj": [], "flat": [flat] * dim, "lab": [], "want": [] if lab is None else lab.tolist(), "pure": True, "sig": "scatter:" + what}
    plt.close("all")
    try:
        if what == "euclid":
            vis.draw_in_euclidean_space(A, lab, dim=dim)
        elif what == "ball-pca":
            vis.draw_in_poincare_ball(A, lab, dim=dim)
        elif what == "ball-tsne":
            vis.draw_in_poincare_ball(A, lab, dim=dim, reduce_method="tsne")
        elif what == "movie-ball":
            ani = vis.animation_of_3d_poincare_ball(A, lab)
        else:
            ani = vis.animation_of_3d_euclidean_space(A, lab)
        fig = plt.gcf()
        if what.startswith("movie"):
            fig.canvas.draw()
        cs = fig.axes[0].collections
        if len(cs) == 1:
            c = cs[0]
            pts = np.array(c._offsets3d).T if dim == 3 else np.asarray(c.get_offsets())
            e["out"] = encm([[float(x) for x in p] for p in pts])
            if lab is not None:
                e["lab"] = [int(x) for x in c.get_array()]
        if what in ("ball-pca", "movie-ball"):
            e["proj"] = encm(vis.project_to_poincare_ball(B.copy(), dim).tolist())
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    plt.close("all")
    e["pure"] = bool(np.array_equal(A, B))
    return [e]


def C24(c):
    g = c.rng
    tests = c.model("MC_Drawing")
    tests = [t for t in tests if t["o"] in BYKIND[t["kind"]] and (t["o"][1:] != "lab" or t["f"] != "one")]
    jobs = [("model", g.randrange(1 << 30), t) for t in g.sample(tests, min(len(tests), c.budget(420, 6000)))]
    for kind, q, t in (("random", 200, 4000), ("pulled", 60, 600), ("layout", 500, 6000), ("ball", 150, 1500), ("scatter", 60, 500)):
        jobs += [(kind, g.randrange(1 << 30), None) for _ in range(c.budget(q, t))]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        evs = pool.map(job, jobs, chunksize=4)
    traces = [{"id": "%s-%d" % (j[0], i), "ev": ev} for i, (j, ev) in enumerate(zip(jobs, evs)) if ev]
    c.validate("Trace_Drawing", traces)


CHECKS = {"C24": C24}
