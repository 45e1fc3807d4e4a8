"""C01-C11: properties of structures, decided on Store.tla."""
import itertools
from common import *
from store import *

CONTENT = {"G": ["v", "num_v", "num_e", "e", "e_both_side", "deg_v", "nbr_v"],
           "D": ["v", "num_v", "num_e", "e", "deg_v_in", "deg_v_out", "nbr_v_in", "nbr_v_out"],
           "B": ["u", "v", "num_u", "num_v", "num_e", "e", "deg_u", "deg_v", "nbr_u", "nbr_v"],
           "H": ["v", "num_v", "num_e", "num_groups", "group_names", "v_weight", "e", "deg_v", "deg_e", "nbr_e", "nbr_v"]}


def maximal(seqs):
    """drop behaviours that are a proper prefix of another one"""
    pre = set()
    for s in seqs:
        for i in range(1, len(s)):
            pre.add(json.dumps(s[:i], sort_keys=True))
    return [s for s in seqs if json.dumps(s, sort_keys=True) not in pre]


def vary(ev, r):
    """pick spellings the model does not distinguish"""
    ev = copy.deepcopy(ev)
    if ev["op"] in ("add", "remove", "new"):
        es = ev.get("es", ev.get("ps", []))
        ev["spell"] = r.choice(["tuples", "lists", "single", "tupleoftuples"])
        ev["spl"] = r.random() < .5
        ev["defmop"], ev["defgrp"] = r.random() < .5, r.random() < .5
        if ev.get("es") and all(e[-1] == ONE for e in es) and r.random() < .5:
            ev["hasw"] = False
        if ev["op"] == "new" and not es and r.random() < .5:
            ev["noargs"] = True
        ev["kind"] = ev.get("kind", "")
    if ev["op"] == "new" and ev["kind"] != "H":
        pass
    return ev


def replay(c, seqs, after=None, obs="all", tag="mc", finish=None):
    """run model behaviours against the library; after(gen, ev) runs after each call, finish(gen) at the end"""
    out = []
    for i, s in enumerate(seqs):
        g = Gen(random.Random("%s/%d/%d" % (tag, c.seed, i)), c.sc, obs=obs)
        for ev in s:
            ev = vary(ev, g.rng)
            if ev["op"] == "load" or ev["op"] == "save":
                ev["f"] = "%s" % ev["f"]
            g.next = max(g.next, ev.get("r", 0) + 1)
            g.x.run(ev)
            if after:
                after(g, ev)
        if finish:
            finish(g)
        out.append({"id": "%s-%d" % (tag, i), "ev": g.x.ev})
    return out


def histories(c, n, body, tag="rnd", obs="all", maxv=6):
    out = []
    for i in range(n):
        g = Gen(random.Random("%s/%s/%d/%d" % (c.prop, tag, c.seed, i)), c.sc, obs=obs, maxv=maxv)
        body(g)
        out.append({"id": "%s-%d" % (tag, i), "ev": g.x.ev})
    return out


def mcfg(k):
    return os.path.join(SPEC, "MC_Store_%s.cfg" % k)


LENS = {"G": (4, 5), "D": (4, 5), "B": (4, 5), "H": (4, 5), "Fam": (4, 5), "File": (5, 6)}


def mc(c, k):
    """every transition of the bounded model as a call sequence (the model run itself is always exhaustive)"""
    env = {"MC_LEN": str(c.budget(*LENS[k]))}
    return maximal(c.model("MC_Store", cfg=mcfg(k), env=env, workers=1))


def sample(c, seqs, n):
    if len(seqs) <= n:
        return seqs
    return [seqs[i] for i in sorted(c.rng.sample(range(len(seqs)), n))]


def objs(g):
    return [o for o in sorted(g.x.h)]


# ------------------------------------------------------------------ C01-C03
def content(c, kinds):
    for k in kinds:
        seqs = sample(c, mc(c, k), c.budget(900, 20000))
        fin = lambda g: g.views(1, names=CONTENT[k])
        c.validate("Trace_Store", replay(c, seqs, tag="mc" + k, finish=fin, obs="all"))
        # the same histories unobserved until the end: nothing is cached in between
        c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(300, 5000)), tag="cold" + k, finish=fin, obs="none"))
    n = c.budget(140, 1500)

    def body(g):
        k = g.rng.choice(kinds)
        o = g.new(k)
        if o is None:
            return
        for _ in range(g.rng.randint(3, c.budget(12, 30))):
            p = g.rng.random()
            o = g.rng.choice(objs(g)) if len(g.x.h) < 4 else g.rng.choice(objs(g)[-3:])
            if p < .72:
                g.edit(o)
            elif p < .9:
                g.view(o, names=CONTENT[k])
            else:
                g.copyop(o)
        for o in objs(g)[-2:]:
            g.views(o, names=CONTENT[k])
    c.validate("Trace_Store", histories(c, n, body, obs="all"))
    c.validate("Trace_Store", histories(c, n, body, tag="cold", obs="none"))


def c01(c):
    content(c, ["G"])


def c02(c):
    content(c, ["D", "B"])


def c03(c):
    content(c, ["H"])


# ------------------------------------------------------------------ C04
def c04(c):
    for k in "GDBH":
        seqs = mc(c, k)
        # warm: every view is read after every call, so every cache is filled when the next edit arrives
        c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(170, 3000)), tag="warm" + k, obs="none",
                                         after=lambda g, ev: 1 in g.x.h and g.views(1)))
        # one view warm, an edit, then everything
        def one(g, ev):
            if 1 in g.x.h:
                w = g.wanted(1, laps=True)
                g.x.run({"op": "views", "o": 1, "want": [g.rng.choice(w)]})
        c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(120, 2000)), tag="one" + k, obs="none",
                                         after=one, finish=lambda g: g.views(1, laps=True)))

    def body(g):
        g.new(ne=g.rng.choice([2, 4, 6, 9]))
        for _ in range(g.rng.randint(4, c.budget(10, 25))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-3:])
            p = g.rng.random()
            if p < .4:
                g.edit(o)
            elif p < .8:
                g.view(o, laps=True)
            elif p < .9:
                g.views(o)
            else:
                g.copyop(o)
        for o in objs(g)[-2:]:
            w = g.wanted(o)
            g.rng.shuffle(w)
            g.x.run({"op": "views", "o": o, "want": w[:60]})
    c.validate("Trace_Store", histories(c, c.budget(150, 2500), body, obs="none"))


# ------------------------------------------------------------------ C05
def bad_call(g, o):
    """a call that must be refused"""
    r = g.rng
    x = g.x.h[o]
    k = kind_of(x)
    n = x.num_v
    p = r.random()
    if p < .55:
        if k == "H":
            es = [[g.hedge(x), g.w()] for _ in range(r.randint(1, 3))]
            ev = {"op": "add", "o": o, "mop": "mean", "grp": r.choice(["main", "g1"]), "spell": "lists", "hasw": True, "nw": len(es), "kind": "H", "es": es}
        else:
            es = [g.pair(x) + [g.w()] for _ in range(r.randint(1, 3))]
            ev = {"op": "add", "o": o, "mop": "mean", "grp": "", "spell": r.choice(["lists", "tuples"]), "hasw": True, "nw": len(es), "kind": k, "es": es}
        why = r.choice(["range", "mop", "nw", "neg"])
        if k == "H" and why == "range":
            why = "mop"          # see c05: an accepted out-of-range hyperedge corrupts memory when its matrices are built
        i = r.randrange(len(es))
        if why == "range":
            if k == "H":
                es[i][0] = es[i][0][:2] + [n + r.randrange(2)]
            elif k == "B":
                j = r.randrange(2)
                es[i][j] = (x.num_u if j == 0 else n) + r.randrange(2)
            else:
                es[i][r.randrange(2)] = n + r.randrange(2)
        elif why == "neg":
            if k == "H":
                es[i][0] = [-1] + es[i][0][:2]
            else:
                es[i][r.randrange(2)] = -1 - r.randrange(2)
        elif why == "mop":
            ev["mop"] = r.choice(["median", "Mean", "min"])
        else:
            ev["nw"] = max(0, len(es) + r.choice([-1, 1, 2]))
        ev["sig"] = "bad-add:%s:%s" % (k, why)
        return g.x.run(ev)
    if p < .7:
        if k == "H":
            ev = {"op": "remove", "o": o, "og": True, "grp": "nope", "ps": [[0]], "spell": "lists", "sig": "bad-remove:H"}
        else:
            q = [0, 0]
            j = r.randrange(2)
            q[j] = (x.num_u if (k == "B" and j == 0) else n) + r.randrange(3)
            ev = {"op": "remove", "o": o, "og": False, "grp": "", "ps": [g.pair(x), q] if r.random() < .5 else [q], "spell": "lists", "sig": "bad-remove:" + k}
        return g.x.run(ev)
    return refuse(g, o)


def refuse(g, o):
    r, k = g.rng, kind_of(g.x.h[o])
    whys = ["badaggr", "baddrop", "badweights", "badweights"] + {"G": ["hop0"], "D": ["baddir"], "B": [], "H": ["badgroup", "badgroup", "badrange", "knn", "othersize"]}[k]
    why = r.choice(whys)
    ev = {"op": "reject", "o": o, "why": why, "m": r.randrange(1 << 20), "sig": "reject:%s:%s" % (k, why)}
    return g.x.run(ev)


def bad_new(g):
    r = g.rng
    k = r.choice("GDBH")
    why = r.choice(["nv", "vw"] if k == "H" else ["nv", "range"])
    ev = {"op": "new", "r": g.fresh(), "kind": k, "nu": 2 if k == "B" else 0, "nv": 3, "mop": "mean", "extra": False,
          "vw": [ONE] * 3 if k == "H" else [], "hasvw": False, "es": [], "hasw": False, "nw": 0, "spell": "lists", "sig": "bad-new:%s:%s" % (k, why)}
    if why == "nv":
        ev["nv"] = r.choice([0, -1])
        ev["vw"] = []
    elif why == "range":
        ev["es"], ev["nw"] = ([[[0, 3], ONE]] if k == "H" else [[0, 3, ONE]]), 1
    else:
        ev["hasvw"], ev["vw"] = True, [ONE] * r.choice([2, 4])
    return g.x.run(ev)


def c05(c):
    seqs = mc(c, "Fam")

    def both(g, ev):
        """read views of every live object, so that shared caches or shared contents show"""
        for o in objs(g):
            g.x.run({"op": "views", "o": o, "want": g.rng.sample(w, min(len(w), 6)) if (w := g.wanted(o, laps=True)) else []})
    c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(500, 6000)), tag="fam", after=both,
                                     finish=lambda g: [g.views(o) for o in objs(g)] if g.rng.random() < .25 else None))

    def body(g):
        if g.rng.random() < .15:
            bad_new(g)
        for _ in range(g.rng.randint(1, 2)):
            g.new(ne=g.rng.choice([2, 4, 6]))
        for _ in range(g.rng.randint(5, c.budget(12, 25))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-4:])
            p = g.rng.random()
            if p < .3:
                g.edit(o)
            elif p < .5:
                g.copyop(o) if g.rng.random() < .8 or kind_of(g.x.h[o]) != "B" else g.x.run({"op": "switch", "o": o, "r": g.fresh()})
            elif p < .62:
                bad_call(g, o)
            elif p < .72:
                convert(g, o)
            elif p < .8:
                g.passop(o)
            elif p < .84:
                g.smooth(o)
            elif p < .88:
                g.drop(o)
            elif p < .91 and kind_of(g.x.h[o]) == "H":
                g.sub(o)
            else:
                g.x.run({"op": "views", "o": o, "want": g.rng.sample(w, min(len(w), 8)) if (w := g.wanted(o, laps=True)) else []})
        for o in objs(g)[-3:]:
            g.views(o)
    c.validate("Trace_Store", histories(c, c.budget(130, 2500), body, maxv=5))

    def refusals(g):
        k = g.rng.choice("GDBHHHH")
        o = g.new(k, ne=g.rng.choice([0, 3, 6]))
        for _ in range(14):
            if o and g.rng.random() < .85:
                refuse(g, o)
            elif o:
                g.edit(o)
    c.validate("Trace_Store", histories(c, c.budget(60, 600), refusals, tag="refuse", maxv=5))

    def out_of_range(g):
        """kept apart: no matrix may be built from an object that accepted such a hyperedge"""
        g.new("H", nv=3, ne=2)
        if g.rng.random() < .5:
            g.x.run({"op": "new", "r": 2, "kind": "H", "nu": 0, "nv": 3, "mop": "mean", "extra": False, "vw": [ONE] * 3, "hasvw": False, "es": [[[0, 3], ONE]],
                     "hasw": False, "nw": 1, "spell": "lists", "sig": "bad-new:H:range"})
        else:
            g.x.run({"op": "add", "o": 1, "mop": "mean", "grp": g.rng.choice(["main", "g1"]), "spell": "lists", "hasw": True, "nw": 1, "kind": "H",
                     "es": [[[0, 3 + g.rng.randrange(2)], ONE]], "sig": "bad-add:H:range"})
    c.validate("Trace_Store", histories(c, 6, out_of_range, tag="range"))


# ------------------------------------------------------------------ C06
def c06(c):
    seqs = mc(c, "File")
    fin = lambda g: [g.views(o, names=CONTENT[kind_of(g.x.h[o])]) for o in objs(g)[1:]]
    c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(1500, 20000)), tag="file", finish=fin))

    def body(g):
        g.new(ne=g.rng.choice([0, 1, 3, 6, 9]))
        fs = []
        for _ in range(g.rng.randint(4, c.budget(10, 25))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-3:])
            p = g.rng.random()
            if p < .4:
                g.edit(o)
            elif p < .55:
                g.views(o, names=g.rng.sample(VIEWS[kind_of(g.x.h[o])], 3))
            elif p < .75 or not fs:
                f = g.rng.choice(fs)[0] if fs and g.rng.random() < .25 else None
                ev = g.save(o) if f is None else g.x.run({"op": "save", "o": o, "f": f})
                if ev["ok"]:
                    fs = [q for q in fs if q[0] != ev["f"]] + [(ev["f"], kind_of(g.x.h[o]))]
            else:
                f, k = g.rng.choice(fs)
                g.load(f, g.rng.choice(["any", "any", k, k, k, g.rng.choice("GDBH")]))
        for o in objs(g)[-2:]:
            g.views(o)
    c.validate("Trace_Store", histories(c, c.budget(200, 3000), body))


# ------------------------------------------------------------------ C07
def convert(g, o):
    """one conversion out of the given object"""
    r = g.rng
    x = g.x.h[o]
    k = kind_of(x)
    if k == "H":
        q = r.choice(["star", "clique", "hgcn", "bi_from_h"])
        ev = {"op": q, "o": o, "r": g.fresh(), "weighted": r.random() < .6, "sig": q}
        if q == "clique":
            ev["miu"] = r.choice([ONE, ONE // 2, 2 * ONE])
        elif q == "hgcn":
            if any(len(e) < 2 for e in x.e[0]):
                return None
            f = r.sample(range(-3 * x.num_v, 3 * x.num_v), x.num_v)
            ev["f"] = [v * ONE // 4 for v in f]
            ev["med"] = r.random() < .5
            ev["sig"] = "hgcn:%s" % ev["med"]
        elif q == "bi_from_h":
            if x.num_e == 0:
                return None
            ev["vasu"] = r.random() < .5
        return g.x.run(ev)
    if k == "G":
        ev = {"op": "h_from", "o": o, "r": g.fresh(), "isnew": True, "nv": x.num_v, "grp": "main", "src": r.choice(["graph", "khop", "khop"]),
              "k": r.choice([1, 1, 2, 3, 4, 5]), "only": r.random() < .5}
        ev["sig"] = "h_from:%s" % ev["src"]
        return g.x.run(ev)
    if k == "B":
        u = r.random() < .5
        return g.x.run({"op": "h_from", "o": o, "r": g.fresh(), "isnew": True, "nv": x.num_u if u else x.num_v, "grp": "main", "src": "bi",
                        "uasv": u, "sig": "h_from:bi"})
    return None


def extend(g, o):
    """add hyperedges to an existing hypergraph from another source"""
    r = g.rng
    x = g.x.h[o]
    src = []
    for p in objs(g):
        y = g.x.h[p]
        k = kind_of(y)
        if k == "G" and y.num_v == x.num_v:
            src += [("graph", p), ("khop", p)]
        if k == "B" and y.num_u == x.num_v:
            src.append(("bi", p, True))
        if k == "B" and y.num_v == x.num_v:
            src.append(("bi", p, False))
    if not src:
        return knn_h(g, o)
    s = r.choice(src)
    return g.x.run({"op": "h_from", "o": s[1], "r": o, "isnew": False, "grp": r.choice(["main", "x", "g1"]), "src": s[0], "k": r.choice([1, 2]),
                    "only": r.random() < .5, "uasv": s[2] if len(s) > 2 else False, "nv": x.num_v, "sig": "h_add_from:%s" % s[0]})


def feats(r, n, d):
    """integer features whose pairwise distances from each row are distinct, so nearest neighbours are unique"""
    for _ in range(4000):
        f = [[r.randrange(-6, 7) for _ in range(d)] for _ in range(n)]
        ok = True
        for p in (0, 1, 2):
            for a in range(n):
                ds = []
                for b in range(n):
                    z = [abs(x - y) for x, y in zip(f[a], f[b])]
                    ds.append(max(z) if p == 0 else sum(z) if p == 1 else sum(v * v for v in z))
                if len(set(ds)) < n:
                    ok = False
        if ok:
            return f
    return None


def knn_h(g, o=None):
    r = g.rng
    n = g.x.h[o].num_v if o else r.randint(2, 6)
    f = feats(r, n, r.choice([1, 2, 3]))
    if f is None:
        return None
    return g.x.run({"op": "h_from", "r": o or g.fresh(), "o": 0, "isnew": o is None, "nv": n, "grp": r.choice(["main", "x"]) if o else "main", "src": "knn",
                    "k": r.randint(1, n), "f": f, "sig": "h_from:knn"})


def knn_d(g):
    r = g.rng
    n = r.randint(2, 6)
    f = feats(r, n, r.choice([1, 2, 3]))
    if f is None:
        return None
    inc = r.random() < .5
    return g.x.run({"op": "knn_d", "r": g.fresh(), "f": f, "k": r.randint(1, n if inc else n - 1), "p": r.choice([1, 2, 0]), "dw": r.random() < .5,
                    "inc": inc, "assrc": r.random() < .5, "sig": "knn_d"})


def from_adj(g):
    r = g.rng
    k = r.choice("GDB")
    nv, nu = r.randint(2, 5), r.randint(1, 4) if k == "B" else 0
    adj = []
    for _ in range(r.randint(1, 5)):
        if r.random() < .1:
            adj.append([])
            continue
        a = r.randrange(nu if k == "B" else nv)
        adj.append([a] + [r.randrange(nv) for _ in range(r.choice([0, 1, 2, 3]))])
    if not any(len(x) > 1 for x in adj):
        adj.append([0, 0 if k == "B" else 1])
    return g.x.run({"op": "adj", "r": g.fresh(), "kind": k, "nu": nu, "nv": nv, "extra": k != "B" and r.random() < .3, "adj": adj, "sig": "adj:" + k})


def c07(c):
    for k in "GBH":
        seqs = mc(c, k)
        c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(220, 4000)), tag="conv" + k,
                                         finish=lambda g: [convert(g, 1) for _ in range(4)] if 1 in g.x.h else None))

    def body(g):
        for _ in range(g.rng.randint(1, 2)):
            g.new(ne=g.rng.choice([0, 2, 4, 6] + [12] * g.wide * 3), nv=g.rng.randint(2, 5) if not g.wide else g.rng.randint(6, 12))
        for _ in range(g.rng.randint(4, c.budget(9, 20))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-4:])
            p = g.rng.random()
            if p < .25:
                g.edit(o)
            elif p < .6:
                convert(g, o)
            elif p < .72:
                h = [q for q in objs(g) if kind_of(g.x.h[q]) == "H"]
                if h:
                    extend(g, g.rng.choice(h))
            elif p < .78:
                knn_h(g)
            elif p < .86:
                knn_d(g)
            elif p < .94:
                from_adj(g)
            else:
                g.view(o)
    c.validate("Trace_Store", histories(c, c.budget(260, 4000), body))


# ------------------------------------------------------------------ C08 / C09
def c08(c):
    r = c.rng
    for k in "GDBH":
        seqs = mc(c, k)

        def fin(g):
            if 1 in g.x.h:
                for _ in range(c.budget(4, 8)):
                    g.passop(1)
        c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(150, 3000)), tag="pass" + k, obs="all", finish=fin))

    def body(g):
        g.new(ne=g.rng.choice([0, 3, 6, 9]))
        for _ in range(g.rng.randint(5, c.budget(12, 25))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-2:])
            p = g.rng.random()
            if p < .3:
                g.edit(o)
            elif p < .85:
                g.passop(o)
            elif p < .93:
                g.view(o, laps=True)
            else:
                g.copyop(o)
    c.validate("Trace_Store", histories(c, c.budget(260, 4000), body))

    # every option combination at least a few times
    def combos(g):
        k = g.rng.choice("GDBH")
        o = g.new(k, ne=8, nv=g.rng.randint(3, 5))
        if k == "H" and o:
            g.edit(o)
        if not o:
            return
        names = {"G": ["v2v_g"], "D": ["v2v_g"], "B": ["u2v", "v2u"],
                 "H": ["v2e_agg", "v2e_upd", "v2e", "e2v_agg", "e2v_upd", "e2v", "v2v_h"]}[k]
        for nm in names:
            for ag in ("mean", "sum", "softmax_then_sum"):
                for hw in (False, True):
                    g.passop(o, nm=nm, aggr=ag, hasw=hw)
    c.validate("Trace_Store", histories(c, c.budget(60, 800), combos, tag="combo"))


def c09(c):
    for k in "GBH":
        seqs = mc(c, k)
        laps = ["A"] + LV[k] if k != "H" else ["H"] + LV[k]
        fin = lambda g: (g.views(1, names=laps), g.smooth(1), g.smooth(1), g.views(1, names=["e", "num_e", "deg_v"])) if 1 in g.x.h else None
        c.validate("Trace_Store", replay(c, sample(c, seqs, c.budget(300, 5000)), tag="lap" + k, finish=fin))

    def body(g):
        k = g.rng.choice("GGBBHHD")
        g.new(k, ne=g.rng.choice([0, 2, 5, 8]))
        for _ in range(g.rng.randint(4, c.budget(10, 22))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-2:])
            p = g.rng.random()
            if p < .35:
                g.edit(o)
            elif p < .6:
                g.views(o, names=LV[kind_of(g.x.h[o])] or ["A"])
            elif p < .85:
                g.smooth(o)
            elif p < .95:
                g.view(o)
            else:
                g.copyop(o)
    c.validate("Trace_Store", histories(c, c.budget(220, 4000), body))


# ------------------------------------------------------------------ C10 / C11
def c10(c):
    for k in "GDBH":
        seqs = sample(c, mc(c, k), c.budget(130, 3000))

        def fin(g):
            if 1 in g.x.h:
                for rate in (0, ONE // 2, ONE):
                    g.drop(1, rate=rate)
                g.dropmat(1)
        c.validate("Trace_Store", replay(c, seqs, tag="drop" + k, finish=fin))

    def body(g):
        g.new(ne=g.rng.choice([2, 4, 8]))
        for _ in range(g.rng.randint(4, c.budget(9, 20))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-3:])
            p = g.rng.random()
            if p < .3:
                g.edit(o)
            elif p < .7:
                g.drop(o)
            elif p < .9:
                g.dropmat(o)
            else:
                g.view(o)
        for o in objs(g)[-2:]:
            g.views(o)
    c.validate("Trace_Store", histories(c, c.budget(200, 3000), body))

    def sp(g):
        r = g.rng
        for _ in range(6):
            full = [[r.randrange(1, 9) * (ONE // 4) * r.choice([0, 1, 1, -1]) for _ in range(r.choice([3, 3]))] for _ in range(r.choice([1, 3, 4]))]
            g.x.run({"op": "dropsp", "full": full, "rate": r.choice([0, ONE // 4, ONE // 2, ONE]), "fill": r.choice([0, 0, ONE // 2, -ONE]),
                     "givefill": r.random() < .5, "seed": r.randrange(1 << 30), "out": [], "sig": "sparse_dropout"})
    c.validate("Trace_Store", histories(c, c.budget(40, 400), sp, tag="sp"))
    c.validate("Trace_Store", [{"id": "rates", "ev": rates(c)}])


def rates(c):
    """kept counts over many draws, overall, per item and for pairs of items"""
    from dhg.utils import sparse_dropout
    ev = []
    draws = c.budget(300, 2000)
    n = 24
    G = Graph(n, [[i, (i + 1) % n] for i in range(n)])
    GL = Graph(n, [[i, i] for i in range(n)])
    D = DiGraph(n, [[i, (i + 1) % n] for i in range(n)])
    DL = DiGraph(n, [[i, i] for i in range(n)])
    B = BiGraph(n, n, [[i, i] for i in range(n)])
    H = Hypergraph(n, [[i, (i + 1) % n] for i in range(n // 2)])
    H.add_hyperedges([[i, (i + 1) % n] for i in range(n // 2, n)], group_name="b")
    M = torch.eye(n).to_sparse()
    items = {"G": lambda p: {min(e) if max(e) - min(e) == 1 else n - 1 for e in G.drop_edges(p).e[0]}, "GL": lambda p: {e[0] for e in GL.drop_edges(p).e[0]},
             "D": lambda p: {e[0] for e in D.drop_edges(p).e[0]}, "DL": lambda p: {e[0] for e in DL.drop_edges(p).e[0]},
             "B": lambda p: {e[0] for e in B.drop_edges(p).e[0]},
             "H": lambda p: {min(e) if max(e) - min(e) == 1 else n - 1 for e in H.drop_hyperedges(p).e[0]},
             "Hb": lambda p: {min(e) if max(e) - min(e) == 1 else n - 1 for e in H.drop_hyperedges_of_group("b", p).e[0] if min(e) >= n // 2 or max(e) - min(e) > 1},
             "sparse": lambda p: {i for i, v in enumerate(sparse_dropout(M, p).to_dense().diagonal().tolist()) if v != 0}}
    for name, f in items.items():
        for permille in (300, 700):
            torch.manual_seed(c.seed)
            random.seed(c.seed)
            got = [f(permille / 1000) for _ in range(draws)]
            univ = list(range(n)) if name != "Hb" else list(range(n // 2, n))
            add = lambda what, kept, tot, pm: ev.append({"op": "rate", "ok": True, "err": "%s %s" % (name, what), "pure": True, "obs": [], "n": tot, "kept": kept,
                                                        "permille": pm, "sig": "rate:%s:%s" % (name, what)})
            add("all", sum(len(s) for s in got), draws * len(univ), permille)
            for i in univ:
                add("item", sum(i in s for s in got), draws, permille)
            # pairs: kept together with probability (1-p)^2
            pp = 1000 - (1000 - permille) ** 2 // 1000
            for i in univ[:-1]:
                add("pair", sum(i in s and i + 1 in s for s in got), draws, pp)
    # dropped connections of message passing: every receiver has one sender (or one that matters)
    ones = torch.ones(n, 1)
    eo = torch.tensor([[float(i % 2 == 0)] for i in range(n)])          # even vertices send
    Gm, Dm = Graph(n, [[i, i + 1] for i in range(0, n, 2)]), DiGraph(n, [[i, (i + 1) % n] for i in range(n)])
    Hs = Hypergraph(n, [[i] for i in range(n // 2)])                     # one vertex per hyperedge
    Hs.add_hyperedges([[i] for i in range(n // 2, n)], group_name="b")
    Hp = Hypergraph(n, [[i, i + 1] for i in range(0, n, 2)])
    half = ones[: n // 2]
    nz = lambda X: {i for i, v in enumerate(X[:, 0].tolist()) if abs(v) > 1e-6}
    w = lambda m: torch.full((m,), 2.0)
    lo, hi = list(range(n // 2)), list(range(n // 2, n))
    msgs = {}
    for ag in ("sum", "mean"):
        for hw in (False, True):
            k = lambda name, m: {name: w(m)} if hw else {}
            tag = ":%s%s" % (ag, ":weights" if hw else "")
            msgs["G.v2v" + tag] = (range(n), lambda p, ag=ag, k=k("e_weight", n): nz(Gm.v2v(ones, ag, drop_rate=p, **k)))
            for d in ("src2dst", "dst2src"):
                msgs["D.v2v:" + d + tag] = (range(n), lambda p, d=d, ag=ag, k=k("e_weight", n): nz(Dm.v2v(ones, ag, direction=d, drop_rate=p, **k)))
            msgs["B.u2v" + tag] = (range(n), lambda p, ag=ag, k=k("e_weight", n): nz(B.u2v(ones, ag, drop_rate=p, **k)))
            msgs["B.v2u" + tag] = (range(n), lambda p, ag=ag, k=k("e_weight", n): nz(B.v2u(ones, ag, drop_rate=p, **k)))
            msgs["H.v2e" + tag] = (range(n), lambda p, ag=ag, k=k("v2e_weight", n): nz(Hs.v2e(ones, ag, drop_rate=p, **k)))
            msgs["H.e2v" + tag] = (range(n), lambda p, ag=ag, k=k("e2v_weight", n): nz(Hs.e2v(ones, ag, drop_rate=p, **k)))
            msgs["Hb.v2e" + tag] = (lo, lambda p, ag=ag, k=k("v2e_weight", n // 2): nz(Hs.v2e_of_group("b", ones, ag, drop_rate=p, **k)))
            msgs["Hb.e2v" + tag] = (hi, lambda p, ag=ag, k=k("e2v_weight", n // 2): nz(Hs.e2v_of_group("b", half, ag, drop_rate=p, **k)))
        # vertex -> hyperedge -> vertex: the sent messages and the received ones, dropped separately and together
        sent = lambda X: {i // 2 for i in nz(X)}
        msgs["H.v2v:v2e:" + ag] = (lo, lambda p, ag=ag: sent(Hp.v2v(eo, ag, v2e_drop_rate=p)))
        msgs["H.v2v:e2v:" + ag] = (range(n), lambda p, ag=ag: nz(Hp.v2v(eo, ag, e2v_drop_rate=p)))
        msgs["Hg.v2v:v2e:" + ag] = (lo, lambda p, ag=ag: sent(Hp.v2v_of_group("main", eo, ag, v2e_drop_rate=p)))
        msgs["Hg.v2v:e2v:" + ag] = (range(n), lambda p, ag=ag: nz(Hp.v2v_of_group("main", eo, ag, e2v_drop_rate=p)))
        msgs["H.v2v:both:" + ag] = (range(n), lambda p, ag=ag: nz(Hs.v2v(ones, ag, drop_rate=p)))
        msgs["Hg.v2v:both:" + ag] = (hi, lambda p, ag=ag: nz(Hs.v2v_of_group("b", ones, ag, drop_rate=p)))
    diag = lambda X: {i for i in range(n) if abs(X[i, i].item()) > 1e-6}
    eye = torch.eye(n)
    msgs["G.gcn"] = (range(n), lambda p: diag(Gm.smoothing_with_GCN(eye, drop_rate=p)))
    msgs["B.gcn"] = (range(n), lambda p: diag(B.smoothing_with_GCN(torch.eye(2 * n), drop_rate=p)))
    msgs["H.hgnn"] = (range(n), lambda p: diag(Hs.smoothing_with_HGNN(eye, drop_rate=p)))
    msgs["Hb.hgnn"] = (hi, lambda p: diag(Hs.smoothing_with_HGNN_of_group("b", eye, drop_rate=p)))
    for name, (univ, f) in msgs.items():
        for permille in (200, 600):
            torch.manual_seed(c.seed)
            got = [f(permille / 1000) for _ in range(draws // 3)]
            # a message through two stages survives both
            pm = 1000 - (1000 - permille) ** 2 // 1000 if ":both:" in name else permille
            ev.append({"op": "rate", "ok": True, "err": name, "pure": True, "obs": [], "n": len(got) * len(univ), "kept": sum(len(s & set(univ)) for s in got),
                       "permille": pm, "sig": "rate:" + name})
            ev.append({"op": "rate", "ok": True, "err": name, "pure": True, "obs": [], "n": len(got) * len(univ), "kept": sum(len(s) for s in got),
                       "permille": pm, "sig": "rate:" + name + ":elsewhere"})
            for i in list(univ)[:: max(1, len(univ) // 6)]:
                ev.append({"op": "rate", "ok": True, "err": name, "pure": True, "obs": [], "n": len(got), "kept": sum(i in s for s in got),
                           "permille": pm, "sig": "rate:" + name + ":item"})
    # rates far from a half, over many items
    n = 20000
    G = Graph(n, [[i, i + 1] for i in range(n - 1)])
    D = DiGraph(n, [[i, i + 1] for i in range(n - 1)])
    B = BiGraph(n, n, [[i, i] for i in range(n - 1)])
    H = Hypergraph(n, [[i, i + 1] for i in range(n - 1)])
    M = torch.sparse_coo_tensor(torch.arange(n - 1).view(1, -1), torch.ones(n - 1), size=(n,)).coalesce()
    kept = {"G": lambda p: G.drop_edges(p).num_e, "D": lambda p: D.drop_edges(p).num_e, "B": lambda p: B.drop_edges(p).num_e,
            "H": lambda p: H.drop_hyperedges(p).num_e, "Hb": lambda p: H.drop_hyperedges_of_group("main", p).num_e,
            "sparse": lambda p: int((sparse_dropout(M, p)._values() != 0).sum())}
    for name, f in kept.items():
        for inv in (2500, 200):
            torch.manual_seed(c.seed)
            random.seed(c.seed)
            k = f(1 / inv)
            ev.append({"op": "rare", "ok": True, "err": name, "pure": True, "obs": [], "n": n - 1, "inv": inv, "dropped": n - 1 - k, "sig": "rate:%s:rare" % name})
            ev.append({"op": "rare", "ok": True, "err": name, "pure": True, "obs": [], "n": n - 1, "inv": inv, "dropped": f(1 - 1 / inv), "sig": "rate:%s:rare-kept" % name})
    return ev


def c11(c):
    seqs = sample(c, mc(c, "H"), c.budget(350, 4000))

    def fin(g):
        if 1 in g.x.h:
            n = g.x.h[1].num_v
            for vs in ([0, 1], [2, 0], [1], list(range(n)), [2, 1, 2]):
                for mn in (1, 2):
                    g.x.run({"op": "sub", "o": 1, "r": g.fresh(), "vs": vs, "mn": mn, "spell": g.rng.choice(["list", "tuple"])})
            for _ in range(2):
                g.sub(1)
    c.validate("Trace_Store", replay(c, seqs, tag="sub", finish=fin))

    def body(g):
        g.new("H", ne=g.rng.choice([0, 3, 6, 9] + [14] * g.wide), nv=g.rng.randint(2, 7) if not g.wide else g.rng.randint(8, 13))
        for _ in range(g.rng.randint(4, c.budget(10, 22))):
            if not g.x.h:
                return
            o = g.rng.choice(objs(g)[-3:])
            p = g.rng.random()
            if p < .4:
                g.edit(o)
            elif p < .85:
                g.sub(o)
            else:
                g.views(o, names=g.rng.sample(VIEWS["H"], 3))
        for o in objs(g)[-2:]:
            g.views(o)
    c.validate("Trace_Store", histories(c, c.budget(260, 4000), body))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11}
