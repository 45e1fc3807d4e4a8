"""C21 list utilities, exact binomials, sparse dropout and the copied standard output (Utils.tla)."""
from common import *
import numpy as np, torch
import dhg
import dhg.utils as U
from dhg.utils.structure import (edge_list_to_adj_list, edge_list_to_adj_dict, adj_list_to_edge_list,
                                 remap_edge_list, remap_edge_lists, remap_adj_list, remap_adj_lists)
from dhg.utils.math import C as choose
from dhg.utils.sparse import sparse_dropout
from dhg.utils.logging import simple_stdout2file


class Lab:
    """a label type of its own, told apart by its text"""

    def __init__(self, t):
        self.t = t

    def __str__(self):
        return "lab<%s>" % self.t

    def __eq__(self, o):
        return isinstance(o, Lab) and o.t == self.t

    def __hash__(self):
        return hash(self.t)


STYLES = {
    "int": lambda g, k: g.sample(range(200), k),
    "neg": lambda g, k: g.sample(range(-99, 100), k),
    "str": lambda g, k: g.sample(["a", "b", "B", "ab", "", " ", "z9", "z10", "é", "None", "0x", "\n"] + ["v%d" % i for i in range(30)], k),
    "digits": lambda g, k: ["%d" % i for i in g.sample(range(120), k)],
    "float": lambda g, k: [i / 4 for i in g.sample(range(-100, 100), k)],
    "mixed": lambda g, k: g.sample([1, "x", 2.5, (1, 2), None, False, b"q", 10, 100, "y", -3, frozenset([4])], min(k, 12)),
    "own": lambda g, k: [Lab(i) for i in g.sample(range(99), k)],
    "numpy": lambda g, k: list(np.array(g.sample(range(300), k))),
}


def rows(cont, l):
    return [cont(r) for r in l]


class Chain:
    def __init__(self, g, kind, ls, style):
        """ls: lists of rows of label indices (from 1)"""
        self.g, self.kind = g, kind
        k = max([v for l in ls for r in l for v in r] or [1])
        self.labels = STYLES[style](g, max(k, 3))
        while len({str(x) for x in self.labels}) < len(self.labels):
            self.labels = STYLES[style](g, max(k, 3))
        assert len(self.labels) >= k
        if style == "numpy":
            self.labels = [x for x in self.labels]
        n = sum(len(r) for l in ls for r in l)
        texts = sorted({str(x) for x in self.labels} | {str(i) for i in range(n + 1)})
        self.rank = {t: i + 1 for i, t in enumerate(texts)}
        cont = g.choice([tuple, list])
        self.ls = [g.choice([list, tuple])(rows(cont, [[self.labels[v - 1] for v in r] for r in l])) for l in ls]
        self.ev = [{"op": "start", "ls": self.code(self.ls), "num": [self.rank[str(i)] for i in range(n + 1)], "sig": style + ":start"}]
        self.style = style

    def code(self, ls):
        return [[[self.rank.get(str(v), -1) for v in r] for r in l] for l in ls]

    def call(self, op):
        g, ls = self.g, self.ls
        e = {"op": op.split("_bip")[0], "in": self.code(ls), "bip": op.endswith("_bip"), "ret": g.random() < 0.5, "maps": [], "out": [], "types": True, "ok": True, "err": "", "sig": "%s:%s:%s" % (self.style, self.kind, op)}
        before = copy.deepcopy(ls)
        try:
            if op == "to_adj":
                out = [edge_list_to_adj_list(l) for l in ls]
                e["types"] = all(type(l) is list and all(type(r) is list for r in l) for l in out)
                e["out"] = self.code(out)
                self.kind, self.ls = "adj", out
            elif op == "to_dict":
                ds = [edge_list_to_adj_dict(l) for l in ls]
                e["types"] = all(isinstance(d, dict) and all(type(v) is list for v in d.values()) for d in ds)
                out = [[[k] + list(v) for k, v in d.items()] for d in ds]
                e["out"] = self.code(out)
                self.kind, self.ls = "adj", out
            elif op == "to_edges":
                out = [adj_list_to_edge_list(l) for l in ls]
                e["types"] = all(type(l) is list and all(type(r) is tuple and len(r) == 2 for r in l) for l in out)
                e["out"] = self.code(out)
                self.kind, self.ls = "edges", out
            else:
                kw = {}
                if e["bip"] or g.random() < 0.3:
                    kw["bipartite_graph"] = e["bip"]
                if e["ret"] or g.random() < 0.3:
                    kw["ret_map"] = e["ret"]
                one, many = (remap_adj_list, remap_adj_lists) if self.kind == "adj" else (remap_edge_list, remap_edge_lists)
                single = len(ls) == 1 and g.random() < 0.5
                r = one(ls[0], **kw) if single else many(*ls, **kw)
                out, maps = (r[0], list(r[1:])) if e["ret"] else (r, [])
                if e["ret"]:
                    e["types"] = type(r) is tuple and all(type(k) is str for m in maps for k in m)
                if single:
                    out = [out]
                out = list(out)
                want = list if self.kind == "adj" else tuple
                e["types"] = e["types"] and all(type(l) is list and all(type(r) is want and all(type(v) is int for v in r) for r in l) for l in out)
                e["maps"] = [[[self.rank.get(k, -1), v] for k, v in m.items()] for m in maps]
                e["out"] = [[list(r) for r in l] for l in out]
                self.ls = out
        except Exception as ex:
            e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
        e["pure"] = repr(before) == repr(ls) or before == ls
        self.ev.append(e)
        return e["ok"]


def chain(g, kind, ls, ops, style):
    c = Chain(g, {"hyper": "edges"}.get(kind, kind), ls, style)
    for op in ops:
        if op == "to_adj" and g.random() < 0.3:
            op = "to_dict"
        if not c.call(op):
            break
    return c.ev


# ---------------------------------------------------------------- standard output
class Terminal:
    def __init__(self):
        self.text, self.flushes = "", 0

    def write(self, m):
        self.text += m

    def flush(self):
        self.flushes += 1


def terminal(g, sc, script, i):
    d = sc.path("tee%d" % i)
    os.makedirs(d)
    old, t, ev, opened, tees = sys.stdout, Terminal(), [], [], []
    seen = lambda s: [int(x) if x.isdigit() else -1 for x in s.split("\n")[:-1]] + ([-2] if not s.endswith("\n") and s else [])
    files = lambda: [seen(open(os.path.join(d, "f%d" % k)).read()) if os.path.exists(os.path.join(d, "f%d" % k)) else [] for k in (1, 2, 3)]
    sys.stdout = t
    try:
        for a in script:
            e = {"op": a[0], "ok": True, "err": "", "sig": "stdout:" + a[0]}
            try:
                if a[0] == "tee":
                    p = os.path.join(d, "f%d" % a[1])
                    e["f"] = a[1]
                    tees.append(a[1])
                    simple_stdout2file(g.choice([p, __import__("pathlib").Path(p)]))
                    opened.append(sys.stdout)
                elif a[0] == "say":
                    e["m"] = a[1]
                    r = g.random() if len(tees) == len(set(tees)) else 0.6  # one file twice: print writes in two parts
                    if r < 0.5:
                        print(a[1])
                    elif r < 0.8:
                        sys.stdout.write("%d\n" % a[1])
                    else:
                        print(a[1], flush=True)
                elif a[0] == "bad":
                    simple_stdout2file(os.path.join(d, "none", "f"))
                else:
                    sys.stdout = t
                    tees = []
            except Exception as ex:
                e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
            e["term"], e["files"] = seen(t.text), files()
            ev.append(e)
    finally:
        sys.stdout = old
        for o in opened:
            f = getattr(o, "file", None)
            if f is not None:
                f.close()
    return ev


# ---------------------------------------------------------------- sparse dropout
def sparse(g, big):
    n, m = (24, 24) if big else (g.randint(1, 4), g.randint(1, 4))
    pos = [(i, j) for i in range(n) for j in range(m)]
    pos = g.sample(pos, g.randint(150, 400) if big else g.randint(0, len(pos)))
    val = [g.choice([-4, -3, -2, -1, 1, 2, 3, 4]) for _ in pos]
    fill = g.choice([0, 0, 9, -7])
    idx, vs = list(pos), list(val)
    if pos and g.random() < 0.3:  # an entry given in two parts
        k = g.randrange(len(pos))
        vs[k] -= 5
        idx.append(pos[k])
        vs.append(5)
    dt = g.choice([torch.float32, torch.float64])
    t = torch.sparse_coo_tensor(torch.tensor(idx, dtype=torch.long).view(-1, 2).t(), torch.tensor(vs, dtype=dt), size=(n, m))
    if g.random() < 0.5:
        t = t.coalesce()
    before = t.clone()
    p = g.choice([0, 16, 8, 4, 12, 1, 15]) if big or g.random() < 0.9 else g.choice([-1, 17])
    e = {"op": "sparse", "in": [[i + 1, j + 1, v] for (i, j), v in zip(pos, val)], "p": p, "fill": fill, "out": [], "ok": True, "err": "", "shape": True, "sig": "sparse:%d/16" % p}
    try:
        o = sparse_dropout(t, p / 16, float(fill)) if fill or g.random() < 0.5 else sparse_dropout(t, p / 16)
        e["shape"] = o.is_sparse and tuple(o.shape) == (n, m) and o.dtype == dt
        o = o.coalesce()
        e["out"] = [[int(i) + 1, int(j) + 1, int(v) if float(v).is_integer() else BAD] for i, j, v in zip(*o.indices().tolist(), o.values().tolist())]
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    e["pure"] = torch.equal(before.to_dense(), t.to_dense()) and before.is_coalesced() == t.is_coalesced()
    return e


def digits(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def C21(c):
    g = c.rng
    tests = c.model("MC_Utils", env={"MC_N": "3"} if c.thorough else None)
    terms = [t["h"] for t in tests if t["from"][0] == "term"]
    chains = [t for t in tests if t["from"][0] != "term"]
    traces = []
    picks = g.sample(chains, min(len(chains), c.budget(5000, 60000)))
    for i, t in enumerate(picks):
        kind, ls = t["from"]
        traces.append({"id": "model-%d" % i, "ev": chain(g, kind, ls, t["h"], g.choice(list(STYLES)))})
    for i, h in enumerate(g.sample(terms, min(len(terms), c.budget(400, 2000)))):
        h = [[a[0], 10 + k] if a[0] == "say" else a for k, a in enumerate(h)]
        traces.append({"id": "terminal-%d" % i, "ev": terminal(g, c.sc, h, i)})
    for i in range(c.budget(60, 600)):
        h = [g.choice([["tee", g.randint(1, 3)], ["say", 10 + k], ["say", 10 + k], ["bad"], ["reset"]]) for k in range(g.randint(5, 14))]
        traces.append({"id": "terminal-random-%d" % i, "ev": terminal(g, c.sc, h, 10000 + i)})
    for i in range(c.budget(1500, 15000)):
        kind = g.choice(["edges", "adj", "hyper"])
        n, long = g.randint(1, 12), 1
        if i % 25 == 0:
            n, long = g.randint(13, 120), 5
        lab = lambda: g.randint(1, n)
        ls = []
        for _ in range(g.choice([1, 1, 2, 3])):
            rs = []
            for _ in range(g.randint(0, 8 * long)):
                k = 2 if kind == "edges" else g.choice([0, 1, 2, 3, 4] + [20] * (long > 1))
                rs.append([lab() if long == 1 or g.random() < .5 else 1 + g.randrange(n) % 3 for _ in range(k)])
            ls.append(rs)
        ops, k = [], kind
        for _ in range(g.randint(1, 6)):
            o = g.choice({"edges": ["to_adj", "remap", "remap_bip"], "adj": ["to_edges", "remap", "remap_bip"], "hyper": ["remap"]}[k])
            k = {"to_adj": "adj", "to_edges": "edges"}.get(o, k)
            ops.append(o)
        traces.append({"id": "random-%d" % i, "ev": chain(g, kind, ls, ops, g.choice(list(STYLES) if long == 1 else ["int", "neg", "digits", "float", "numpy"]))})
    for i in range(c.budget(60, 600)):
        torch.manual_seed(g.randrange(1 << 30))
        traces.append({"id": "sparse-%d" % i, "ev": [sparse(g, g.random() < 0.3) for _ in range(5)]})
    rare = []
    for n, inv in ((640, 5000), (500, 1000), (320, 200), (1000, 10000)):
        torch.manual_seed(g.randrange(1 << 30))
        m = torch.sparse_coo_tensor(torch.arange(n * n).view(1, -1), torch.ones(n * n), size=(n * n,)).coalesce()
        rare.append({"op": "rare", "n": n * n, "inv": inv, "dropped": n * n - int((sparse_dropout(m, 1 / inv)._values() != 0).sum()), "sig": "sparse:rare"})
        rare.append({"op": "rare", "n": n * n, "inv": inv, "dropped": int((sparse_dropout(m, 1 - 1 / inv)._values() != 0).sum()), "sig": "sparse:rare-kept"})
    traces.append({"id": "rare", "ev": rare})
    rows_, ok = [], True
    for n in range(c.budget(70, 120)):
        r = [choose(n, k) for k in range(n + 3)]
        rows_.append({"op": "pascal", "out": [digits(v) if type(v) is int and v >= 0 else [-1] for v in r], "sig": "binomial:%d" % n})
    traces.append({"id": "pascal", "ev": rows_})
    c.validate("Trace_Utils", traces)


CHECKS = {"C21": C21}
