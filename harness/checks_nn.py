"""C23 layers, models and losses (Layers.tla): real modules with chosen parameters on real structures."""
from common import *
import warnings
warnings.filterwarnings("ignore")
import numpy as np, torch, torch.nn as nn
import dhg
from dhg import Graph, BiGraph, Hypergraph
import dhg.nn as N, dhg.models as M
from dhg.models.graphs import bgnn

GK = ["GCNConv", "GraphSAGEConv", "GATConv", "GINConv"]
HK = ["HGNNConv", "HGNNPConv", "JHConv", "HNHNConv", "UniGCNConv", "UniGATConv", "UniSAGEConv", "UniGINConv"]
ACTS = {"ReLU": "relu", "LeakyReLU": "leaky", "ELU": "elu", "Sigmoid": "sigmoid", "Tanh": "tanh"}


# ---------------------------------------------------------------- structures
def eighths(g, *shape, lo=-8, hi=8):
    n = int(np.prod(shape))
    return torch.tensor([g.randint(lo, hi) / 8 for _ in range(n)]).view(*shape)


def feats(g, n, d):
    return eighths(g, n, d, lo=-16, hi=16)


def make(st):
    """the real structure of a recorded one"""
    w = [x[2] / ONE for x in st["es"]] if st["kind"] != "H" else None
    if st["kind"] == "G":
        return Graph(st["nv"], [tuple(x[:2]) for x in st["es"]], w) if st["es"] else Graph(st["nv"])
    if st["kind"] == "B":
        return BiGraph(st["nu"], st["nv"], [tuple(x[:2]) for x in st["es"]], w) if st["es"] else BiGraph(st["nu"], st["nv"])
    h = Hypergraph(st["nv"])
    for vs, x, grp in st["es"]:
        h.add_hyperedges([tuple(vs)], [x / ONE], group_name=grp)
    return h


WEIGHTS = [1, 2, 4, 8] + [0]


def some(g, hi, far, p=.07, lo=1):
    """a size: usually small, now and then large"""
    return g.randint(lo, hi) if g.random() >= p else g.randint(hi + 1, far)


def gstruct(g, n=None):
    n = n or (g.randint(2, 6) if g.random() < .9 else g.choice([1, 1, 7, 8, 9, 10, 11]))
    pairs = [(a, b) for a in range(n) for b in range(a, n) if a != b or g.random() < 0.15]
    ps = g.sample(pairs, g.randint(0, len(pairs)))
    w = g.random() < 0.5
    return {"kind": "G", "nu": 0, "nv": n, "extra": False, "es": [[a, b, g.choice(WEIGHTS) * ONE // 4 if w else ONE] for a, b in ps]}


def bstruct(g, nu=None, nv=None):
    nu, nv = nu or g.randint(1, 4), nv or g.randint(1, 4)
    pairs = [(a, b) for a in range(nu) for b in range(nv)]
    ps = g.sample(pairs, g.randint(0, len(pairs)))
    w = g.random() < 0.5
    return {"kind": "B", "nu": nu, "nv": nv, "extra": False, "es": [[a, b, g.choice(WEIGHTS) * ONE // 4 if w else ONE] for a, b in ps]}


def hstruct(g, n=None, small=1, most=5, size=None):
    n = n or (g.randint(2, 6) if g.random() < .9 else g.choice([1, 1, 7, 8, 9, 10, 11]))
    seen, es = set(), []
    w = g.random() < 0.5
    for _ in range(g.randint(0 if small == 1 else 1, most)):
        vs = g.sample(range(n), g.randint(small, min(n, size or n)))
        grp = g.choice(["main", "main", "other"])
        if (grp, frozenset(vs)) not in seen:
            seen.add((grp, frozenset(vs)))
            es.append([vs, g.choice(WEIGHTS) * ONE // 4 if w else ONE, grp])
    return {"kind": "H", "nv": n, "es": es}


def relabel(st, perm):
    m = lambda v: perm[v]
    if st["kind"] == "H":
        return {**st, "es": [[[m(v) for v in e[0]], e[1], e[2]] for e in st["es"]]}
    return {**st, "es": [[m(e[0]), m(e[1]), e[2]] for e in st["es"]]}


def content(s):
    if isinstance(s, Hypergraph):
        return [s.num_v, sorted((n, sorted(map(repr, zip(*s.e_of_group(n))))) for n in s.group_names), s.v_weight]
    if isinstance(s, BiGraph):
        return [s.num_u, s.num_v, s.e]
    return [s.num_v, s.e]


# ---------------------------------------------------------------- parameters
def randomize(g, mod):
    for m in mod.modules():
        if isinstance(m, nn.BatchNorm1d):
            m.weight.data = eighths(g, *m.weight.shape, lo=4, hi=12)
            m.bias.data = eighths(g, *m.bias.shape)
            m.running_mean.data = eighths(g, *m.bias.shape)
            m.running_var.data = torch.tensor([g.choice([0.5, 1.0, 2.0]) for _ in m.bias])
        else:
            for p in m.parameters(recurse=False):
                p.data = eighths(g, *p.shape)
    for m in mod.modules():
        if isinstance(m, (N.GATConv, N.UniGATConv)) and g.random() < 0.3:   # scores beyond the clamping bounds
            for name in ("atten_src", "atten_dst", "atten_e"):
                if hasattr(m, name):
                    getattr(m, name).weight.data *= 4
    return mod


def lin(m):
    b = m.bias
    return {"w": encm(m.weight.data), "b": encl(b.tolist()) if b is not None else [0] * m.weight.shape[0]}


def bn(m):
    return [] if m is None else [encl(x.tolist()) for x in (m.weight, m.bias, m.running_mean, m.running_var)]


def lins(m):
    return [x for x in m.modules() if isinstance(x, nn.Linear)]


def bns(m):
    return [x for x in m.modules() if isinstance(x, nn.BatchNorm1d)]


class Variances:
    """smallest non-zero variance of a column given to batch normalisation in training"""

    def __init__(self, mod):
        self.low, self.hs = 1.0, [m.register_forward_hook(self.hook) for m in bns(mod)]

    def hook(self, m, i, o):
        if m.training:
            for v in i[0].detach().double().var(0, unbiased=False).tolist():
                if v > 1e-11:
                    self.low = min(self.low, v)

    def close(self):
        for h in self.hs:
            h.remove()


def snap(mod, buffers):
    return {k: v.clone() for k, v in mod.state_dict().items() if buffers or not ("running" in k or "tracked" in k)}


def same(a, b):
    return list(a) == list(b) and all(torch.equal(a[k], b[k]) for k in a)


def run(e, mod, args, structs, fn=None, random_=False):
    """one forward; None when the numbers are outside what can be compared"""
    train = e["train"]
    mod.train(train)
    before, befores, beforep = [a.clone() for a in args], [content(s) for s in structs], snap(mod, not train)
    v = Variances(mod)
    e.update(ok=True, err="", out=[], pureX=True, pureS=True, pureP=True, again=True)
    fn = fn or mod
    try:
        out = fn()
        if not train and not random_:
            o2 = fn()
            o, q = (out, o2) if isinstance(out, tuple) else ((out,), (o2,))
            e["again"] = all(torch.equal(x, y) for x, y in zip(o, q))
        o = out if isinstance(out, tuple) else (out,)
        if any((x.detach().abs() > 200).any() for x in o if x.numel()):
            v.close()
            return None
        e["out"] = [encm(x) for x in out] if isinstance(out, tuple) else encm(out)
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    v.close()
    e["pureX"] = all(torch.equal(a, b) for a, b in zip(args, before))
    e["pureS"] = all(content(s) == b for s, b in zip(structs, befores))
    e["pureP"] = same(beforep, snap(mod, not train))
    return None if v.low < 0.02 else e


def kwargs(g, decl):
    """the declared options; those at their default may be left out"""
    default = {"bias": True, "use_bn": False, "drop_rate": 0.5, "is_last": False, "atten_neg_slope": 0.2, "eps": 0.0, "train_eps": False}
    return {k: v for k, v in decl.items() if v != default[k] or g.random() < 0.5}


# ---------------------------------------------------------------- layers
def conv_params(kind, m, d):
    """parameters of a convolution for the specification; d: declared options"""
    ls = lins(m)
    p = {"theta": lin(ls[0]), "bn": bn(bns(m)[0]) if d["use_bn"] and bns(m) and kind != "GINConv" else [], "last": d["is_last"], "drop": int(d["drop_rate"] * 16),
         "slope": enc(d.get("atten_neg_slope", 0)), "eps": 0, "theta2": {"w": [], "b": []}, "asrc": [], "adst": [], "ae": [], "mlp": {}}
    if kind == "GATConv":
        p["asrc"], p["adst"] = lin(getattr(m, "atten_src", ls[1]))["w"][0], lin(getattr(m, "atten_dst", ls[2]))["w"][0]
    elif kind == "UniGATConv":
        p["ae"] = lin(getattr(m, "atten_e", ls[1]))["w"][0]
    elif kind == "HNHNConv":
        p["theta"], p["theta2"] = lin(getattr(m, "theta_v2e", ls[0])), lin(getattr(m, "theta_e2v", ls[1]))
    elif kind in ("GINConv", "UniGINConv"):
        p["eps"] = enc(m.eps)
    return p


def mlp_params(m, d):
    return {"lin": [lin(x) for x in lins(m)], "bns": [bn(x) for x in bns(m)] + ([[]] if d["is_last"] and bns(m) else []), "act": d["act"], "slope": enc(d["slope"]), "last": d["is_last"], "drop": int(d["drop_rate"] * 16)}


def mlp(g, chans, drop, **fixed):
    name = g.choice(list(ACTS))
    d = {"act": ACTS[name], "slope": 0, "use_bn": g.random() < 0.5, "is_last": g.random() < 0.5, "drop_rate": drop}
    d.update(fixed)
    kw = {}
    if name != "ReLU" or g.random() < 0.5:
        kw["act_name"] = name
    if name == "LeakyReLU":
        d["slope"] = g.choice([0.25, 0.01])
        if d["slope"] != 0.01:
            kw["act_kwargs"] = {"negative_slope": d["slope"]}
    if not d["use_bn"] or g.random() < 0.5:
        kw["use_bn"] = d["use_bn"]
    if d["is_last"] or g.random() < 0.5:
        kw["is_last"] = d["is_last"]
    if drop != 0.5 or g.random() < 0.5:
        kw["drop_rate"] = drop
    return N.MLP(chans, **kw), d


def layer(g, kind, st=None, flags=None, big=False):
    f = dict(flags) if flags else {"last": g.random() < 0.4, "bn": g.random() < 0.4, "bias": g.random() < 0.7, "train": g.random() < 0.4}
    st = st or (gstruct(g, 14 if big else None) if kind in GK else hstruct(g, 14 if big else None, small=2 if kind == "HyperGCNConv" else 1))
    n = st["nv"]
    if n == 1 and f["bn"]:   # no batch statistics of one row
        f["train"] = False
    cin, cout = some(g, 3, 7), (8 if big else g.randint(1, 3))
    if kind == "JHConv":
        cin = cout
    partial = f["train"] and kind not in ("GATConv", "UniGATConv", "GINConv", "HyperGCNConv")
    drop = g.choice([0.0, 1.0, 0.5, 0.25, 0.75] if partial else [0.0, 1.0] if f["train"] else [0.0, 0.5, 1.0])
    d = {"bias": f["bias"], "use_bn": f["bn"], "drop_rate": drop, "is_last": f["last"]}
    has, e = None, {"op": "layer", "kind": kind, "st": st, "train": f["train"], "given": False, "g": {}, "med": False, "sig": "%s:%s" % (kind, "train" if f["train"] else "eval")}
    if kind in ("GATConv", "UniGATConv"):
        d["atten_neg_slope"] = g.choice([0.2, 0.25, 0.5, -0.5])
    if kind == "GINConv":
        inner, md = mlp(g, [cin] + [g.randint(1, 3) for _ in range(g.randint(0, 2))] + [cout], drop, is_last=f["last"], use_bn=f["bn"])
        eps, te = g.choice([0.0, 0.5, -0.25]), g.random() < 0.5
        m = N.GINConv(inner, **kwargs(g, {"eps": eps, "train_eps": te}))
        first = enc(m.eps)
        randomize(g, m)
        if te:
            assert isinstance(m.eps, nn.Parameter)
        d = {**d, "eps": eps}
        p = conv_params(kind, m, d)
        p["mlp"] = mlp_params(inner, md)
        if not te:
            p["eps"] = enc(eps)
        has, decl = [len(lins(inner)) > 0, first, len(bns(inner)) > 0], [True, enc(eps), f["bn"] and not (f["last"] and len(lins(inner)) == 1)]
    else:
        extra = {}
        if kind == "UniGINConv":
            extra = {"eps": g.choice([0.0, 0.5, -0.25]), "train_eps": g.random() < 0.5}
        if kind == "HyperGCNConv":
            extra = {"use_mediator": g.random() < 0.5} if g.random() < 0.7 else {}
        kw = kwargs(g, d)
        kw.update(extra if kind == "HyperGCNConv" else kwargs(g, extra))
        if kind == "GraphSAGEConv" and g.random() < 0.5:
            kw["aggr"] = "mean"
        m = getattr(N, kind)(cin, cout, **kw)
        first = enc(m.eps) if kind == "UniGINConv" else 0
        randomize(g, m)
        p = conv_params(kind, m, d)
        if kind == "UniGINConv" and not extra["train_eps"]:
            p["eps"] = enc(extra["eps"])
        ls = lins(m)
        has, decl = [ls[0].bias is not None, len(bns(m)) > 0, first], [f["bias"], f["bn"], enc(extra.get("eps", 0.0))]
        e["med"] = bool(extra.get("use_mediator", False))
    e["p"], e["has"], e["decl"] = p, has, decl
    X = feats(g, n, cin)
    s = make(st)
    e["X"] = encm(X)
    args = [X]
    if kind == "HyperGCNConv":
        if g.random() < 0.4:
            e["given"], e["g"] = True, gstruct(g, n)
            cg = make(e["g"])
            r = run(e, m, args, [s, cg], lambda: m(X, s, cg))
        else:
            r = run(e, m, args, [s], lambda: m(X, s), random_=True)
        return [r] if r else []
    r = run(e, m, args, [s], lambda: m(X, s))
    if r is None:
        return []
    ev = [e]
    if e["ok"] and not e["train"] and g.random() < 0.5:
        perm = list(range(n))
        g.shuffle(perm)
        X2 = torch.zeros_like(X)
        X2[torch.tensor(perm)] = X
        try:
            out2 = encm(m(X2, make(relabel(st, perm))))
        except Exception:
            out2 = []
        ev.append({"op": "permuted", "perm": perm, "out": e["out"], "out2": out2, "sig": kind + ":permuted"})
    return ev


def plain(g):
    """perceptrons without a structure"""
    kind = g.choice(["MLP", "Discriminator", "Decoder"])
    n, a, b, c = g.randint(2, 5), g.randint(1, 3), g.randint(1, 3), g.randint(1, 3)
    train = g.random() < 0.4
    drop = g.choice([0.0, 1.0] if train else [0.0, 0.5, 1.0])
    e = {"op": "layer", "kind": kind, "st": {"kind": "G", "nu": 0, "nv": n, "extra": False, "es": []}, "train": train, "given": False, "g": {}, "med": False, "has": [True, True], "decl": [True, True], "sig": "%s:%s" % (kind, "train" if train else "eval")}
    if kind == "MLP":
        chans = [a] + [g.randint(1, 3) for _ in range(some(g, 3, 6, .2))]
        m, d = mlp(g, chans, drop)
        randomize(g, m)
        k = len(lins(m)) - int(d["is_last"])
        e["has"], e["decl"] = [len(lins(m)) == len(chans) - 1, len(bns(m)) == (k if d["use_bn"] else 0)], [True, True]
        if e["has"] == e["decl"]:
            e["p"] = mlp_params(m, d)
        else:
            e["p"] = {**mlp_params(m, d), "bns": []}
    else:
        cls = N.Discriminator if kind == "Discriminator" else bgnn.Decoder
        m = randomize(g, cls(a, b, c, **kwargs(g, {"drop_rate": drop})))
        ls = lins(m)
        e["p"] = {"l1": lin(ls[0]), "l2": lin(ls[1]), "drop": int(drop * 16)}
    X = feats(g, n, a)
    e["X"] = encm(X)
    r = run(e, m, [X], [], lambda: m(X))
    return [r] if r else []


def heads(g):
    kind = g.choice(["GATConv", "UniGATConv", "GCNConv", "HGNNPConv"])
    st = gstruct(g) if kind in GK else hstruct(g)
    how = g.choice(["concat", "mean", "max", "sum", "concat", "mean", "max", "sum", "median"])
    train = g.random() < 0.3
    d = {"bias": True, "use_bn": g.random() < 0.3, "drop_rate": g.choice([0.0, 1.0] if train else [0.0, 0.5]), "is_last": g.random() < 0.5}
    if "GAT" in kind:
        d["atten_neg_slope"] = 0.2
    cin, cout, k = g.randint(1, 3), g.randint(1, 3), some(g, 3, 6, .15)
    if d["use_bn"] and st["nv"] == 1:
        train = False
    m = randomize(g, N.MultiHeadWrapper(k, how, getattr(N, kind), in_channels=cin, out_channels=cout, **kwargs(g, d)))
    X, s = feats(g, st["nv"], cin), make(st)
    e = {"op": "heads", "kind": kind, "how": how, "st": st, "train": train, "X": encm(X), "p": [conv_params(kind, x, d) for x in m.layers], "has": [len(m.layers) == k, True], "decl": [True, True], "sig": "heads:%s:%s" % (kind, how)}
    r = run(e, m, [X], [s], lambda: m(X=X, **{"g" if kind in GK else "hg": s}))
    return [r] if r else []


# ---------------------------------------------------------------- models
STACKS = {"GCN": "GCNConv", "GraphSAGE": "GraphSAGEConv", "HGNN": "HGNNConv", "HGNNP": "HGNNPConv", "HNHN": "HNHNConv", "UniGCN": "UniGCNConv", "UniSAGE": "UniSAGEConv", "UniGIN": "UniGINConv"}


def model(g, name=None):
    name = name or g.choice(list(STACKS) + ["GAT", "UniGAT", "GIN"])
    st = gstruct(g) if name in ("GCN", "GraphSAGE", "GAT", "GIN") else hstruct(g)
    train = g.random() < 0.35
    drop = g.choice([0.0, 1.0] if train else [0.0, 0.5, 1.0])
    cin, hid, k = some(g, 3, 6), some(g, 3, 6), some(g, 3, 6)
    ub = g.random() < 0.4
    if ub and st["nv"] == 1:
        train = False
    d = {"bias": True, "use_bn": ub, "drop_rate": drop, "is_last": False}
    kw = kwargs(g, {"use_bn": ub, "drop_rate": drop})
    e = {"op": "model", "st": st, "train": train, "sig": "%s:%s" % (name, "train" if train else "eval")}
    if name in STACKS:
        eps = 0.0
        if name == "UniGIN":
            eps, te = g.choice([0.0, 0.5, -0.25]), g.random() < 0.5
            kw.update(kwargs(g, {"eps": eps, "train_eps": te}))
        m = getattr(M, name)(cin, hid, k, **kw)
        first = [enc(l.eps) for l in m.layers] if name == "UniGIN" else [0, 0]
        randomize(g, m)
        c = STACKS[name]
        ps = [conv_params(c, l, {**d, "is_last": i == len(m.layers) - 1}) for i, l in enumerate(m.layers)]
        e["kind"], e["p"], e["has"] = "stack", {"conv": c, "layers": ps}, [len(m.layers) == 2, bool(bns(m.layers[0])) == ub and first == [enc(eps)] * 2]
    elif name == "GIN":
        nl, nm, eps, te = some(g, 3, 5, .15, 2), some(g, 2, 4, .15), g.choice([0.0, 0.5, -0.25]), g.random() < 0.5
        kw.update(kwargs(g, {"eps": eps, "train_eps": te}))
        if nm != 2 or g.random() < 0.5:
            kw["num_mlp_layers"] = nm
        m = M.GIN(cin, hid, k, nl, **kw)
        first = [enc(l.eps) for l in m.layers]
        randomize(g, m)
        ps = []
        for l in m.layers:
            p = conv_params("GINConv", l, d)
            p["mlp"] = mlp_params(l, {"act": "relu", "slope": 0, "is_last": False, "drop_rate": drop})
            ps.append(p)
        e["kind"], e["p"] = "gin", {"layers": ps, "pred": [lin(x) for x in m.pred_layers]}
        e["has"] = [len(m.layers) == nl and len(m.pred_layers) == nl + 1 and all(len(p["mlp"]["lin"]) == nm for p in ps), all(len(p["mlp"]["bns"]) == (nm if ub else 0) for p in ps) and first == [enc(eps)] * nl]
    else:
        c, nh = name + "Conv", some(g, 3, 5, .15)
        slope = g.choice([0.2, 0.5, -0.5])
        d["atten_neg_slope"] = slope
        m = randomize(g, getattr(M, name)(cin, hid, k, nh, **kw, **kwargs(g, {"atten_neg_slope": slope})))
        hs = [conv_params(c, x, d) for x in m.multi_head_layer.layers]
        e["kind"], e["p"] = "attention", {"conv": c, "heads": hs, "out": conv_params(c, m.out_layer, d), "drop": int(drop * 16)}
        e["has"] = [len(hs) == nh, bool(bns(m)) == ub]
    e["decl"] = [True, True]
    X, s = feats(g, st["nv"], cin), make(st)
    e["X"] = encm(X)
    r = run(e, m, [X], [s], lambda: m(X, s))
    return [r] if r else []


def recommender(g):
    kind = g.choice(["LightGCN", "NGCF", "DHCF"])
    nu, ni, dim, n = some(g, 4, 8), some(g, 4, 8), some(g, 3, 6), some(g, 3, 5, .2)
    train = g.random() < 0.4
    drop = g.choice([0.0, 1.0] if train else [0.0, 0.5])
    kw = {}
    if n != 3 or g.random() < 0.5:
        kw["num_layers"] = n
    if drop != (0.0 if kind == "LightGCN" else 0.5) or g.random() < 0.5:
        kw["drop_rate"] = drop
    m = randomize(g, getattr(M, kind)(nu, ni, dim, **kw))
    p = {"u": encm(m.u_embedding.weight), "i": encm(m.i_embedding.weight), "n": n, "drop": int(drop * 16), "gc": [], "bi": []}
    if kind != "LightGCN":
        p["gc"], p["bi"] = [lin(x) for x in m.W_gc], [lin(x) for x in m.W_bi]
    e = {"op": "rec", "kind": kind, "p": p, "train": train, "st2": {}, "has": [True, True], "decl": [True, True], "sig": "%s:%s" % (kind, "train" if train else "eval")}
    if kind == "DHCF":
        e["st"], e["st2"] = hstruct(g, nu), hstruct(g, ni)
        a, b = make(e["st"]), make(e["st2"])
        r = run(e, m, [], [a, b], lambda: m(a, b))
    else:
        e["st"] = bstruct(g, nu, ni)
        s = make(e["st"])
        r = run(e, m, [], [s], lambda: m(s))
    return [r] if r else []


def fresh(g):
    kind = g.choice(["LightGCN", "NGCF", "DHCF"])
    e = {"op": "fresh", "max": [], "bound": [], "zmax": 0, "var": [], "changed": True, "sig": "fresh:" + kind}
    if kind == "LightGCN":
        m = M.LightGCN(150, 160, 16)
    else:
        m = getattr(M, kind)(g.randint(6, 9), g.randint(6, 9), g.randint(6, 8))
    if g.random() < 0.5:
        for p in m.parameters():
            p.data.fill_(5.0)
        b = snap(m, True)
        m.reset_parameters()
        e["changed"] = all(not torch.equal(b[k], v) for k, v in m.state_dict().items())
    if kind == "LightGCN":
        e["var"] = [enc(x.weight.detach().pow(2).mean()) for x in (m.u_embedding, m.i_embedding)]
    else:
        ws = [m.u_embedding.weight, m.i_embedding.weight] + [x.weight for l in (m.W_gc, m.W_bi) for x in l]
        e["max"] = [enc(w.detach().abs().max()) for w in ws]
        e["bound"] = [enc(math.sqrt(6 / (w.shape[0] + w.shape[1]))) for w in ws]
        e["zmax"] = max(enc(x.bias.detach().abs().max()) for l in (m.W_gc, m.W_bi) for x in l)
    return [e]


def cascade(g):
    kind = g.choice(["BGNN_Adv", "BGNN_MLP"])
    st = bstruct(g, some(g, 4, 7, lo=2), some(g, 4, 7, lo=2))
    du, dv, depth = g.randint(1, 3), g.randint(1, 3), some(g, 3, 5, .2)
    kw = {} if depth == 3 and g.random() < 0.5 else {"layer_depth": depth}
    drop = g.choice([0.0, 0.5, 1.0])
    if kind == "BGNN_Adv":
        m = M.BGNN_Adv(du, dv, **kw)
    else:
        m = M.BGNN_MLP(du, dv, g.randint(1, 3), g.randint(1, 3), **kw, **kwargs(g, {"drop_rate": drop}))
    randomize(g, m)
    XU, XV, s = feats(g, st["nu"], du), feats(g, st["nv"], dv), make(st)
    teach = g.random() < 0.5
    epochs = g.randint(0, 2) if teach else 0
    e = {"op": "cascade", "st": st, "train": False, "XU": encm(XU), "XV": encm(XV), "ret": [], "moved": [], "epochs": epochs, "has": [True, True], "decl": [True, True], "sig": "%s:%s" % (kind, "trained" if teach else "forward")}
    before, b4, w = [XU.clone(), XV.clone()], content(s), [[x.detach().clone() for x in l.parameters()] for l in m.layers]
    e["live"] = [any(bool((x != 0).any()) for x in a) for a in w]  # weight decay moves any non-zero parameter
    ok = True
    if teach:
        try:
            m.train()
            a = {"drop_rate": drop} if kind == "BGNN_Adv" and g.random() < 0.5 else {}
            e["ret"] = encm(m.train_with_cascaded(XU, XV, s, 0.125, 0.25, epochs, **a))
        except Exception as ex:
            ok, e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    e["moved"] = [any(not torch.equal(x, y) for x, y in zip(a, l.parameters())) for a, l in zip(w, m.layers)]
    dec = []
    if kind == "BGNN_MLP":
        dec = [{"l1": lin(lins(x)[0]), "l2": lin(lins(x)[1]), "drop": int(drop * 16)} for x in m.decoders]
    e["p"] = {"layers": [lin(x) for x in m.layers], "dec": dec}
    err = e.get("err", "")
    r = run(e, m, [XU, XV], [s], lambda: m(XU, XV, s))
    if r is None:
        return []
    if not ok:
        e["ok"], e["err"] = False, err
    e["pureX"] = e["pureX"] and torch.equal(before[0], XU) and torch.equal(before[1], XV)
    e["pureS"] = e["pureS"] and content(s) == b4
    return [e]


def hypergcn(g, fast, med, calls):
    """one model, calls over two hypergraphs"""
    n = g.randint(3, 4)
    sts = [hstruct(g, n, small=2, most=2, size=3) for _ in range(2)]
    hid, k = g.choice([1, 1, 2]), g.randint(1, 2)
    cin = 2
    if not fast:
        hid = 1
    ub, drop = g.random() < 0.3, g.choice([0.0, 1.0])
    kw = kwargs(g, {"use_bn": ub, "drop_rate": drop})
    if not fast or g.random() < 0.5:
        kw["fast"] = fast
    if med or g.random() < 0.5:
        kw["use_mediator"] = med
    m = randomize(g, M.HyperGCN(cin, hid, k, **kw))
    d = {"bias": True, "use_bn": ub, "drop_rate": drop, "is_last": False}
    hs, ev = [make(st) for st in sts], []
    for a, train in calls:
        ps = [conv_params("HyperGCNConv", l, {**d, "is_last": i == 1}) for i, l in enumerate(m.layers)]
        X = feats(g, n, cin)
        e = {"op": "hypergcn", "st": sts[a - 1], "train": train, "X": encm(X), "p": {"fast": fast, "med": med, "layers": ps}, "has": [len(m.layers) == 2, bool(bns(m.layers[0])) == ub], "decl": [True, True], "sig": "HyperGCN:%s:%s" % ("fast" if fast else "slow", "train" if train else "eval")}
        r = run(e, m, [X], [hs[a - 1]], lambda: m(X, hs[a - 1]), random_=not fast)
        if r is None:
            break
        ev.append(e)
    return ev


def loss(g):
    e = {"op": "loss", "ok": True, "err": "", "val": 0, "pureX": True}
    r = g.random()
    if r < 0.5:
        n = some(g, 6, 150, .2)
        pos, neg = eighths(g, n, lo=-32, hi=32), eighths(g, n, lo=-32, hi=32)
        a, b, act = g.choice([1.0, 1.0, 0.5, 2.0]), g.choice([1.0, 1.0, 0.5, 1.5]), g.choice(["sigmoid_then_log", "softplus"])
        kw = {}
        if a != 1 or g.random() < 0.5:
            kw["alpha"] = a
        if b != 1 or g.random() < 0.5:
            kw["beta"] = b
        if act == "softplus" or g.random() < 0.5:
            kw["activation"] = act
        e.update(kind="bpr", alpha=enc(a), beta=enc(b), pos=encl(pos.tolist()), neg=encl(neg.tolist()), sig="bpr:" + act)
        ts, f = [pos, neg], lambda: N.BPRLoss(**kw)(pos, neg)
    elif r < 0.55:
        e.update(kind="badbpr", sig="bpr:bad")
        ts, f = [], lambda: N.BPRLoss(activation="tanh")
    else:
        shapes = [(some(g, 4, 60), some(g, 3, 20)) for _ in range(some(g, 3, 7, .15))]
        ts = [feats(g, *sh) if sh[0] * sh[1] <= 12 else eighths(g, *sh, lo=-8, hi=8) for sh in shapes]
        p, wd = g.choice([2, 2, 1, 3, 4]), g.choice([0.125, 0.5, 1.0, 1e-4])
        kw = {}
        if p != 2 or g.random() < 0.5:
            kw["p"] = p
        if wd != 1e-4 or g.random() < 0.5:
            kw["weight_decay"] = wd
        e.update(kind="reg", pw=p, wd=enc(wd), embs=[encm(t) for t in ts], sig="reg:%d" % p)
        f = lambda: N.EmbeddingRegularization(**kw)(*ts)
    before = [t.clone() for t in ts]
    try:
        v = f()
        e["val"] = enc(v) if isinstance(v, torch.Tensor) else 0
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    e["pureX"] = all(torch.equal(a, b) for a, b in zip(ts, before))
    return [e]


def refused(g):
    """an option outside the documented ones, at construction (or at the latest in the forward pass)"""
    what = g.choice(["sage-aggr", "graphsage-aggr", "gin-layers", "mlp-one", "mlp-act", "heads"])
    e = {"op": "refused", "what": what, "ok": True, "err": "", "sig": "refused:" + what}
    n, cin, out = g.randint(2, 4), g.randint(1, 3), g.randint(1, 3)
    h, X = make(gstruct(g, n)), feats(g, n, cin)

    def call():
        if what == "sage-aggr":
            N.GraphSAGEConv(cin, out, aggr=g.choice(["sum", "max", "softmax_then_sum", "", "Mean"]), drop_rate=0.0)(X, h)
        elif what == "graphsage-aggr":
            M.GraphSAGE(cin, 2, out, aggr=g.choice(["sum", "pool", "lstm", ""]), drop_rate=0.0)(X, h)
        elif what == "gin-layers":
            M.GIN(cin, 2, out, g.choice([1, 0, -1]), drop_rate=0.0)(X, h)
        elif what == "mlp-one":
            N.MLP(g.choice([[cin], []]), drop_rate=0.0)(X)
        elif what == "mlp-act":
            N.MLP([cin, out], act_name="NoSuchActivation", drop_rate=0.0)(X)
        else:
            N.MultiHeadWrapper(g.choice([1, 2]), g.choice(["none", "", "min"]), N.GCNConv, in_channels=cin, out_channels=out, drop_rate=0.0)(X=X, g=h)

    try:
        call()
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    return [e]


ONE_G, ONE_H = {"kind": "G", "nu": 0, "nv": 1, "extra": False, "es": [[0, 0, ONE]]}, {"kind": "H", "nv": 1, "es": [[[0], ONE, "main"]]}
STAR_G = {"kind": "G", "nu": 0, "nv": 3, "extra": False, "es": [[0, 1, ONE], [2, 0, ONE]]}
STAR_H = {"kind": "H", "nv": 3, "es": [[[0, 1], ONE, "main"], [[0, 2], ONE, "main"]]}
ONE_B = {"kind": "B", "nu": 1, "nv": 1, "extra": False, "es": [[0, 0, ONE]]}
BOTH_H = {"kind": "H", "nv": 2, "es": [[[0, 1], ONE, "main"]]}
# name -> (constructor, structures, feature shapes, number of places to drop, rows looked at)
RATES = {n: (lambda n=n, **k: getattr(M, n)(1, 1, 1, **k), [ONE_G if n in ("GCN", "GraphSAGE") else ONE_H], [(1, 1)], 1, 1) for n in STACKS}
RATES.update({
    "GAT": (lambda **k: M.GAT(1, 1, 1, 1, **k), [ONE_G], [(1, 1)], 1, 1), "UniGAT": (lambda **k: M.UniGAT(1, 1, 1, 1, **k), [ONE_H], [(1, 1)], 1, 1),
    "GIN": (lambda **k: M.GIN(1, 1, 1, 2, num_mlp_layers=1, **k), [ONE_G], [(1, 1)], 2, 1), "HyperGCN": (lambda **k: M.HyperGCN(1, 1, 1, **k), [BOTH_H], [(2, 1)], 2, 2),
    "GATConv": (lambda **k: N.GATConv(1, 1, **k), [STAR_G], [(3, 1)], 2, 1), "UniGATConv": (lambda **k: N.UniGATConv(1, 1, **k), [STAR_H], [(3, 1)], 2, 1),
    "LightGCN": (lambda **k: M.LightGCN(1, 1, 1, num_layers=1, **k), [ONE_B], [], 4, 1), "NGCF": (lambda **k: M.NGCF(1, 1, 1, num_layers=1, **k), [ONE_B], [], 2, 1),
    "DHCF": (lambda **k: M.DHCF(1, 1, 1, num_layers=1, **k), [ONE_H, ONE_H], [], 2, 1), "BGNN_MLP": (lambda **k: M.BGNN_MLP(1, 1, 1, 1, layer_depth=1, **k), [ONE_B], [(1, 1), (1, 1)], 1, 1),
    "MLP": (lambda **k: N.MLP([1, 1, 1], is_last=True, use_bn=False, **k), [], [(1, 1)], 1, 1), "Discriminator": (lambda **k: N.Discriminator(1, 1, 1, **k), [], [(1, 1)], 1, 1),
    "Decoder": (lambda **k: bgnn.Decoder(1, 1, 1, **k), [], [(1, 1)], 1, 1)})


def rates(g, name, rate, draws):
    """training draws that equal the result with everything dropped: one in rate^(-places)"""
    build, sts, shapes, k, rows = RATES[name]
    default = 0.0 if name == "LightGCN" else 0.5
    m, twin = build(**({} if rate / 16 == default and g.random() < 0.5 else {"drop_rate": rate / 16})), build(drop_rate=1.0)
    for x in m.parameters():
        x.data = torch.tensor([g.choice([0.25, 0.375, 0.5]) for _ in range(x.numel())]).view(x.shape)
    twin.load_state_dict(m.state_dict())
    X = [torch.arange(1, r * c + 1).float().view(r, c) / 8 for r, c in shapes]
    e = {"op": "rate", "ok": True, "err": "", "num": rate ** k, "den": 16 ** k, "hits": 0, "n": draws, "sig": "rate:" + name}
    while e["num"] % 2 == 0 and e["den"] > 1:
        e["num"], e["den"] = e["num"] // 2, e["den"] // 2
    m.train(), twin.train()
    cat = lambda o: torch.cat([x[:rows] for x in (o if isinstance(o, tuple) else (o,))])
    try:
        ref = cat(twin(*X, *[make(st) for st in sts]))
        ss = [make(st) for st in sts]
        e["hits"] = sum(torch.allclose(cat(m(*X, *ss)), ref, atol=1e-6) for _ in range(draws))
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
    return [e]


def C23(c):
    g = c.rng
    torch.manual_seed(g.randrange(1 << 30))
    torch.set_num_threads(1)
    tests = c.model("MC_Layers", env={"MC_BIG": "1"} if c.thorough else None)
    cases, hists = [t for t in tests if t["k"] == "case"], [t for t in tests if t["k"] == "hist"]
    traces = []
    add = lambda i, ev: traces.append({"id": i, "ev": ev})
    with torch.no_grad():
        for i, t in enumerate(g.sample(cases, min(len(cases), c.budget(3000, 20000)))):
            add("model-%d" % i, layer(g, t["conv"], t["st"], t))
        for i, t in enumerate(hists):
            for k in range(c.budget(1, 5)):
                add("hypergcn-%d-%d" % (i, k), hypergcn(g, t["fast"], t["med"], t["h"]))
        for i in range(c.budget(600, 10000)):
            add("layer-%d" % i, layer(g, g.choice(GK + HK)))
        for i in range(c.budget(100, 1500)):
            add("hgcn-%d" % i, layer(g, "HyperGCNConv", hstruct(g, g.randint(2, 4), small=2, most=2, size=3)))
        for i in range(c.budget(40, 300)):
            add("big-%d" % i, layer(g, g.choice(["GCNConv", "GraphSAGEConv"] + [h for h in HK if h != "UniGATConv"]), flags={"last": g.random() < 0.2, "bn": g.random() < 0.5, "bias": True, "train": True}, big=True))
        for i in range(c.budget(150, 2000)):
            add("plain-%d" % i, plain(g))
            add("heads-%d" % i, heads(g))
            add("loss-%d" % i, loss(g) + loss(g))
            add("refused-%d" % i, refused(g))
        for i in range(c.budget(500, 8000)):
            add("net-%d" % i, model(g))
        for i in range(c.budget(250, 3000)):
            add("rec-%d" % i, recommender(g))
        for i, n in enumerate(RATES):
            for rate in g.sample([8, 4, 12], 2 if not c.thorough else 3):
                add("rate-%d-%d" % (i, rate), rates(g, n, rate, 1000 if n == "LightGCN" else c.budget(250, 1000)))
        for i in range(c.budget(20, 100)):
            add("fresh-%d" % i, fresh(g))
    for i in range(c.budget(150, 2000)):
        with torch.enable_grad():
            add("cascade-%d" % i, cascade(g))
    c.validate("Trace_Layers", traces)


CHECKS = {"C23": C23}
