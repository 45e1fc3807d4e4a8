"""C12 dataset splits, C13 recommender data preparation (Split.tla)."""
from common import *
import torch, numpy as np, copy
from fractions import Fraction
import dhg
from dhg import BiGraph
from dhg.utils import split_by_num, split_by_ratio, split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph, UserItemDataset, adj_list_to_edge_list

NONE = [-1, 1]


def seed(x):
    random.seed(x)
    np.random.seed(x % (1 << 31))
    torch.manual_seed(x)


def arg(req, part):
    n, d = req[part]
    if n < 0:
        return None
    return n if req["kind"] == "num" else n / d


def idx(mask):
    return [i + 1 for i, b in enumerate(mask.tolist()) if b]


def labels_as(g, lab):
    how = g.choice(["list", "np", "np32", "tensor", "tensor32", "column"])
    if how == "list":
        return list(lab)
    if how == "np":
        return np.array(lab)
    if how == "np32":
        return np.array(lab, dtype=np.int32)
    if how == "tensor":
        return torch.tensor(lab)
    if how == "tensor32":
        return torch.tensor(lab, dtype=torch.int32)
    return np.array(lab).reshape(-1, 1)


def one_split(g, lab, req, sd):
    x = labels_as(g, lab)
    before = copy.deepcopy(x)
    f = split_by_num if req["kind"] == "num" else split_by_ratio
    a = [len(lab), x, arg(req, "t"), arg(req, "v"), arg(req, "s")]
    while len(a) > 3 and a[-1] is None and g.random() < 0.5:
        a.pop()
    e = {"op": "split", "lab": lab, "req": req, "same": False, "train": [], "val": [], "test": [], "hasval": False, "shapes": True,
         "sig": "split_by_%s" % req["kind"]}
    seed(sd)
    try:
        r = f(*a)
        e["ok"], e["err"] = True, ""
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + str(ex)[:150]
    e["pure"] = bool(np.array_equal(np.asarray(x), np.asarray(before)))
    if e["ok"]:
        e["hasval"] = len(r) == 3
        e["shapes"] = len(r) in (2, 3) and all(isinstance(m, torch.Tensor) and m.dtype == torch.bool and tuple(m.shape) == (len(lab),) for m in r)
        e["train"], e["test"] = idx(r[0]), idx(r[-1])
        if len(r) == 3:
            e["val"] = idx(r[1])
    return e


def split_trace(g, lab, req):
    sd = g.randrange(1 << 30)
    ev = [one_split(g, lab, req, sd)]
    if ev[0]["ok"] and g.random() < 0.4:
        e = one_split(g, lab, req, sd)
        e["same"] = True
        ev.append(e)
    return ev


def exact(req, lab):
    """the shares' floating point values must not change the integer part of any product"""
    if req["kind"] == "num":
        return True
    ns = {lab.count(v) for v in lab}
    tot = 0.0
    for p in "tvs":
        n, d = req[p]
        if n < 0:
            continue
        if any(int(k * (n / d)) != k * n // d for k in ns):
            return False
        tot += n / d
    s = sum(Fraction(*req[p]) for p in "tvs" if req[p][0] >= 0)
    return (tot < 1) == (s < 1) and (tot <= 1) == (s <= 1)


def rand_req(g, big):
    if g.random() < 0.5:
        n = lambda: [g.randint(0, big), 1]
        return {"kind": "num", "t": n(), "v": g.choice([NONE, n()]), "s": g.choice([NONE, n()])}
    d = g.choice([8, 10, 16, 3, 7, 100])
    n = lambda m: [g.randint(0, m), d]
    return {"kind": "ratio", "t": n(d), "v": g.choice([NONE, n(d // 2)]), "s": g.choice([NONE, n(d // 2)])}


def C12(c):
    g = c.rng
    tests = [t[0] for t in c.model("MC_Split", env={"MC_N": str(c.budget(4, 5))})]
    reqs = [t for t in tests if t["k"] == "req"]
    if not c.thorough:
        reqs = g.sample(reqs, 2500)
    else:
        reqs = g.sample(reqs, 30000)
    traces = [{"id": "model-%d" % i, "ev": split_trace(g, list(t["lab"]), t["req"])} for i, t in enumerate(reqs)]
    for i in range(c.budget(700, 8000)):
        k = g.randint(1, 6) if i % 12 else g.randint(7, 14)
        n = g.choice([1, 2, 5, 9, 16, 30, 50] if i % 30 else [200])
        base = g.choice([0, 0, 1, 1, 2])
        q = g.random()
        pool = [base + j for j in range(k)] if q < 0.7 else [base + 2 * j + g.randint(0, 1) for j in range(k)] if q < .85 else g.sample([-1, -5, 1, 5, 10, 44, 100, 127, 255, 256, 300, 1000, 40000, 70000, 9], k)
        w = [g.random() for _ in pool]
        lab = g.choices(pool, w, k=n)
        if g.random() < 0.2:
            lab.sort(reverse=g.random() < 0.5)
        req = rand_req(g, max(2, n // 3))
        if not exact(req, lab):
            continue
        traces.append({"id": "random-%d" % i, "ev": split_trace(g, lab, req)})
    for i in range(c.budget(12, 60)):
        lab = [g.randrange(3) for _ in range(g.randint(3, 9))]
        req = rand_req(g, 2)
        if not exact(req, lab):
            continue
        ps = []
        for sd in range(90):
            e = one_split(g, lab, req, 1000 * i + sd)
            if not e["ok"]:
                break
            ps.append([e["train"], e["val"], e["test"]])
        else:
            traces.append({"id": "reach-%d" % i, "ev": [{"op": "reach", "lab": lab, "req": req, "parts": ps, "sig": "reach"}]})
    c.validate("Trace_Split", traces)
    c.assumptions += ["shares whose floating point product with a class size has another integer part than the exact product are skipped"]


# ---------------------------------------------------------------- C13
def ui_split(g, nu, ni, adj, req, sd, bg=None, same=False):
    if bg is None:
        el = [(u, v) for u in range(nu) for v in adj[u]]
        g.shuffle(el)
        bg = BiGraph(nu, ni, el)
    e = {"op": "uisplit", "adj": adj, "req": req, "same": same, "train": [], "test": [], "sig": "uisplit:%s" % req["kind"]}
    f = split_by_num_for_UI_bigraph if req["kind"] == "num" else split_by_ratio_for_UI_bigraph
    before = (sorted(bg.e[0]), [list(bg.nbr_v(u)) for u in range(nu)])
    seed(sd)
    try:
        tr, te = f(bg, arg(req, "t"))
        e["ok"], e["err"] = True, ""
        e["train"] = [[r[0] + 1] + [int(x) for x in r[1:]] for r in tr]
        e["test"] = [[r[0] + 1] + [int(x) for x in r[1:]] for r in te]
    except Exception as ex:
        e["ok"], e["err"] = False, str(ex)[:150]
        tr = te = None
    e["pure"] = before == (sorted(bg.e[0]), [list(bg.nbr_v(u)) for u in range(nu)])
    return e, tr, te, bg


def plus(t):
    return [int(t[0]) + 1] + [int(x) for x in t[1:]]


def train_ev(g, nu, ni, lst, strict, sd, indices, same=False, ds=None):
    e = {"op": "train", "nu": nu, "ni": ni, "list": [plus(t) for t in lst], "strict": strict, "idx": [i + 1 for i in indices],
         "same": same, "out": [], "len": 0, "sig": "dataset:train:%s" % ("strict" if strict else "free")}
    arg_ = copy.deepcopy(lst)
    try:
        ds = ds or UserItemDataset(nu, ni, arg_, strict_link=strict, phase="train")
        seed(sd)
        e["out"] = [plus(ds[i]) for i in indices]
        e["len"] = len(ds)
        e["ok"], e["err"] = True, ""
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + str(ex)[:150]
    e["pure"] = arg_ == lst
    return e, ds


def eval_ev(g, nu, ni, lst, trlist, indices):
    e = {"op": "eval", "nu": nu, "ni": ni, "list": [plus(t) for t in lst], "trlist": [plus(t) for t in trlist], "idx": [i + 1 for i in indices],
         "out": [], "len": 0, "shapes": True, "sig": "dataset:eval"}
    a, b = copy.deepcopy(lst), copy.deepcopy(trlist)
    try:
        ds = UserItemDataset(nu, ni, a, train_user_item_list=b, phase="test")
        for i in indices:
            u, mask, rating = ds[i]
            ok = tuple(mask.shape) == (ni,) and tuple(rating.shape) == (ni,)
            ok = ok and all(x == 0 or x == float("-inf") for x in mask.tolist()) and all(x in (0, 1) for x in rating.tolist())
            e["shapes"] = e["shapes"] and ok
            e["out"].append([int(u) + 1, [j for j, x in enumerate(mask.tolist()) if x != 0], [j for j, x in enumerate(rating.tolist()) if x != 0]])
        e["len"] = len(ds)
        e["ok"], e["err"] = True, ""
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + str(ex)[:150]
    e["pure"] = (a, b) == (lst, trlist)
    return e


def pipeline(g, nu, ni, adj, req, c):
    sd = g.randrange(1 << 30)
    e, tr, te, bg = ui_split(g, nu, ni, adj, req, sd)
    ev = [e]
    if not e["ok"]:
        return ev
    if g.random() < 0.3:
        ev.append(ui_split(g, nu, ni, adj, req, sd, BiGraph(nu, ni, bg.e[0]), True)[0])
    trl, tel = adj_list_to_edge_list(tr), adj_list_to_edge_list(te)
    if g.random() < 0.5:
        trl, tel = [list(t) for t in trl], [list(t) for t in tel]
    g.shuffle(trl)
    if g.random() < 0.15 and trl:
        trl.append(g.choice(trl))
    deg = [len({t[1] for t in trl if t[0] == u}) for u in range(nu)]
    if trl and all(d < ni for d in deg):
        ids = list(range(len(trl)))
        if g.random() < 0.5:
            g.shuffle(ids)
        s2 = g.randrange(1 << 30)
        e, ds = train_ev(g, nu, ni, trl, True, s2, ids)
        ev.append(e)
        if g.random() < 0.3:
            ev.append(train_ev(g, nu, ni, trl, True, s2, ids, True)[0])
        if all(d > 0 for d in deg):
            e, ds = train_ev(g, nu, ni, trl, False, s2, [g.randrange(len(trl)) for _ in range(2 * len(trl))])
            ev.append(e)
            if g.random() < 0.3:
                ev.append(train_ev(g, nu, ni, trl, False, s2, [i - 1 for i in e["idx"]], True)[0])
    us = list(range(nu))
    g.shuffle(us)
    us.append(g.choice(us))
    ev.append(eval_ev(g, nu, ni, tel, trl, us))
    return ev


def C13(c):
    g = c.rng
    tests = [t[0] for t in c.model("MC_Split", env={"MC_N": "2"})]
    traces = []
    for i, t in enumerate([t for t in tests if t["k"] == "ureq"]):
        traces.append({"id": "model-%d" % i, "ev": pipeline(g, 2, 3, [list(a) for a in t["adj"]], t["req"], c)})
    for i in range(c.budget(500, 6000)):
        nu, ni = (g.randint(1, 7), g.randint(2, 12)) if i % 25 else (g.randint(11, 16), g.randint(18, 30))
        p = g.choice([0.1, 0.4, 0.7])
        adj = [[v for v in range(ni) if g.random() < p] for _ in range(nu)]
        d = g.choice([8, 10, 5, 3])
        req = {"kind": "num", "t": [g.randint(0, ni + 1), 1]} if g.random() < 0.5 else {"kind": "ratio", "t": [g.randint(0, d), d]}
        if req["kind"] == "ratio" and any(int(len(a) * (req["t"][0] / d)) != len(a) * req["t"][0] // d for a in adj):
            continue
        traces.append({"id": "random-%d" % i, "ev": pipeline(g, nu, ni, adj, req, c)})
    # how often values are drawn
    for i in range(c.budget(16, 80)):
        nu, ni = (g.randint(1, 4), g.randint(3, 6)) if i % 8 else (1, 20)
        lst = [(u, v) for u in range(nu) for v in g.sample(range(ni), g.randint(1, ni - 1))]
        strict = i % 2 == 0
        ids = [k % len(lst) for k in range(400 if ni < 20 else 3000)]
        e, _ = train_ev(g, nu, ni, lst, strict, g.randrange(1 << 30), ids)
        if e["ok"]:
            k = dict(e, op="counts", sig="dataset:counts")
            traces.append({"id": "counts-%d" % i, "ev": [e, k]})
    for i, f in enumerate([lambda: UserItemDataset(2, 3, [(0, 1)], phase="test"), lambda: UserItemDataset(2, 3, [(0, 1)], phase="valid")]):
        e = {"op": "invalid", "sig": "dataset:invalid:%d" % i, "ok": True}
        try:
            f()
        except Exception:
            e["ok"] = False
        traces.append({"id": "invalid-%d" % i, "ev": [e]})
    c.validate("Trace_Split", traces)
    c.assumptions += ["every user has an item outside the training interactions; without strict pairing every user has a training interaction"]


CHECKS = {"C12": C12, "C13": C13}
