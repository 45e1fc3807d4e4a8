"""C16 evaluators, C17 ranking metrics, C18 classification metrics (Evaluator.tla, Metrics.tla)."""
from common import *
import torch, numpy as np, warnings
warnings.filterwarnings("ignore")
import dhg.metrics.retrieval as RET
import dhg.metrics.recommender as REC
import dhg.metrics.classification as CLA
from dhg.metrics import build_evaluator, GraphVertexClassificationEvaluator, HypergraphVertexClassificationEvaluator

MOD = {"retrieval": RET, "recommender": REC}
RATIOS = [(1, 2), (1, 4), (3, 4), (1, 8), (1, 16), (3, 8), (5, 8), (1, 1)]
INTS = [torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8]


def cfg(name, k=0, ratio=None, method="pascal_voc", np_=0, params=(), known=True):
    rn, rd = ratio or (0, 0)
    return {"name": name, "k": k, "rn": rn, "rd": rd, "method": method, "np": np_ or 11, "params": list(params), "known": known}


def kwargs(c):
    d = {}
    for p in c["params"]:
        d[p] = {"k": c["k"], "ratio": c["rn"] / max(1, c["rd"]), "method": c["method"], "n_points": c["np"], "average": c["method"]}[p]
    return d


def rand_cfg(g, task, n=8, scalar=False, ratio=True):
    names = {"retrieval": ["precision", "recall", "map", "ndcg", "mrr"] + ([] if scalar else ["pr_curve"]),
             "recommender": ["precision", "recall", "ndcg"]}[task]
    name = g.choice(names)
    k, r, m, np_, params = 0, None, "pascal_voc", 0, []
    what = g.choice(["none", "k", "ratio", "ratio"])
    if what == "k":
        k = g.randint(1, n + 2)
        params.append("k")
    elif what == "ratio" and ratio:
        r = g.choice(RATIOS)
        params.append("ratio")
    if name in ("map", "pr_curve") and g.random() < 0.6:
        m = g.choice(["legacy", "pascal_voc"])
        params.append("method")
    if name == "pr_curve":
        np_ = g.choice([2, 3, 5, 9, 17])
        params.append("n_points")
    g.shuffle(params)
    return cfg(name, k, r, m, np_, params)


def rand_rows(g, nrow, n, grades=1, p=0.4):
    ys, ss = [], []
    for _ in range(nrow):
        q = g.choice([0.0, 0.2, p, 0.7, 1.0])
        ys.append([(g.randint(1, grades) if g.random() < q else 0) for _ in range(n)])
        s = list(range(1, n + 1))
        g.shuffle(s)
        off = g.randint(-2 * n, n)
        ss.append([x * g.choice([1]) + off for x in s])
    return ys, ss


def tens(g, ys, ss, onedim=False):
    yt = torch.tensor(ys, dtype=g.choice([torch.float32, torch.int64, torch.float64]))
    # only the order of the scores counts: steps from 2^-19 around one to 500
    st = torch.tensor(ss, dtype=torch.float64) * (q := g.choice([0.125, 0.125, 2.0 ** -19, 0.015625, 37.5, 500.0])) + (1 if q < 0.1 else 0)
    st = st.to(g.choice([torch.float32, torch.float64]))
    if onedim:
        yt, st = yt[0], st[0]
    if g.random() < 0.2:
        st = st.clone().requires_grad_(True)
    return yt, st


def value(x):
    """a metric result -> <<row, ..>>"""
    if isinstance(x, (tuple, list)) and len(x) and isinstance(x[0], (list, tuple, np.ndarray)):
        return [encl(r) for r in x]
    if isinstance(x, np.ndarray) and x.ndim == 2:
        return [[int(v) * ONE for v in r] for r in x.tolist()]
    return [[enc(x)]]


def rows_value(x, name):
    if name == "pr_curve":
        return [[encl(p), encl(r)] for p, r in zip(x[0], x[1])]
    return [[[enc(float(v))]] for v in x]


def call(f, e, args, res):
    before = [a.clone() for a in args]
    e["out"] = []
    e["err"] = ""
    try:
        r = f()
        e["ok"] = True
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:160]
        r = None
    e["pure"] = all(torch.equal(a.detach(), b.detach()) for a, b in zip(args, before))
    if e["ok"]:
        e["out"] = res(r)
    return r


def do_metric(g, task, c, ys, ss, mode, shape=False):
    e = {"op": "metric", "task": task, "c": c, "y": ys, "sc": ss, "batch": mode == "batch", "shape": shape,
         "sig": "%s:%s:%s" % (task, c["name"], "ratio" if c["rd"] else "k" if c["k"] else "all")}
    yt, st = tens(g, ys, ss, onedim=(mode == "one"))
    if shape:
        st = st[..., :-1]
    m = MOD[task]
    kw = kwargs(c)
    if mode == "one" and c["name"] in ("map", "mrr") and g.random() < 0.5:
        fn = {"map": "ap", "mrr": "rr"}[c["name"]]
        e["sig"] += ":" + fn
        f = lambda: getattr(m, fn)(yt, st, **kw)
    else:
        if mode == "batch":
            kw["ret_batch"] = True
        f = lambda: getattr(m, c["name"])(yt, st, **kw)
    call(f, e, [yt, st], (lambda r: rows_value(r, c["name"])) if mode == "batch" else (lambda r: [value(r)]))
    return e


def all_cfgs(task, n):
    out = []
    names = ["precision", "recall", "ndcg"] + (["map", "mrr"] if task == "retrieval" else [])
    for name in names:
        out.append(cfg(name))
        for k in range(1, n + 2):
            out.append(cfg(name, k=k, params=["k"]))
        for r in RATIOS:
            out.append(cfg(name, ratio=r, params=["ratio"]))
    if task == "retrieval":
        for m in ("legacy", "pascal_voc"):
            out.append(cfg("map", method=m, params=["method"]))
            for p in (2, 3, 5, 9):
                out.append(cfg("pr_curve", method=m, np_=p, params=["method", "n_points"]))
    return out


def C17(c):
    g = c.rng
    tests = [t[0] for t in c.model("MC_Metrics", env={"MC_N": str(c.budget(4, 5)), "MC_M": "2"})]
    ranks = [(t["y"], t["sc"]) for t in tests if t["kind"] == "rank"]
    n = len(ranks[0][0])
    binary = [r for r in ranks if max(r[0]) <= 1]
    graded = [r for r in ranks if max(r[0]) > 1]
    traces = []
    # every ranking of the model under every configuration, many rows per call
    ev = []
    for task in ("retrieval", "recommender"):
        for cf in all_cfgs(task, n):
            pool = list(binary)
            if cf["name"] in ("ndcg", "map", "mrr"):
                pool += g.sample(graded, len(binary))
            g.shuffle(pool)
            size = c.budget(48, 16)
            for i in range(0, len(pool), size):
                part = pool[i:i + size]
                ev.append(do_metric(g, task, cf, [p[0] for p in part], [p[1] for p in part], g.choice(["batch", "mean"])))
    traces += [{"id": "model-%d" % i, "ev": ev[i:i + 4]} for i in range(0, len(ev), 4)]
    # random rows
    for i in range(c.budget(900, 6000)):
        task = g.choice(["retrieval", "retrieval", "recommender"])
        n2 = g.choice([1, 2, 3, 5, 8, 13, 20] if i % 25 else [40, 70])
        cf = rand_cfg(g, task, n2)
        nr = g.choice([1, 1, 2, 3, 7])
        grades = g.choice([3, 3, 6]) if cf["name"] in ("ndcg", "map", "mrr") and g.random() < 0.5 else 1
        mode = g.choice(["batch", "mean", "one"] if nr == 1 else ["batch", "mean"])
        if cf["name"] == "pr_curve" and nr == 1 and g.random() < 0.5:
            cf["np"] = g.choice([4, 7, 11, 21])
        ys, ss = rand_rows(g, nr, n2, grades)
        e = [do_metric(g, task, cf, ys, ss, mode)]
        # the same rows with the items in another order
        if g.random() < 0.3:
            p = list(range(n2))
            g.shuffle(p)
            e.append(do_metric(g, task, cf, [[y[j] for j in p] for y in ys], [[s[j] for j in p] for s in ss], mode))
        # equal scores between items of equal relevance are no tie
        if g.random() < 0.2:
            s2 = [[max(s[j] for j in range(n2) if y[j] == y[i2]) if all(y2 == y[0] for y2 in y) else s[i2] for i2 in range(n2)] for y, s in zip(ys, ss)]
            e.append(do_metric(g, task, cf, ys, s2, mode))
        # rejected: shapes, gains that are not binary
        if g.random() < 0.2 and n2 > 1:
            e.append(do_metric(g, task, cf, ys, ss, mode, shape=True))
        if g.random() < 0.3 and cf["name"] in ("precision", "recall"):
            y2 = [list(y) for y in ys]
            y2[g.randrange(nr)][g.randrange(n2)] = g.randint(2, 3)
            e.append(do_metric(g, task, cf, y2, ss, mode))
        traces.append({"id": "random-%d" % i, "ev": e})
    # the functions of one ranking
    for i in range(c.budget(80, 500)):
        n2 = g.choice([2, 3, 5, 8])
        what = g.choice(["k", "ratio", "ratio", "none"])
        name = g.choice(["map", "mrr"])
        cf = cfg(name, k=g.randint(1, n2 + 1) if what == "k" else 0, ratio=g.choice(RATIOS) if what == "ratio" else None, params=[what] if what != "none" else [])
        ys, ss = rand_rows(g, 1, n2, 3)
        traces.append({"id": "single-%d" % i, "ev": [do_metric(g, "retrieval", cf, ys, ss, "one") for _ in range(3)]})
    c.validate("Trace_Metrics", traces)
    c.assumptions += ["no ties between items of different relevance", "cut-off shares are exactly representable fractions"]
    return c


# ---------------------------------------------------------------- C18
def do_class(g, c, t, p, how, shape=False, ev=None):
    e = {"op": "class", "c": c, "t": t, "p": p, "shape": shape, "sig": "class:%s" % c["name"]}
    fits = lambda xs: [d for d in INTS if max(xs) <= torch.iinfo(d).max and min(xs) >= torch.iinfo(d).min]
    yt = torch.tensor(t, dtype=g.choice(fits(t)))
    if how == "scores":
        k = max(t + p) + 1 + g.randint(0, 2)
        rows = []
        for a in p:
            s = list(range(k))
            g.shuffle(s)
            i = s.index(k - 1)
            s[i], s[a] = s[a], s[i]
            rows.append(s)
        yp = torch.tensor(rows, dtype=g.choice([torch.float32, torch.float64])) * g.choice([0.25, 0.25, 2.0 ** -20, 300.0]) + g.choice([-1, 0, 1])
    else:
        yp = torch.tensor(p, dtype=g.choice(fits(p)))
    if shape:
        yp = yp[:-1]
    if ev is None:
        call(lambda: getattr(CLA, c["name"])(yt, yp, **kwargs(c)), e, [yt, yp], lambda r: [value(r)])
    else:
        ev(e, yt, yp)
    return e


CLASS_CFGS = [cfg("accuracy", method=""), cfg("f1_score", method="macro"), cfg("confusion_matrix", method="")] + \
    [cfg("f1_score", method=a, params=["average"]) for a in ("micro", "macro", "weighted")]


def C18(c):
    g = c.rng
    tests = [t[0] for t in c.model("MC_Metrics", env={"MC_N": "2", "MC_M": str(c.budget(3, 4))})]
    pairs = [(t["t"], t["p"]) for t in tests if t["kind"] == "label"]
    traces = []
    for i, (t, p) in enumerate(pairs):
        ev = []
        for cf in CLASS_CFGS:
            ev.append(do_class(g, cf, t, p, "labels"))
            ev.append(do_class(g, cf, t, p, "scores"))
        traces.append({"id": "model-%d" % i, "ev": ev})
    for i in range(c.budget(300, 4000)):
        n = g.choice([1, 2, 3, 5, 8, 15, 30] if i % 40 else [100, 300])
        k = g.randint(1, 6)
        base = g.choice([0, 0, 1, 3])
        t = [base + g.randrange(k) for _ in range(n)]
        p = [x if g.random() < 0.6 else base + g.randrange(k) for x in t]
        ev = [do_class(g, cf, t, p, g.choice(["labels", "scores"])) for cf in CLASS_CFGS]
        q = list(range(n))
        g.shuffle(q)
        ev += [do_class(g, cf, [t[j] for j in q], [p[j] for j in q], g.choice(["labels", "scores"])) for cf in g.sample(CLASS_CFGS, 2)]
        if g.random() < 0.2:
            ev.append(do_class(g, g.choice(CLASS_CFGS), t, p, g.choice(["labels", "scores"]), shape=True))
        traces.append({"id": "random-%d" % i, "ev": ev})
    # labels beyond the narrow integer types
    for i in range(c.budget(60, 500)):
        pool = g.sample([0, 1, 44, 127, 128, 255, 256, 257, 300], 4) + ([-1, 32768, 65536, 70000] if i % 3 == 0 else [])
        n = g.randint(2, 8)
        t, p = [[g.choice(pool) for _ in range(n)] for _ in range(2)]
        narrow = [v for v in pool if 0 <= v < 128] or [0]
        t = g.choice([t, [g.choice(narrow) for _ in range(n)]])
        how = ["labels"] if min(t + p) < 0 or max(t + p) > 400 else ["labels", "scores"]
        traces.append({"id": "wide-%d" % i, "ev": [do_class(g, cf, t, p, g.choice(how)) for cf in CLASS_CFGS]})
    # through the classification evaluators
    for i in range(c.budget(80, 600)):
        traces.append({"id": "evaluator-%d" % i, "ev": class_evaluator(g)})
    c.validate("Trace_Metrics", traces)
    return c


def api_cfg(c):
    kw = kwargs(c)
    return {c["name"]: kw} if c["params"] else c["name"]


class Ev:
    """drives one evaluator and records the history"""

    def __init__(self, g, task, cls, cfgs, v, wrong=False):
        self.g, self.task, self.cfgs, self.v, self.ev, self.held = g, task, cfgs, v, [], []
        e = {"op": "new", "task": task, "cfgs": cfgs, "v": v, "out": [], "sig": "evaluator:new"}
        lst = [api_cfg(x) for x in cfgs]
        snap = repr(lst)
        task = {GraphVertexClassificationEvaluator: "graph_vertex_classification", HypergraphVertexClassificationEvaluator: "hypergraph_vertex_classification",
                REC.UserItemRecommenderEvaluator: "user_item_recommender"}.get(cls)
        built = task is not None and (wrong or g.random() < 0.5)      # by the name of the task
        e["tk"] = not (built and wrong)
        if not e["tk"]:
            task = g.choice(["graph_vertex_classificatio", "recommender", "link_prediction", ""])
        omit = v == 1 and g.random() < 0.6                 # validating with the first metric is the default
        if built:
            e["sig"] += ":built"
        try:
            a = (lst,) if omit else (lst, v - 1)
            self.x = build_evaluator(task, *a) if built else cls(*a)
            if built and type(self.x) is not cls:
                raise TypeError("built " + type(self.x).__name__)
            e["ok"], e["err"] = True, ""
        except Exception as ex:
            self.x = None
            e["ok"], e["err"] = False, str(ex)[:160]
        e["pure"] = repr(lst) == snap
        self.ev.append(e)

    def result(self, r, mode):
        if mode == "validate":
            return [value(r)]
        return [value(x) for x in r.values()]

    def again(self):
        return [self.result(r, m) for r, m in self.held]

    def step(self, e, f, args, mode=None):
        e["keys"] = []
        r = call(f, e, args, (lambda r: self.result(r, mode)) if mode else (lambda r: []))
        if e["ok"] and mode:
            self.held.append((r, mode))
            if mode == "test":
                e["keys"] = list(r.keys())
        e["held"] = self.again()
        self.ev.append(e)

    def add(self, mode, ys, ss, shape=False, one=False):
        yt, st = tens(self.g, ys, ss, onedim=one)
        if shape:
            st = st[..., :-1]
        f = self.x.validate_add_batch if mode == "v" else self.x.test_add_batch
        self.step({"op": "add" + mode, "y": ys, "sc": ss, "shape": shape, "sig": "%s:add%s%s" % (self.task, mode, ":bad" if shape else "")},
                  lambda: f(yt, st), [yt, st])

    def epoch(self, mode):
        f = self.x.validate_epoch_res if mode == "v" else self.x.test_epoch_res
        self.step({"op": "epoch" + mode, "sig": "%s:epoch%s" % (self.task, mode)}, f, [], "validate" if mode == "v" else "test")

    def imm(self, mode, ys, ss, shape=False):
        yt, st = tens(self.g, ys, ss)
        if shape:
            st = st[..., :-1]
        f = self.x.validate if mode == "validate" else self.x.test
        self.step({"op": "imm", "mode": mode, "y": ys, "sc": ss, "shape": shape, "sig": "%s:%s" % (self.task, mode)}, lambda: f(yt, st), [yt, st], mode)


def class_evaluator(g):
    cls = g.choice([GraphVertexClassificationEvaluator, HypergraphVertexClassificationEvaluator, CLA.VertexClassificationEvaluator])
    k = g.randint(1, 4)
    cfgs = [dict(x) for x in g.sample(CLASS_CFGS, k)]
    good = [i for i, x in enumerate(cfgs) if x["name"] != "confusion_matrix"]
    v = 1 + g.choice(good) if good else 1
    r = g.random()
    if r < 0.1:
        v = k + 1
    elif r < 0.2:
        cfgs[g.randrange(k)] = cfg("no_such_metric", known=False)
    x = Ev(g, "classification", cls, cfgs, v)
    if x.x is None:
        return x.ev
    for _ in range(g.randint(2, 5)):
        n = g.randint(2, 8)
        kk = g.randint(1, 4)
        t = [g.randrange(kk) for _ in range(n)]
        p = [a if g.random() < 0.5 else g.randrange(kk) for a in t]
        mode = g.choice(["validate", "test"])

        def run(e, yt, yp):
            e.update({"op": "imm", "mode": mode, "sig": "classification:" + mode})
            x.step(e, lambda: (x.x.validate if mode == "validate" else x.x.test)(yt, yp), [yt, yp], mode)
        do_class(g, cfgs[0], t, p, g.choice(["labels", "scores"]), shape=g.random() < 0.15, ev=run)
    return x.ev


# ---------------------------------------------------------------- C16
EVC = {"retrieval": RET.RetrievalEvaluator, "recommender": REC.UserItemRecommenderEvaluator}


def new_ev(g, task, nm=None):
    k = nm or g.randint(1, 4)
    seen, cfgs = set(), []
    v = g.randint(1, k)
    while len(cfgs) < k:
        x = rand_cfg(g, task, 6, scalar=(len(cfgs) + 1 == v))
        key = json.dumps(x, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        cfgs.append(x)
    return Ev(g, task, EVC[task], cfgs, v)


def batch_for(g, x, small=False):
    n = g.choice([2, 3, 6]) if small else g.choice([1, 2, 4, 6, 9])
    nr = g.choice([1, 2, 3]) if small else g.choice([1, 1, 2, 4, 7])
    graded = not any(cc["name"] in ("precision", "recall", "pr_curve") for cc in x.cfgs)
    return rand_rows(g, nr, n, 3 if graded and g.random() < 0.5 else 1)


def bad_batch(g, x):
    """a batch the evaluator must refuse, as (rows, scores, shape flag); which metrics see it depends on the mode"""
    ys, ss = batch_for(g, x)
    needs = [i for i, cc in enumerate(x.cfgs) if cc["name"] in ("precision", "recall")]
    if needs and not any(cc["name"] == "pr_curve" for cc in x.cfgs) and g.random() < 0.6:
        ys[0][0] = 2
        return ys, ss, False
    if len(ys[0]) == 1:
        ys = [y + [0] for y in ys]
        ss = [s + [s[0] - 1] for s in ss]
    return ys, ss, True


def replay(g, hist, task):
    x = new_ev(g, task, g.choice([2, 2, 3]))
    for cl in hist:
        o = cl["op"]
        if o == "addv" or o == "addt":
            ys, ss = batch_for(g, x, True)
            x.add(o[3], ys, ss, one=len(ys) == 1 and g.random() < 0.3)
        elif o == "epochv" or o == "epocht":
            x.epoch(o[5])
        elif o == "imm":
            x.imm(g.choice(["validate", "test"]), *batch_for(g, x, True))
        else:
            ys, ss, sh = bad_batch(g, x)
            if g.random() < 0.8:
                x.add(g.choice("vt"), ys, ss, sh)
            else:
                x.imm(g.choice(["validate", "test"]), ys, ss, sh)
    return x.ev


def C16(c):
    g = c.rng
    seqs = c.model("MC_Evaluator", env={"MC_LEN": str(c.budget(5, 6))})
    if not c.thorough:
        short = [s for s in seqs if len(s) <= 3]
        rest = [s for s in seqs if len(s) > 3]
        seqs = short + g.sample(rest, min(len(rest), 900))
    traces = []
    for i, h in enumerate(seqs):
        task = "retrieval" if i % 2 else "recommender"
        traces.append({"id": "model-%d" % i, "ev": replay(g, h, task)})
    for i in range(c.budget(150, 2500)):
        task = g.choice(["retrieval", "recommender"])
        x = new_ev(g, task)
        for _ in range(g.randint(5, 25)):
            o = g.choice(["addv", "addt", "addv", "addt", "epochv", "epocht", "imm", "bad"])
            if o in ("addv", "addt"):
                x.add(o[3], *batch_for(g, x))
            elif o in ("epochv", "epocht"):
                x.epoch(o[5])
            elif o == "imm":
                x.imm(g.choice(["validate", "test"]), *batch_for(g, x))
            else:
                ys, ss, sh = bad_batch(g, x)
                x.add(g.choice("vt"), ys, ss, sh)
        traces.append({"id": "random-%d" % i, "ev": x.ev})
    # configurations: unknown metrics, validation index out of range
    for i in range(20):
        task = g.choice(["retrieval", "recommender"])
        cfgs = [rand_cfg(g, task, 6) for _ in range(g.randint(1, 3))]
        v = g.choice([0, len(cfgs) + 1, 1])
        if v == 1:
            cfgs[g.randrange(len(cfgs))] = cfg("no_such_metric", known=False)
        traces.append({"id": "config-%d" % i, "ev": Ev(g, task, EVC[task], cfgs, v).ev})
    for i in range(12):
        traces.append({"id": "task-%d" % i, "ev": Ev(g, "recommender", EVC["recommender"], [rand_cfg(g, "recommender", 6)], 1, wrong=True).ev})
        traces.append({"id": "class-task-%d" % i, "ev": Ev(g, "classification", GraphVertexClassificationEvaluator, [cfg("accuracy")], 1, wrong=True).ev})
    for i in range(60):
        traces.append({"id": "class-%d" % i, "ev": class_evaluator(g)})
    c.validate("Trace_Metrics", traces)
    c.assumptions += ["the validation metric is a scalar one", "sequential use of one evaluator"]
    return c


CHECKS = {"C16": C16, "C17": C17, "C18": C18}
