"""C19 random structures, features and seeding (Random.tla)."""
from common import *
import contextlib, itertools, signal
import torch, numpy as np
import dhg.random as R
from dhg import Graph, DiGraph, BiGraph, Hypergraph


class Hang(Exception):
    pass


@contextlib.contextmanager
def limit(sec):
    def stop(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


KIND = {"graph": Graph, "digraph": DiGraph, "bigraph": BiGraph, "uniform": Hypergraph, "hyper": Hypergraph}


def req(gen, n, u=1, k=1, m=-1, p=(0, 1), w=()):
    return {"gen": gen, "n": n, "u": u, "k": k, "m": m, "p": list(p), "w": list(w)}


def variants(r, g):
    """the library functions a request can be given to"""
    p = r["m"] == -1
    if r["gen"] in ("graph", "digraph"):
        return [r["gen"] + "_Gnp", r["gen"] + "_Gnp_fast"] if p else [r["gen"] + "_Gnm"]
    if r["gen"] == "bigraph":
        return ["bigraph_Gnp"] if p else ["bigraph_Gnm"]
    if r["gen"] == "uniform":
        return ["uniform_hypergraph_Gnp"] if p else ["uniform_hypergraph_Gnm"]
    return ["custom"]


def make(fn, r):
    p = r["p"][0] / r["p"][1]
    if r["gen"] in ("graph", "digraph"):
        return getattr(R, fn)(r["n"], p if r["m"] == -1 else r["m"])
    if r["gen"] == "bigraph":
        return getattr(R, fn)(r["u"], r["n"], p if r["m"] == -1 else r["m"])
    if r["gen"] == "uniform":
        return getattr(R, fn)(r["k"], r["n"], p if r["m"] == -1 else r["m"])
    if fn == "custom":
        return R.hypergraph_Gnm(r["n"], r["m"], "custom", [x / 8 for x in r["w"]])
    if fn == "default":
        return R.hypergraph_Gnm(r["n"], r["m"])
    return R.hypergraph_Gnm(r["n"], r["m"], fn)


def edges(r, o):
    es = o.e[0]
    if r["gen"] == "graph":
        return [sorted(e) for e in es]
    if r["gen"] in ("uniform", "hyper"):
        return [list(e) for e in es]
    return [list(e) for e in es]


HANGS = [0]


def gen(fn, r):
    e = {"op": "gen", "fn": fn, "r": r, "hang": False, "ok": True, "err": "", "edges": [], "nv": [], "ne": 0, "unit": True,
         "sig": fn + (":hyper" if r["gen"] == "hyper" else "")}
    try:
        with limit(20 if HANGS[0] < 3 else 0.5):
            o = make(fn, r)
    except Hang:
        HANGS[0] += 1
        e.update(hang=True, ok=False, err="no result within 20 s")
        return e
    except Exception as ex:
        e.update(ok=False, err=type(ex).__name__ + " " + str(ex)[:150])
        return e
    if type(o) is not KIND[r["gen"]]:
        e.update(nv=[-1])
        return e
    e["edges"] = edges(r, o)
    e["nv"] = [o.num_u, o.num_v] if r["gen"] == "bigraph" else [o.num_v]
    e["ne"] = o.num_e
    e["unit"] = all(w == 1 for w in o.e[1])
    return e


def number(fn):
    v = {"random": lambda: random.randrange(1 << 28), "np": lambda: int(np.random.randint(1 << 28)),
         "torch": lambda: int(torch.randint(1 << 28, (1,)))}[fn]()
    return {"op": "number", "fn": fn, "val": v, "sig": "number:" + fn}


def setseed(x):
    R.set_seed(x)
    return {"op": "seed", "seed": x, "got": R.seed(), "sig": "set_seed"}


def features(lab, noise, how):
    x = {"list": lambda: list(lab), "np": lambda: np.array(lab), "tensor": lambda: torch.tensor(lab)}[how]()
    e = {"op": "features", "lab": list(lab), "noise": enc(noise), "ok": True, "err": "", "out": [], "pure": True, "sig": "normal_features:" + how}
    try:
        o = R.normal_features(x, noise)
        e["out"] = encm(o)
    except Exception as ex:
        e.update(ok=False, err=type(ex).__name__ + " " + str(ex)[:150])
    e["pure"] = list(map(int, x)) == list(lab)
    return e


def uniform_w(n):
    return [math.comb(n, k) for k in range(2, n + 1)]


def rand_req(g, big):
    gen_ = g.choice(["graph", "digraph", "bigraph", "uniform", "hyper"])
    n = g.randint(2, big)
    if gen_ == "hyper":
        n = min(n, 9) if g.random() < .9 else g.randint(10, 17)
        w = [g.choice([0, 1, 2, 5]) for _ in range(n - 1)]
        if not any(w):
            w[g.randrange(n - 1)] = 1
        mx = sum(math.comb(n, i + 2) for i in range(n - 1) if w[i])
        return req("hyper", n, m=g.choice([1, mx, mx // 2 + 1, g.randint(1, mx), mx + 1] if mx < 40 else [1, g.randint(1, 30)]), w=w)
    u = g.randint(2, big) if gen_ == "bigraph" else 1
    k = 1
    if gen_ == "uniform":
        n = min(n, 9) if g.random() < .9 else g.randint(10, 13)
        k = g.randint(2, n)
    mx = {"graph": n * (n - 1) // 2, "digraph": n * (n - 1), "bigraph": u * n, "uniform": math.comb(n, k)}[gen_]
    if g.random() < 0.5:
        return req(gen_, n, u, k, p=g.choice([(0, 1), (1, 1), (1, 2), (1, 8), (7, 8), (1, 64)]))
    return req(gen_, n, u, k, m=g.choice([0, 1, mx, mx // 2, g.randint(0, mx), mx + 1]) if gen_ != "uniform" else g.choice([1, mx, g.randint(1, mx), mx + 1]))


def feature_args(g):
    n = g.choice([1, 3, 8, 20])
    pool = g.sample(list(range(-3, 30)) + [127, 128, 255, 256, 300, 40000] * (g.random() < .3), g.randint(1, 4))
    return [g.choice(pool) for _ in range(n)], g.choice([0, 0.25, 1.0, 2.0]), g.choice(["list", "np", "tensor"])


def history(calls, g):
    """run a list of call descriptions"""
    ev = []
    for c in calls:
        if c[0] == "seed":
            ev.append(setseed(c[1]))
        elif c[0] == "number":
            ev.append(number(c[1]))
        elif c[0] == "features":
            ev.append(features(*c[1:]))
        else:
            ev.append(gen(c[1], c[2]))
    return ev


def rand_calls(g, n):
    seeds = [g.randrange(1 << 31), g.randrange(100), 0]
    pool = [("number", x) for x in ("random", "np", "torch")] + [("features",) + feature_args(g)]
    for _ in range(4):
        r = rand_req(g, 6)
        pool.append(("gen", g.choice(variants(r, g)), r))
    h = [req("hyper", 5, m=3, w=uniform_w(5)), req("graph", 5, m=4), req("digraph", 4, p=(1, 2))]
    pool += [("gen", g.choice(["uniform", "low_order_first", "high_order_first", "default"]), h[0]), ("gen", "graph_Gnm", h[1]), ("gen", "digraph_Gnp_fast", h[2])]
    calls = []
    while len(calls) < n:
        calls.append(("seed", g.choice(seeds)))
        k = g.randint(1, 4)
        first = g.choice(pool[:6])
        calls.append(first)
        calls += [g.choice(pool) for _ in range(k - 1)]
    return calls


def many(g, fn, r, n, fresh):
    outs = []
    R.set_seed(g.randrange(1 << 31))
    for i in range(n):
        if fresh:
            R.set_seed(g.randrange(1 << 31))
        e = gen(fn, r)
        if not e["ok"]:
            return [e]
        outs.append(e["edges"])
    return [{"op": "many", "r": r, "outs": outs, "sig": fn + (":hyper" if r["gen"] == "hyper" else "") + ":many"}]


def C19(c):
    g = c.rng
    traces = []
    for i, t in enumerate(c.model("MC_Random", env={"MC_N": str(c.budget(4, 5))})):
        r = dict(t[0])
        R.set_seed(g.randrange(1 << 30))
        for fn in variants(r, g):
            traces.append({"id": "model-%d" % i, "ev": [gen(fn, r)]})
        if r["gen"] == "hyper" and all(x == 1 for x in r["w"]):  # the named kinds allow every size
            for fn in ("uniform", "low_order_first", "high_order_first", "default"):
                traces.append({"id": "model-%d-%s" % (i, fn), "ev": [gen(fn, r)]})
    for i in range(c.budget(300, 4000)):
        r = rand_req(g, g.choice([4, 8, 14] if i % 20 else [30]))
        R.set_seed(g.randrange(1 << 30))
        traces.append({"id": "random-%d" % i, "ev": [gen(fn, r) for fn in variants(r, g)]})
    # seeded histories, also continued in another process with other hash seeds
    hs = [rand_calls(g, c.budget(60, 200)) for _ in range(c.budget(6, 30))]
    other = child(hs, c.sc)
    for i, calls in enumerate(hs):
        ev = history(calls, g)
        traces.append({"id": "history-%d" % i, "ev": ev + other[i]})
    # rates
    jobs = []
    for p in ((1, 2), (1, 4), (7, 8)):
        jobs += [("graph_Gnp", req("graph", 4, p=p)), ("graph_Gnp_fast", req("graph", 4, p=p)), ("digraph_Gnp", req("digraph", 3, p=p)),
                 ("digraph_Gnp_fast", req("digraph", 4, p=p)), ("bigraph_Gnp", req("bigraph", 3, u=2, p=p)), ("uniform_hypergraph_Gnp", req("uniform", 4, k=g.choice([2, 3]), p=p))]
    jobs += [("graph_Gnm", req("graph", 4, m=m)) for m in (1, 3, 5)] + [("digraph_Gnm", req("digraph", 3, m=m)) for m in (1, 4)]
    jobs += [("bigraph_Gnm", req("bigraph", 3, u=2, m=m)) for m in (1, 4)] + [("uniform_hypergraph_Gnm", req("uniform", 4, k=2, m=m)) for m in (1, 3)]
    jobs += [("uniform_hypergraph_Gnm", req("uniform", 5, k=3, m=4))]
    jobs += [("uniform", req("hyper", 4, m=1, w=uniform_w(4))), ("custom", req("hyper", 4, m=1, w=[1, 2, 1])), ("custom", req("hyper", 4, m=1, w=[0, 1, 3])), ("custom", req("hyper", 3, m=1, w=[3, 1]))]
    for fn, r in [("graph_Gnp_fast", req("graph", 9, p=(1, 4))), ("digraph_Gnp_fast", req("digraph", 7, p=(3, 4))), ("graph_Gnm", req("graph", 9, m=20)), ("bigraph_Gnm", req("bigraph", 7, u=6, m=11))]:
        jobs.append((fn, r))
    for i, (fn, r) in enumerate(jobs):
        traces.append({"id": "rate-%d-%s" % (i, fn), "ev": many(g, fn, r, c.budget(600, 3000), i % 2 == 0)})
    for fn, low in (("low_order_first", True), ("default", True), ("high_order_first", False)):
        ev = many(g, fn, req("hyper", 4, m=1, w=[1, 1, 1]), c.budget(500, 1500), False)
        if ev[0]["op"] == "many":
            ev[0].update(op="tendency", low=low)
        traces.append({"id": "tendency-" + fn, "ev": ev})
    for i in range(c.budget(60, 400)):
        lab, noise, how = feature_args(g)
        if i % 4 == 0:
            lab = lab * 12
        R.set_seed(g.randrange(1 << 30))
        traces.append({"id": "features-%d" % i, "ev": [features(lab, noise, how)]})
    bad = [lambda: R.hypergraph_Gnm(5, 3, "other"), lambda: R.hypergraph_Gnm(5, 3, "custom"), lambda: R.hypergraph_Gnm(5, 3, "custom", [1, 1]),
           lambda: R.normal_features("abc"), lambda: R.normal_features([[1, 2], [1, 3]]), lambda: R.normal_features(np.zeros((2, 2)))]
    for i, f in enumerate(bad):
        e = {"op": "invalid", "sig": "invalid:%d" % i, "ok": True}
        try:
            with limit(20):
                f()
        except Exception:
            e["ok"] = False
        traces.append({"id": "invalid-%d" % i, "ev": [e]})
    c.validate("Trace_Random", traces)
    c.assumptions += ["rates are compared within 6.5 standard deviations", "hyperedge size preferences other than custom and uniform are only checked as tendencies"]


def child(hs, sc):
    src, dst = sc.path("calls.json"), sc.path("calls_out.json")
    json.dump(hs, open(src, "w"))
    e = dict(os.environ, PYTHONHASHSEED="12345", VP_CHILD_IN=src, VP_CHILD_OUT=dst)
    p = subprocess.run([sys.executable, os.path.abspath(__file__)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if p.returncode != 0:
        raise RuntimeError("child process failed: " + p.stdout[-2000:])
    return json.load(open(dst))


CHECKS = {"C19": C19}
if __name__ == "__main__" and "VP_CHILD_IN" in os.environ:
    json.dump([history(h, None) for h in json.load(open(os.environ["VP_CHILD_IN"]))], open(os.environ["VP_CHILD_OUT"], "w"))
