"""C20 automated experiments (Experiment.tla): real tasks, real optuna and evaluators, scripted models."""
from common import *
import hashlib, logging, pathlib, shutil, warnings
import torch, torch.nn as nn
warnings.filterwarnings("ignore")
import optuna
import dhg
from dhg import Graph, Hypergraph, BiGraph
from dhg.experiments import GraphVertexClassificationTask, HypergraphVertexClassificationTask, UserItemRecommenderTask
from dhg.metrics import GraphVertexClassificationEvaluator, HypergraphVertexClassificationEvaluator, UserItemRecommenderEvaluator
from checks_metrics import cfg


class Boom(Exception):
    pass


class Log:
    def __init__(self):
        self.ev, self.last, self.rebuilt, self.affine, self.back = [], None, [], (1, 0), {}


def struct_tag(st):
    """structures are told apart by the weight of their only edge"""
    return 0 if st is None else int(round(float(st.e[1][0]))) - 1


class Net(nn.Module):
    """parameter w counts optimiser steps, buffer n counts training passes; the output comes from a table"""

    def __init__(self, log, sc, t):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))
        self.register_buffer("n", torch.zeros(1))
        self.log, self.sc, self.t = log, sc, t

    def __deepcopy__(self, memo):
        m = Net(self.log, self.sc, self.t)
        m.w.data.copy_(self.w.data)
        m.n.copy_(self.n)
        m.train(self.training)
        return m

    def look(self, structure):
        w = float(self.w)
        steps = int(round(w))
        if not abs(w - steps) < 1e-4:
            steps = -1
        if self.training:
            self.n += 1
        elif not self.log.quiet:
            self.sc.plan(self.t, steps)
        self.log.last = {"t": self.t, "steps": steps, "training": self.training, "grad": torch.is_grad_enabled(), "struct": struct_tag(structure)}
        return steps

    def forward(self, *a):
        st = self.sc
        if st.kind == "vertex":
            X, structure = a
            steps = self.look(structure)
            pred = st.table(self.t, steps)
            out = torch.zeros(st.n, st.classes + 1)
            out[torch.arange(st.n), torch.tensor(pred)] = 3
            self.log.last["pred"] = pred
            tail = -1000.0 - X[:, 0] + (self.w - self.w.detach())
            return torch.cat([out[:, :st.classes], tail.view(-1, 1)], 1)
        structure = a[0] if a else None
        steps = self.look(structure)
        rows = st.table(self.t, steps // st.nb if not self.training else 0)
        self.log.last["pred"] = rows
        return torch.eye(st.nu), torch.tensor(rows, dtype=torch.float32).t() + (self.w - self.w.detach())


class Scheduler:
    def __init__(self, log):
        self.log = log

    def step(self):
        self.log.ev.append({"op": "sched", "sig": self.log.sig + ":sched"})


def recording(base, log):
    class E(base):
        def validate_done(self, r):
            log.ev.append({"op": "valid", **log.last, "score": enc(r), "sig": log.sig + ":valid"})
            a, b = log.affine   # a custom evaluator: other units
            log.back[a * r + b] = r
            return a * r + b

        def test_done(self, r):
            log.ev.append({"op": log.testop, **log.last, "given": log.given, "res": [enc(v) for v in r.values()], "sig": log.sig + ":" + log.testop})
            log.res = {k: float(v) for k, v in r.items()}
            return r

    if base is UserItemRecommenderEvaluator:
        E.validate_epoch_res = lambda self: self.validate_done(base.validate_epoch_res(self))
        E.test_epoch_res = lambda self: self.test_done(base.test_epoch_res(self))
    else:
        E.validate = lambda self, y, p: self.validate_done(base.validate(self, y, p))
        E.test = lambda self, y, p: self.test_done(base.test(self, y, p))
    return E


class Scenario:
    """one task and what its models will output"""

    def __init__(self, g, sc, kind, built, model_script=False, wide=False):
        self.g, self.kind, self.built = g, "rec" if kind == "rec" else "vertex", built
        self.log = Log()
        self.log.sig, self.log.quiet, self.log.testop, self.log.given = kind, False, "test", False
        self.tabs, self.plans, self.force = {}, {}, {}
        self.root = sc.path("exp")
        self.model_script = model_script
        self.scale, self.shift = (g.choice([1, 30, 60]), g.choice([0, 0, -200])) if not model_script else (1, 0)
        if not model_script:
            self.log.affine = g.choice([(1, 0), (1, 0), (1, 0), (1, -5000), (1, 700), (2.0 ** -17, 0), (3, -1)])
        if self.kind == "vertex":
            self.n, self.classes, self.nb = g.randint(5, 12) if not wide else g.randint(20, 60), g.randint(2, 4) if not wide else g.randint(5, 9), 1
            self.y = [g.randrange(self.classes) for _ in range(self.n)]
            ids = list(range(self.n))
            g.shuffle(ids)
            self.ntr = g.randint(1, self.n - 3)
            self.train = sorted(ids[:self.ntr])
            self.val = sorted(ids[self.ntr:self.ntr + 2]) if model_script else sorted(g.sample(ids, g.randint(2, self.n)))
            self.test = sorted(g.sample(ids, g.randint(1, self.n)))
            acc = cfg("accuracy")
            ms = [("accuracy", acc)] + [({"f1_score": {"average": a}}, cfg("f1", method=a)) for a in ("micro", "macro", "weighted")]
            if model_script:
                ms, self.index = [ms[0]] + g.sample(ms[1:], 1), 0
            else:
                ms = g.sample(ms, g.randint(1, 3))
                self.index = g.randrange(len(ms))
            data = {"features": torch.arange(self.n).view(-1, 1).float(), "labels": torch.tensor(self.y)}
            for k in ("train", "val", "test"):
                m = torch.zeros(self.n, dtype=torch.bool)
                m[getattr(self, k)] = True
                data[k + "_mask"] = m
            self.trained = [[i + 1, self.y[i]] for i in self.train]
        else:
            self.nu, self.ni, self.nb = (g.randint(2, 5), g.randint(6, 9), g.randint(1, 3)) if not wide else (g.randint(8, 14), g.randint(6, 12), g.randint(4, 9))
            self.y, self.mask = [], []
            for _ in range(self.nu):
                its = list(range(self.ni))
                g.shuffle(its)
                tr, te = its[:g.randint(1, 2)], its[2:2 + (2 if model_script else g.randint(0, 3))]
                self.mask.append([int(i in tr) for i in range(self.ni)])
                self.y.append([int(i in te) for i in range(self.ni)])
            ms = [({"precision": {"k": 2}}, cfg("precision", 2)), ({"recall": {"k": 3}}, cfg("recall", 3)), ({"ndcg": {"k": 4}}, cfg("ndcg", 4)), ("recall", cfg("recall"))]
            ms = [ms[0]] + g.sample(ms[1:], g.randint(0, 2))
            self.index = 0
            if not model_script:
                g.shuffle(ms)
                self.index = g.randrange(len(ms))
            batches, self.trained = [], []
            for b in range(self.nb):
                rows = [[g.randrange(self.nu), g.randrange(self.ni), g.randrange(self.ni)] for _ in range(g.randint(1, 3))]
                batches.append(tuple(torch.tensor([r[k] for r in rows]) for k in range(3)))
                self.trained += rows
            tl, u, order = [], 0, torch.tensor(g.sample(range(self.nu), self.nu))
            while u < self.nu:
                k = g.randint(1, self.nu - u if not wide else 2)
                k = min(k, self.nu - u)
                us = order[u:u + k]
                mk = torch.tensor(self.mask, dtype=torch.float32)[us]
                tl.append((us, torch.zeros_like(mk).masked_fill(mk == 1, -float("inf")), torch.tensor(self.y, dtype=torch.float32)[us]))
                u += k
            data = {"train_loader": batches, "test_loader": tl}
            self.train = self.val = self.test = []
        self.metrics = [m[1] for m in ms]
        self.kindname = kind
        self.has_struct = kind != "rec" or built or g.random() < 0.5
        if not built and self.has_struct:
            data["structure"] = self.structure(0)
        self.data = data
        Ev = {"graph": GraphVertexClassificationEvaluator, "hyper": HypergraphVertexClassificationEvaluator, "rec": UserItemRecommenderEvaluator}[kind]
        self.evaluator = recording(Ev, self.log)([m[0] for m in ms], self.index)
        self.name = g.choice(["study", "study", None])
        kw = {} if self.name is None else {"study_name": self.name}
        self.over = g.random() < 0.8
        if not self.over or g.random() < 0.5:
            kw["overwrite"] = self.over
        if built:
            kw["structure_builder"] = lambda trial: self.structure(trial.number + 1)
        Task = {"graph": GraphVertexClassificationTask, "hyper": HypergraphVertexClassificationTask, "rec": UserItemRecommenderTask}[kind]
        self.task = Task(self.root, data, self.build_model, self.build_train, self.evaluator, torch.device("cpu"), **kw)
        self.log.ev.append({"op": "task", "kind": self.kind, "y": self.y, "mask": getattr(self, "mask", []), "nb": self.nb, "metrics": self.metrics,
                            "index": self.index + 1, "built": built, "trained": self.trained, "val": [i + 1 for i in self.val], "test": [i + 1 for i in self.test],
                            "kept": self.kept(), "files": self.files() if self.over else [], "sig": kind + ":task"})

    def structure(self, tag):
        w = [float(tag + 1)]
        if self.kindname == "graph":
            return Graph(self.n, [(0, 1)], w)
        if self.kindname == "hyper":
            return Hypergraph(self.n, [(0, 1, 2)], w)
        return BiGraph(self.nu, self.ni, [(0, 1)], w)

    # ---- models
    def table(self, t, e):
        """what the model of trial t outputs after e epochs (0: while training)"""
        if (t, e) not in self.tabs:
            g = self.g
            v = self.force.get((t, e))
            if self.kind == "vertex":
                p = [g.randrange(self.classes) for _ in range(self.n)]
                if v is not None:
                    for j, i in enumerate(self.val):
                        p[i] = self.y[i] if j < v else (self.y[i] + 1) % self.classes
            else:
                p = []
                for u in range(self.nu):
                    s = list(range(1, self.ni + 1))
                    g.shuffle(s)
                    if v is not None:  # v relevant items among the first two
                        rel = [i for i in range(self.ni) if self.y[u][i]]
                        oth = [i for i in range(self.ni) if not self.y[u][i] and not self.mask[u][i]]
                        first = rel[:v] + oth[:2 - v]
                        rest = [i for i in range(self.ni) if i not in first]
                        g.shuffle(rest)
                        for r, i in enumerate(first + rest):
                            s[i] = self.ni - r
                    p.append([x * self.scale + self.shift for x in s])
            self.tabs[t, e] = p
        return self.tabs[t, e]

    def plan(self, t, steps):
        what = self.plans.get((t, steps // self.nb))
        if what == "prune":
            self.log.ev.append({"op": "prune", "sig": self.kindname + ":prune"})
            self.scripted.add(t)
            raise optuna.TrialPruned()
        if what == "fail":
            self.log.ev.append({"op": "fail", "sig": self.kindname + ":fail"})
            raise Boom()

    def build_model(self, trial):
        p = trial.suggest_int("p", 0, 1000)
        if isinstance(trial, optuna.trial.Trial):
            self.log.ev.append({"op": "trial", "t": trial.number, "p": p, "sig": self.kindname + ":trial"})
        else:
            self.log.rebuilt = [trial.number, p]
        return Net(self.log, self, trial.number)

    def build_train(self, trial, model):
        lg = self.log
        batch = []

        def done(data):
            lg.ev.append({"op": "train", **{k: lg.first[k] for k in ("t", "steps", "training", "struct")}, "data": data, "sig": self.kindname + ":train"})

        def vertex(out, lab):
            lg.first = lg.last
            done([[int(round(-1000.0 - float(o[-1]) )) + 1, int(y)] for o, y in zip(out.detach(), lab)])
            return -out[:, -1].mean()

        def rec(eu, ei, users, pos, neg, model=None):
            if not batch:
                lg.first = lg.last
            batch.append([[int(a), int(b), int(c)] for a, b, c in zip(users, pos, neg)])
            if len(batch) == self.nb:
                done([r for b in batch for r in b])
                batch.clear()
            return -ei.mean() + 0 * eu.sum()

        r = {"optimizer": torch.optim.SGD(model.parameters(), lr=1.0), "criterion": vertex if self.kind == "vertex" else rec}
        self.sched = self.use_sched
        if self.use_sched:
            r["scheduler"] = Scheduler(lg)
        return r

    # ---- observations
    def kept(self):
        m = getattr(self.task, "best_model", None)
        return [] if m is None else [m.t, int(round(float(m.w)))]

    def files(self):
        out = []
        for r, _, fs in os.walk(self.task.study_root):
            for f in fs:
                m = re.match(r"(\d+)_", f)
                if m:
                    out.append(int(m.group(1)))
                elif f != "log.txt":
                    out.append(-1)
        return sorted(set(out))

    def log_values(self):
        ls = open(self.task.log_file, encoding="utf8").read()
        ls = re.sub("\x1b\\[[0-9;]*m", "", ls).splitlines()
        v = [x for x in ls if re.search(r"\tValue: ", x)]
        i = max([k for k, x in enumerate(ls) if "Final test results" in x] or [len(ls)])
        t = [x for x in ls[i + 1:] if "|->" in x]
        num = lambda x: int(round(float(x.rsplit(" ", 1)[1]) * ONE))
        return num(v[-1]) if v else BAD, [num(x) for x in t]

    # ---- a run
    def run(self, dirn, mx, n):
        lg = self.log
        lg.rebuilt, lg.res, self.scripted = [], {}, set()
        self.tabs = {k: v for k, v in self.tabs.items()} if self.model_script else {}
        self.use_sched = True
        start = len(lg.ev)
        lg.ev.append({"op": "run", "dir": dirn, "max": mx, "n": n, "sig": self.kindname + ":run"})
        e = {"op": "end", "ok": True, "err": "", "kept": [], "number": -1, "value": 0, "params": -1, "rebuilt": [], "buf": 0, "struct": -9, "files": [],
             "logv": 0, "logt": [], "rest": [], "sig": self.kindname + ":end"}
        lg.testop, lg.given = "test", False
        try:
            self.task.run(mx, n, dirn) if dirn != "maximize" or self.g.random() < 0.5 else self.task.run(mx, num_trials=n)
        except Exception as ex:
            e.update(ok=False, err=type(ex).__name__ + " " + str(ex)[:200])
        # prunings by optuna itself
        if self.task.study is not None:
            for tr in self.task.study.trials:
                if tr.state == optuna.trial.TrialState.PRUNED and tr.number not in self.scripted:
                    idx = [k for k in range(start, len(lg.ev)) if lg.ev[k]["op"] == "trial" and lg.ev[k]["t"] == tr.number]
                    if idx:
                        k = idx[0] + 1
                        while k < len(lg.ev) and lg.ev[k]["op"] in ("train", "valid", "sched"):
                            k += 1
                        lg.ev.insert(k, {"op": "prune", "sig": self.kindname + ":median-prune"})
        e["kept"] = self.kept()
        if e["ok"]:
            bt = self.task.best_trial
            a, b = lg.affine
            e["number"], e["value"], e["params"], e["rebuilt"] = bt.number, enc(lg.back.get(bt.value, 99)), bt.params.get("p", -1), lg.rebuilt
            e["buf"] = int(round(float(self.task.best_model.n)))
            e["struct"] = struct_tag(self.task.best_structure)
            e["files"] = self.files()
            e["logv"], e["logt"] = self.log_values()
            if a == 1:
                e["logv"] -= b * ONE
            elif a < 1:   # beyond the printed digits
                e["logv"] = e["value"] if e["logv"] == 0 else BAD
            else:
                e["logv"] = (e["logv"] - b * ONE) // a
            e["rest"] = [enc(v) for v in lg.res.values()]
        lg.ev.append(e)
        return e["ok"]

    def retest(self):
        lg = self.log
        lg.testop = "retest"
        lg.quiet = True
        self.task.test()
        m = Net(lg, self, 90)
        lg.given = True
        if self.kind == "vertex":
            d = dict(self.data)
            d["structure"] = self.structure(7)
            self.task.test(d, m)
        else:
            self.task.test({"structure": self.structure(7), "test_loader": self.data["test_loader"]}, m)
        lg.given, lg.quiet, lg.testop = False, False, "test"

    def close(self):
        lg = optuna.logging.get_logger("optuna")
        for h in list(lg.handlers):
            if isinstance(h, logging.FileHandler):
                lg.removeHandler(h)
                h.close()
        return self.log.ev


def by_script(g, sc, script, kind, built):
    s = Scenario(g, sc, kind, built, True)
    runs, t = [], -1
    for a in script:
        if a[0] == "run":
            runs.append({"run": a[1:], "force": {}, "plan": {}})
            t = -1
        elif a[0] == "trial":
            t, e = t + 1, 1
        elif a[0] == "score":
            runs[-1]["force"][t, e] = a[1]
            e += 1
        else:
            runs[-1]["plan"][t, e] = a[0]
    for r in runs:
        s.force, s.plans, s.tabs = r["force"], r["plan"], {}
        s.run(*r["run"])
    return s.close()


# ---------------------------------------------------------------- the work folder
def tree(top):
    """files below top: path as names, and content (lines of a text, a digest of anything else)"""
    out = []
    for r, _, fs in os.walk(top):
        for f in sorted(fs):
            p = os.path.join(r, f)
            b = open(p, "rb").read()
            out.append([os.path.relpath(p, top).split(os.sep), b.decode("utf8", "replace").split("\n")[:-1] if f.endswith(".txt") else [hashlib.sha1(b).hexdigest()]])
    return out


def folder(g, sc, i):
    """open studies in a work folder that holds other things, and run them"""
    top = sc.path("fold%d" % i)
    os.makedirs(top)
    where = g.choice(["there", "there", "there", "parent", "nothing"])
    hold = os.path.join(top, "missing") if where == "nothing" else top
    root = os.path.join(hold, "work")

    def put(*names):
        p = os.path.join(root, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("".join("%s %d\n" % ("/".join(names), g.randrange(1000)) for _ in range(g.randint(1, 3))))

    study = g.choice(["study", "a-1", "s"])
    if where == "there":
        os.makedirs(root)
        for names in ((study + "2", "log.txt"), ("other", "log.txt"), ("other", "cache", "0_model.pth"), ("note.txt",), (study, "log.txt"), (study, "cache", "3_model.pth"), (study, "mine.txt"),
                      (study, "sub", "0_model.pth"), ("cache", "1_model.pth")):
            if g.random() < 0.6:
                put(*names)
    with open(os.path.join(top, "beside.txt"), "w") as f:
        f.write("beside\n")
    ev = []
    for k in range(g.choice([1, 1, 2])):
        over = g.choice([True, True, False])
        kw = {} if over and g.random() < 0.5 else {"overwrite": over}
        named = g.random() < 0.8
        if named:
            kw["study_name"] = study
        n = 3
        X, y, m = torch.eye(n), torch.tensor([0, 1, 0]), torch.ones(n, dtype=torch.bool)
        data = {"features": X, "labels": y, "train_mask": m, "val_mask": m, "test_mask": m, "structure": Graph(n, [(0, 1)])}
        known = set(os.listdir(root)) if os.path.isdir(root) else set()
        e = {"op": "open", "where": "there" if k and where == "parent" else where, "over": over, "root": "work", "study": study, "named": True, "made": False, "before": tree(top), "after": [], "ok": True, "err": "",
             "sig": "folder:%s:%s" % (where, "over" if over else "keep")}
        t = None
        try:
            t = GraphVertexClassificationTask(g.choice([str, pathlib.Path])(root), data, lambda trial: Lin(), lambda trial, model: {"optimizer": torch.optim.SGD(model.parameters(), lr=0.1), "criterion": torch.nn.CrossEntropyLoss()},
                                              GraphVertexClassificationEvaluator(["accuracy"], 0), torch.device("cpu"), **kw)
        except Exception as ex:
            e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:120]
        hush()
        e["after"] = tree(top)
        if t is not None:
            if not named:   # a name of the library's own choosing, apart from all others
                new = sorted(set(os.listdir(root)) - known)
                e["named"] = len(new) == 1 or t.study_root.name in known
                e["study"] = t.study_root.name
            e["made"] = os.path.isdir(os.path.join(root, e["study"]))
        ev.append(e)
        if t is None:
            continue
        r = {"op": "ran", "root": "work", "study": e["study"], "before": e["after"], "after": [], "ok": True, "err": "", "sig": "folder:run"}
        try:
            t.run(1, g.choice([1, 2]), g.choice(["maximize", "minimize"]))
        except Exception as ex:
            r["ok"], r["err"] = False, type(ex).__name__ + ": " + str(ex)[:120]
        hush()
        r["after"] = tree(top)
        ev.append(r)
        lg = optuna.logging.get_logger("optuna")
        for h in list(lg.handlers):
            if isinstance(h, logging.FileHandler):
                lg.removeHandler(h)
                h.close()
    shutil.rmtree(top)
    return ev


class Lin(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Linear(3, 2)

    def forward(self, X, g):
        return self.w(X)


def C20(c):
    g = c.rng
    optuna.logging.set_verbosity(optuna.logging.CRITICAL)
    os.makedirs(c.sc.path("exp"))
    scripts = c.model("MC_Experiment")
    seen, uniq = set(), []
    for h in scripts:
        k = json.dumps(h)
        if k not in seen:
            seen.add(k)
            uniq.append(h)
    if c.thorough:
        uniq = g.sample(uniq, min(len(uniq), 5000))
    else:
        short = [h for h in uniq if len(h) <= 4]
        uniq = short + g.sample([h for h in uniq if len(h) > 4], 350)
    traces = []
    hush()
    for i, h in enumerate(uniq):
        kind = g.choice(["graph", "hyper", "rec"])
        traces.append({"id": "model-%d" % i, "ev": by_script(g, c.sc, h, kind, kind != "graph" and g.random() < 0.5)})
        hush()
    for i in range(c.budget(50, 500)):
        kind = g.choice(["graph", "hyper", "rec"])
        dhg.random.set_seed(g.randrange(1 << 30))
        wide = g.random() < 0.3
        s = Scenario(g, c.sc, kind, kind != "graph" and g.random() < 0.6, wide=wide)
        for _ in range(g.choice([1, 1, 2, 3]) if not wide else 1):
            n, mx = (g.choice([1, 2, 3, 9, 12]), g.randint(1, 4)) if not wide else (g.randint(1, 3), g.randint(5, 14))
            s.plans = {}
            if g.random() < 0.4:
                for _ in range(g.randint(1, n)):
                    s.plans[g.randrange(n), g.randint(1, mx)] = "prune" if g.random() < 0.8 else "fail"
            ok = s.run(g.choice(["maximize", "minimize"]), mx, n)
            if ok and g.random() < 0.5:
                s.retest()
        traces.append({"id": "random-%d" % i, "ev": s.close()})
        hush()
    for i in range(c.budget(60, 400)):
        traces.append({"id": "folder-%d" % i, "ev": folder(g, c.sc, i)})
    for i in range(c.budget(4, 20)):
        sd, n, ps = g.randrange(1 << 30), g.randint(11, 16), []
        for _ in range(2):
            g2 = random.Random(sd)
            dhg.random.set_seed(sd)
            s = Scenario(g2, c.sc, "graph", False, True)
            s.force = {(t, e): (7 * t + e) % 3 for t in range(n) for e in (1, 2)}
            s.run("maximize", 2, n)
            traces.append({"id": "seeded-%d" % i, "ev": s.close()})
            ps.append([e["p"] for e in s.log.ev if e["op"] == "trial"])
            hush()
        traces.append({"id": "repeat-%d" % i, "ev": [{"op": "repeat", "a": ps[0], "b": ps[1], "sig": "repeat"}]})
    c.validate("Trace_Experiment", traces)
    c.assumptions += ["scores are finite numbers", "at least one epoch per trial", "of equally good epochs or trials any may be kept"]


def hush():
    for h in optuna.logging.get_logger("optuna").handlers:
        if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
            h.setLevel(logging.CRITICAL + 1)


CHECKS = {"C20": C20}
