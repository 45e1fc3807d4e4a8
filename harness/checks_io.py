"""C14 downloads (Download.tla), C15 dataset objects (Dataset.tla), C22 data pipeline (Datapipe.tla)."""
from common import *
import copy, hashlib, pickle, warnings
from pathlib import Path
from net import Net
import numpy as np, torch, scipy.sparse
warnings.filterwarnings("ignore")
import dhg, dhg._global as GLOB
from dhg.utils import download_and_check, check_file
import dhg.data as DATA
from dhg.data import BaseData

HERE = os.path.dirname(os.path.abspath(__file__))
NET = Net()
MIRROR = "https://download.moon-lab.tech:28501/datasets/"
OFFICIAL = "https://huggingface.co/datasets/iMoonLab/DHG-data/resolve/main/datasets/"


def md5(b):
    return hashlib.md5(b).hexdigest()


def tree(root, skip):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if p not in skip:
                out[p] = open(p, "rb").read()
    return out


class Files:
    """a few remote files with their targets, old-cache copies and servers, and the recorded history"""

    def __init__(self, c, g, tag, specs):
        self.g, self.ev, self.files = g, [], []
        self.roots = []
        home = Path(os.environ["HOME"])
        for i, (t, old, off, inc) in enumerate(specs):
            size = g.choice([0 if t != "bad" and old != "bad" else 5, 1, 100, 1024, 3000])
            good = bytes(g.randrange(256) for _ in range(min(size, 64))) * max(1, size // 64) + b"|%d" % i
            if g.random() < 0.1 and size:   # around the borders of a chunk
                good = (good * 50)[:g.choice([1, 1023, 1024, 1025, 2048, 2049, 3073])]
            if g.random() < 0.02:
                good = good[:64].ljust(64, b"#") * g.choice([17000, 40000]) + good
            name = "f%d%s" % (i, g.choice([".pkl", ".txt", ""]))
            sub = g.choice(["", "a/", "a/b/"])
            if inc:
                target = GLOB.CACHE_ROOT / "datasets" / tag / sub / name
                legacy = home / ".dhg" / "datasets" / tag / sub / name
            else:
                target = Path(c.sc.path("data", tag, sub, name))
                legacy = home / ".dhg" / tag / sub / name
            tail = "%s/%s%s" % (tag, sub, name)
            url = (OFFICIAL if off else g.choice(["http://host.test/", "https://other.test/datasets/"])) + tail
            self.files.append({"good": good, "target": target, "legacy": legacy, "url": url, "mirror": MIRROR + tail, "off": off})
            self.put(i, "target", t)
            self.put(i, "legacy", old)
        for f in self.files:
            for p in (f["target"], f["legacy"]):
                if g.random() < 0.6:
                    p.parent.mkdir(parents=True, exist_ok=True)
                    (p.parent / (p.name + ".keep")).write_bytes(b"keep")
        self.home = home
        self.data = c.sc.path("data", tag)
        self.tag = tag
        self.ev.append({"op": "setup", "t": [s[0] for s in specs], "g": [s[1] for s in specs], "off": [s[2] for s in specs],
                        "inc": [s[3] for s in specs], "sig": "setup"})

    def bad(self, good):
        k = self.g.randrange(6)
        if k == 4 and good:
            return good[:-1] + bytes([good[-1] ^ 1])
        if k == 5 and good:
            return bytes([good[0] ^ 128]) + good[1:]
        if k == 0:
            return good[:-1]
        if k == 1:
            return b"" if good else b"x"
        if k == 2:
            return good + b"\n"
        return b"<html>not found</html>"

    def put(self, i, where, what):
        f = self.files[i]
        p = f[where]
        if p.exists():
            p.unlink()
        if what != "absent":
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(f["good"] if what == "good" else self.bad(f["good"]))

    def cls(self, i, where):
        p = self.files[i][where]
        if not p.exists():
            return "absent"
        return "good" if p.read_bytes() == self.files[i]["good"] else "bad"

    def sentinel(self):
        skip = {str(f[w]) for f in self.files for w in ("target", "legacy")}
        return [tree(str(self.home / ".dhg"), skip), tree(self.data, skip), tree(str(GLOB.CACHE_ROOT), skip)]

    def obs(self, e, before):
        e["t"] = [self.cls(i, "target") for i in range(len(self.files))]
        e["g"] = [self.cls(i, "legacy") for i in range(len(self.files))]
        e["others"] = self.sentinel() == before
        self.ev.append(e)

    def change(self, i, where, what):
        self.put(i, where, what)
        self.ev.append({"op": "put", "f": i + 1, "where": where, "c": what, "sig": "put"})

    def fetch(self, i, script):
        f = self.files[i]
        left = list(script)
        used, asked = [], []

        def answer(url):
            r = left.pop(0) if left else "net"
            used.append(r)
            if url == f["url"]:
                asked.append("primary" if f["off"] else "custom")
            else:
                asked.append("mirror" if url == f["mirror"] and f["off"] else "other " + url)
            if r == "good":
                return "ok", f["good"]
            if r == "bad":
                return "ok", self.bad(f["good"])
            if r == "http":
                return "http:%d" % self.g.choice([404, 404, 500, 503, 403, 204, 206, 401, 416, 429, 502, 302]), self.g.choice([b"oops", b"oops", b"", f["good"], f["good"][:5]])
            if r == "broken":
                return "broken", self.g.choice([b"", f["good"][:2], f["good"]])
            return self.g.choice(["net", "timeout"]), b""
        NET.answer = answer
        before = self.sentinel()
        e = {"op": "fetch", "f": i + 1, "sig": "fetch:%s" % ("official" if f["off"] else "custom")}
        path = f["target"]
        try:
            r = download_and_check(f["url"], path, md5(f["good"]))
            e["ok"], e["err"] = r is True, ""
        except Exception as ex:
            e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:100]
        e["answers"], e["asked"] = used, asked
        self.obs(e, before)

    def check(self, i):
        f = self.files[i]
        asked = []
        NET.answer = lambda url: (asked.append(url), ("net", b""))[1]
        before = self.sentinel()
        e = {"op": "check", "f": i + 1, "match": False, "sig": "check_file"}
        try:
            e["match"] = bool(check_file(f["target"], md5(f["good"])))
            e["ok"], e["err"] = True, ""
        except FileNotFoundError as ex:
            e["ok"], e["err"] = False, str(ex)[:100]
        e["asked"] = asked
        self.obs(e, before)


def C14(c):
    g = c.rng
    NET.install()
    tests = [t[0] for t in c.model("MC_Download")]
    traces = []
    for i, t in enumerate(tests):
        f = Files(c, g, "m%d" % i, [(t["t"], t["g"], t["off"], t["inc"])])
        if g.random() < 0.2:
            f.check(0)
        for script in t["calls"]:
            f.fetch(0, script)
        if g.random() < 0.3:
            f.check(0)
        traces.append({"id": "model-%d" % i, "ev": f.ev})
        clean(f)
    if c.thorough:
        two = [t[0] for t in c.model("MC_Download", env={"MC_CALLS": "2"})]
        for i, t in enumerate(g.sample(two, 12000)):
            f = Files(c, g, "n%d" % i, [(t["t"], t["g"], t["off"], t["inc"])])
            for script in t["calls"]:
                f.fetch(0, script)
            traces.append({"id": "model2-%d" % i, "ev": f.ev})
            clean(f)
    kinds = ["good", "bad", "http", "net", "broken", "http", "http"]
    for i in range(c.budget(300, 3000)):
        n = g.randint(1, 3)
        con = lambda: g.choice(["absent", "absent", "good", "bad"])
        f = Files(c, g, "r%d" % i, [(con(), con(), g.random() < 0.6, g.random() < 0.6) for _ in range(n)])
        for _ in range(g.randint(2, 10)):
            j = g.randrange(n)
            o = g.random()
            if o < 0.6:
                f.fetch(j, [g.choice(kinds) for _ in range(g.randint(0, 7))])
            elif o < 0.75:
                f.check(j)
            else:
                f.change(j, g.choice(["target", "legacy"]), con())
        traces.append({"id": "random-%d" % i, "ev": f.ev})
        clean(f)
    c.validate("Trace_Download", traces)
    c.assumptions += ["the network is a stand-in below requests' transport adapter", "one process at a time uses a file"]


def clean(f):
    import shutil
    for d in (f.data, str(f.home / ".dhg"), str(GLOB.CACHE_ROOT / "datasets")):
        assert d.startswith(str(f.home)) or "/vp_" in d
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- C15
class Boom(Exception):
    pass


class World:
    """a dataset with fake servers, loaders and pipes that record what they do"""

    def __init__(self, c, g, tag, items, nf, net=None, disk=None):
        self.g, self.items, self.nf, self.ev = g, items, nf, []
        self.asked, self.calls, self.pipes, self.srcok, self.seen, self.nload = [], [], [], True, True, 0
        self.lbad, self.pbad = [False] * len(items), [0] * len(items)
        self.net = net or ["up"] * nf
        self.cached = g.random() < 0.5
        plain = [None, None, False, 0, "", [], {}, np.zeros(2), torch.tensor([0, 0]), 0.0, "text"]
        self.none = [(g.random() < 0.2, g.choice(plain)) for _ in items]   # items with a value that does not tell its load
        self.names = ["item%d" % i if g.random() < 0.7 else "x_%d" % i for i in range(len(items))]
        self.good = [b"file %d " % i + bytes(g.randrange(256) for _ in range(20)) for i in range(nf)]
        self.fn = [g.choice(["f%d.pkl", "sub/f%d.txt"]) % i for i in range(nf)]
        self.bk = [g.random() < 0.25 for _ in range(nf)]
        self.root = None if self.cached else c.sc.path("ds", tag)
        self.tag = tag
        self.dir = (Path(self.root) if self.root else GLOB.DATASETS_ROOT) / tag
        for i in range(nf):
            self.set_disk(i, (disk or ["absent"] * nf)[i])
        world = self
        fixed = [g.choice([3, "text", [1, 2], {"upon": 1}, {"loader": 2}, None, 0, {}, 1.5]) for _ in items]
        self.fixed = fixed

        def loader(i):
            def load(arg):
                fs = arg if isinstance(arg, list) else [arg]
                ids = [world.path_id(p) for p in fs]
                world.seen = world.seen and all(world.cls(k - 1) == "good" for k in ids if k) and isinstance(arg, list) == (len(items[i]["files"]) > 1)
                world.calls.append([i + 1, ids])
                world.nload += 1
                if world.lbad[i]:
                    raise Boom("loader")
                return copy.copy(world.none[i][1]) if world.none[i][0] else {"item": i + 1, "load": world.nload, "pipes": []}
            return load

        def pipe(i, k):
            def p(x):
                world.pipes.append([i + 1, k])
                if world.pbad[i] == k:
                    raise Boom("pipe")
                return x if world.none[i][0] else {**x, "pipes": x["pipes"] + [k]}
            return p

        class DS(BaseData):
            def __init__(self, data_root=None):
                super().__init__(tag, data_root)
                self._content = {}
                for i, it in enumerate(items):
                    if it["kind"] == "fixed":
                        self._content[world.names[i]] = fixed[i]
                    else:
                        up = []
                        for f in it["files"]:
                            u = {"filename": world.fn[f - 1], "md5": md5(world.good[f - 1])}
                            if world.bk[f - 1]:
                                u["bk_url"] = "http://bk.test/%s/%d" % (tag, f)
                            up.append(u)
                        d = {"upon": up, "loader": loader(i)}
                        if it["pipes"]:
                            d["preprocess"] = [pipe(i, k) for k in range(1, it["pipes"] + 1)]
                        elif g.random() < 0.3:
                            d["preprocess"] = None
                        self._content[world.names[i]] = d
        NET.answer = self.answer
        disk0, net0 = self.obs(), list(self.net)
        self.ds = DS(self.root)
        self.ev.append({"op": "new", "items": items, "nf": nf, "disk": disk0, "net": net0, "asked": self.asked, "loads": self.calls,
                        "keys": list(self.ds.content), "declared": self.names, "sig": "dataset:new"})

    def path_id(self, p):
        for i in range(self.nf):
            if Path(p) == self.dir / self.fn[i]:
                return i + 1
        return 0

    def set_disk(self, i, what):
        p = self.dir / self.fn[i]
        if p.exists():
            p.unlink()
        if what != "absent":
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(self.good[i] if what == "good" else self.good[i][:-1])

    def cls(self, i):
        p = self.dir / self.fn[i]
        return "absent" if not p.exists() else "good" if p.read_bytes() == self.good[i] else "bad"

    def obs(self):
        return [self.cls(i) for i in range(self.nf)]

    def answer(self, url):
        for i in range(self.nf):
            tail = "%s/%s" % (self.tag, self.fn[i])
            if url in ((OFFICIAL + tail, MIRROR + tail) if not self.bk[i] else ("http://bk.test/%s/%d" % (self.tag, i + 1),)):
                if not self.asked or self.asked[-1] != i + 1:
                    self.asked.append(i + 1)
                st = self.net[i]
                if st == "up":
                    return "ok", self.good[i]
                if st == "corrupt":
                    return "ok", self.good[i][:-1]
                return self.g.choice(["http:404", "http:503"]) if self.net_mode == "http" else "net", b""
        self.srcok = False
        return "net", b""

    def step(self, c):
        self.asked, self.calls, self.pipes, self.srcok, self.seen = [], [], [], True, True
        self.net_mode = self.g.choice(["http", "net"])
        o, i = c["op"], c["i"]
        e = {"op": o, "i": i, "sig": "dataset:" + o}
        ds = self.ds
        if o == "net":
            self.net[i - 1] = c["v"]
            e["v"] = c["v"]
        elif o == "disk":
            self.set_disk(i - 1, c["v"])
            e["v"] = c["v"]
        elif o == "loader":
            self.lbad[i - 1] = not self.lbad[i - 1]
            e["b"] = self.lbad[i - 1]
        elif o == "pipe":
            self.pbad[i - 1] = self.items[i - 1]["pipes"] if self.pbad[i - 1] == 0 else 0
            if c.get("k"):
                self.pbad[i - 1] = c["k"]
            e["k"] = self.pbad[i - 1]
        else:
            e["keys"], e["declared"], e["val"], e["err"] = [], self.names, {"item": 0, "load": 0, "pipes": []}, ""
            try:
                if o in ("get", "raw"):
                    key = self.names[i - 1]
                    v = ds[key] if o == "get" else ds.raw(key)
                    it = self.items[i - 1]
                    if it["kind"] == "fixed":
                        e["val"] = {"item": i if v is self.fixed[i - 1] else 0, "load": 0, "pipes": []}
                    elif self.none[i - 1][0]:
                        p = self.none[i - 1][1]
                        e["val"] = None if type(v) is type(p) and repr(v) == repr(p) else {"item": 0, "load": 0, "pipes": []}
                    else:
                        e["val"] = v
                elif o == "content":
                    e["keys"] = list(ds.content)
                elif o == "needs":
                    e["val"] = bool(ds.needs_to_load(self.names[i - 1]))
                elif o == "repr":
                    r = repr(ds)
                    if not all(n in r for n in self.names):
                        raise Boom(r)
                elif o == "unknown":
                    k = self.g.choice(["no_such_item", self.names[0] + "x"])
                    ds[k] if self.g.random() < 0.5 else ds.raw(k)
                e["ok"] = True
            except Exception as ex:
                e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:100]
            e["asked"], e["loads"], e["pipes"], e["srcok"], e["seen"], e["disk"] = self.asked, self.calls, self.pipes, self.srcok, self.seen, self.obs()
            if e["ok"] and e["val"] is None:  # an item whose value is None: which load it came from is told by the calls
                e["val"] = "none"
        self.ev.append(e)


def fill_none(w):
    """values of None items are equal whatever the load; complete them from the recorded calls"""
    nload, raw, done = 0, {}, {}
    for e in w.ev:
        if e["op"] in ("get", "raw"):
            nload += len(e["loads"])
            i = e["i"]
            if e["loads"] and (e["ok"] or e["pipes"]):
                raw[i] = nload
            if e["ok"] and e["val"] == "none":
                e["val"] = {"item": i, "load": raw.get(i, 0), "pipes": list(range(1, w.items[i - 1]["pipes"] + 1)) if e["op"] == "get" else []}
    return w.ev


def rand_item(g, nf):
    if g.random() < 0.3:
        return {"kind": "fixed", "files": [], "pipes": 0}
    return {"kind": "load", "files": g.sample(range(1, nf + 1), g.randint(1, min(3, nf)) if g.random() < .85 else nf), "pipes": g.randint(0, 3) if g.random() < .85 else g.randint(4, 7)}


def fake_content(key, fn):
    if fn.endswith(".txt"):
        return b"0 1 2\n1 3\n2\n"
    if fn.endswith(".json"):
        return b'[[0, 1], [2]]'
    v = [[1.0, 3.0], [0.0, 0.0], [2.0, 2.0]] if "feature" in key else [0, 1, 2] if "label" in key or "mask" in key else [[0, 1], [1, 2]]
    return pickle.dumps(v)


def shipped(name, scratch):
    """what a dataset of the library declares, asks for first, and makes of its files"""
    cls = getattr(DATA, name)
    NET.take()
    NET.answer = lambda url: ("http:404", b"")
    x = cls(data_root=scratch)
    out = {"name": x.name, "pre": NET.take(), "keys": list(x.content), "fixed": [], "urls": [], "errors": [], "values": []}
    for k in x.content:
        if not x.needs_to_load(k):
            out["fixed"].append([k, repr(x[k])])
            continue
        NET.take()
        ok = "ok"
        try:
            x[k]
        except Exception as ex:
            ok = "error"
        urls = []
        for u in NET.take():
            if u not in urls:
                urls.append(u)
        out["urls"].append([k, urls])
        out["errors"].append([k, ok])
    out["left"] = sorted(tree(scratch, set()))
    y = cls(data_root=scratch)
    for k in y.content:
        if y.needs_to_load(k):
            for u in y._content[k]["upon"]:
                p = Path(scratch) / y.name / u["filename"]
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(fake_content(k, u["filename"]))
                u["md5"] = md5(p.read_bytes())
            try:
                v = y[k]
                out["values"].append([k, type(v).__name__ + " " + (str(v.dtype) + " " + str(v.tolist()) if isinstance(v, torch.Tensor) else repr(v))])
            except Exception as ex:
                out["values"].append([k, "error " + type(ex).__name__])
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    return out


def C15(c):
    g = c.rng
    NET.install()
    seqs = c.model("MC_Dataset", env={"MC_LEN": str(c.budget(4, 5))})
    items = [{"kind": "fixed", "files": [], "pipes": 0}, {"kind": "load", "files": [1], "pipes": 1}, {"kind": "load", "files": [2, 1], "pipes": 2}]
    if not c.thorough:
        short = [s for s in seqs if len(s) <= 3]
        seqs = short + g.sample([s for s in seqs if len(s) > 3], 1500)
    traces = []
    for i, h in enumerate(seqs):
        w = World(c, g, "m%d" % i, items, 2)
        for cl in h:
            w.step(cl)
        traces.append({"id": "model-%d" % i, "ev": fill_none(w)})
        wipe(w)
    for i in range(c.budget(400, 4000)):
        nf = g.randint(1, 5) if g.random() < .85 else g.randint(6, 9)
        its = [rand_item(g, nf) for _ in range(g.randint(1, 6))]
        w = World(c, g, "r%d" % i, its, nf, net=[g.choice(["up", "up", "down", "corrupt"]) for _ in range(nf)],
                  disk=[g.choice(["absent", "absent", "good", "bad"]) for _ in range(nf)])
        loads = [k + 1 for k, it in enumerate(its) if it["kind"] == "load"]
        for _ in range(g.randint(3, 16)):
            o = g.choice(["get"] * 5 + ["raw"] * 2 + ["net", "disk", "loader", "pipe", "content", "needs", "unknown", "repr"])
            cl = {"op": o, "i": g.randint(1, len(its)), "v": ""}
            if o in ("net", "disk"):
                cl.update(i=g.randint(1, nf), v=g.choice({"net": ["up", "up", "down", "corrupt"], "disk": ["absent", "good", "bad"]}[o]))
            if o in ("loader", "pipe"):
                if not loads:
                    continue
                cl["i"] = g.choice(loads)
                if o == "pipe" and its[cl["i"] - 1]["pipes"] == 0:
                    continue
                if o == "pipe" and w.pbad[cl["i"] - 1] == 0:
                    cl["k"] = g.randint(1, its[cl["i"] - 1]["pipes"])
            w.step(cl)
        traces.append({"id": "random-%d" % i, "ev": fill_none(w)})
        wipe(w)
    want = json.load(open(os.path.join(HERE, "datasets.json")))
    for name, d in sorted(want.items()):
        o = shipped(name, c.sc.path("ship"))
        traces.append({"id": "shipped-" + name, "ev": [{"op": "shipped", "pre": o["pre"], "keys": o["keys"], "declared": d["keys"], "name": o["name"], "wname": d["name"],
                       "fixed": o["fixed"], "wfixed": d["fixed"], "urls": o["urls"], "wurls": d["urls"], "errors": o["errors"], "werrors": [[k, "error"] for k, _ in d["urls"]],
                       "left": o["left"], "values": o["values"], "wvalues": d["values"], "sig": "shipped:" + name}]})
    c.validate("Trace_Dataset", traces)
    c.assumptions += ["the network is a stand-in below requests' transport adapter", "the shipped datasets' files are replaced by small stand-ins"]


def wipe(w):
    import shutil
    d = str(w.dir)
    assert "/vp_" in d
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- C22
import dhg.datapipe as DP
from functools import partial


def pipe_fn(g, p):
    n = p["name"]
    if n == "to_tensor":
        return DP.to_tensor
    if n == "to_long":
        return DP.to_long_tensor
    if n == "to_bool":
        return DP.to_bool_tensor
    if n == "norm":
        o = {"1": g.choice([1, 1.0]), "2": g.choice([None, 2, 2.0]), "inf": float("inf")}[p["ord"]]
        return DP.norm_ft if o is None and g.random() < 0.5 else partial(DP.norm_ft, ord=o)
    return partial(DP.min_max_scaler, ft_min=p["lo"] / ONE, ft_max=p["hi"] / ONE)


def legal(ps, m):
    """which chains are within the documented input types (a plain reference run, used only to select inputs)"""
    t, exact, scaled = "list", True, False
    x = np.array(m, dtype=float)
    for p in ps:
        n = p["name"]
        if n in ("norm", "minmax"):
            if t != "float":
                return False
            if n == "norm":
                d = {"1": np.abs(x).sum(1), "2": np.sqrt((x * x).sum(1)), "inf": np.abs(x).max(1)}[p["ord"]]
                if (d[d > 0] < 0.1).any() or (scaled and (d < 0.1).any()):
                    return False
                x = np.where(d[:, None] > 0, x / np.where(d == 0, 1, d)[:, None], 0)
            else:
                r = x.max() - x.min()
                if r < 0.5:
                    return False
                scaled = True        # zeros are no longer exact
                x = (x - x.min()) / r * (p["hi"] - p["lo"]) / ONE + p["lo"] / ONE
            exact = False
        elif n == "to_tensor":
            t = "float"
        else:
            if not exact:
                return False
            t = "long" if n == "to_long" else "bool"
            x = np.trunc(x) if n == "to_long" else (x != 0) * 1.0
    return True


def wrap(g, m, first, vec):
    ints = all(float(v).is_integer() for r in m for v in r)
    data = [[int(v) for v in r] for r in m] if ints and g.random() < 0.5 else [[float(v) for v in r] for r in m]
    if vec:
        data = data[0]
    kinds = ["list", "np64", "np32", "tensor", "tensor64"]
    if first == "to_tensor" and not vec:
        kinds += ["csr", "coo"]
    if first in ("norm", "minmax"):
        kinds = ["tensor", "tensor64"]
    k = g.choice(kinds)
    if k == "list":
        return data
    if k == "np64":
        return np.array(data)
    if k == "np32":
        return np.array(data, dtype=np.float32)
    if k == "tensor":
        return torch.tensor(data, dtype=torch.float32)
    if k == "tensor64":
        return torch.tensor(data, dtype=torch.float64 if first not in ("norm", "minmax") else torch.float32)
    return (scipy.sparse.csr_matrix if k == "csr" else scipy.sparse.coo_matrix)(np.array(data, dtype=g.choice([np.float32, np.float64])))


def same(a, b):
    if scipy.sparse.issparse(a):
        return (a.toarray() == b.toarray()).all() and a.dtype == b.dtype
    if isinstance(a, torch.Tensor):
        return torch.equal(a, b) and a.dtype == b.dtype
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b) and a.dtype == b.dtype
    return repr(a) == repr(b)


TYPES = {torch.float32: "float", torch.int64: "long", torch.bool: "bool"}


def chain_ev(g, ps, m, vec):
    ps0 = ps
    direct = ps[0]["name"] in ("norm", "minmax")
    x = wrap(g, m, ps[0]["name"], vec)
    pow = 0
    if direct and g.random() < 0.25:
        if ps[0]["name"] == "norm":
            lim = 55 if ps[0]["ord"] == "2" else 110
            k = [g.randint(-lim, lim) for _ in range(1 if x.dim() == 1 else x.shape[0])]
            x = x * (torch.tensor([2.0 ** p for p in k], dtype=x.dtype) if x.dim() == 1 else torch.tensor([[2.0 ** p] for p in k], dtype=x.dtype))
            pow = 1
        else:
            pow = g.choice([-100, -40, -20, 20, 60, 100])
            x = x * 2.0 ** pow
    before = copy.deepcopy(x)
    e = {"op": "chain", "x": encm([[float(v) for v in r] for r in m]), "ps": ps0, "out": [], "t": "", "shape": True, "pow": pow,
         "sig": "chain:" + ("compose" if len(ps) > 1 else ps[0]["name"])}
    fs = [pipe_fn(g, p) for p in ps]
    try:
        if len(fs) == 1 and g.random() < 0.7:
            r = fs[0](x)
        elif len(fs) > 2 and g.random() < 0.4:
            k = g.randint(1, len(fs) - 1)
            r = DP.compose_pipes(DP.compose_pipes(*fs[:k]), *fs[k:])(x)
        else:
            r = DP.compose_pipes(*fs)(x)
        e["ok"], e["err"] = True, ""
        e["t"] = TYPES.get(r.dtype, str(r.dtype))
        want = (len(m[0]),) if vec else (len(m), len(m[0]))
        e["shape"] = tuple(r.shape) == want
        r = r.double()
        e["out"] = encm([r.tolist()] if vec else r.tolist())
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:120]
    e["pure"] = bool(same(x, before))
    return e


def rand_matrix(g, nz=False):
    n, k = (g.randint(1, 5), g.randint(1, 6)) if g.random() < .94 else (g.randint(6, 20), g.randint(7, 16))
    pool = g.choice([[0, 1], [-8, -3, -1, 0, 0, 2, 5, 8], [x / 8 for x in range(-40, 41)], [0, 0, 0, 1.5]])
    m = [[g.choice(pool) for _ in range(k)] for _ in range(n)]
    if g.random() < 0.3:
        m[g.randrange(n)] = [0] * k
    return m


DEFAULT_SEPS = [",", " ", "\t"]


def txt_run(g, sc, i, atoms, seps, arg, dt, header):
    """load a table given by its atoms"""
    toks = sorted({a for a in atoms if a not in seps and a not in ("\n", " ", "\t", "#", "user", "item")})
    if dt == "call":
        fn = lambda v: "<" + v + ">"
        fields = set()
        for ln in "".join("\n" if a == "\n" else "\0" if a in seps else a for a in atoms).split("\n"):
            fields |= {h(f) for f in ln.split("\0") for h in (str, str.strip, str.lstrip, str.rstrip)}
        cast = [[f, "<" + f + ">"] for f in sorted(fields | {""})]
        typ, show = str, str
    elif dt == "str":
        fn, cast, typ, show = "str", [], str, str
    else:
        typ = int if dt == "int" else float
        fn, show = dt, repr
        cast = [[t, repr(typ(t))] for t in toks]
    text = "".join(atoms)
    p = Path(sc.path("t%d.txt" % i))
    p.write_bytes(text.replace("\n", "\r\n").encode() if g.random() < 0.05 else text.encode())
    before = p.read_bytes()
    e = {"op": "txt", "header": header, "text": list(atoms), "seps": list(seps), "cast": cast, "out": [], "types": True, "sig": "txt:" + dt}
    kw = {} if arg is None else {"sep": arg}
    if header:
        kw["ignore_header"] = header
    try:
        r = DP.load_from_txt(g.choice([p, str(p)]), fn, **kw)
        e["ok"], e["err"] = True, ""
        e["types"] = isinstance(r, list) and all(isinstance(x, list) and all(type(v) is typ for v in x) for x in r)
        e["out"] = [[show(v) for v in x] for x in r]
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:120]
    e["pure"] = p.read_bytes() == before
    p.unlink()
    return e


def txt_ev(g, sc, i):
    dt = g.choice(["int", "float", "str", "call"])
    nrow, header = g.randint(0, 6) if i % 20 else g.randint(40, 90), g.choice([0, 0, 1, 2, 3])
    sep, arg = g.choice([(",", None), (" ", None), ("\t", None), ("mix", None), (";", ";"), ("::", "::"), (",", ",")])
    tok = {"int": lambda: g.choice([str(g.randint(-50, 1000)), "+%d" % g.randint(0, 9), "00%d" % g.randint(0, 9), str(g.randint(10 ** 12, 10 ** 18))]),
           "float": lambda: g.choice([repr(g.randint(-80, 80) / 8), "%de%d" % (g.randint(1, 9), g.randint(-30, 30)), ".5", "-7", "1.", repr(g.random())]),
           "str": lambda: g.choice(["a", "bc", "7", "x-y", "Q.z"]), "call": lambda: g.choice(["a", "12", "-9"])}[dt]
    empty = dt in ("str", "call") and sep not in (" ", "\t", "mix") and g.random() < 0.4
    wide = g.choice([5, 5, 5, 25]) if nrow < 7 else 3
    rows = [[tok() for _ in range(g.randint(1, wide))] for _ in range(nrow)]
    if empty:
        rows = [[g.choice(["", t]) for t in r] for r in rows]
        rows = [r if len(r) > 1 or r[0] else ["a"] for r in rows]
    heads = [["#", "user", "item"][:g.randint(1, 3)] for _ in range(header)]
    atoms = []
    tail = sep not in (" ", "mix", "\t") and g.random() < 0.2
    for r in heads + rows:
        if tail and g.random() < 0.3:
            atoms.append(g.choice([" ", "\t"]))
        for j, v in enumerate(r):
            if j:
                atoms.append(g.choice(DEFAULT_SEPS) if sep == "mix" else sep)
            if v:
                atoms.append(v)
        if tail:
            atoms.append(" ")
        atoms.append("\n")
    if atoms and g.random() < 0.3:
        atoms.pop()
    return txt_run(g, sc, i, atoms, DEFAULT_SEPS if arg is None else [arg], arg, dt, header)


def rand_obj(g, d=0, js=False):
    k = g.randrange(8 if d < 3 else 5)
    if k < 5:
        return [None, True, g.randint(-99, 99), g.randint(-8, 8) / 4, "s%d" % g.randint(0, 9)][k]
    if k == 5 or (k == 7 and js):
        return [rand_obj(g, d + 1, js) for _ in range(g.randint(0, 3))]
    if k == 6:
        return {"k%d" % i: rand_obj(g, d + 1, js) for i in range(g.randint(0, 3))}
    return g.choice([(1, "a"), {3, 4}, np.arange(3), (None, [])])


def obj_ev(g, sc, i):
    kind = g.choice(["pickle", "pickle", "json"])
    p = Path(sc.path("o%d" % i))
    keys = "all"
    o = rand_obj(g, js=kind == "json")
    if kind == "pickle" and g.random() < 0.5:
        o = {"a": rand_obj(g), "b": rand_obj(g), "c": rand_obj(g)}
        keys = g.choice(["all", "b", ["a", "c"], ["c", "b", "a"], []])
    if kind == "pickle":
        p.write_bytes(pickle.dumps(o))
    else:
        p.write_text(json.dumps(o))
    before = p.read_bytes()
    want = o if keys == "all" else o[keys] if isinstance(keys, str) else {k: o[k] for k in keys}
    e = {"op": "obj", "want": repr(want), "out": "", "sig": "load:" + kind}
    try:
        f = DP.load_from_pickle if kind == "pickle" else DP.load_from_json
        a = [g.choice([p, str(p)])] + ([] if keys == "all" else [keys])
        e["out"] = repr(f(*a))
        e["ok"], e["err"] = True, ""
    except Exception as ex:
        e["ok"], e["err"] = False, type(ex).__name__ + ": " + str(ex)[:120]
    e["pure"] = p.read_bytes() == before
    p.unlink()
    return e


def C22(c):
    g = c.rng
    tests = c.model("MC_Datapipe", env={"MC_LEN": str(c.budget(3, 4)), "MC_ATOMS": str(c.budget(5, 7))})
    chains, texts = [t for t in tests if isinstance(t, list)], [t["text"] for t in tests if isinstance(t, dict)]
    if len(chains) > 3000:
        chains = g.sample(chains, 3000)
    traces = []
    picks = g.sample(texts, min(len(texts), c.budget(1500, 20000)))
    for i, a in enumerate(picks):
        seps, arg = g.choice([(DEFAULT_SEPS, None), ([","], ","), ([";"], ";")])
        traces.append({"id": "text-%d" % i, "ev": [txt_run(g, c.sc, i, a, seps, arg, g.choice(["str", "call"]), g.choice([0, 0, 1, 2, 5]))]})
    for i, ps in enumerate(chains):
        ev = []
        for k in range(4):
            m = rand_matrix(g)
            if legal(ps, m) or (ps[0]["name"] in ("norm", "minmax") and legal([{"name": "to_tensor"}] + ps, m)):
                ev.append(chain_ev(g, ps, m, len(m) == 1 and g.random() < 0.7))
        if ev:
            traces.append({"id": "model-%d" % i, "ev": ev})
    single = [ps for ps in chains if len(ps) == 1]
    for i in range(c.budget(500, 6000)):
        ps = [dict(g.choice(single)[0])]
        if ps[0]["name"] == "minmax":
            a = g.randint(-16, 12)
            ps[0]["lo"], ps[0]["hi"] = a * ONE // 4, (a + g.randint(1, 16)) * ONE // 4
        m = rand_matrix(g)
        if legal([{"name": "to_tensor"}] + ps, m):
            traces.append({"id": "step-%d" % i, "ev": [chain_ev(g, ps, m, len(m) == 1 and g.random() < 0.7)]})
    for i in range(c.budget(400, 4000)):
        traces.append({"id": "file-%d" % i, "ev": [txt_ev(g, c.sc, i) if g.random() < 0.6 else obj_ev(g, c.sc, i)]})
    X = torch.tensor([[1.0, 2.0]])
    p = c.sc.path("x.txt")
    open(p, "w").write("1 2\n")
    bad = [lambda: DP.min_max_scaler(X, 1, 1), lambda: DP.min_max_scaler(X, 2, -1), lambda: DP.norm_ft(X.view(1, 1, 2), 1), lambda: DP.load_from_txt(p, "complex"),
           lambda: DP.load_from_txt(p + "no", "int"), lambda: DP.load_from_pickle([p]), lambda: DP.load_from_json(p + "no"), lambda: DP.load_from_pickle(p + "no")]
    for i, f in enumerate(bad):
        e = {"op": "bad", "sig": "bad:%d" % i, "ok": True}
        try:
            f()
        except Exception:
            e["ok"] = False
        traces.append({"id": "bad-%d" % i, "ev": [e]})
    c.validate("Trace_Datapipe", traces)
    c.assumptions += ["min-max scaling of data with a range", "separators occur singly, as documented"]


CHECKS = {"C14": C14, "C15": C15, "C22": C22}
