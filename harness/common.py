"""Shared machinery: encoding, TLC runs, verdicts, evidence."""
import copy, json, math, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

ONE = 1 << 20
BAD = 2000000000
SAT = 1 << 30


def enc(x):
    """number -> fixed point"""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return BAD
    if abs(x) >= 1024:
        return SAT if x > 0 else -SAT
    return int(round(x * ONE))


def encl(xs):
    return [enc(x) for x in xs]


def encm(t):
    """tensor (dense or sparse, 1-D or 2-D) -> list(s) of fixed point numbers"""
    import torch
    if isinstance(t, torch.Tensor):
        if t.is_sparse:
            t = t.to_dense()
        t = t.detach().cpu().tolist()
    if len(t) and isinstance(t[0], (list, tuple)):
        return [encl(r) for r in t]
    return encl(t)


class Scratch:
    """a private scratch directory, removed at exit"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp_")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


JAVA = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-DTLA-Library=" + SPEC,
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class TLCError(Exception):
    pass


def run_tlc(module, scratch, cfg=None, env=None, workers=8, timeout=800, extra=(), check=True):
    """Run TLC on spec/<module>.tla. Returns dict(out, states, distinct, errors)."""
    cfg = cfg or os.path.join(SPEC, module + ".cfg")
    meta = tempfile.mkdtemp(dir=scratch.dir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = JAVA[:1] + ["-Djava.io.tmpdir=" + meta] + JAVA[1:] + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
                  *extra, os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta, text=True)
    out = p.stdout
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    r = {"out": out, "rc": p.returncode, "states": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}
    if check and (p.returncode != 0 or not m):
        keep = os.path.join(tempfile.gettempdir(), "tlc_%s_%d.log" % (module, os.getpid()))
        open(keep, "w").write(out)
        raise TLCError("TLC failed on %s rc=%d (log %s)\n%s" % (module, p.returncode, keep, out[-3000:]))
    return r


def validate(module, traces, scratch, workers=8, timeout=800):
    """traces: list of {"id":.., "ev":[..]}. Returns (failures, stats). A failure is (trace index, event index, clauses)."""
    path = scratch.path("traces_%s.ndjson" % module)
    cut = [len(t["ev"]) for t in traces]
    fails = []
    for attempt in range(5):
        with open(path, "w") as f:
            for t, k in zip(traces, cut):
                f.write(json.dumps({"ev": t["ev"][:k]}) + "\n")
        r = run_tlc(module, scratch, env={"TRACE_FILE": path}, workers=workers, timeout=timeout, check=False)
        n = sum(cut)
        if r["rc"] == 0 and r["distinct"] == n + len(traces):
            break
        # the observation of some event is outside the specification's types (wrong shape, wrong kind of value):
        # TLC stops there and prints the state it was in; that event is a failure of its own
        at = re.findall(r"/\\ tr = (\d+)", r["out"]), re.findall(r"/\\ l = (\d+)", r["out"])
        if r["rc"] == 0 or not at[0] or "The behavior up to this point is" not in r["out"]:
            keep = os.path.join(tempfile.gettempdir(), "tlc_%s_%d.log" % (module, os.getpid()))
            open(keep, "w").write(r["out"])
            raise TLCError("TLC failed on %s rc=%d, %d states, expected %d (log %s)\n%s" % (
                module, r["rc"], r["distinct"], n + len(traces), keep, r["out"][-3000:]))
        ti, li = int(at[0][-1]) - 1, int(at[1][-1]) - 1
        fails.append((ti, li, ["ill-typed"]))
        cut[ti] = li
    for m in re.finditer(r'^"FAIL (\d+) (\d+) (.*)"$', r["out"], re.M):
        fails.append((int(m.group(1)) - 1, int(m.group(2)) - 1, sorted(re.findall(r'\\"(.*?)\\"', m.group(3)))))
    fails.sort()
    return fails, {"states": r["states"], "events": n, "traces": len(traces)}


def generate(module, scratch, cfg=None, env=None, workers=8, timeout=800):
    """exhaust a model; returns (list of JSON behaviours it printed, stats)"""
    r = run_tlc(module, scratch, cfg=cfg, env=env, workers=workers, timeout=timeout)
    seqs = []
    for m in re.finditer(r'^"TEST (.*)"$', r["out"], re.M):
        seqs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    seqs.sort(key=lambda x: (len(x), json.dumps(x, sort_keys=True)))
    return seqs, {"states": r["distinct"], "transitions": r["states"], "tests": len(seqs)}


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


class Check:
    """one property check: collects model stats, traces, verdicts; writes evidence; decides the exit code"""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.sc = Scratch()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = {}
        self.violations = []
        self.known = {}
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.hist = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg=None, env=None, workers=8, timeout=800):
        seqs, st = generate(module, self.sc, cfg=cfg, env=env, workers=workers, timeout=timeout)
        self.states += st["states"]
        self.transitions += st["transitions"]
        name = os.path.splitext(os.path.basename(cfg))[0] if cfg else module
        self.models[name] = st
        return seqs

    def count(self, key, n=1):
        self.hist[key] = self.hist.get(key, 0) + n

    def validate(self, module, traces, timeout=800):
        traces = [t for t in traces if t["ev"]]
        if not traces:
            return
        fails, st = validate(module, traces, self.sc, timeout=timeout)
        self.traces += st["traces"]
        self.events += st["events"]
        self.transitions += st["events"]
        for t in traces:
            for e in t["ev"]:
                self.count(e.get("op", "?"))
        if len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append({"trace": t.get("id", ""), "events": t["ev"][:3]})
        for ti, ei, clauses in fails:
            t = traces[ti]
            ev = t["ev"][ei]
            for c in clauses:
                self.fail(c, ev, {"trace": t.get("id", ""), "index": ei, "clauses": clauses, "module": module,
                                  "events": t["ev"][:ei + 1]})

    def fail(self, clause, ev, replay):
        sig = "%s|%s" % (ev.get("sig", ev.get("op", "?")), clause)
        for k in known_findings(self.prop):
            if k["match"] == sig:
                self.known.setdefault(sig, [k["text"], 0])
                self.known[sig][1] += 1
                return
        self.violations.append((sig, replay))

    def finish(self):
        rc = 0
        d = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        for f in os.listdir(os.path.join(d, "replay")):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(d, "replay", f))
        for sig, (text, n) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%d occurrence(s) of %s)" % (self.prop, text, n, sig))
        seen = {}
        for sig, replay in self.violations:
            seen.setdefault(sig, []).append(replay)
        for i, (sig, reps) in enumerate(sorted(seen.items())):
            rep = min(reps, key=lambda r: len(r["events"]))
            path = os.path.join(d, "replay", "%s-%d.json" % (self.prop, i))
            json.dump({"signature": sig, "occurrences": len(reps), **rep}, open(path, "w"), indent=1)
            if i < 20:
                ev = rep["events"][-1] if rep["events"] else {}
                print("  %s x%d: %s" % (sig, len(reps), ev.get("err", "")[:200] if isinstance(ev.get("err", ""), str) else ""))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_operation": dict(sorted(self.hist.items())),
               "models": self.models, "samples": self.samples or ["none"], **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(seen)}
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        self.sc.close()
        print("%s %s: %d model states, %d traces / %d events validated, %d violation signature(s), %.1fs" % (
            self.prop, self.tier, self.states, self.traces, self.events, len(seen), time.time() - self.t0))
        return rc
