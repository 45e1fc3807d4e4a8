"""Entry point: check.py PROPERTY.

The property's check runs in a child process. A native crash, an endless loop or an unexpected exception *inside the
library* ends it: that is reported as a violation. Failures of the harness or of TLC themselves are errors (exit 2)."""
import faulthandler, importlib, json, os, shutil, signal, sys, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
HANG = 700  # seconds; a quick check takes well under a minute

MODULES = ["checks_store", "checks_split", "checks_io", "checks_metrics", "checks_random", "checks_exp", "checks_utils", "checks_nn", "checks_vis"]


def run(prop):
    from common import Check
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, m + ".py")):
            continue
        mod = importlib.import_module(m)
        if prop in mod.CHECKS:
            c = Check(prop)
            mod.CHECKS[prop](c)
            return c.finish()
    print("unknown property " + prop)
    return 2


def in_library(tb):
    frames = [f.filename for f in traceback.extract_tb(tb)]
    return any(f.startswith(os.path.join(REPO, "dhg") + os.sep) for f in frames)


def report(prop, what, detail):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-crash.json" % prop)
    json.dump({"signature": what, "detail": detail}, open(path, "w"), indent=1)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
               "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [what]},
               "wall_s": 0.0, "violations": 1}, open(ev, "w"), indent=1)
    print(detail[-2000:])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main(prop):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, ".stack-%s" % prop)
    err = os.path.join(d, ".exc-%s" % prop)
    for f in (log, err):
        if os.path.exists(f):
            os.remove(f)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 2
        home = tempfile.mkdtemp(prefix="vp_home_")  # the library keeps its cache below the home directory
        cache = os.path.join(os.path.expanduser("~"), ".cache", "matplotlib")
        if os.path.isdir(cache):
            os.environ.setdefault("MPLCONFIGDIR", cache)
        os.environ["HOME"] = home
        try:
            fh = open(log, "w")
            faulthandler.enable(file=fh)
            if os.environ.get("VERIF_TIER", "quick") == "quick":
                faulthandler.dump_traceback_later(HANG, exit=True, file=fh)
            rc = run(prop)
        except BaseException as e:
            text = traceback.format_exc()
            sys.stderr.write(text)
            json.dump({"lib": in_library(e.__traceback__), "text": text}, open(err, "w"))
            rc = 3
        shutil.rmtree(home, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    _, st = os.waitpid(pid, 0)
    stack = open(log).read() if os.path.exists(log) else ""
    exc = json.load(open(err)) if os.path.exists(err) else None
    for f in (log, err):
        if os.path.exists(f):
            os.remove(f)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            return report(prop, "native-crash:%d" % sig, stack)
        print("check ended by signal %d" % sig)
        return 2
    rc = os.WEXITSTATUS(st)
    if exc is not None:
        return report(prop, "unexpected-exception", exc["text"]) if exc["lib"] else 2
    if "Timeout" in stack:
        if os.path.join(REPO, "dhg") + os.sep in stack:
            return report(prop, "endless-loop", stack)
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
