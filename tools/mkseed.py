"""mkseed.py FILE...: each FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (python source).
Builds seeded/<ID>/ after confirming in a scratch copy that the patched tree imports, passes the stable tests, and that the
demonstration passes without and fails with the change; then runs the property's check against the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def removed(wt, diff):
    """does the change touch a line of the original repository (one its first commit has)?"""
    first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], wt).stdout.strip()
    path, n = None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
            lines = set(sh(["git", "show", first + ":" + path], wt).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in lines:
            n += 1
    return n > 0


def main(files, nocheck=False):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for f in files:
        ns = {}
        if not os.path.exists(f):
            continue
        exec(open(f).read(), ns)
        top = tempfile.mkdtemp(prefix="seed_")
        wt = os.path.join(top, "wt")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", wt])
            d = os.path.join(VERIF, "seeded", ns["ID"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip())
            r0 = sh(["bash", os.path.join(d, "demo.sh")], wt, timeout=300)
            for path, old, new in ns["EDITS"]:
                p = os.path.join(wt, path)
                s = open(p).read()
                if s.count(old) != 1:
                    print(ns["ID"], "EDIT MATCHES", s.count(old), "times in", path, flush=True)
                open(p, "w").write(s.replace(old, new, 1))
            r1 = sh(["bash", os.path.join(d, "demo.sh")], wt, timeout=300)
            diff = sh(["git", "diff"], wt).stdout
            touched = removed(wt, diff)
            env = dict(os.environ, PYTHONPATH=wt, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="4")
            os.makedirs(os.path.join(wt, "tmp"), exist_ok=True)
            xml = os.path.join(top, "j.xml")
            t = sh([PY, "-m", "pytest", "tests", "--ignore=tests/data", "-q", "-p", "no:cacheprovider", "--timeout=60",
                    "-o", "junit_family=xunit2", "--junitxml=" + xml], wt, env=env)
            import xml.etree.ElementTree as ET
            ok = set()
            for c in ET.parse(xml).getroot().iter("testcase"):
                if not [x for x in c if x.tag in ("failure", "error", "skipped")]:
                    ok.add(c.get("classname").replace(".", "/") + "::" + c.get("name"))
            last = t.stdout.strip().splitlines()[-1]
            norm = lambda x: x.replace(".py", "").replace("/", ".").removeprefix("tests.")
            missing = sorted({norm(b) for b in base} - {norm(o) for o in ok})
            good = r0.returncode == 0 and r1.returncode != 0 and not missing and touched
            line = "%s %s demo %d/%d missing=%s%s [%s]" % (ns["ID"], ns["PROP"], r0.returncode, r1.returncode, missing[:4], "" if touched else " NO ORIGINAL LINE", last)
            if r0.returncode:
                line += "\n" + r0.stdout[-800:]
            if good:
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
                if not nocheck:
                    c = sh([os.path.join(VERIF, "check.sh"), ns["PROP"], "quick"], VERIF, env=dict(os.environ, VP_REPO=wt, VERIF_SEED="1"))
                    v = [x for x in c.stdout.splitlines() if x.startswith("  ")]
                    line += "\n   check rc=%d %d signatures: %s" % (c.returncode, c.stdout.count("VIOLATION"), "; ".join(v[:3])[:300])
                    if c.returncode not in (0, 1):
                        line += c.stdout[-1500:]
            else:
                shutil.rmtree(d)
                line += "\n   DISCARDED"
            print(line, flush=True)
        finally:
            shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    main([x for x in a if x != "--nocheck"], "--nocheck" in a)
