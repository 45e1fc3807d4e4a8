"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo. fixed.json maps commit subject prefixes to properties."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "known_findings.json")
d = json.load(open(p))
props = json.load(open(os.path.join(here, "tools", "fixed.json")))
out = []
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        pr = [v for k, v in props.items() if s.startswith(k)]
        assert pr, s
        out.append("fixed: property=%s %s %s" % (pr[0], h, s))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print("\n".join(out))
