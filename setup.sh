#!/bin/sh
# Parses every specification and imports the harness; nothing is built.
cd "$(dirname "$0")" || exit 2
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
for f in spec/*.tla; do
  java -DTLA-Library=spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >"$d/log" 2>&1 || { cat "$d/log"; exit 1; }
done
/opt/venv/bin/python - <<'P' || exit 1
import ast, glob
for f in glob.glob("harness/*.py"):
    ast.parse(open(f).read(), f)
P
echo setup ok
