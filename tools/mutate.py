"""mutate.py OUT.jsonl N SEED WORKERS [PATH_PREFIX...]: plants N random one-place changes (operators, constants, conditions, dropped
calls and copies, swapped arguments) in scratch copies of /repo, skips those the stable tests notice, and runs the checks of the
properties the file belongs to until one notices. Survivors are for reading: most are changes without effect."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("BASE", "/repo")
STRUCT = ["C03", "C01", "C04", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]
MAP = [("structure/hypergraphs", STRUCT), ("structure/graphs/bip", STRUCT), ("structure/graphs/graph.py", STRUCT), ("structure/graphs/dir", STRUCT), ("structure/base", STRUCT),
       ("metrics/classification", ["C18", "C16"]), ("metrics/retrieval", ["C17", "C16"]), ("metrics/", ["C16", "C17", "C18"]),
       ("utils/dataset_split", ["C12", "C13"]), ("utils/dataset_wrap", ["C13"]), ("utils/download", ["C14", "C15"]), ("data/", ["C15"]), ("random/", ["C19"]),
       ("experiments/", ["C20"]), ("utils/structure", ["C21"]), ("utils/math", ["C21", "C19"]), ("utils/sparse", ["C21", "C10"]), ("utils/logging", ["C21"]),
       ("datapipe/", ["C22"]), ("nn/", ["C23"]), ("models/", ["C23"]), ("visualization/", ["C24"])]
SKIP = ("__repr__", "to")


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(node, new, kind):
        s, e = pos(node)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, node.lineno))

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name in SKIP:
                return
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    self.visit(d)
            body = n.body[1:] if ast.get_docstring(n) is not None else n.body
            for s in body:
                self.visit(s)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                self.visit(n.value)

        def visit_Assert(self, n):
            self.visit(n.test)
            put(n, "pass", "drop-assert")

        def visit_Raise(self, n):
            put(n, "pass", "drop-raise")

        def visit_JoinedStr(self, n):
            pass

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return
            put(n, "pass", "drop")
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            put(n, "pass", "drop")
            self.generic_visit(n)

        def visit_Assign(self, n):
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                put(n, "pass", "drop")
            self.generic_visit(n)

        def visit_Compare(self, n):
            if len(n.ops) == 1:
                l, r = seg(src, n.left), seg(src, n.comparators[0])
                for new in {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
                            ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(n.ops[0]), []):
                    put(n, "(%s %s %s)" % (l, new, r), "compare")
            self.generic_visit(n)

        def visit_BinOp(self, n):
            l, r = seg(src, n.left), seg(src, n.right)
            for new in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Pow: ["*"], ast.Mod: ["*"]}.get(type(n.op), []):
                put(n, "((%s) %s (%s))" % (l, new, r), "arith")
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            new = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + new.join("(%s)" % seg(src, v) for v in n.values) + ")", "bool")
            put(n, seg(src, n.values[0]), "bool")
            put(n, seg(src, n.values[-1]), "bool")
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            put(n, "(%s)" % seg(src, n.operand), "unary")
            self.generic_visit(n)

        def visit_Constant(self, n):
            v = n.value
            if isinstance(v, bool):
                put(n, repr(not v), "const")
            elif isinstance(v, int):
                put(n, "(%d)" % (v + 1), "const")
                if v > 0:
                    put(n, "(%d)" % (v - 1), "const")
            elif isinstance(v, float):
                put(n, "(%r)" % (v * 2 + 0.1), "const")

        def visit_If(self, n):
            put(n.test, "True", "cond")
            put(n.test, "False", "cond")
            self.generic_visit(n)

        def visit_IfExp(self, n):
            put(n, seg(src, n.body), "cond")
            put(n, seg(src, n.orelse), "cond")
            self.generic_visit(n)

        def visit_Continue(self, n):
            put(n, "pass", "drop")

        def visit_Break(self, n):
            put(n, "pass", "drop")

        def visit_Call(self, n):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("clone", "copy", "detach", "coalesce", "squeeze", "t", "contiguous", "float", "cpu", "sum", "mean", "eval", "abs"):
                put(n, "(%s)" % seg(src, f.value), "strip")
            if isinstance(f, ast.Name) and f.id in ("deepcopy", "sorted", "list", "set", "int", "abs", "tuple", "max", "min") and n.args:
                put(n, "(%s)" % seg(src, n.args[0]), "strip")
            if isinstance(f, ast.Attribute) and f.attr == "deepcopy":
                put(n, "(%s)" % seg(src, n.args[0]), "strip")
            if len(n.args) >= 2 and seg(src, n.args[0]) != seg(src, n.args[1]):
                a, c = n.args[0], n.args[1]
                s, _ = pos(a)
                e = pos(c)[1]
                out.append((s, e, seg(src, c) + ", " + seg(src, a), "swap", n.lineno))
            self.generic_visit(n)
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name) is False:
                    pass

        def visit_Tuple(self, n):
            if len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
                put(n, "(%s, %s)" % (seg(src, n.elts[1]), seg(src, n.elts[0])), "swap")
            self.generic_visit(n)

        def visit_Return(self, n):
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.slice, ast.Slice):
                put(n, "(%s)" % seg(src, n.value), "slice")
            self.generic_visit(n)
    V().visit(tree)
    res = []
    for s, e, new, kind, line in out:
        t = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            continue
        res.append((s, e, new, kind, line, b[s:e].decode(), t))
    return res


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def work(q, out, lock, deselect):
    while True:
        try:
            rel, m, props = q.get_nowait()
        except queue.Empty:
            return
        top = tempfile.mkdtemp(prefix="mutant_")
        wt = os.path.join(top, "wt")
        try:
            shutil.copytree(REPO, wt, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__", "examples"))
            open(os.path.join(wt, rel), "wb").write(m[6])
            env = dict(os.environ, PYTHONPATH=wt, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="2", HOME=top)
            os.makedirs(os.path.join(wt, "tmp"), exist_ok=True)
            rc, o = run([PY, "-m", "pytest", "tests", "--ignore=tests/data", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"] + deselect, wt, env, 240)
            r = {"file": rel, "line": m[4], "kind": m[3], "old": m[5], "new": m[2], "tests": rc}
            if rc == 0:
                r["caught"] = None
                for p in props:
                    rc, o = run([os.path.join(VERIF, "check.sh"), p, "quick"], VERIF, dict(os.environ, VP_REPO=wt, VERIF_SEED="1", VP_EVIDENCE=os.path.join(top, "ev")), 600)
                    if rc == 1:
                        r["caught"] = p
                        r["how"] = [l.strip()[:100] for l in o.splitlines() if l.startswith("  ")][:2]
                        break
                    if rc != 0:
                        r["caught"] = "%s:rc=%d" % (p, rc)
                        r["how"] = o[-300:]
                        break
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
        except Exception as e:
            with lock:
                open(out, "a").write(json.dumps({"file": rel, "line": m[4], "error": repr(e)}) + "\n")
        finally:
            shutil.rmtree(top, ignore_errors=True)


def main():
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    pre = sys.argv[5:] or [""]
    g = random.Random(seed)
    files = subprocess.check_output(["git", "-C", REPO, "ls-files", "dhg"], text=True).split()
    todo = []
    for f in files:
        rel = f[4:]
        props = next((p for k, p in MAP if rel.startswith(k)), None)
        if f.endswith(".py") and props and any(rel.startswith(x) for x in pre):
            ms = mutants(os.path.join(REPO, f))
            todo += [(f, m, props) for m in ms]
    g.shuffle(todo)
    print(len(todo), "mutants in all", flush=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d.get("old"), d.get("new")))
    q = queue.Queue()
    for t in todo:
        if q.qsize() < n and (t[0], t[1][4], t[1][5], t[1][2]) not in done:
            q.put(t)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    lock = threading.Lock()
    ts = [threading.Thread(target=work, args=(q, out, lock, [])) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
