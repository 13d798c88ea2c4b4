"""Mutation campaign over /repo: which small changes of the code does no check notice?

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--jobs N] [--skip-done]
Each mutant (one operator, constant, condition, statement or argument order) is written in a scratch copy and the quick checks of the
module's properties are run against it, fastest first, until one reports a violation. Survivors are run through the stable tests.
"""
import ast, re, sys, os, json, subprocess, random, concurrent.futures, copy, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {"latticeFunctions.py": "C01 C02 C03 C12 C09 C26 C21",
          "baseConstruction.py": "C03 C05 C04 C06 C15 C17 C16 C18 C12 C26 C20 C14",
          "interactions.py": "C07 C08 C09 C24 C14 C12 C11 C10 C26 C25",
          "hamiltonianConstruction.py": "C11 C12 C26 C22 C25",
          "davidson.py": "C13 C14 C25 C26 C18",
          "initialComputations.py": "C18 C19 C16 C20 C25 C26",
          "embedding.py": "C21 C22 C19 C18 C23",
          "postProcessing.py": "C27 C19"}
SKIP = {"save_phase_space", "plot_spectrum_dependance", "modified_davidson_algorithm_opt", "get_meaningful_corrections", "perform_matrix_orthogonal_projection",
        "print_verbose", "trange_verbose"}
QUIET = {"print", "print_verbose", "tqdm", "format", "ValueError"}


class Sites(ast.NodeVisitor):
    """Collects (description, function applying the mutation to the node) for every mutation site."""
    def __init__(self): self.sites, self.fn = [], ["<module>"]

    def add(self, node, what, f): self.sites.append((getattr(node, "lineno", 0), self.fn[-1], what, f))

    def visit_FunctionDef(self, node):
        if node.name in SKIP: return
        self.fn.append(node.name)
        for d in node.args.defaults:
            if isinstance(d, ast.Constant) and not isinstance(d.value, str): self.const(d, "default ")
        body = node.body[1:] if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else node.body
        for s in body: self.visit(s)
        self.block(node)
        self.fn.pop()

    def visit_Module(self, node):
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): self.visit(s)

    def visit_ClassDef(self, node):
        for s in node.body:
            if isinstance(s, ast.FunctionDef): self.visit(s)

    def block(self, node):
        for field in ("body", "orelse"):
            b = getattr(node, field, None)
            if not isinstance(b, list): continue
            for k, s in enumerate(b):
                call = s.value if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) else None
                if call is not None:
                    name = getattr(call.func, "id", getattr(call.func, "attr", ""))
                    if name in QUIET or name in ("update", "sort_keys"): continue
                if call is not None or isinstance(s, (ast.AugAssign, ast.Break, ast.Continue)) or (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)):
                    def f(b=b, k=k): b[k] = ast.copy_location(ast.Pass(), b[k])
                    self.add(s, "removed: " + ast.unparse(s)[:80], f)

    def generic_visit(self, node):
        if isinstance(node, (ast.If, ast.For, ast.While, ast.With, ast.Try)): self.block(node)
        super().generic_visit(node)

    def visit_Call(self, node):
        name = getattr(node.func, "id", getattr(node.func, "attr", ""))
        if name in QUIET: return
        if name in ("deepcopy", "copy") and len(node.args) == 1:
            def f(node=node):
                node.func = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="x")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name(id="x", ctx=ast.Load()))
            self.add(node, "no copy: " + ast.unparse(node), f)
        if name in ("abs", "sorted", "sum", "min", "max", "reversed") and len(node.args) >= 1:
            if name in ("min", "max"):
                def f(node=node, name=name): node.func.id = "max" if name == "min" else "min"
                if isinstance(node.func, ast.Name): self.add(node, name + " swapped: " + ast.unparse(node)[:80], f)
            elif name in ("abs",) and isinstance(node.func, ast.Name):
                def f(node=node): node.func.id = "float"
                self.add(node, "abs removed: " + ast.unparse(node)[:80], f)
            elif name == "sorted":
                def f(node=node): node.func.id = "list"; node.keywords = []
                self.add(node, "sorted removed: " + ast.unparse(node)[:80], f)
        for k in range(len(node.args) - 1):
            a, b = node.args[k:k + 2]
            if isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id != b.id:
                def f(node=node, k=k): node.args[k], node.args[k + 1] = node.args[k + 1], node.args[k]
                self.add(node, "swapped arguments %d: %s" % (k, ast.unparse(node)[:80]), f)
        if len(node.args) and isinstance(node.args[-1], ast.Name) and "restriction" in node.args[-1].id:
            def f(node=node): node.args.pop()
            self.add(node, "argument dropped: " + ast.unparse(node)[:80], f)
        for k, kw in enumerate(node.keywords):
            def f(node=node, kw=kw): node.keywords.remove(kw)
            if kw.arg: self.add(node, "keyword dropped: %s in %s" % (kw.arg, ast.unparse(node)[:60]), f)
        self.generic_visit(node)

    def visit_Compare(self, node):
        swap = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for k, op in enumerate(node.ops):
            for new in swap.get(type(op), []):
                def f(node=node, k=k, new=new): node.ops[k] = new()
                self.add(node, "%s -> %s: %s" % (type(op).__name__, new.__name__, ast.unparse(node)[:80]), f)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant): return
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Mod: ast.Add, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr}
        if type(node.op) in swap:
            def f(node=node): node.op = swap[type(node.op)]()
            self.add(node, "%s -> %s: %s" % (type(node.op).__name__, swap[type(node.op)].__name__, ast.unparse(node)[:80]), f)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Add) and not isinstance(node.value, (ast.List, ast.ListComp, ast.Constant)):
            def f(node=node): node.op = ast.Sub()
            self.add(node, "+= -> -=: " + ast.unparse(node)[:80], f)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        def f(node=node): node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        self.add(node, "and/or: " + ast.unparse(node)[:80], f)
        for k in range(len(node.values)):
            def f(node=node, k=k): node.values.pop(k)
            self.add(node, "operand %d dropped: %s" % (k, ast.unparse(node)[:80]), f)
        self.generic_visit(node)

    def visit_If(self, node):
        for v in (True, False):
            def f(node=node, v=v): node.test = ast.Constant(v)
            self.add(node, "if -> %s: %s" % (v, ast.unparse(node.test)[:80]), f)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            def f(node=node): node.op = ast.UAdd() if isinstance(node.op, ast.USub) else ast.UAdd()
            if isinstance(node.op, ast.USub): self.add(node, "minus removed: " + ast.unparse(node)[:80], f)
        self.generic_visit(node)

    def const(self, node, pre=""):
        v = node.value
        if isinstance(v, bool):
            def f(node=node, v=v): node.value = not v
            self.add(node, pre + "%s -> %s" % (v, not v), f)
        elif isinstance(v, int):
            for d in (1, -1):
                def f(node=node, v=v, d=d): node.value = v + d
                self.add(node, pre + "%d -> %d" % (v, v + d), f)
        elif isinstance(v, float):
            def f(node=node, v=v): node.value = v * 2 or 1.
            self.add(node, pre + "%g -> %g" % (v, v * 2 or 1), f)

    def visit_Constant(self, node): self.const(node)
    def visit_JoinedStr(self, node): pass
    def visit_Raise(self, node): pass


def sites(path):
    tree = ast.parse(open(path).read())
    s = Sites()
    s.visit(tree)
    return tree, s.sites


def test(slot, f, k, jobs):
    d = "%s/%d" % (os.environ.get("MUT_DIR", "/tmp/mut"), slot)
    tree, ss = sites("/repo/" + f)
    line, fn, what, apply = ss[k]
    apply()
    try: src = ast.unparse(ast.fix_missing_locations(tree))
    except Exception as e: return dict(file=f, k=k, status="invalid")
    subprocess.run(["rm", "-rf", d]); os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    open(d + "/" + f, "w").write(src)
    r = dict(file=f, k=k, line=line, fn=fn, what=what)
    env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS=str(jobs), VERIF_EVIDENCE_DIR="/tmp/mut/ev%d" % slot)
    for c in CHECKS[f].split():
        try:
            p = subprocess.run([V + "/bin/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode == 1: return dict(r, status="killed", by=c)
            if p.returncode == 2: r["noanswer"] = c
        except subprocess.TimeoutExpired: r["timeout"] = c
    x = d + "/report.xml"
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--junitxml=" + x, "tests"], cwd=d, env=dict(os.environ, PYTHONPATH=d, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/res.json", "junit:" + x], stdout=subprocess.DEVNULL)
        passed = set(json.load(open(d + "/res.json"))["passed"])
        r["tests"] = all(t in passed for t in json.load(open("/opt/vp/BASELINE.json"))["stable"])
    except Exception as e: r["tests"] = repr(e)[:80]
    return dict(r, status="survived")


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    out = a[0]
    jobs = int(opt("--jobs", 4))
    rng = random.Random(int(opt("--seed", 1)))
    todo = [(f, k) for f in opt("--files", ",".join(CHECKS)).split(",") for k in range(len(sites("/repo/" + f)[1]))]
    match = opt("--match", "")
    if match:
        what = {f: sites("/repo/" + f)[1] for f in {x for x, _ in todo}}
        todo = [(f, k) for f, k in todo if re.search(match, "%s: %s" % (what[f][k][1], what[f][k][2]))]
    n = int(opt("--sample", len(todo)))
    todo = rng.sample(todo, min(n, len(todo)))
    done = {(json.loads(l)["file"], json.loads(l)["k"]) for l in open(out)} if os.path.exists(out) else set()
    todo = [t for t in todo if t not in done]
    print(len(todo), "mutants"); sys.stdout.flush()
    slots, lock = list(range(jobs)), threading.Lock()
    def one(t):
        with lock: s = slots.pop()
        try: return test(s, *t, max(1, 8 // jobs))
        finally:
            with lock: slots.append(s)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
        for f in concurrent.futures.as_completed([ex.submit(one, t) for t in todo]):
            r = f.result()
            o.write(json.dumps(r) + "\n"); o.flush()


if __name__ == "__main__": main()
