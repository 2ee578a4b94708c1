"""Mutation testing of the checks (a development tool; no check uses it).

mutate.py gen DIR              writes every mutant as DIR/<n>/{file,line,desc,source}
mutate.py run DIR W N          worker W of N: tests, then checks, results in DIR/<n>/result
"""
import ast, copy, json, os, shutil, subprocess, sys

REPO = "/repo"
CHECKS = {
 "screen.py": "C03 C06 C04 C05 C02 C01 C08 C07 C12",
 "span.py": "C10 C11 C09 C12 C01",
 "terminal.py": "C25 C27 C28 C24 C23 C08 C12 C14 C01",
 "core.py": "C16 C19 C11 C21 C20 C23 C24 C14 C22",
 "color.py": "C13 C17 C18 C15 C14 C09 C07",
 "color_info.py": "C13 C15",
 "event.py": "C26 C27",
 "key_names.py": "C20",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult],
       ast.Pow: [ast.Mult], ast.BitOr: [ast.BitAnd]}


def skip(node, parents):
    return False


def sites(tree):
    """Yields (description, line, function(tree copy) -> None) for every mutation."""
    nodes = list(ast.walk(tree))
    ann = set()
    for n in nodes:
        for field in ("annotation", "returns"):
            a = getattr(n, field, None)
            if a is not None:
                ann |= {id(x) for x in ast.walk(a)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            ann.add(id(n.body[0])); ann.add(id(n.body[0].value))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            ann |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            ann |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            ann.add(id(n)); ann.add(id(n.value))
    for i, n in enumerate(nodes):
        if id(n) in ann:
            continue
        line = getattr(n, "lineno", 0)

        def at(f, i=i):
            def go(t):
                f(list(ast.walk(t))[i], t)
            return go

        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    def f(m, t, k=k, new=new): m.ops[k] = new()
                    yield f"{type(op).__name__}->{new.__name__}", line, at(f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                def f(m, t, new=new): m.op = new()
                yield f"{type(n.op).__name__}->{new.__name__}", line, at(f)
        if isinstance(n, ast.BoolOp):
            new = ast.And if isinstance(n.op, ast.Or) else ast.Or
            def f(m, t, new=new): m.op = new()
            yield f"{type(n.op).__name__}->{new.__name__}", line, at(f)
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    def f(m, t, k=k):
                        del m.values[k]
                        if len(m.values) == 1: m.values.append(copy.deepcopy(m.values[0]))
                    yield f"drop operand {k}", line, at(f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            def f(m, t):
                if isinstance(m.op, ast.Not): m.operand = ast.UnaryOp(ast.Not(), m.operand)
                else: m.op = ast.UAdd()
            yield "drop unary", line, at(f)
        if isinstance(n, ast.Constant):
            v = n.value
            news = []
            if isinstance(v, bool): news = [not v]
            elif isinstance(v, int): news = [v + 1, v - 1]
            elif isinstance(v, float): news = [v * 1.1 + 0.01]
            elif isinstance(v, str) and v: news = [v + "x", ""]
            for new in news:
                def f(m, t, new=new): m.value = new
                yield f"const {v!r}->{new!r}"[:80], line, at(f)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for new in (True, False):
                if isinstance(n, ast.While) and new: continue
                def f(m, t, new=new): m.test = ast.Constant(new)
                yield f"cond->{new}", line, at(f)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Continue, ast.Break, ast.Raise, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield,)): continue
            def f(m, t):
                for p in ast.walk(t):
                    for field in ("body", "orelse", "finalbody"):
                        lst = getattr(p, field, None)
                        if isinstance(lst, list) and m in lst:
                            lst[lst.index(m)] = ast.copy_location(ast.Pass(), m)
            yield f"delete {type(n).__name__}", line, at(f)
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                def f(m, t, k=k): del m.keywords[k]
                yield f"drop keyword {n.keywords[k].arg}", line, at(f)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for field in ("lower", "upper"):
                if getattr(n.slice, field) is not None:
                    def f(m, t, field=field): setattr(m.slice, field, None)
                    yield f"drop {field}", line, at(f)


def gen(out):
    count = 0
    for name in CHECKS:
        if name in ("color_info.py",):
            continue
        path = os.path.join(REPO, "slate", name)
        src = open(path).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = {base}
        for desc, line, func in sites(tree):
            t = copy.deepcopy(tree)
            func(t)
            try:
                ast.fix_missing_locations(t)
                text = ast.unparse(t)
                compile(text, name, "exec")
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            d = os.path.join(out, str(count)); os.makedirs(d)
            json.dump({"file": name, "line": line, "desc": desc, "code": src.splitlines()[line - 1].strip() if line else ""}, open(d + "/meta.json", "w"))
            open(d + "/source.py", "w").write(text)
            count += 1
    print(count, "mutants")


def run(out, w, n):
    home = f"/tmp/mut-{w}"
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    subprocess.check_call(["cp", "-a", REPO, home + "/repo"])
    shutil.copytree("/verif/mc", home + "/verif/mc")
    shutil.copy("/verif/known_findings.txt", home + "/verif/")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ids = sorted((int(x) for x in os.listdir(out)), key=int)
    for i in ids:
        if i % n != w: continue
        d = os.path.join(out, str(i))
        if os.path.exists(d + "/result"): continue
        meta = json.load(open(d + "/meta.json"))
        target = f"{home}/repo/slate/{meta['file']}"
        orig = open(f"{REPO}/slate/{meta['file']}").read()
        open(target, "w").write(open(d + "/source.py").read())
        result = "survived"
        try:
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "tests"], cwd=home + "/repo", capture_output=True, text=True,
                               timeout=60, stdin=subprocess.DEVNULL, env={**os.environ, "PYTHONPATH": home + "/repo", "PYTHONDONTWRITEBYTECODE": "1"})
                passed = {l.split(" ", 1)[1].strip() for l in p.stdout.splitlines() if l.startswith("PASSED ")}
                if any(not any(q.endswith(s.split("::")[-1]) for q in passed) for s in stable):
                    result = "tests"
            except subprocess.TimeoutExpired:
                result = "tests"
            if result == "survived":
                for c in CHECKS[meta["file"]].split():
                    p = subprocess.run(["/opt/venv/bin/python", home + "/verif/mc/run.py", c], capture_output=True, text=True, timeout=900, stdin=subprocess.DEVNULL,
                                       env={**os.environ, "SLATE_MC_REPO": home + "/repo", "SLATE_MC_BUDGET": os.environ.get("MUT_BUDGET", "4")})
                    if p.returncode == 1:
                        result = "killed " + c + " " + " | ".join(p.stdout.splitlines()[-2:])[:300]
                        break
                    if p.returncode != 0:
                        result = f"ERROR {c} {p.returncode} {p.stderr[-300:]}"
                        break
        except subprocess.TimeoutExpired:
            result = "TIMEOUT"
        finally:
            open(target, "w").write(orig)
        open(d + "/result", "w").write(result)


if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2])
    else: run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
