#!/opt/venv/bin/python
"""
Mutation testing of the checks (development tool; no check uses it).

mutate.py <module.py> <property>[,<property>...] [--tests test_x.py[,..]] [--only func,func] [--jobs N] [--max N]

Makes every small mutant of big/<module.py>, keeps those the repository's tests
pass, and lists those that the given checks (quick tier) do not report.
Works on scratch copies in /tmp/mut.*, removed at the end.
"""
import ast, copy, os, shutil, subprocess, sys, tempfile, argparse, json
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add, ast.BitOr: ast.BitAnd}


_pairs = ("min max", "startswith endswith", "lstrip rstrip", "find rfind", "isupper islower", "left right", "leading trailing", "any all", "isinstance issubclass", "difference_update discard", "union intersection", "start end", "match search")
NAMES = {}
for _p in _pairs:
    _a, _b = _p.split()
    NAMES[_a], NAMES[_b] = _b, _a
NAMES.update(upper="lower", lower="upper", append="insert", strip="lstrip", popleft="pop", sort="reverse", linebreaks="whitespace", str_linebreaks="str_linebreaks_without_crlf", bytes_linebreaks="bytes_linebreaks_without_crlf", whitespace="str_whitespace_without_crlf", bytes_whitespace="bytes_whitespace_without_crlf")


def mutants(tree, only):
    """Yields (description, mutated tree)."""
    class V(ast.NodeVisitor):
        def __init__(self):
            self.stack = []
            self.out = []
        def generic_visit(self, node):
            named = isinstance(node, (ast.FunctionDef, ast.ClassDef))
            if named: self.stack.append(node.name)
            if self.stack and (not only or any(s in only for s in self.stack)):
                self.out.append((node, ".".join(self.stack)))
            for c in ast.iter_child_nodes(node):
                self.visit(c)
            if named: self.stack.pop()
        visit = generic_visit
    v = V(); v.visit(tree)
    nodes = list(ast.walk(tree))
    index = {id(n): i for i, n in enumerate(nodes)}

    def edit(node, fn):
        t = copy.deepcopy(tree)
        fn(list(ast.walk(t))[index[id(node)]])
        return ast.fix_missing_locations(t)

    def swap_stmt(node, field, i, new):
        def fn(n):
            body = getattr(n, field)
            body[i] = new(body[i])
        return edit(node, fn)

    for node, where in v.out:
        line = getattr(node, "lineno", 0)
        tag = f"{where}:{line}"
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), []):
                yield f"{tag} cmp->{new.__name__}: {ast.unparse(node)}", edit(node, lambda n: n.ops.__setitem__(0, new()))
        elif isinstance(node, ast.BoolOp):
            new = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield f"{tag} boolop: {ast.unparse(node)}", edit(node, lambda n: setattr(n, "op", new()))
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    def drop(n, i=i):
                        del n.values[i]
                        if len(n.values) == 1:
                            n.values.append(copy.deepcopy(n.values[0]))
                    yield f"{tag} drop operand {i}: {ast.unparse(node)}", edit(node, drop)
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            new = BIN[type(node.op)]
            yield f"{tag} binop->{new.__name__}: {ast.unparse(node)}", edit(node, lambda n: setattr(n, "op", new()))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            def unnot(n):
                n.op = ast.Not(); n.operand = ast.UnaryOp(op=ast.Not(), operand=n.operand)
            yield f"{tag} drop not: {ast.unparse(node)}", edit(node, unnot)
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            yield f"{tag} const {node.value}+1", edit(node, lambda n: setattr(n, "value", n.value + 1))
            if node.value > 0:
                yield f"{tag} const {node.value}-1", edit(node, lambda n: setattr(n, "value", n.value - 1))
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            yield f"{tag} const {node.value} flipped", edit(node, lambda n: setattr(n, "value", not n.value))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield f"{tag} negate test: {ast.unparse(node.test)}", edit(node, lambda n: setattr(n, "test", ast.UnaryOp(op=ast.Not(), operand=n.test)))
            if isinstance(node, ast.If):
                yield f"{tag} if True: {ast.unparse(node.test)}", edit(node, lambda n: setattr(n, "test", ast.Constant(True)))
                yield f"{tag} if False: {ast.unparse(node.test)}", edit(node, lambda n: setattr(n, "test", ast.Constant(False)))
        elif isinstance(node, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(node, f) is not None:
                    yield f"{tag} slice {f} dropped: {ast.unparse(node)}", edit(node, lambda n: setattr(n, f, None))
        elif isinstance(node, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and 2 <= len(node.elts) <= 12:
            for i in range(len(node.elts)):
                yield f"{tag} drop element {i}: {ast.unparse(node)[:70]}", edit(node, lambda n, i=i: n.elts.pop(i))
        elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(node.ctx, ast.Load):
            yield f"{tag} name {node.id}->{NAMES[node.id]}", edit(node, lambda n: setattr(n, "id", NAMES[n.id]))
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            yield f"{tag} attribute {ast.unparse(node)[:50]}->{NAMES[node.attr]}", edit(node, lambda n: setattr(n, "attr", NAMES[n.attr]))
        elif isinstance(node, ast.Call) and node.keywords:
            for i in range(len(node.keywords)):
                yield f"{tag} drop keyword {node.keywords[i].arg}: {ast.unparse(node)[:70]}", edit(node, lambda n, i=i: n.keywords.pop(i))
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            yield f"{tag} except Exception: {ast.unparse(node.type)}", edit(node, lambda n: setattr(n, "type", ast.Name("Exception", ast.Load())))
        elif isinstance(node, ast.comprehension) and node.ifs:
            yield f"{tag} drop filter: {ast.unparse(node)}", edit(node, lambda n: n.ifs.clear())
        for field in ("body", "orelse", "finalbody"):
            body = getattr(node, field, None)
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Break, ast.Continue, ast.Return, ast.Raise, ast.Nonlocal)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.Nonlocal):
                        continue
                    yield f"{where}:{s.lineno} delete: {ast.unparse(s)[:70]}", swap_stmt(node, field, i, lambda b: ast.Pass())
                if isinstance(s, ast.Break):
                    yield f"{where}:{s.lineno} break->continue", swap_stmt(node, field, i, lambda b: ast.Continue())
                if isinstance(s, ast.Continue):
                    yield f"{where}:{s.lineno} continue->break", swap_stmt(node, field, i, lambda b: ast.Break())
                if i + 1 < len(body) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(body[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    def sw(n, field=field, i=i):
                        b = getattr(n, field)
                        b[i], b[i + 1] = b[i + 1], b[i]
                    yield f"{where}:{s.lineno} swap with next: {ast.unparse(s)[:50]}", edit(node, sw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module"); ap.add_argument("props")
    ap.add_argument("--tests"); ap.add_argument("--only"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--skip", type=int, default=0)
    a = ap.parse_args()
    src = open(f"/repo/big/{a.module}").read()
    tree = ast.parse(src)
    stem = a.module[:-3]
    tests = (a.tests or f"test_{stem}.py").split(",")
    root = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    muts = list(mutants(tree, set(a.only.split(",")) if a.only else None))
    # the same source can arise twice
    seen, todo = set(), []
    for d, t in muts:
        s = ast.unparse(t)
        if s not in seen:
            seen.add(s); todo.append((d, s))
    todo = todo[a.skip:]
    if a.max: todo = todo[:a.max]
    print(f"{len(todo)} mutants", flush=True)
    slots = []
    for i in range(a.jobs):
        d = f"{root}/{i}"
        os.makedirs(d)
        for sub in ("big", "tests"):
            shutil.copytree(f"/repo/{sub}", f"{d}/{sub}", ignore=shutil.ignore_patterns("__pycache__"))
        rp = open("/opt/vp/run_pytest.py").read().replace('"/repo/tests/', f'"{d}/tests/')
        open(f"{d}/run_pytest.py", "w").write(rp)
        slots.append(d)
    env = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MC_JOBS="2")
    res = {"killed by tests": 0, "caught": 0, "missed": [], "broken": []}

    def one(item):
        desc, source = item
        d = slots.pop()
        try:
            open(f"{d}/big/{a.module}", "w").write(source)
            try:
                r = subprocess.run([PY, f"{d}/run_pytest.py", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20"] + [f"tests/{t}" for t in tests],
                                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
                if r.returncode:
                    res["killed by tests"] += 1
                    return
            except subprocess.TimeoutExpired:
                res["killed by tests"] += 1
                return
            for p in a.props.split(","):
                e = dict(env, BIG_REPO=d, MC_OUT=d)
                try:
                    r = subprocess.run([PY, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/check.py", p], cwd="/tmp", env=e, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res["broken"].append(desc + " TIMEOUT"); return
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res["caught"] += 1
                    return
                if r.returncode != 0:
                    res["broken"].append(desc + f" rc={r.returncode} " + r.stderr[-300:]); return
            res["missed"].append(desc)
            print("MISSED", desc, flush=True)
        finally:
            slots.append(d)

    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(root)
    print(f"killed by tests {res['killed by tests']}, caught {res['caught']}, missed {len(res['missed'])}, broken {len(res['broken'])}")
    for b in res["broken"]:
        print("BROKEN", b)

main()
