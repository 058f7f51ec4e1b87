#!/opt/venv/bin/python
"""
Rewrites modules without changing what they do (development tool; no check uses it).

refactor.py DEST [module.py ...]: copies /repo (or $BIG_REPO) to DEST with, in every function,
for loops as while loops, branches of if swapped, results returned through a
variable, and bodies of plain functions moved to a helper.  The checks must stay quiet on it.
"""
import ast, os, shutil, sys

REPO = os.environ.get("BIG_REPO", "/repo")
dest, modules = sys.argv[1], sys.argv[2:]
shutil.copytree(REPO, dest, ignore=shutil.ignore_patterns("__pycache__", ".git"))
modules = modules or [m for m in os.listdir(dest + "/big") if m.endswith(".py") and m not in ("__init__.py", "all.py", "metadata.py")]
count = [0]


def fresh(stem):
    count[0] += 1
    return f"_{stem}{count[0]}"


class R(ast.NodeTransformer):
    depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.depth or node.orelse:
            return node
        it = fresh("iterator")
        a = ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [node.iter], []))
        step = ast.Try([ast.Assign([node.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []))],
                       [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
        return [a, ast.While(ast.Constant(True), [step] + node.body, [])]

    def visit_If(self, node):
        self.generic_visit(node)
        if self.depth and node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Constant, ast.Name)):
            return node
        v = fresh("value")
        return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        # (+= on a list or an attribute isn't the same)
        if isinstance(node.target, ast.Name) and isinstance(node.value, ast.Constant) and type(node.value.value) is int:
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node


def helpers(tree):
    "move the body of every undecorated method without super, nonlocal, yield or closures into a method of its own"
    for cls in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        for f in cls.body:
            if (isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and not f.args.defaults and not f.args.kwonlyargs
                    and not f.args.kwarg and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) or isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals") for x in ast.walk(f))):
                doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                body = f.body[len(doc):]
                if not body:
                    new.append(f); continue
                h = ast.FunctionDef(f"_{f.name}_helper", f.args, body, [], lineno=0)
                me = f.args.args[0].arg
                args = [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]]
                if f.args.vararg:
                    args.append(ast.Starred(ast.Name(f.args.vararg.arg, ast.Load()), ast.Load()))
                f.body = doc + [ast.Return(ast.Call(ast.Attribute(ast.Name(me, ast.Load()), h.name, ast.Load()), args, []))]
                new += [h]
            new.append(f)
        cls.body = new


for m in modules:
    path = f"{dest}/big/{m}"
    tree = ast.parse(open(path).read())
    tree = R().visit(tree)
    if os.environ.get("HELPERS", "1") == "1":
        helpers(tree)
    open(path, "w").write(ast.unparse(ast.fix_missing_locations(tree)))
