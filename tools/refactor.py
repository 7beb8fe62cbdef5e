"""refactor.py DIR SEED: rewrites the package in DIR/src/diffpy/srmise without changing what it does.

Used on scratch copies of /repo to see that the checks judge behaviour, not its form:
bodies are moved into helpers, local variables renamed, branches exchanged, loops written with
iterators, conditions nested, values named before they are returned or assigned; comments vanish and lines move."""
import ast
import os
import random
import sys

rng = None


def uses(fn, *names):
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in names:
            return True
    return False


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fn))


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Import,
                              ast.ImportFrom, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn)


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n


class Body(ast.NodeTransformer):
    """Statements of one function."""

    def __init__(self):
        self.n = 0

    def temp(self):
        self.n += 1
        return "tmp%d_" % self.n

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and rng.random() < 0.5:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        elif not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and rng.random() < 0.7:
            inner = n.body
            for v in reversed(n.test.values):
                inner = [ast.If(v, inner, [])]
            return inner[0]
        return n

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and rng.random() < 0.5:
            t = self.temp()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, (ast.Call, ast.BinOp)) and rng.random() < 0.25:
            t = self.temp()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if not n.orelse and rng.random() < 0.4:
            t = self.temp()
            step = ast.Try(
                body=[ast.Assign([n.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(t, ast.Load())], []))],
                handlers=[ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], orelse=[], finalbody=[])
            return [ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [n.iter], [])),
                    ast.While(ast.Constant(True), [step] + n.body, [])]
        return n


def split(fn, owner):
    """The function delegates to another with its body, or None."""
    a = fn.args
    if fn.decorator_list or is_gen(fn) or uses(fn, "locals", "eval", "exec", "__class__") or fn.name in ("__reduce__", "__getattr__"):
        return None
    method = owner is not None
    if method and (not a.args or a.args[0].arg not in ("self",)):
        return None
    name = "_%s%s_body" % (owner + "_" if owner else "", fn.name.replace("_", "u"))
    args = [x.arg for x in a.posonlyargs + a.args]
    doc = fn.body[:1] if ast.get_docstring(fn) is not None else []
    rest = fn.body[len(doc):]
    if not rest:
        return None
    new = ast.FunctionDef(name, ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in args], vararg=a.vararg, kwonlyargs=a.kwonlyargs,
                                              kw_defaults=[None] * len(a.kwonlyargs), kwarg=a.kwarg, defaults=[]), rest, [])
    callee = ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()) if method else ast.Name(name, ast.Load())
    call = ast.Call(callee, [ast.Name(x, ast.Load()) for x in args[1 if method else 0:]], [])
    if a.vararg:
        call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
    for k in a.kwonlyargs:
        call.keywords.append(ast.keyword(k.arg, ast.Name(k.arg, ast.Load())))
    if a.kwarg:
        call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    fn.body = doc + [ast.Return(call)]
    return new


def function(fn):
    if not uses(fn, "locals", "eval", "exec") and not nested(fn) and rng.random() < 0.7:
        args = {x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        args |= {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x}
        stores = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        Rename({n: n + "_v" for n in stores}).visit(fn)
    if not uses(fn, "locals"):
        b = Body()
        fn.body = [x for s in fn.body for x in (lambda r: r if isinstance(r, list) else [r])(b.visit(s))]


def module(tree):
    def walk(body, owner):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = walk(s.body, s.name)
            elif isinstance(s, ast.FunctionDef):
                function(s)
                if rng.random() < 0.5:
                    new = split(s, owner)
                    if new is not None:
                        out.append(new)
            out.append(s)
        return out

    tree.body = walk(tree.body, None)
    return ast.fix_missing_locations(tree)


def main():
    global rng
    root, seed = sys.argv[1], int(sys.argv[2])
    for d, _, fs in sorted(os.walk(os.path.join(root, "src", "diffpy", "srmise"))):
        for f in sorted(fs):
            if f.endswith(".py") and f not in ("__init__.py", "version.py"):
                rng = random.Random("%d %s" % (seed, f))
                p = os.path.join(d, f)
                with open(p) as h:
                    tree = ast.parse(h.read())
                with open(p, "w") as h:
                    h.write(ast.unparse(module(tree)) + "\n")


if __name__ == "__main__":
    main()
