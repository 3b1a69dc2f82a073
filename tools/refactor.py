r"""Rewrites of the whole of celest which change nothing a user sees.

  refactor.py COPY KIND [KIND...]     rewrite COPY/celest in place (never /repo)

The checks have to stay quiet on them: VERIF_REPO=COPY ./check Cnn quick
Kinds: extract, rename, loops, ifelse, returns, assoc, commute, divide, positional.
"""
import ast
import os
import sys

SKIP = {"staticmethod", "classmethod", "overload", "abstractmethod", "setter"}


def arguments(f, method):
    a = f.args
    out = [ast.Name(x.arg, ast.Load()) for x in (a.posonlyargs + a.args)[1 if method else 0:]]
    if a.vararg:
        out.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
    kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
    if a.kwarg:
        kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    return out, kw


def name_of(d):
    return d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")


class Extract(ast.NodeTransformer):
    """Each body in a helper of its own."""

    def visit_ClassDef(self, c):
        body = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not any(
                    name_of(d) in SKIP for d in f.decorator_list):
                body += self.split(f, True, c.name)
            else:
                body.append(f)
        c.body = body
        return c

    def visit_Module(self, m):
        body = []
        for f in m.body:
            if isinstance(f, ast.ClassDef):
                self.visit_ClassDef(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list:
                body += self.split(f, False)
            else:
                body.append(f)
        m.body = body
        return m

    def split(self, f, method, owner=""):
        doc = f.body[:1] if ast.get_docstring(f) else []
        inner = "_x_%s%s_body" % (owner, f.name.strip("_"))
        pos, kw = arguments(f, method)
        fn = ast.Attribute(ast.Name("self", ast.Load()), inner, ast.Load()) if method else \
            ast.Name(inner, ast.Load())
        helper = ast.FunctionDef(inner, f.args, f.body[len(doc):] or [ast.Pass()], [])
        if method and f.name == "__init__":
            call = ast.Expr(ast.Call(fn, pos, kw))
        else:
            call = ast.Return(ast.Call(fn, pos, kw))
        outer = ast.FunctionDef(f.name, f.args, doc + [call], f.decorator_list, f.returns)
        return [helper, outer]


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        inner = [n for n in ast.walk(f) if n is not f]
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal))
               for n in inner):
            return f
        args = {x.arg for n in ast.walk(f) if isinstance(n, ast.arguments)
                for x in n.args + n.kwonlyargs + n.posonlyargs + [n.vararg, n.kwarg] if x}
        mine = {n.id for n in inner if isinstance(n, ast.Name) and
                isinstance(n.ctx, ast.Store)} - args
        for n in inner:
            if isinstance(n, ast.Name) and n.id in mine:
                n.id += "_value"
            if isinstance(n, ast.ExceptHandler) and n.name in mine:
                n.name += "_value"
        return f


class Loops(ast.NodeTransformer):
    count = 0

    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse:
            return f
        Loops.count += 1
        it = "_items_%d" % Loops.count
        step = ast.Try([ast.Assign([f.target], ast.Call(ast.Name("next", ast.Load()),
                                                        [ast.Name(it, ast.Load())], []))],
                       [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None,
                                          [ast.Break()])], [], [])
        return [ast.Assign([ast.Name(it, ast.Store())],
                           ast.Call(ast.Name("iter", ast.Load()), [f.iter], [])),
                ast.While(ast.Constant(True), [step] + f.body, [])]


class IfElse(ast.NodeTransformer):
    def visit_If(self, f):
        self.generic_visit(f)
        if f.orelse:
            f.test, f.body, f.orelse = ast.UnaryOp(ast.Not(), f.test), f.orelse, f.body
        return f


class Returns(ast.NodeTransformer):
    def visit_Return(self, r):
        if r.value is None:
            return r
        return [ast.Assign([ast.Name("_outcome", ast.Store())], r.value),
                ast.Return(ast.Name("_outcome", ast.Load()))]


class Assoc(ast.NodeTransformer):
    """(a*b)*c as a*(b*c), and sums likewise."""

    def visit_BinOp(self, b):
        self.generic_visit(b)
        for op in (ast.Mult, ast.Add):
            if isinstance(b.op, op) and isinstance(b.left, ast.BinOp) and \
                    isinstance(b.left.op, op):
                return ast.BinOp(b.left.left, b.op, ast.BinOp(b.left.right, b.op, b.right))
        return b


class Commute(ast.NodeTransformer):
    def visit_BinOp(self, b):
        self.generic_visit(b)
        if isinstance(b.op, ast.Mult):
            b.left, b.right = b.right, b.left
        return b


class Divide(ast.NodeTransformer):
    """x / 3600 as x * (1 / 3600)."""

    def visit_BinOp(self, b):
        self.generic_visit(b)
        if isinstance(b.op, ast.Div) and isinstance(b.right, ast.Constant):
            return ast.BinOp(b.left, ast.Mult(), ast.BinOp(ast.Constant(1), ast.Div(), b.right))
        return b


KINDS = {"extract": Extract, "rename": Rename, "loops": Loops, "ifelse": IfElse,
         "returns": Returns, "assoc": Assoc, "commute": Commute, "divide": Divide}


def main(copy, kinds):
    assert os.path.realpath(copy) != "/repo"
    for d, _, fs in os.walk(os.path.join(copy, "celest")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            tree = ast.parse(open(path).read())
            for k in kinds:
                if k in ("assoc", "commute") and "/units" in d:
                    continue              # units print in the order they are multiplied in
                tree = KINDS[k]().visit(tree)
            open(path, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
