"""Behaviour preserving rewrites of the code, to see the checks stay quiet.

refactor.py OUT [KIND...]: copy of the package with the rewrites.
"""
import ast
import os
import shutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class Invert(ast.NodeTransformer):
    """Exchange the branches of conditions."""
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            node.test = ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = ast.UnaryOp(ast.Not(), node.test)
        node.body, node.orelse = node.orelse, node.body
        return node


class Loops(ast.NodeTransformer):
    """Loops with explicit iterators."""
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        Loops.n += 1
        it = f"iterator{Loops.n}"
        head = ast.parse(f"{it} = iter(0)").body[0]
        head.value.args[0] = node.iter
        loop = ast.parse(
            f"while True:\n    try:\n        x = next({it})\n"
            "    except StopIteration:\n        break").body[0]
        loop.body[0].body[0].targets[0] = node.target
        loop.body += node.body
        return [head, loop]


class Strings(ast.NodeTransformer):
    """f-strings as calls of format."""
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        text, args = "", []
        for v in node.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None or v.conversion != -1:
                    return node
                text += "{}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), "format",
                                      ast.Load()), args, [])


class Logic(ast.NodeTransformer):
    """De Morgan and reversed comparisons."""
    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp):
            other = ast.Or() if isinstance(node.test.op, ast.And) \
                else ast.And()
            node.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                other, [ast.UnaryOp(ast.Not(), v)
                        for v in node.test.values]))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.Gt)) \
                and isinstance(node.comparators[0], ast.Constant):
            op = ast.Eq() if isinstance(node.ops[0], ast.Eq) else ast.Lt()
            return ast.Compare(node.comparators[0], [op], [node.left])
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                node.left, [ast.In()], node.comparators))
        return node


class Lists(ast.NodeTransformer):
    """Comprehensions as generators."""
    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("list", ast.Load()),
                        [ast.GeneratorExp(node.elt, node.generators)], [])


class Helpers(ast.NodeTransformer):
    """The body of functions in functions of their own."""
    def visit_FunctionDef(self, node):
        body = node.body
        doc = []
        if isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        text = ast.unparse(node)
        if not body or "super(" in text or "nonlocal" in text or \
                "yield" in text:
            return node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg or a.kwarg:
            return node
        inner = ast.FunctionDef(
            name="perform", args=ast.arguments(
                posonlyargs=[], args=[ast.arg(n) for n in names],
                kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], type_params=[])
        call = ast.Return(ast.Call(ast.Name("perform", ast.Load()),
                                   [ast.Name(n, ast.Load())
                                    for n in names], []))
        node.body = doc + [inner, call]
        return node


class Names(ast.NodeTransformer):
    """Other names of local variables."""
    def visit_FunctionDef(self, node):
        stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        args = {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)}
        glob = {n for x in ast.walk(node)
                if isinstance(x, (ast.Global, ast.Nonlocal))
                for n in x.names}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in stored - args - glob:
                n.id += "_local"
        return node


class Early(ast.NodeTransformer):
    """Statements without effect, temporary names for returned values."""
    def visit_Return(self, node):
        if node.value is None:
            return node
        a = ast.parse("outcome = 0").body[0]
        a.value = node.value
        return [ast.Pass(), a, ast.parse("def f():\n return outcome"
                                         ).body[0].body[0]]


KINDS = {k.__name__: k for k in (Invert, Logic, Loops, Strings, Lists, Early,
                                 Names, Helpers)}


def main(out, kinds):
    shutil.copytree(os.path.join(REPO, "sofar"), os.path.join(out, "sofar"),
                    symlinks=True)
    for name in sorted(os.listdir(os.path.join(out, "sofar"))):
        if not name.endswith(".py") or name == "__init__.py":
            continue
        path = os.path.join(out, "sofar", name)
        with open(path) as f:
            tree = ast.parse(f.read())
        for kind in kinds or KINDS:
            tree = ast.fix_missing_locations(KINDS[kind]().visit(tree))
        with open(path, "w") as f:
            f.write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
