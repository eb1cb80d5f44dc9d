"""Imports a package's Python code with pauses between, and inside of, its statements.

A call of PAUSE is put before every statement of every function, after every load of an
attribute, and between the load and the store of an augmented assignment to an attribute.
Nothing else about the code changes.
"""
import ast
import builtins
import importlib.machinery
import sys

NAME = "__verif_pause__"


def call(value=None):
    return ast.Call(func=ast.Name(id=NAME, ctx=ast.Load()), args=[value] if value else [], keywords=[])


class Loads(ast.NodeTransformer):
    """Expressions: pause after every attribute load."""

    def visit_Attribute(self, node):
        self.generic_visit(node)
        return call(node) if isinstance(node.ctx, ast.Load) else node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node


class Functions(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        node.body = self.body(node.body)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def body(self, stmts):
        out = []
        for k, s in enumerate(stmts):
            if k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if not isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(ast.Expr(value=call()))
            out += self.statement(s)
        return out

    def statement(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return [self.visit(s)]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name):
            t = s.target
            tmp = "verif_tmp"
            load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            return [
                ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=call(load)),
                ast.AugAssign(target=ast.Name(id=tmp, ctx=ast.Store()), op=s.op, value=Loads().visit(s.value)),
                ast.Expr(value=call()),
                ast.Assign(targets=[t], value=ast.Name(id=tmp, ctx=ast.Load())),
            ]
        for f, v in ast.iter_fields(s):
            if f in ("annotation", "cases", "type_comment"):
                continue
            if f in ("body", "orelse", "finalbody"):
                setattr(s, f, self.body(v))
            elif f == "handlers":
                for h in v:
                    h.body = self.body(h.body)
            elif f == "items":
                for w in v:
                    w.context_expr = Loads().visit(w.context_expr)
            elif isinstance(v, ast.AST):
                setattr(s, f, Loads().visit(v))
            elif isinstance(v, list):
                setattr(s, f, [Loads().visit(e) if isinstance(e, ast.AST) else e for e in v])
        return [s]


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = Functions().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec")


class Finder:
    def __init__(self, package):
        self.package = package

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(package):
    assert package not in sys.modules
    setattr(builtins, NAME, lambda value=None: value)
    sys.meta_path.insert(0, Finder(package))


def pause_with(fn):
    """fn() is called at every pause from now on."""

    def pause(value=None):
        fn()
        return value

    setattr(builtins, NAME, pause)
