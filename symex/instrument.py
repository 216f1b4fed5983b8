"""Loads the package under test from its current source with every operation
that may meet a symbolic value routed through hooks.  Nothing is cached."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import hooks

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "hyperstate"

NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "breakpoint"}

ENCODED = {}  # module -> set of function names encoded


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.functions = []
        self.stack = []

    def name(self, n, at):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), at)

    def mk(self, fn, args, at):
        return ast.copy_location(
            ast.Call(func=self.name(fn, at), args=args, keywords=[]), at
        )

    def _func(self, node):
        self.stack.append(node.name)
        self.functions.append(".".join(self.stack))
        self.generic_visit(node)
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func
    visit_ClassDef = lambda self, node: self._cls(node)

    def _cls(self, node):
        self.stack.append(node.name)
        # decorators, bases and annotations stay as they are
        node.body = [self.visit(b) for b in node.body]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=self.name("__hs_call__", node),
                args=[node.func] + node.args,
                keywords=node.keywords,
            ),
            node,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if len(node.ops) == 1 and isinstance(node.ops[0], special):
            fn = {
                ast.In: "__hs_in__",
                ast.NotIn: "__hs_notin__",
                ast.Is: "__hs_is__",
                ast.IsNot: "__hs_isnot__",
            }[type(node.ops[0])]
            return self.mk(fn, [node.left, node.comparators[0]], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Index):  # python < 3.9 trees
                sl = sl.value
            if isinstance(sl, (ast.Tuple,)) and any(
                isinstance(e, ast.Slice) for e in sl.elts
            ):
                return node
            if isinstance(sl, ast.Slice):
                none = lambda: ast.copy_location(ast.Constant(value=None), node)
                sl = ast.copy_location(
                    ast.Call(
                        func=self.name("__hs_slice__", node),
                        args=[sl.lower or none(), sl.upper or none(), sl.step or none()],
                        keywords=[],
                    ),
                    node,
                )
            return self.mk("__hs_getitem__", [node.value, sl], node)
        sl = node.slice
        if isinstance(sl, ast.Index):
            sl = sl.value
        if isinstance(sl, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            node.slice = self.mk("__hs_key__", [sl], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = (
                    self.visit(v.format_spec)
                    if v.format_spec is not None
                    else ast.copy_location(ast.Constant(value=""), node)
                )
                parts.append(
                    ast.copy_location(
                        ast.Tuple(
                            elts=[
                                val,
                                ast.copy_location(
                                    ast.Constant(value=v.conversion), node
                                ),
                                spec,
                            ],
                            ctx=ast.Load(),
                        ),
                        node,
                    )
                )
            else:
                parts.append(v)
        return self.mk("__hs_fstring__", parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.mk("__hs_mod__", [node.left, node.right], node)
        return node


INJECT = {
    "__hs_call__": hooks.call,
    "__hs_in__": hooks.contains_hook,
    "__hs_notin__": hooks.not_contains,
    "__hs_is__": hooks.is_hook,
    "__hs_isnot__": hooks.is_not_hook,
    "__hs_getitem__": hooks.getitem,
    "__hs_fstring__": hooks.fstring,
    "__hs_key__": hooks.store_key,
    "__hs_mod__": hooks.binmod,
    "__hs_slice__": slice,
}


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            source = f.read()
        if INSTRUMENT:
            tree = ast.parse(source, self.path)
            rw = Rewriter()
            tree = ast.fix_missing_locations(rw.visit(tree))
            ENCODED[self.name] = rw.functions
            module.__dict__.update(INJECT)
            code = compile(tree, self.path, "exec", dont_inherit=True)
        else:
            code = compile(source, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding="utf-8") as f:
            return f.read()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + "."):
            return None
        rel = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            spec = importlib.util.spec_from_loader(
                fullname, Loader(fullname, p, True), origin=p, is_package=True
            )
            spec.submodule_search_locations = [rel]
            spec.has_location = True
            return spec
        p = rel + ".py"
        if os.path.isfile(p):
            spec = importlib.util.spec_from_loader(
                fullname, Loader(fullname, p, False), origin=p
            )
            spec.has_location = True
            return spec
        return None


INSTRUMENT = False


def install():
    global INSTRUMENT
    from . import stubs

    INSTRUMENT = True

    stubs.install()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())


def install_concrete():
    "The untouched source, compiled afresh (never from cached bytecode)."
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
