"""Load the acaciamc package from /repo with symbolic-execution hooks.

The *source text of /repo as it is now* is parsed, a purely mechanical AST
rewriting is applied (operators and builtins that CPython implements in C on
`int`/`str`/`dict` payloads are routed through `hooks`), and the result is
executed.  For arguments that are not symbolic every hook is the identity of
the operation it replaces, so the instrumented code is the real code.
"""
import ast
import builtins
import importlib.machinery
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")

STR_METHODS = {
    "get", "setdefault", "pop", "index", "count", "remove", "startswith",
    "endswith", "lower", "upper", "casefold", "strip", "lstrip", "rstrip",
    "isdecimal", "isdigit", "isalpha", "isalnum", "isspace", "isidentifier",
    "isnumeric", "isascii", "isupper", "islower", "isprintable",
    "split", "rsplit", "replace", "find", "rfind", "partition", "rpartition",
    "translate", "bit_length", "splitlines", "swapcase", "title",
    "capitalize", "encode", "insert", "repeat", "islice",
}
BUILTIN_CALLS = {"int", "chr", "ord", "range", "float", "abs", "divmod",
                 "round", "hex", "bin", "oct", "bool", "pow", "isinstance",
                 "slice", "repeat", "islice", "map"}


class Rewriter(ast.NodeTransformer):
    """Route operations through the hooks object `_vp_hooks_`."""

    def _h(self, name, *args):
        return ast.Call(
            func=ast.Attribute(ast.Name("_vp_hooks_", ast.Load()), name, ast.Load()),
            args=list(args), keywords=[])

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.body = [self.visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    OPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
           ast.Gt: "gt", ast.GtE: "ge", ast.In: "in_", ast.NotIn: "notin",
           ast.Is: "is_", ast.IsNot: "isnot"}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = type(node.ops[0])
            if op in (ast.Is, ast.IsNot):
                return node
            return self._h(self.OPS[op], node.left, node.comparators[0])
        # a < b < c  ->  _vp_hooks_.chain(a, (op, lambda: b), (op, lambda: c))
        parts = []
        for op, c in zip(node.ops, node.comparators):
            lam = ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]), body=c)
            parts.append(ast.Tuple([ast.Constant(self.OPS[type(op)]), lam],
                                   ast.Load()))
        return self._h("chain", node.left, *parts)

    def visit_Slice(self, node):
        self.generic_visit(node)
        for f in ("lower", "upper", "step"):
            v = getattr(node, f)
            if v is not None and not isinstance(v, ast.Constant):
                setattr(node, f, self._h("idx", v))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and \
                not isinstance(node.slice, ast.Slice):
            return self._h("getitem", node.value, node.slice)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # keep Python's order: value first
            return ast.Expr(self._h("setitem", node.value, t.value, t.slice))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(self._h("delitem", t.value, t.slice))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult):
            return self._h("mul", node.left, node.right)
        if isinstance(node.op, ast.Mod):
            return self._h("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        # f-strings: keep, payload formatting works (see sym.SymInt)
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name)\
                and node.value.id == "int":
            return self._h("intattr", ast.Constant(node.attr))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            return ast.Call(
                func=ast.Attribute(ast.Name("_vp_hooks_", ast.Load()), "callm",
                                   ast.Load()),
                args=[f.value, ast.Constant(f.attr)] + node.args,
                keywords=node.keywords)
        if isinstance(f, ast.Name) and f.id in BUILTIN_CALLS:
            return ast.Call(
                func=ast.Attribute(ast.Name("_vp_hooks_", ast.Load()), "callb",
                                   ast.Load()),
                args=[ast.Name(f.id, ast.Load())] + node.args,
                keywords=node.keywords)
        if isinstance(f, ast.Name) and f.id[:1].isupper() and \
                len(node.args) == 1 and not node.keywords and \
                not isinstance(node.args[0], ast.Starred):
            return self._h("call1", f, node.args[0])
        return node


_cache = {}


def compile_instrumented(data, path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        tree = ast.parse(data, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        _cache[key] = compile(tree, path, "exec", dont_inherit=True)
    return _cache[key]


def install(hooks, root=None):
    """Make every module below <root>/acaciamc load instrumented."""
    root = os.path.realpath(root or REPO)
    pkg = os.path.join(root, "acaciamc") + os.sep
    builtins.__dict__["_vp_hooks_"] = hooks
    sys.dont_write_bytecode = True
    Loader = importlib.machinery.SourceFileLoader
    orig_get_code = Loader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if os.path.realpath(path).startswith(pkg):
            with open(path, "rb") as f:
                data = f.read()
            LOADED.add(os.path.relpath(os.path.realpath(path), root))
            return compile_instrumented(data, path)
        return orig_get_code(self, fullname)

    Loader.get_code = get_code
    if root not in sys.path:
        sys.path.insert(0, root)


LOADED = set()
