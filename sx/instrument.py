"""Rewrites Python source so that calls, subscripts, %, in, f-strings, dict displays and loops go through rt, and an import
hook that applies it to the packages of /repo and to the harness modules. The rewritten code runs natively in CPython;
only operations that meet a symbolic value take another route."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

RAW_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, file):
        self.file = file

    # annotations are left alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target) if isinstance(node.target, ast.Name) else node.target
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _function(self, node):
        ret = node.returns
        node.returns = None
        self.generic_visit(node)
        node.returns = ret
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            i = 1
        node.body.insert(i, self._tick(node, node.name))
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def _tick(self, node, fn=None):
        ln = node.lineno
        if fn is None:
            s = ast.Expr(value=_call("__sx_tick__"))
        else:
            s = ast.Expr(value=_call("__sx_enter__", ast.Constant(value="%s:%d:%s" % (self.file, ln, fn))))
        ast.copy_location(s, node)
        ast.fix_missing_locations(s)
        for x in ast.walk(s):
            x.lineno = x.end_lineno = ln
        return s

    def _loop(self, node):
        self.generic_visit(node)
        if isinstance(node, ast.While):
            node.test = self._truth(node.test)
        node.body.insert(0, self._tick(node))
        return node

    visit_For = _loop
    visit_AsyncFor = _loop
    visit_While = _loop

    def _truth(self, test):
        if isinstance(test, (ast.Name, ast.Call, ast.Attribute, ast.Subscript, ast.BoolOp, ast.Await)):
            if isinstance(test, ast.BoolOp):
                test.values = [self._truth(v) for v in test.values]
                return test
            return ast.copy_location(_call("__sx_truth__", test), test)
        return test

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self._truth(node.test)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = self._truth(node.test)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            node.operand = self._truth(node.operand)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS:
            if node.func.id == "super":
                return node
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        new = ast.Call(func=_name("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__sx_mod__", node.left, node.right), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return ast.copy_location(_call("__sx_in__", node.left, node.comparators[0]), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(_call("__sx_notin__", node.left, node.comparators[0]), node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) \
                    and isinstance(node.comparators[0].value, bool):
                fn = "__sx_is__" if isinstance(op, ast.Is) else "__sx_isnot__"
                return ast.copy_location(_call(fn, node.left, node.comparators[0]), node)
        return node

    def _index(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_name("__sx_slice__"), args=[sl.lower or none, sl.upper or none, sl.step or none],
                            keywords=[])
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
                return node
            return ast.copy_location(_call("__sx_getitem__", node.value, self._index(node.slice)), node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            base = self.visit(t.value)
            idx = self._index(self._visit_slice(t.slice))
            # Python evaluates the value first, then base and index
            new = ast.Expr(value=_call("__sx_setitem__", val, base, idx))
            return ast.copy_location(new, node)
        return self.generic_visit(node)

    def _visit_slice(self, sl):
        return self.visit(sl)

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            new = ast.Expr(value=_call("__sx_augitem__", self.visit(t.value), self._index(self._visit_slice(t.slice)),
                                       ast.Constant(value=type(node.op).__name__), self.visit(node.value)))
            return ast.copy_location(new, node)
        node.value = self.visit(node.value)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                s = ast.Expr(value=_call("__sx_delitem__", self.visit(t.value), self._index(self._visit_slice(t.slice))))
            else:
                s = ast.Delete(targets=[t])
            out.append(ast.copy_location(s, node))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        new = _call("__sx_fstr__", *parts)
        return ast.copy_location(new, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_call("__sx_dict__", ast.List(elts=elts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if any(g.is_async for g in node.generators):
            return node
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_call("__sx_dict__", gen), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        broad = t is None
        if t is not None:
            names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
            broad = "BaseException" in names
        if broad:
            s = ast.copy_location(ast.Expr(value=_call("__sx_pending__")), node.body[0])
            node.body.insert(0, s)
        return node

    def visit_With(self, node):
        self.generic_visit(node)
        return node

    def visit_Match(self, node):
        # match statements on symbolic values use == and isinstance, which work natively
        return self.generic_visit(node)


def short(filename):
    from . import common
    for base in (common.REPO, common.VERIF):
        if filename.startswith(base + "/"):
            return filename[len(base) + 1:]
    return filename


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter(short(filename)).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    cache = {}

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self.cache.get(self.path)
        if code is None:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
            code = self.cache[self.path] = transform(src, self.path)
        exec(code, module.__dict__)


class PlainLoader(Loader):
    """Unmodified source, compiled once per process (no bytecode cache is written or read)."""
    cache = {}

    def exec_module(self, module):
        code = self.cache.get(self.path)
        if code is None:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
            code = self.cache[self.path] = compile(src, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, loader):
        self.roots = roots      # top-level package name -> directory that contains it
        self.loader = loader

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        base = self.roots.get(top)
        if base is None:
            return None
        p = os.path.join(base, *name.split("."))
        init = os.path.join(p, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, self.loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [p]
            spec.has_location = True
            return spec
        f = p + ".py"
        if os.path.isfile(f):
            spec = importlib.machinery.ModuleSpec(name, self.loader(f), origin=f)
            spec.has_location = True
            return spec
        return None


FINDERS = []


def install(roots, symbolic):
    f = Finder(roots, Loader if symbolic else PlainLoader)
    sys.meta_path.insert(0, f)
    FINDERS.append(f)
    if symbolic:
        from . import rt
        for k, v in rt.EXPORTS.items():
            setattr(builtins, k, v)
    return f


def purge(tops):
    """Forget loaded modules of these packages, so that the next import runs them afresh."""
    for n in list(sys.modules):
        if n.split(".")[0] in tops:
            del sys.modules[n]
