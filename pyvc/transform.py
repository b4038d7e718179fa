"""Mechanical extraction of the code under contract.

`install(repo)` puts an importer in front of sys.meta_path that loads every
`fora` module from `<repo>/src/fora` (current working tree, read on every run)
after the rewriting below.  The rewriting is semantics preserving on ordinary
values: each rewritten operation calls a function of `pyvc.rt` which falls back
to the very same Python operation when no symbolic value is involved.

    a is b, a is not b, a in b, a not in b   -> rt.is_/is_not/in_/not_in
    f(x), o.m(x)                             -> rt.call(f, x), rt.callm(o, 'm', x)
    f"..."                                   -> rt.fstr(...)
    a[k] (load), a[k] = v                    -> rt.getitem, rt.setitem
    not a                                    -> rt.not_
    {k: v for x in it}, [a, b]               -> rt.comp_dict(...), rt.mklist([a, b])
    for x in it                              -> for x in rt.iter_(it), plus loop
                                                cut points where a loop contract
                                                is registered (see rt.loop_*)
    while c                                  -> loop cut points, same
    comprehension iterables                  -> rt.iter_(it)
    except: / except BaseException           -> preceded by `except rt.Abort: raise`

Not rewritten (native on every value): attribute access, arithmetic and
comparison operators (they dispatch to the symbolic classes by themselves),
boolean connectives and `if` tests (they call __bool__), annotations,
decorator applications, `super()`, `locals()`.
Nothing is dropped.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

RT = "_pyvc_rt_"
_KEEP_CALLS = {"super", "locals", "globals", "vars_native_", "TypeVar", "NewType"}


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(fn):
    return ast.Attribute(value=_name(RT), attr=fn, ctx=ast.Load())


class _AssignedNames(ast.NodeVisitor):
    """Local names bound in a statement list (not descending into nested scopes)."""

    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def _assigned(stmts):
    v = _AssignedNames()
    for s in stmts:
        v.visit(s)
    return v.names


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []          # qualified name stack
        self.loop_counters = [0]
        self.tmp = 0
        self.func_locals = []    # set of declared global/nonlocal names per function
        self.functions = []      # qualnames seen

    # -- scopes ----------------------------------------------------------
    def _visit_func(self, node):
        self.scope.append(node.name)
        self.functions.append(".".join(self.scope))
        self.loop_counters.append(0)
        decl = set()
        for sub in ast.walk(node):
            if isinstance(sub, (ast.Global, ast.Nonlocal)):
                decl.update(sub.names)
        self.func_locals.append(decl)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [None if d is None else self.visit(d) for d in node.args.kw_defaults]
        # decorators are applied natively, but calls inside a decorator expression are rewritten
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._visit_body(node.body)
        self.func_locals.pop()
        self.loop_counters.pop()
        self.scope.pop()
        return node

    visit_FunctionDef = _visit_func
    visit_AsyncFunctionDef = _visit_func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.body = self._visit_body(node.body)
        self.scope.pop()
        return node

    def _visit_body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Attribute):
            node.target = self.visit(node.target)
        return node

    # -- expressions -------------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            m = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in"}
            fn = m.get(type(node.ops[0]))
            if fn:
                return ast.copy_location(ast.Call(_rt(fn), [node.left, node.comparators[0]], []), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(_rt("not_"), [node.operand], []), node)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _KEEP_CALLS:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        if isinstance(node.func, ast.Attribute):
            obj = node.func.value
            if isinstance(obj, ast.Call) and isinstance(obj.func, ast.Name) and obj.func.id == "super":
                node.args = [self.visit(a) for a in node.args]
                node.keywords = [self.visit(k) for k in node.keywords]
                return node
            new = ast.Call(_rt("callm"),
                           [self.visit(obj), ast.Constant(self._mangle(node.func.attr))] + [self.visit(a) for a in node.args],
                           [self.visit(k) for k in node.keywords])
        else:
            new = ast.Call(_rt("call"),
                           [self.visit(node.func)] + [self.visit(a) for a in node.args],
                           [self.visit(k) for k in node.keywords])
        return ast.copy_location(new, node)

    def _mangle(self, attr):
        # private names inside a class body
        if attr.startswith("__") and not attr.endswith("__"):
            for s in reversed(self.scope):
                if s[:1].isupper() or s[:1] == "_":
                    return "_" + s.lstrip("_") + attr
        return attr

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(_rt("getitem"), [node.value, self._slice(node.slice)], []), node)
        return node

    def _slice(self, sl):
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(_name("slice"), [none(sl.lower), none(sl.upper), none(sl.step)], [])
        if isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
            return ast.Tuple([self._slice(e) for e in sl.elts], ast.Load())
        return sl

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(None) if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(_rt("fstr"), parts, []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(_rt("mkset"), [ast.List(node.elts, ast.Load())], []), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.func_locals:
            return ast.copy_location(ast.Call(_rt("mklist"), [node], []), node)
        return node

    def _visit_comp(self, node):
        in_class = bool(self.scope) and not self.func_locals
        simple = (len(node.generators) == 1 and not node.generators[0].is_async
                  and isinstance(node.generators[0].target, ast.Name) and isinstance(node, (ast.ListComp, ast.GeneratorExp))
                  and not in_class
                  and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)))
        if simple:
            g = node.generators[0]
            kind = "comp_list" if isinstance(node, ast.ListComp) else "comp_gen"
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), self.visit(node.elt))
            args = [self.visit(g.iter), lam]
            if g.ifs:
                cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                args.append(ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), self.visit(cond)))
            return ast.copy_location(ast.Call(_rt(kind), args, []), node)
        if isinstance(node, ast.DictComp) and len(node.generators) == 1 and not node.generators[0].is_async and not in_class \
                and (isinstance(node.generators[0].target, ast.Name) or isinstance(node.generators[0].target, ast.Tuple)
                     and all(isinstance(e, ast.Name) for e in node.generators[0].target.elts)) \
                and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            g = node.generators[0]

            def lam(body):
                if isinstance(g.target, ast.Name):
                    return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
                inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg("_pyvc_t")], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(_name("_pyvc_t"), ast.Load())], []))
            args = [self.visit(g.iter), lam(self.visit(node.key)), lam(self.visit(node.value))]
            if g.ifs:
                cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                args.append(lam(self.visit(cond)))
            return ast.copy_location(ast.Call(_rt("comp_dict"), args, []), node)
        if isinstance(node, ast.SetComp) and not in_class:
            inner = ast.copy_location(ast.ListComp(node.elt, node.generators), node)
            return ast.copy_location(ast.Call(_rt("mkset"), [self._visit_comp(inner)], []), node)
        node.generators[0].iter = ast.Call(_rt("iter_"), [self.visit(node.generators[0].iter)], [])
        for g in node.generators[1:]:
            g.iter = ast.Call(_rt("iter_"), [self.visit(g.iter)], [])
        for g in node.generators:
            g.ifs = [self.visit(i) for i in g.ifs]
        if isinstance(node, ast.DictComp):
            node.key = self.visit(node.key)
            node.value = self.visit(node.value)
        else:
            node.elt = self.visit(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _visit_comp

    # -- statements --------------------------------------------------------
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(_rt("setitem"),
                [self.visit(t.value), self._slice(self.visit(t.slice)), node.value], [])), node)
        node.targets = [self._target(t) for t in node.targets]
        return node

    def _target(self, t):
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        elif isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(e) for e in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self._target(t.value)
        return t

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        node.target = self._target(node.target)
        return node

    def _loop_id(self):
        self.loop_counters[-1] += 1
        return f"{self.modname}:{'.'.join(self.scope) or '<module>'}#{self.loop_counters[-1]}"

    def _loop_prolog(self, node, lid, names):
        """Statements putting the loop's assigned locals under control of the loop contract."""
        self.tmp += 1
        L = f"_pyvc_L{self.tmp}"
        in_func = bool(self.func_locals)
        names = [n for n in names if not n.startswith("_pyvc_")]
        reader = ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                            ast.Call(_name("locals"), [], []))
        # reader(): current values of the assigned locals, closing over them
        if in_func and names:
            keys = [ast.Constant(n) for n in names]
            vals = [ast.Call(_rt("peek"), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), _name(n))], []) for n in names]
            reader = ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Dict(keys, vals))
        else:
            reader = ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Dict([], []))
        return L, reader, names, in_func

    def visit_For(self, node):
        lid = self._loop_id()
        it = self.visit(node.iter)
        target = self._target(node.target)
        names = _assigned([ast.Expr(ast.Constant(0))] + node.body)
        tnames = _assigned([ast.Assign([target], ast.Constant(0))]) if True else []
        body = self._visit_body(node.body)
        orelse = self._visit_body(node.orelse)
        L, reader, names, in_func = self._loop_prolog(node, lid, [n for n in names if n not in tnames])
        pre = [ast.Assign([_name(L, ast.Store())], ast.Call(_rt("loop_for"), [ast.Constant(lid), it, reader, ast.Constant(tuple(names))], []))]
        if in_func and names:
            havoc = [ast.Assign([_name(n, ast.Store())], ast.Call(_rt("loop_value"), [_name(L), ast.Constant(n)], [])) for n in names]
            pre.append(ast.If(ast.Attribute(_name(L), "cut", ast.Load()), havoc, []))
        new = ast.For(target, _name(L), body, orelse)
        out = pre + [new]
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_While(self, node):
        lid = self._loop_id()
        names = _assigned(node.body)
        test = self.visit(node.test)
        body = self._visit_body(node.body)
        orelse = self._visit_body(node.orelse)
        L, reader, names, in_func = self._loop_prolog(node, lid, names)
        pre = [ast.Assign([_name(L, ast.Store())], ast.Call(_rt("loop_while"), [ast.Constant(lid), reader, ast.Constant(tuple(names))], []))]
        if in_func and names:
            havoc = [ast.Assign([_name(n, ast.Store())], ast.Call(_rt("loop_value"), [_name(L), ast.Constant(n)], [])) for n in names]
            pre.append(ast.If(ast.Attribute(_name(L), "cut", ast.Load()), havoc, []))
        test = ast.BoolOp(ast.And(), [ast.Call(ast.Attribute(_name(L), "head", ast.Load()), [], []), test])
        new = ast.While(test, body, orelse)
        out = pre + [new]
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_Try(self, node):
        self.generic_visit_try(node)
        return node

    def generic_visit_try(self, node):
        node.body = self._visit_body(node.body)
        handlers = []
        guard = False
        for h in node.handlers:
            broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException") or \
                (isinstance(h.type, ast.Tuple) and any(isinstance(e, ast.Name) and e.id == "BaseException" for e in h.type.elts))
            if broad and not guard:
                g = ast.ExceptHandler(type=_rt("Abort"), name=None, body=[ast.Raise(None, None)])
                handlers.append(ast.copy_location(g, h))
                guard = True
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = [ast.copy_location(ast.Expr(ast.Call(_rt("caught"), [], [])), h)] + self._visit_body(h.body)
            handlers.append(h)
        node.handlers = handlers
        node.orelse = self._visit_body(node.orelse)
        node.finalbody = self._visit_body(node.finalbody)


def transform_source(src, filename, modname):
    tree = ast.parse(src, filename)
    rw = Rewriter(modname)
    body = tree.body
    # keep the module docstring and __future__ imports first
    head = []
    while body and (isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                    or isinstance(body[0], ast.ImportFrom) and body[0].module == "__future__"):
        head.append(body.pop(0))
    imp = ast.parse(f"import pyvc.rt as {RT}").body
    tree.body = head + imp + rw._visit_body(body)
    ast.fix_missing_locations(tree)
    return tree, rw


class ForaFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo, instrument=True):
        self.repo = repo
        self.src = os.path.join(repo, "src")
        self.instrument = instrument
        self.loaded = {}

    def _locate(self, fullname):
        base = os.path.join(self.src, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "fora" and not fullname.startswith("fora."):
            return None
        file, is_pkg = self._locate(fullname)
        if file is None:
            if fullname == "fora.version":
                spec = importlib.machinery.ModuleSpec(fullname, self, origin="<stub>")
                spec.loader_state = None
                return spec
            return None
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=file, is_package=is_pkg)
        spec.has_location = True
        spec.loader_state = file
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(file)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        file = module.__spec__.loader_state
        if file is None:
            module.version = "0.0.0"
            return
        with open(file, "r", encoding="utf-8") as f:
            src = f.read()
        if self.instrument:
            tree, rw = transform_source(src, file, module.__name__)
            self.loaded[module.__name__] = rw.functions
        else:
            tree = ast.parse(src, file)
        code = compile(tree, file, "exec", dont_inherit=True)
        exec(code, module.__dict__)


FINDER = None


def install(repo, instrument=True):
    global FINDER
    for m in [m for m in sys.modules if m == "fora" or m.startswith("fora.")]:
        del sys.modules[m]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, ForaFinder)
                        and "_EditableFinder" not in getattr(f, "__name__", type(f).__name__)]
    FINDER = ForaFinder(repo, instrument)
    sys.meta_path.insert(0, FINDER)
    vt = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(vt) and vt not in sys.path:
        sys.path.append(vt)
    return FINDER
