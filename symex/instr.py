"""AST instrumentation and loading of modules for symbolic execution."""
import ast
import copy
import importlib.util
import os
import sys
import types
import collections as _collections
from .core import E
from . import runtime


STRMETHODS = frozenset(n for n in dir(str) + dir(bytes) if not n.startswith("_"))


def N(id):
    return ast.Name(id=id, ctx=ast.Load())


class Instr(ast.NodeTransformer):
    """Rewrites operations whose native form cannot accept symbolic operands."""

    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.classes = []
        self.temps = 0

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
        else:
            node.func = f = self.visit(f)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "dir", "isinstance", "len"):
            return node
        if isinstance(f, ast.Attribute):
            return ast.Call(func=N("_symx_m"), args=[f.value, ast.Constant(self.mangle(f.attr))] + node.args, keywords=node.keywords)
        return ast.Call(func=N("_symx_f"), args=[f] + node.args, keywords=node.keywords)

    def visit_Attribute(self, node):
        """Methods of strings used as values."""
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in STRMETHODS:
            return ast.Call(func=N("_symx_attr"), args=[node.value, ast.Constant(node.attr)], keywords=[])
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, (ast.Name, ast.Attribute, ast.Subscript)):
            load = copy.deepcopy(node.target)
            load.ctx = ast.Load()
            return self.visit(ast.Assign(targets=[node.target], value=ast.BinOp(left=load, op=ast.Mod(), right=node.value)))
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=N("_symx_mod"), args=[node.left, node.right], keywords=[])
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                args.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
            else:
                args.append(v)
        return ast.Call(func=N("_symx_fstr"), args=args, keywords=[])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=N("_symx_in"), args=[node.left, node.comparators[0]], keywords=[])
            return ast.UnaryOp(op=ast.Not(), operand=c) if isinstance(node.ops[0], ast.NotIn) else c
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return ast.Call(func=N("_symx_dict"), args=items, keywords=[])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(func=N("_symx_set"), args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.Call(func=N("_symx_dictcomp"), args=[lc], keywords=[])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.Call(func=N("_symx_set"), args=[lc], keywords=[])

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(func=N("_symx_exc"), args=[], keywords=[])))
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = "%s:%s" % (self.mod, ".".join(self.stack))
        self.stack.pop()
        i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                  and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(i, ast.Expr(ast.Call(func=N("_symx_cov"), args=[ast.Constant(q)], keywords=[])))
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.classes.append(node.name)
        self.generic_visit(node)
        self.classes.pop()
        self.stack.pop()
        node.bases = [b if isinstance(b, ast.Starred) else ast.Call(func=N("_symx_base"), args=[b], keywords=[]) for b in node.bases]
        return node

    def mangle(self, name):
        """Private name mangling (the attribute name becomes a string here)."""
        if self.classes and name.startswith("__") and not name.endswith("__"):
            c = self.classes[-1].lstrip("_")
            return "_" + c + name if c else name
        return name

    def visit_Match(self, node):
        """match statements become if chains, since native patterns know native types only."""
        subj = self.temp()
        out = [ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=node.subject)]
        tail = out
        for case in node.cases:
            cond = self.pattern(case.pattern, N(subj))
            if case.guard is not None:
                cond = ast.BoolOp(op=ast.And(), values=[cond, case.guard])
            branch = ast.If(test=cond, body=case.body, orelse=[])
            tail.append(branch)
            tail = branch.orelse
        return [self.visit(n) for n in out]

    def temp(self):
        self.temps += 1
        return "_symx_t%d" % self.temps

    def pattern(self, p, x):
        """Condition (an untransformed expression) for pattern p to match the expression x, binding its names."""
        def call(name, *args):
            return ast.Call(func=N(name), args=list(args), keywords=[])

        def bind(name, value):
            return call("_symx_true", ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value))

        def sub(p, value):
            t = self.temp()
            return [bind(t, value), self.pattern(p, N(t))]

        parts = []
        if isinstance(p, ast.MatchValue):
            parts = [ast.Compare(left=x, ops=[ast.Eq()], comparators=[p.value])]
        elif isinstance(p, ast.MatchSingleton):
            parts = [ast.Compare(left=x, ops=[ast.Is()], comparators=[ast.Constant(p.value)])]
        elif isinstance(p, ast.MatchOr):
            parts = [ast.BoolOp(op=ast.Or(), values=[self.pattern(q, x) for q in p.patterns])]
        elif isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                parts.append(self.pattern(p.pattern, x))
            if p.name is not None:
                parts.append(bind(p.name, x))
        elif isinstance(p, ast.MatchSequence):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns) - len(star)
            parts.append(call("_symx_matchseq", x, ast.Constant(n), ast.Constant(bool(star))))
            for i, q in enumerate(p.patterns):
                if star and i == star[0]:
                    if q.name is not None:
                        parts.append(bind(q.name, call("_symx_matchstar", x, ast.Constant(i), ast.Constant(n - i))))
                    continue
                j = i if not star or i < star[0] else i - len(p.patterns)
                parts += sub(q, ast.Subscript(value=x, slice=ast.Constant(j), ctx=ast.Load()))
        elif isinstance(p, ast.MatchMapping):
            parts.append(call("_symx_matchmap", x))
            for k, q in zip(p.keys, p.patterns):
                parts.append(ast.Compare(left=k, ops=[ast.In()], comparators=[x]))
                parts += sub(q, ast.Subscript(value=x, slice=k, ctx=ast.Load()))
            if p.rest is not None:
                parts.append(bind(p.rest, call("_symx_matchrest", x, ast.List(elts=list(p.keys), ctx=ast.Load()))))
        elif isinstance(p, ast.MatchClass):
            parts.append(ast.Call(func=N("isinstance"), args=[x, p.cls], keywords=[]))
            for i, q in enumerate(p.patterns):
                parts += sub(q, call("_symx_matchpos", x, p.cls, ast.Constant(i)))
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                parts.append(ast.Call(func=N("hasattr"), args=[x, ast.Constant(k)], keywords=[]))
                parts += sub(q, ast.Attribute(value=x, attr=k, ctx=ast.Load()))
        parts.append(ast.Constant(True))
        return parts[0] if len(parts) == 1 else ast.BoolOp(op=ast.And(), values=parts)

    def visit_arguments(self, node):
        # annotations are never evaluated symbolically
        for a in node.args + node.kwonlyargs + node.posonlyargs:
            a.annotation = None
        if node.vararg:
            node.vararg.annotation = None
        if node.kwarg:
            node.kwarg.annotation = None
        self.generic_visit(node)
        return node


class Loader:
    """Loads instrumented copies of source modules, with stub modules for the environment."""

    def __init__(self, roots, stubs, data_files=None):
        self.roots = roots            # package name -> directory of its source
        self.stubs = stubs            # module name -> module-like object
        self.mods = {}
        self.builtins = runtime.make_builtins(self.importer)
        self.sources = {}

    def find(self, name):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = self.roots[top]
        if os.path.isfile(base):
            return (base, False) if name == top else None
        rel = name.split(".")[1:]
        p = os.path.join(base, *rel)
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        loc = self.find(name)
        if loc is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        path, ispkg = loc
        return self.load_file(name, path, ispkg)

    def load_file(self, name, path, ispkg=False):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.sources[name] = path
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Instr(name).visit(tree))
        code = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        runtime._INSTR_MODULES.add(name)
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        parent, _, leaf = name.rpartition(".")
        if parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a):
                        try:
                            self.load(name + "." + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if name in self.stubs:
            return self.stubs[name] if fromlist else self.stubs[top]
        if top in self.stubs and fromlist is not None and hasattr(self.stubs[top], name.partition(".")[2] or "\0"):
            return getattr(self.stubs[top], name.partition(".")[2]) if fromlist else self.stubs[top]
        return __import__(name, globals, locals, fromlist, 0)

    # ---------------------------------------------------- state snapshots
    def snapshot(self):
        """Remember mutable module/class state so that every path starts from it."""
        from .containers import SDict, SSet
        self._snap = []

        def remember(ns, cls):
            self._snap.append((ns, dict(ns), cls))
            for k, v in list(ns.items()):
                if not (k.startswith("__") and k.endswith("__")):
                    visit(v)

        def visit(v):
            """Remember the mutable things reachable from v: containers, instances, memo tables, closures."""
            c = v.__class__
            if c in (staticmethod, classmethod):
                v = v.__func__
                c = v.__class__
            elif c is property:
                for f in (v.fget, v.fset, v.fdel):
                    if f is not None:
                        visit(f)
                return
            if c in (str, int, bytes, bool, float, type(None), types.ModuleType) or id(v) in seen:
                return
            seen.add(id(v))
            keep.append(v)
            if isinstance(v, type):
                if v.__module__ in self.mods:
                    remember(v.__dict__, v)
            elif c is types.FunctionType:
                if v.__module__ in self.mods:
                    if v.__dict__:
                        for x in list(v.__dict__.values()):
                            visit(x)
                    self._attrs.append((v.__dict__, dict(v.__dict__)))
                    for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                        visit(x)
                    for cell in v.__closure__ or ():
                        try:
                            x = cell.cell_contents
                        except ValueError:
                            continue
                        self._cells.append((cell, x))
                        visit(x)
            elif hasattr(c, "cache_clear"):
                self._caches.append(v)
                visit(getattr(v, "__wrapped__", None))
            elif c in (list, dict, set, SDict, SSet):
                self._cont.append((v, v.copy()))
                for x in (list(v.values()) if c in (dict, SDict) else list(v)):
                    visit(x)
            elif c is tuple:
                for x in v:
                    visit(x)
            elif c is _collections.deque:
                self._cont.append((v, list(v)))
            elif isinstance(v, dict):
                self._cont.append((v, dict(v)))
            elif c.__module__ in self.mods and isinstance(getattr(v, "__dict__", None), dict):
                self._attrs.append((v.__dict__, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    visit(x)
        self._cont, self._attrs, self._cells, self._caches = [], [], [], []
        seen, keep = set(), []
        self._keep = keep
        for name, m in self.mods.items():
            remember(m.__dict__, None)

    def restore(self):
        from .containers import SDict, SSet
        for ns, saved, cls in self._snap:
            if len(ns) != len(saved):
                for k in list(ns):
                    if k not in saved:
                        if cls is None:
                            del ns[k]
                        else:
                            delattr(cls, k)
            for k, v in saved.items():
                if ns.get(k) is not v:
                    if cls is None:
                        ns[k] = v
                    else:
                        setattr(cls, k, v)
        for d, saved in self._attrs:
            if len(d) != len(saved) or any(d.get(k, d) is not v for k, v in saved.items()):
                d.clear()
                d.update(saved)
        for cell, v in self._cells:
            cell.cell_contents = v
        for c in self._caches:
            c.cache_clear()
        for obj, saved in self._cont:
            if obj.__class__ is list:
                obj[:] = saved
            elif isinstance(obj, (dict, set)):
                obj.clear()
                obj.update(saved)
            elif obj.__class__ is _collections.deque:
                obj.clear()
                obj.extend(saved)
            elif obj.__class__ is SDict:
                obj._m = dict(saved._m)
                obj._n = saved._n
            else:
                obj._d = saved._d.copy()
