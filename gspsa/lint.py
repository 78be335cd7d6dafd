"""Resolution of names, attributes, imports and calls over the syntax trees of the library, in the module, class and function
tables the abstract interpreter computes (so star imports, decorators, aliases and derived classes are seen through)."""
import ast
import builtins
import glob
import inspect
import os
import sys

from .engine import ClassRec, FuncRec, ModRec, ObjRec, Dead, Unsupported
from .run import Finding
from .values import Ext, Ref, Term

MODULE_ATTRS = {"__name__", "__file__", "__doc__", "__package__", "__builtins__", "__spec__", "__loader__", "__path__", "__dict__"}
OPAQUE = object()


class Lint:
    def __init__(self, it):
        self.it = it
        self.trees = {}        # module name -> (file, tree)
        self.mods = {}         # module name -> Ref
        self.broken = {}       # module name -> message
        self.stored = set()    # every attribute name assigned anywhere
        self.classes = []      # refs of analysed classes
        self.dynamic = {}      # class ref id -> reason

    # ------------------------------------------------------------------ load
    def load(self):
        it = self.it
        for pkg in ("gsp", "gsp_matplotlib"):
            for f in sorted(glob.glob(os.path.join(it.root, pkg, "**", "*.py"), recursive=True)):
                parts = os.path.relpath(f, it.root)[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                n = ".".join(parts)
                self.trees[n] = (f, it.parse(open(f, encoding="utf8").read(), f))
        it.reset()
        for n in self.trees:
            before = it.st.copy()
            it.sinks = [[]]
            try:
                self.mods[n] = it.import_module(n)
                if it.st is None:
                    raise Dead()
            except Dead:
                st, exc, loc = it.sinks[-1][0]
                it.st = st
                r = it.rec(exc)
                self.broken[n] = ("%s%r" % (it.class_name(r.cls), r.payload), "%s:%s" % (os.path.relpath(str(loc[0]), it.root), loc[1]))
                it.st = before
            except Unsupported as e:
                self.broken[n] = (None, str(e))
                it.st = before
        for f, t in self.trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.stored.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and \
                        isinstance(x.args[1], ast.Constant):
                    self.stored.add(x.args[1].value)
        for n, m in self.mods.items():
            if isinstance(m, Ref):
                for v in it.rec(m).attrs.values():
                    v = it.simp(v)
                    if isinstance(v, Ref) and isinstance(it.rec(v), ClassRec) and v not in self.classes:
                        self.classes.append(v)

    # ------------------------------------------------------------------ resolution
    def attr_of(self, v, name):
        """value of v.name: a value, None when it certainly does not exist, OPAQUE when not known"""
        it = self.it
        v = it.simp(v)
        if isinstance(v, Ref):
            r = it.rec(v)
            if isinstance(r, ModRec):
                if name in r.attrs:
                    return r.attrs[name]
                if name in MODULE_ATTRS or "__getattr__" in r.attrs:
                    return OPAQUE
                sub = r.name + "." + name
                if sub in self.mods:
                    # a submodule is an attribute only once something imported it
                    return OPAQUE if sub in it.modules or sub in self.imported else None
                return None
            if isinstance(r, ClassRec):
                a = it.class_lookup(v, name)
                if a is not None:
                    return a
                if self.class_opaque(v) or hasattr(type, name) or r.meta is not None or r.members is not None or name in self.stored:
                    return OPAQUE
                return None
            return OPAQUE
        if isinstance(v, Ext):
            if v.obj is Ext.MISSING:
                return self.lib(v.path, name)
            if inspect.ismodule(v.obj) or isinstance(v.obj, type):
                if not hasattr(v.obj, name):
                    if inspect.ismodule(v.obj) and hasattr(v.obj, "__path__"):
                        try:
                            __import__(v.obj.__name__ + "." + name)
                            return OPAQUE
                        except ImportError:
                            pass
                    return None
                o = getattr(v.obj, name)
                return Ext(v.path + "." + name, o) if inspect.ismodule(o) or isinstance(o, type) else OPAQUE
        return OPAQUE

    def class_opaque(self, c):
        it = self.it
        for k in it.mro(c):
            if isinstance(k, Ref):
                a = it.rec(k).attrs
                if "__getattr__" in a or "__getattribute__" in a:
                    return True
            elif k.obj is Ext.MISSING:
                return True
        return False

    # installed libraries the analyser cannot import: their module-level names are read off their source
    _lib = {}

    def lib_module(self, path):
        if path in self._lib:
            return self._lib[path]
        base = None
        for root in ("/opt/venv/lib/python3.12/site-packages",) + tuple(
                p for p in sys.path if p.endswith("-packages")):
            p = os.path.join(root, *path.split("."))
            for f in (os.path.join(p, "__init__.py"), p + ".py"):
                if os.path.isfile(f):
                    base = f
                    break
            if base:
                break
        names = None
        if base:
            names = set(MODULE_ATTRS)
            try:
                t = ast.parse(open(base, encoding="utf8").read())
            except (SyntaxError, UnicodeDecodeError):
                t = None
                names = None
            if t is not None:
                for x in ast.walk(t):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        names.add(x.name)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a in x.names:
                            if a.name == "*":
                                names = None
                                break
                            names.add((a.asname or a.name).split(".")[0])
                    if names is None:
                        break
                if names is not None:
                    if "__getattr__" in names:
                        names = None
                    else:
                        d = os.path.dirname(base)
                        if base.endswith("__init__.py"):
                            names |= {os.path.splitext(e)[0].split(".")[0] for e in os.listdir(d)}
        self._lib[path] = names
        return names

    def lib(self, path, name):
        names = self.lib_module(path)
        if names is not None and name not in names:
            return None
        return OPAQUE

    def value(self, node, scope):
        """the abstract value a Name/Attribute chain designates, independent of any object state; OPAQUE when it depends on one"""
        if isinstance(node, ast.Name):
            return scope.lookup(node.id)
        if isinstance(node, ast.Attribute):
            v = self.value(node.value, scope)
            if v is OPAQUE or v is None:
                return OPAQUE
            r = self.attr_of(v, node.attr)
            return OPAQUE if r is None else r
        return OPAQUE

    # ------------------------------------------------------------------ the rules
    def run(self):
        self.load()
        self.imported = set()
        for n, (f, t) in self.trees.items():
            for x in ast.walk(t):
                if isinstance(x, ast.Import):
                    self.imported |= {a.name for a in x.names}
                elif isinstance(x, ast.ImportFrom):
                    m = self.absolute(n, f, x)
                    self.imported.add(m)
                    self.imported |= {m + "." + a.name for a in x.names}
        for m in list(self.imported):
            parts = m.split(".")
            self.imported |= {".".join(parts[:i]) for i in range(1, len(parts))}
        out = []
        for n in sorted(self.trees):
            f = os.path.relpath(self.trees[n][0], self.it.root)
            if n in self.broken:
                msg, loc = self.broken[n]
                out.append(Finding("imports", n, False, "importing %s ends in %s" % (n, msg or loc), "%s (%s)" % (f, loc),
                                   undetermined=msg is None))
            else:
                out.append(Finding("imports", n, True, where=f))
                out += self.module(n)
        return out

    def absolute(self, n, f, x):
        if not x.level:
            return x.module or ""
        base = n.split(".")
        if not f.endswith("__init__.py"):
            base = base[:-1]
        base = base[:len(base) - (x.level - 1)]
        return ".".join(base + ([x.module] if x.module else []))

    def module(self, n):
        f, t = self.trees[n]
        return Walker(self, n, os.path.relpath(f, self.it.root), t).run()


class Scope:
    def __init__(self, lint, kind, parent, node, names=(), cls=None, self_name=None):
        self.lint, self.kind, self.parent, self.node, self.names = lint, kind, parent, node, set(names)
        self.cls, self.self_name = cls, self_name
        self.globals_ = set()

    def defines(self, name):
        return name in self.names and name not in self.globals_

    def lookup(self, name):
        s = self
        first = True
        while s is not None and s.kind != "module":
            if (s.kind != "class" or first) and s.defines(name):
                return OPAQUE
            if name in s.globals_:
                break
            first = False
            s = s.parent
        while s.kind != "module":
            s = s.parent
        return s.global_value(name)


class ModScope(Scope):
    def __init__(self, lint, modname, tree):
        Scope.__init__(self, lint, "module", None, tree)
        self.ref = lint.mods[modname]

    def global_value(self, name):
        a = self.lint.it.rec(self.ref).attrs
        if name in a:
            return self.lint.it.simp(a[name])
        if name in MODULE_ATTRS or name in self.names and self.dynamic:
            return OPAQUE
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            return Ext("builtins." + name, o) if isinstance(o, type) else OPAQUE
        if name in self.late:
            return OPAQUE
        return None
    dynamic = False
    late = frozenset()


def bound_names(node):
    """names a function (or class body) binds, not entering nested functions and classes"""
    out, glob_ = set(), set()

    def go(x, top=False):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            out.add(x.name)
            return
        if isinstance(x, ast.Lambda) and not top:
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(x):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            for g in x.generators:
                go(g.iter)
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0] if isinstance(x, ast.Import) else (a.asname or a.name))
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            glob_.update(x.names)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.MatchMapping) and x.rest:
            out.add(x.rest)
        for c in ast.iter_child_nodes(x):
            go(c)
    if isinstance(node, ast.Lambda):
        go(node.body)
    else:
        for s in node.body:
            go(s)
    a = getattr(node, "args", None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)
    return out, glob_


class Walker:
    def __init__(self, lint, modname, file, tree):
        self.lint, self.modname, self.file, self.tree = lint, modname, file, tree
        self.it = lint.it
        self.out = {}
        self.path = []
        self.guard = 0          # inside the body of a try that catches the error

    def run(self):
        ms = ModScope(self.lint, self.modname, self.tree)
        late = set()
        for x in ast.walk(self.tree):
            if isinstance(x, ast.Global):
                late |= set(x.names)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("exec", "globals", "vars", "eval"):
                ms.dynamic = True
        ms.late = frozenset(late)
        if ms.dynamic:
            ms.names, _ = bound_names(self.tree)
        self.stmts(self.tree.body, ms)
        return list(self.out.values())

    def report(self, rule, what, ok, message, node, undetermined=False):
        inst = "%s:%s:%s" % (self.modname, ".".join(self.path) or "<module>", what)
        if inst in self.out and self.out[rule + inst].ok is False if rule + inst in self.out else False:
            return
        k = rule + inst
        if k in self.out and not self.out[k].ok:
            return
        self.out[k] = Finding(rule, inst, ok, "%s: %s" % (inst, message), "%s:%d" % (self.file, getattr(node, "lineno", 0)), undetermined)

    # ---------------------------------------------------------------- statements
    def stmts(self, body, sc):
        for s in body:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, sc)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(d, sc)
            for a in ast.walk(s.args):
                if isinstance(a, ast.arg) and a.annotation is not None and not isinstance(a.annotation, ast.Constant):
                    self.expr(a.annotation, sc)
            self.function(s, sc)
        elif isinstance(s, ast.ClassDef):
            for b in s.bases + s.decorator_list + [k.value for k in s.keywords]:
                self.expr(b, sc)
            names, g = bound_names(s)
            c = None
            if sc.kind == "module":
                v = sc.global_value(s.name)
                if isinstance(v, Ref) and isinstance(self.it.rec(v), ClassRec) and self.it.rec(v).node is s:
                    c = v
            sub = Scope(self.lint, "class", sc, s, names, c)
            sub.globals_ = g
            self.path.append(s.name)
            self.stmts(s.body, sub)
            self.path.pop()
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.import_(a.name, None, s)
        elif isinstance(s, ast.ImportFrom):
            m = self.lint.absolute(self.modname, os.path.join(self.it.root, self.file), s)
            for a in s.names:
                self.import_(m, a.name, s)
        elif isinstance(s, ast.Try):
            g = any(h.type is None or any(n in ast.unparse(h.type) for n in ("Exception", "AttributeError", "NameError", "ImportError",
                                                                             "TypeError", "ModuleNotFoundError", "BaseException"))
                    for h in s.handlers)
            self.guard += g
            self.stmts(s.body, sc)
            self.guard -= g
            for h in s.handlers:
                if h.type is not None:
                    self.expr(h.type, sc)
                self.stmts(h.body, sc)
            self.stmts(s.orelse, sc)
            self.stmts(s.finalbody, sc)
        else:
            for f, v in ast.iter_fields(s):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.stmt):
                        self.stmt(x, sc)
                    elif isinstance(x, ast.AST):
                        if f == "annotation" and isinstance(x, ast.Constant):
                            continue
                        self.expr(x, sc)

    def import_(self, mod, name, node):
        if self.guard or mod == "__future__":
            return
        it = self.it
        top = mod.split(".")[0]
        what = "from %s import %s" % (mod, name) if name else "import " + mod
        if top in it.packages:
            if mod in self.lint.broken:
                self.report("names", what, False, "the module %s cannot be imported" % mod, node)
                return
            if mod not in self.lint.mods:
                self.report("names", what, False, "there is no module %s" % mod, node)
                return
            if name and name != "*":
                if mod + "." + name in self.lint.mods:
                    self.report("names", what, True, "", node)
                    return
                if mod + "." + name in self.lint.broken:
                    self.report("names", what, False, "the module %s.%s cannot be imported" % (mod, name), node)
                    return
                v = self.lint.attr_of(self.lint.mods[mod], name)
                self.report("names", what, v is not None, "%s has no name %s" % (mod, name), node)
            else:
                self.report("names", what, True, "", node)
            return
        e = it.ext_module(mod)
        if name and name != "*" and isinstance(e, Ext):
            v = self.lint.attr_of(e, name)
            self.report("names", what, v is not None, "%s has no name %s" % (mod, name), node)

    def function(self, f, sc, lam=False):
        names, g = bound_names(f)
        cls = self_name = None
        if sc.kind == "class" and not lam:
            dec = {ast.unparse(d) for d in f.decorator_list}
            if f.args.args and "staticmethod" not in dec and "classmethod" not in dec and f.name not in ("__new__", "__init_subclass__",
                                                                                                    "__class_getitem__"):
                first = f.args.args[0].arg
                stores = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == first and isinstance(x.ctx, ast.Store)]
                if not stores:
                    cls, self_name = sc.cls, first
        elif sc.kind == "function":
            s = sc
            while s is not None and s.kind == "function":
                if s.self_name and s.self_name not in names:
                    cls, self_name = s.cls, s.self_name
                    break
                if s.self_name:
                    break
                s = s.parent
        sub = Scope(self.lint, "function", sc, f, names, cls, self_name)
        sub.globals_ = {x for x in g if x not in self.enclosing(sc)}
        g_, self.guard = self.guard, 0
        if lam:
            self.guard = g_
            self.expr(f.body, sub)
        else:
            self.path.append(f.name)
            self.unbound(f, sub)
            self.stmts(f.body, sub)
            self.path.pop()
        self.guard = g_

    def enclosing(self, sc):
        out = set()
        while sc is not None and sc.kind != "module":
            if sc.kind == "function":
                out |= sc.names
            sc = sc.parent
        return out

    # ---------------------------------------------------------------- locals that no path binds before their use
    def unbound(self, f, sc):
        """forward may-analysis: names possibly bound at each point; a read no binding reaches certainly fails"""
        params = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [y for y in (f.args.vararg, f.args.kwarg) if y]}
        local = sc.names - sc.globals_ - params
        for x in ast.walk(f):
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                local -= set(x.names)
        if not local:
            return
        bad = {}

        def reads(x, cur):
            """reads and bindings inside an expression, in no particular order (bindings by := count as before)"""
            if x is None:
                return
            for w in ast.walk(x):
                if isinstance(w, ast.NamedExpr):
                    cur.add(w.target.id)

            def go(w, hidden):
                if isinstance(w, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                    return
                if isinstance(w, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    inner = set(hidden)
                    for g in w.generators:
                        inner |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    for g in w.generators:
                        go(g.iter, inner)
                        for c in g.ifs:
                            go(c, inner)
                    for y in ([w.key, w.value] if isinstance(w, ast.DictComp) else [w.elt]):
                        go(y, inner)
                    return
                if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Load) and w.id in local and w.id not in hidden and w.id not in cur:
                    bad.setdefault(w.id, w)
                for c in ast.iter_child_nodes(w):
                    go(c, hidden)
            go(x, set())

        def bind(t, cur):
            for w in ast.walk(t):
                if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                    cur.add(w.id)

        def block(body, cur):
            for s in body:
                stmt(s, cur)

        def stmt(s, cur):
            # `cur` grows only: a union over the paths, so that a name absent from it is bound on none
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                cur.add(s.name)
            elif isinstance(s, ast.Assign):
                reads(s.value, cur)
                for t in s.targets:
                    reads(t, cur)
                    bind(t, cur)
            elif isinstance(s, ast.AugAssign):
                reads(s.value, cur)
                if isinstance(s.target, ast.Name):
                    if s.target.id in local and s.target.id not in cur:
                        bad.setdefault(s.target.id, s)
                else:
                    reads(s.target, cur)
                bind(s.target, cur)
            elif isinstance(s, ast.AnnAssign):
                reads(s.value, cur)
                if s.value is not None:
                    bind(s.target, cur)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                reads(s.iter, cur)
                loopbinds(s, cur)
                bind(s.target, cur)
                block(s.body, cur)
                block(s.orelse, cur)
            elif isinstance(s, ast.While):
                loopbinds(s, cur)
                reads(s.test, cur)
                block(s.body, cur)
                block(s.orelse, cur)
            elif isinstance(s, ast.If):
                reads(s.test, cur)
                a, b = set(cur), set(cur)
                block(s.body, a)
                block(s.orelse, b)
                cur |= a | b
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    reads(i.context_expr, cur)
                    if i.optional_vars is not None:
                        bind(i.optional_vars, cur)
                block(s.body, cur)
            elif isinstance(s, ast.Try):
                block(s.body, cur)
                for h in s.handlers:
                    reads(h.type, cur)
                    b = set(cur)
                    if h.name:
                        b.add(h.name)
                    block(h.body, b)
                    cur |= b
                block(s.orelse, cur)
                block(s.finalbody, cur)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    cur.add((a.asname or a.name).split(".")[0] if isinstance(s, ast.Import) else (a.asname or a.name))
            elif isinstance(s, ast.Match):
                reads(s.subject, cur)
                for c in s.cases:
                    for w in ast.walk(c.pattern):
                        for nm in (getattr(w, "name", None), getattr(w, "rest", None)):
                            if isinstance(nm, str):
                                cur.add(nm)
                    reads(c.guard, cur)
                    block(c.body, cur)
            else:
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, ast.expr):
                        reads(x, cur)

        def loopbinds(s, cur):
            for x in ast.walk(ast.Module(s.body, [])):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    cur.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    cur.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        cur.add((a.asname or a.name).split(".")[0])
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    cur.add(x.name)
        block(f.body, set(params))
        for n in sorted(local):
            self.report("locals", n, n not in bad, "%s is read before any statement binds it" % n, bad.get(n, f))

    # ---------------------------------------------------------------- expressions
    def expr(self, x, sc):
        if isinstance(x, ast.Lambda):
            for d in x.args.defaults + [y for y in x.args.kw_defaults if y is not None]:
                self.expr(d, sc)
            self.function(x, sc, lam=True)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = set()
            for g in x.generators:
                names |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            sub = Scope(self.lint, "function", sc if sc.kind != "class" else sc, x, names, sc.cls if sc.kind == "function" else None,
                        sc.self_name if sc.kind == "function" and sc.self_name not in names else None)
            for i, g in enumerate(x.generators):
                self.expr(g.iter, sc if i == 0 else sub)
                self.expr(g.target, sub)
                for c in g.ifs:
                    self.expr(c, sub)
            for y in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                self.expr(y, sub)
            return
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load):
                self.name(x, sc)
            return
        if isinstance(x, ast.Attribute):
            self.attribute(x, sc)
            self.expr(x.value, sc)
            return
        if isinstance(x, ast.Call):
            self.call(x, sc)
            if isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1:
                pass
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.keyword):
                c = c.value
            if isinstance(c, ast.AST) and not isinstance(c, ast.expr_context):
                self.expr(c, sc)

    def name(self, x, sc):
        v = sc.lookup(x.id) if sc.kind != "module" else sc.global_value(x.id)
        if x.id == "__class__" or self.guard and v is None:
            return
        if sc.kind == "module" and v is None and x.id in bound_names(self.tree)[0]:
            return        # a name the module deleted again, or a branch that is not taken
        self.report("names", x.id, v is not None, "the name %s is defined nowhere" % x.id, x)

    def attribute(self, x, sc):
        base = self.lint.value(x.value, sc) if sc.kind != "module" else (
            sc.global_value(x.value.id) if isinstance(x.value, ast.Name) else self.lint.value(x.value, Wrap(sc)))
        if self.guard:
            return
        if base is not OPAQUE and base is not None:
            if isinstance(x.ctx, ast.Load):
                v = self.lint.attr_of(base, x.attr)
                self.report("attributes", ast.unparse(x), v is not None, "%s does not exist" % ast.unparse(x), x)
            return
        if isinstance(x.value, ast.Name) and sc.kind == "function" and x.value.id == sc.self_name and sc.cls is not None and \
                isinstance(x.ctx, ast.Load):
            self.report("attributes", "self." + x.attr, self.instance_has(sc.cls, x.attr),
                        "no object of class %s has an attribute %s" % (self.it.rec(sc.cls).name, x.attr), x)

    def instance_has(self, c, attr):
        it = self.it
        if attr.startswith("__") and attr.endswith("__"):
            return True
        if attr.startswith("__"):
            attr = "_" + it.rec(c).name.lstrip("_") + attr
        fam = [k for k in self.lint.classes if any(isinstance(m, Ref) and m == c for m in it.mro(k))] + [c]
        for k in fam:
            if self.lint.class_opaque(k) or it.class_lookup(k, attr) is not None:
                return True
            for m in it.mro(k):
                if isinstance(m, Ext) and m.obj is not Ext.MISSING and hasattr(m.obj, attr):
                    return True
                if isinstance(m, Ref) and self.assigns(m, attr):
                    return True
        return self.foreign(attr)

    _assigned = None

    def assigns(self, c, attr):
        node = self.it.rec(c).node
        if node is None or not isinstance(node, ast.ClassDef):
            return True
        cache = self.lint.dynamic
        if id(node) not in cache:
            names, dyn = set(), False
            reads = self.dict_reads(node)
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add(x.attr)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    names.add(x.target.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1:
                    if isinstance(x.args[1], ast.Constant):
                        names.add(x.args[1].value)
                    else:
                        dyn = True
                elif isinstance(x, ast.Attribute) and x.attr == "__setattr__":
                    dyn = True
                elif (isinstance(x, ast.Attribute) and x.attr == "__dict__" or
                      isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "vars") and id(x) not in reads:
                    dyn = True
            cache[id(node)] = (names, dyn)
        names, dyn = cache[id(node)]
        return dyn or attr in names

    @staticmethod
    def dict_reads(node):
        """expressions that are only read from where they stand (a mapping of attributes read but not written or kept)"""
        out = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and x.attr in ("keys", "values", "items", "get", "copy"):
                out.add(id(x.value))
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                out.add(id(x.value))
            elif isinstance(x, ast.Compare):
                out.update(id(k) for k in [x.left] + x.comparators)
            elif isinstance(x, (ast.For, ast.comprehension)):
                out.add(id(x.iter))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "set", "dict", "sorted", "len", "iter", "repr", "str", "frozenset"):
                out.update(id(k) for k in x.args)
        return out

    def foreign(self, attr):
        """assigned on an object that is not `self` (obj.attr = ...), anywhere in the library"""
        f = getattr(self.lint, "foreign_", None)
        if f is None:
            f = set()
            for file, t in self.lint.trees.values():
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (
                            isinstance(x.value, ast.Name) and x.value.id == "self"):
                        f.add(x.attr)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and \
                            isinstance(x.args[1], ast.Constant):
                        f.add(x.args[1].value)
            self.lint.foreign_ = f
        return attr in f

    # ---------------------------------------------------------------- calls
    def call(self, x, sc):
        if self.guard:
            return
        f = x.func
        it = self.it
        v, skip = OPAQUE, 0
        if isinstance(f, (ast.Name, ast.Attribute)):
            v = self.lint.value(f, sc if sc.kind != "module" else Wrap(sc))
        if v is OPAQUE and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and sc.kind == "function" and \
                f.value.id == sc.self_name and sc.cls is not None:
            if f.attr.startswith("__") and not f.attr.endswith("__"):
                return
            fam = [k for k in self.lint.classes if any(isinstance(m, Ref) and m == sc.cls for m in it.mro(k))]
            ms = [it.class_lookup(k, f.attr) for k in fam or [sc.cls]]
            if any(not isinstance(m, Ref) for m in ms) or self.lint.class_opaque(sc.cls):
                return
            fails = [self.bind(m, x, 1) for m in ms]
            if fails and all(r is not None for r in fails):
                self.report("calls", ast.unparse(f), False, "%s: %s" % (ast.unparse(x)[:100], fails[0]), x)
            elif fails:
                self.report("calls", ast.unparse(f), True, "", x)
            return
        if not isinstance(v, Ref):
            return
        r = it.rec(v)
        if isinstance(r, ClassRec):
            if r.meta is not None and isinstance(it.simp(r.meta), Ref) or r.members is not None:
                return
            new = it.class_lookup(v, "__new__")
            if isinstance(new, Ref) or r.payload_new if hasattr(r, "payload_new") else isinstance(new, Ref):
                return
            m = it.class_lookup(v, "__init__")
            if not isinstance(m, Ref):
                return
            res = self.bind(m, x, 1)
        elif isinstance(r, FuncRec):
            # a function reached through a class is called with its receiver written out
            res = self.bind(v, x, 0)
        else:
            return
        self.report("calls", ast.unparse(f), res is None, "%s: %s" % (ast.unparse(x)[:100], res), x)

    def bind(self, fn, call, skip):
        """None when the arguments fit the parameters of the function (or nothing is known about it)"""
        it = self.it
        r = it.rec(fn)
        if isinstance(r, ObjRec) or not isinstance(r, FuncRec):
            return None
        seen = 0
        recorded = False
        while True:
            w = it.simp(r.attrs.get("__wrapped__")) if isinstance(r, FuncRec) else None
            if isinstance(w, Ref) and isinstance(it.rec(w), FuncRec) and seen < 5:
                # a wrapper that passes everything on
                a = r.node.args
                if not (a.vararg and a.kwarg and not a.args):
                    break
                r = it.rec(w)
                recorded = True
                seen += 1
            else:
                break
        a = r.node.args
        if any(isinstance(y, ast.Starred) for y in call.args) or any(k.arg is None for k in call.keywords):
            return None
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        ndef = len(a.defaults)
        required = [p.arg for p in a.posonlyargs + a.args][: len(a.posonlyargs + a.args) - ndef][skip:]
        kwonly = [p.arg for p in a.kwonlyargs]
        kwreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        n = len(call.args)
        kws = [k.arg for k in call.keywords if not (recorded and k.arg == "__no_command__")]
        if recorded and "__no_command__" in kws:
            kws.remove("__no_command__")
        if n > len(pos) and a.vararg is None:
            return "%d positional arguments given, %d accepted by %s" % (n, len(pos), r.name)
        for k in kws:
            if k in pos[:n] and k not in [p.arg for p in a.posonlyargs]:
                return "%s got several values for %s" % (r.name, k)
            if k not in pos and k not in kwonly and a.kwarg is None:
                return "%s has no parameter %s" % (r.name, k)
        missing = [p for p in required[n:] if p not in kws] + [p for p in kwreq if p not in kws]
        if missing:
            return "%s is not given its parameter %s" % (r.name, ", ".join(missing))
        return None


class Wrap:
    """module scope seen as a lookup"""

    def __init__(self, sc):
        self.sc = sc

    def lookup(self, name):
        v = self.sc.global_value(name)
        return OPAQUE if v is None else v


def rules(ctx):
    """RULES entry: every instance of every rule"""
    try:
        it = ctx.interp()
        return Lint(it).run()
    except Unsupported as e:
        return [Finding("lint", "all", False, str(e), undetermined=True)]
