"""Abstract interpreter: a forward value-graph (gated value numbering) analysis of Python source.

It works on the syntax tree of /repo, never on imported code.  At a branch whose condition is not
determined both arms are analysed and the two abstract states are JOINED: cells that differ become a
gate `phi(cond, a, b)`; no path is enumerated to the end and no constraint is handed to a solver.
Exceptions, returns, breaks travel as pending states to the construct that receives them, so `finally`
and `except` are analysed for every pending exit.
"""
import ast
import builtins
import functools
import operator
import os
import sys
import math
from .values import *

sys.setrecursionlimit(60000)


class Dead(Exception):
    """the current abstract state has no continuation here"""


class Unsupported(Exception):
    """the analysis cannot model a construct; the obligation becomes undetermined"""


# ------------------------------------------------------------------------------------- records
PROTOCOL = {"__hash__", "__iter__", "__eq__", "__contains__", "__reversed__", "__array_ufunc__", "__array_priority__",
            "__getitem__", "__len__", "__bool__", "__call__", "__next__", "__doc__", "__array__"}
NONE_ATTR = Native("class attribute whose value is None", None)


class Rec:
    __slots__ = ()

    def copy(self):
        c = object.__new__(type(self))
        for k in type(self).__slots__:
            v = getattr(self, k)
            setattr(c, k, dict(v) if isinstance(v, dict) else v)
        return c


def _rec(name, slots, defaults=None):
    defaults = defaults or {}
    ns = {"__slots__": tuple(slots)}

    def __init__(self, *a, **k):
        for s, v in zip(slots, a):
            setattr(self, s, v)
        for s in slots[len(a):]:
            if s in k:
                setattr(self, s, k[s])
            else:
                d = defaults.get(s)
                setattr(self, s, {} if d is dict else d)
    ns["__init__"] = __init__
    return type(name, (Rec,), ns)


ObjRec = _rec("ObjRec", ["cls", "attrs", "payload", "lazy"], {"attrs": dict})
ListRec = _rec("ListRec", ["items", "kind"])  # kind: None for a list, else the kind of dict view
VIEWS = {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}
SetRec = _rec("SetRec", ["items"])
DictRec = _rec("DictRec", ["d", "default"])
ClassRec = _rec("ClassRec", ["name", "bases", "mro", "attrs", "meta", "module", "qual", "node", "members"],
                {"attrs": dict})
FuncRec = _rec("FuncRec", ["node", "env", "defaults", "kwdefaults", "name", "module", "attrs", "info", "anns"],
               {"attrs": dict})
ModRec = _rec("ModRec", ["name", "attrs", "file"], {"attrs": dict})
EnvRec = _rec("EnvRec", ["vars", "parent", "info", "module", "kind"], {"vars": dict})
GenRec = _rec("GenRec", ["call", "items", "pos"])
IterRec = _rec("IterRec", ["src", "pos"])
ExtRec = _rec("ExtRec", ["path", "attrs", "args", "kwargs", "calls"], {"attrs": dict})
StoreRec = _rec("StoreRec", ["cells"])


class DictVal:
    """immutable dict contents: dkey -> (key, value)"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class ScopeInfo:
    """static facts about a function: its locals, globals, nonlocals, generator-ness"""

    def __init__(self, node):
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            if a.vararg:
                self.locals.add(a.vararg.arg)
            if a.kwarg:
                self.locals.add(a.kwarg.arg)
            body = node.body if isinstance(node.body, list) else [node.body]
        else:
            body = node.body
        for s in body:
            self._visit(s)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    def _visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    self._visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    self.locals.add(w.target.id)
            return
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self._visit(c)


_scope_cache = {}


def scope_info(node):
    r = _scope_cache.get(id(node))
    if r is None:
        r = (ScopeInfo(node), node)
        _scope_cache[id(node)] = r
    return r[0]


class State:
    __slots__ = ("heap", "assume", "pc")

    def __init__(self):
        self.heap = {}
        self.assume = {}
        self.pc = ()

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.assume = dict(self.assume)
        s.pc = self.pc
        return s


class Loop:
    def __init__(self):
        self.breaks = []
        self.conts = []


class Frame:
    def __init__(self, env, func=None, module=None, name="<module>"):
        self.env = env
        self.func = func
        self.module = module
        self.name = name
        self.returns = []
        self.loops = []
        self.yields = None
        self.yield_cb = None


BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv",
       ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor",
       ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}
DUNDER = {"add": "add", "sub": "sub", "mul": "mul", "div": "truediv", "floordiv": "floordiv", "mod": "mod",
          "pow": "pow", "bitand": "and", "bitor": "or", "bitxor": "xor", "lshift": "lshift",
          "rshift": "rshift", "matmul": "matmul"}

BUILTIN_CLASSES = (int, float, str, bytes, bool, list, tuple, dict, set, frozenset, complex, type(None), object,
                   type, memoryview, slice, range, bytearray)


def _qualify(node, prefix):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            c._qual = prefix + c.name
            _qualify(c, c._qual + ".")
        else:
            _qualify(c, prefix)


class Interp:
    def __init__(self, root="/repo", packages=("gsp", "gsp_matplotlib")):
        self.root = root
        self.packages = packages
        self.st = State()
        self.next = 1
        self.frames = []
        self.sinks = [[]]
        self.modules = {}         # name -> Ref (persisted in base state)
        self.taint = {}           # concrete string literal -> term for float()
        self.visited = set()      # (file, lineno) of statements analysed
        self.funcs_seen = set()
        self.funcs_keys = set()
        self.calls_analysed = 0
        self.forks = 0
        self.may_raise = None     # predicate on the path of an opaque operation
        self.loc = ("?", 0)
        self.err_loc = None
        self.depth = 0
        self.max_depth = 260
        self.hooks = {}           # qualified function name -> python function(interp, args, kwargs)
        self.overlay = {}         # module name -> source text (analysis client programs)
        self.notes = []
        self.budget = None
        from . import models, nparr, extm
        self.models = {}
        self.methods = {}
        models.install(self)
        nparr.install(self)
        extm.install(self)

    # ------------------------------------------------------------------ state handling
    def alloc(self, rec):
        a = self.next
        self.next += 1
        self.st.heap[a] = rec
        return Ref(a)

    def rec(self, ref):
        return self.st.heap[ref.addr]

    def put(self, ref, rec):
        self.st.heap[ref.addr] = rec

    def decide(self, c):
        """simplify a condition under the facts of the current state"""
        if not isinstance(c, Term):
            return bool(c)
        asm = self.st.assume
        if c in asm:
            return asm[c]
        if c.op == "not":
            return mk_not(self.decide(c.args[0]))
        if c.op == "and":
            return mk_and(self.decide(c.args[0]), self.decide(c.args[1]))
        if c.op in ("eq", "lt", "is_none", "truth") and any(is_phi(x) for x in c.args):
            args = [self.simp(x) for x in c.args]
            if any(x is not y for x, y in zip(args, c.args)):
                if c.op == "eq":
                    return self.decide(eq(*args))
                if c.op == "lt":
                    return self.decide(lt(*args))
        return c

    def simp(self, v):
        while isinstance(v, Term) and v.op == "phi":
            c = self.decide(v.args[0])
            if c is True:
                v = v.args[1]
            elif c is False:
                v = v.args[2]
            else:
                break
        return v

    def assume(self, st, c, b):
        if c in st.assume:
            return
        st.assume[c] = b
        if c.op == "not":
            self.assume(st, c.args[0], not b)
        elif c.op == "and" and b:
            for x in c.args:
                if isinstance(x, Term):
                    self.assume(st, x, True)
        elif c.op == "lt" and b:
            x, y = c.args
            for d in (lt(y, x), eq(x, y)):
                if isinstance(d, Term):
                    st.assume.setdefault(d, False)
        elif c.op == "eq" and b:
            x, y = c.args
            for d in (lt(y, x), lt(x, y)):
                if isinstance(d, Term):
                    st.assume.setdefault(d, False)

    def fork(self, c, ft, ff):
        c = self.decide(c)
        if c is True:
            return ft()
        if c is False:
            return ff()
        if c.op == "not":
            return self.fork(c.args[0], ff, ft)
        self.forks += 1
        if self.budget is not None and self.forks > self.budget:
            raise Unsupported("fork budget exhausted")
        base = self.st
        res = []
        for b, f in ((True, ft), (False, ff)):
            s = base.copy()
            s.pc = base.pc + ((c, b),)
            self.assume(s, c, b)
            self.st = s
            try:
                v = f()
                if self.st is not None:
                    res.append((self.st, v))
            except Dead:
                pass
        if not res:
            self.st = None
            raise Dead()
        return self.join_many(res)

    def dist(self, v, fn):
        """apply fn to every alternative of a gated value"""
        v = self.simp(v)
        if is_phi(v):
            a, b = v.args[1], v.args[2]
            return self.fork(v.args[0], lambda: self.dist(a, fn), lambda: self.dist(b, fn))
        return fn(v)

    def join_many(self, res):
        """join [(state, value)]; sets self.st and returns the joined value"""
        res = list(res)
        if not res:
            self.st = None
            raise Dead()
        while len(res) > 1:
            # the pair with the longest common decision prefix
            best = None
            for i in range(len(res) - 1):
                n = self._common(res[i][0].pc, res[i + 1][0].pc)
                if best is None or n > best[0]:
                    best = (n, i, i + 1)
            if len(res) > 2:
                for i in range(len(res)):
                    for j in range(i + 2, len(res)):
                        n = self._common(res[i][0].pc, res[j][0].pc)
                        if n > best[0]:
                            best = (n, i, j)
            n, i, j = best
            b = res.pop(j)
            a = res.pop(i)
            res.insert(i, self.join2(a, b, n))
        self.st, v = res[0]
        return v

    @staticmethod
    def _common(p, q):
        n = 0
        for x, y in zip(p, q):
            if x[0] is y[0] and x[1] == y[1]:
                n += 1
            else:
                break
        return n

    def join2(self, a, b, n):
        (A, va), (B, vb) = a, b
        if len(A.pc) == n and len(B.pc) > n:
            (A, va), (B, vb) = (B, vb), (A, va)
        if len(A.pc) == n:
            lits = [(fresh("choice", "bool"), True)]
        elif len(B.pc) == n:
            lits = list(A.pc[n:])
        elif A.pc[n][0] is B.pc[n][0]:
            lits = [A.pc[n]]
        else:
            lits = list(A.pc[n:])

        def phi(x, y):
            if x is y:
                return x
            r = x
            for c, val in reversed(lits):
                r = mk_phi(c if val else mk_not(c), r, y)
            return r
        S = State.__new__(State)
        S.pc = A.pc[:n]
        S.assume = {k: v for k, v in A.assume.items() if k in B.assume and B.assume[k] == v}
        H = dict(A.heap)
        for addr, rb in B.heap.items():
            ra = H.get(addr)
            if ra is rb:
                continue
            if ra is None:
                H[addr] = rb
            else:
                H[addr] = self.merge_rec(ra, rb, phi)
        S.heap = H
        return (S, phi(va, vb))

    def merge_dict(self, a, b, phi):
        out = {}
        for k in a:
            out[k] = phi(a[k], b.get(k, ABSENT)) if k in b else phi(a[k], ABSENT)
        for k in b:
            if k not in a:
                out[k] = phi(ABSENT, b[k])
        return out

    def merge_items(self, a, b, phi):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(phi(x, y) for x, y in zip(a, b))
        return phi(a, b)

    def merge_rec(self, a, b, phi):
        if type(a) is not type(b):
            raise Unsupported("join of different record kinds")
        r = a.copy()
        if isinstance(a, (ListRec, SetRec)):
            r.items = self.merge_items(a.items, b.items, phi)
        elif isinstance(a, DictRec):
            if isinstance(a.d, DictVal) and isinstance(b.d, DictVal):
                if list(a.d.d) == list(b.d.d):
                    r.d = DictVal({k: (a.d.d[k][0], phi(a.d.d[k][1], b.d.d[k][1])) for k in a.d.d})
                else:
                    r.d = phi(a.d, b.d)
            else:
                r.d = phi(a.d, b.d)
        elif isinstance(a, StoreRec):
            if a.cells.shape != b.cells.shape:
                raise Unsupported("join of storages of different size")
            out = a.cells.copy()
            for i in range(len(out)):
                out[i] = phi(a.cells[i], b.cells[i])
            r.cells = out
        elif isinstance(a, EnvRec):
            r.vars = self.merge_dict(a.vars, b.vars, phi)
        elif isinstance(a, (ObjRec, ClassRec, FuncRec, ModRec, ExtRec)):
            r.attrs = self.merge_dict(a.attrs, b.attrs, phi)
            if isinstance(a, ObjRec):
                r.payload = a.payload if a.payload is b.payload or same(a.payload, b.payload) \
                    else self.merge_payload(a.payload, b.payload, phi)
            if isinstance(a, ExtRec):
                r.calls = self.merge_items(a.calls, b.calls, phi)
        elif isinstance(a, (GenRec, IterRec)):
            r.pos = phi(a.pos, b.pos)
            if isinstance(a, GenRec):
                if a.items is None or b.items is None:
                    if a.items is not b.items:
                        raise Unsupported("join of generator states")
                else:
                    r.items = self.merge_items(a.items, b.items, phi)
        return r

    def merge_payload(self, a, b, phi):
        return phi(a, b)

    # ------------------------------------------------------------------ exceptions
    def throw(self, exc):
        self.sinks[-1].append((self.st, exc, self.loc))
        self.st = None
        raise Dead()

    def make_exc(self, name, *args):
        return self.alloc(ObjRec(Ext("builtins." + name, getattr(builtins, name)), {}, tuple(args)))

    def raise_(self, name, *args):
        self.throw(self.make_exc(name, *args))

    def maybe_raise(self, path):
        """an operation of unknown outcome: add an exceptional edge when the analysis asks for it"""
        if self.may_raise is None:
            return
        t = self.may_raise(path)
        if not t:
            return
        c = fresh("raises:%s@%d" % (path, self.loc[1]), "bool")
        def boom():
            self.throw(self.make_exc("Exception", "raised by %s at %s:%d" % ((path,) + tuple(self.loc))))
        self.fork(c, boom, lambda: None)

    def unsupported(self, msg):
        raise Unsupported("%s (at %s:%d)" % (msg, self.loc[0], self.loc[1]))

    # ------------------------------------------------------------------ modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def import_module(self, name):
        """returns a Ref to the module (analysed) or an Ext"""
        top = name.split(".")[0]
        if top not in self.packages and name not in self.overlay:
            return self.ext_module(name)
        mods = self.rec(self.sysmods).d.d
        if name in mods:
            return mods[name][1]
        parent = None
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            mods = self.rec(self.sysmods).d.d
            if name in mods:
                return mods[name][1]
        if name in self.overlay:
            file, pkg, src = "<client:%s>" % name, False, self.overlay[name]
        else:
            file, pkg = self.module_file(name)
            if file is None:
                self.raise_("ModuleNotFoundError", "No module named %r" % name)
            src = open(file, encoding="utf8").read()
        tree = self.parse(src, file)
        ref = self.alloc(ModRec(name, {"__name__": name, "__file__": file, "__doc__": ast.get_docstring(tree, False),
                                       "__package__": name if pkg else name.rpartition(".")[0]}, file))
        d = dict(self.rec(self.sysmods).d.d)
        d[name] = (name, ref)
        self.put(self.sysmods, DictRec(DictVal(d)))
        self.modules[name] = ref
        fr = Frame(None, None, ref, "<module %s>" % name)
        loc = self.loc
        self.frames.append(fr)
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
            self.loc = loc
        if isinstance(parent, Ref):
            r = self.rec(parent).copy()
            r.attrs[name.rsplit(".", 1)[1]] = ref
            self.put(parent, r)
        return ref

    _parse_cache = {}

    def parse(self, src, file):
        key = (file, hash(src))
        if key not in self._parse_cache:
            tree = ast.parse(src, file)
            for n in ast.walk(tree):
                n._file = file
            _qualify(tree, "")
            self._parse_cache[key] = tree
        return self._parse_cache[key]

    def boot(self, names=("gsp", "gsp_matplotlib")):
        self.sysmods = self.alloc(DictRec(DictVal({})))
        self.files = self.alloc(DictRec(DictVal({})))
        self.trace = self.alloc(ListRec(()))
        self.extlist = self.alloc(ListRec(()))
        self.overlay["gspsa_rt"] = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rt.txt"),
                                        encoding="utf8").read()
        self.rt = self.import_module("gspsa_rt")
        for n in names:
            self.import_module(n)
        self.base = self.st.copy()
        return self

    def reset(self):
        """start a new scenario from the state after import"""
        self.st = self.base.copy()
        self.sinks = [[]]
        self.frames = []
        self.depth = 0
        self.loc = ("<scenario>", 0)
        self.err_loc = None
        self.may_raise = None
        self.hooks = {}
        self.forks = 0

    def ext_module(self, name):
        import importlib
        obj = Ext.MISSING
        top = name.split(".")[0]
        if top in ("numpy", "math", "cmath", "re", "io", "sys", "os", "typing", "types", "inspect", "itertools",
                   "functools", "datetime", "enum", "collections", "base64", "json", "operator", "pathlib",
                   "contextlib", "warnings", "logging", "string", "copy", "abc", "dataclasses", "struct",
                   "__future__", "array", "numbers", "textwrap", "linecache", "random", "time", "bisect",
                   "heapq", "weakref", "threading", "builtins", "pprint", "collections"):
            try:
                obj = importlib.import_module(name)
            except ImportError:
                pass
        return Ext(name, obj)

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        f = getattr(s, "_file", self.loc[0])
        self.loc = (f, s.lineno)
        self.visited.add(self.loc)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement " + type(s).__name__)
        try:
            m(s)
        except Dead:
            raise
        except Exception:
            if self.err_loc is None:
                self.err_loc = self.loc
            raise
        if self.st is None:
            raise Dead()

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.stmt_value = s.value
        self.ev(s.value)

    stmt_value = None

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store_name(al.asname, m)
            else:
                self.store_name(al.name.split(".")[0], self.import_module(al.name.split(".")[0]))

    def s_ImportFrom(self, s):
        if s.level:
            modname = self.rec(self.frame().module).name
            pkg = self.rec(self.frame().module).attrs.get("__package__") or modname
            base = pkg.split(".")
            if s.level > 1:
                base = base[:-(s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == "__future__":
            return
        m = self.import_module(name)
        for al in s.names:
            if al.name == "*":
                if isinstance(m, Ref):
                    attrs = self.rec(m).attrs
                    if "__all__" in attrs:
                        names = list(self.rec(attrs["__all__"]).items) if isinstance(attrs["__all__"], Ref) \
                            else list(attrs["__all__"])
                    else:
                        names = [n for n in attrs if not n.startswith("_")]
                    for n in names:
                        self.store_name(n, self.get_attr(m, n))
                elif m.obj is not Ext.MISSING:
                    for n in getattr(m.obj, "__all__", [x for x in dir(m.obj) if not x.startswith("_")]):
                        self.store_name(n, self.get_attr(m, n))
                continue
            if isinstance(m, Ref):
                v = self.rec(m).attrs.get(al.name, ABSENT)
                if v is ABSENT:
                    sub = name + "." + al.name
                    if self.module_file(sub)[0] or sub in self.overlay:
                        v = self.import_module(sub)
                    else:
                        self.raise_("ImportError", "cannot import name %r from %r" % (al.name, name))
            else:
                v = self.get_attr(m, al.name)
            self.store_name(al.asname or al.name, v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        env = self.rec(self.frame().env)
        if env.kind == "class" and isinstance(s.target, ast.Name):
            e = env.copy()
            e.vars = dict(e.vars)
            e.vars["__annotations__"] = self.new_dict(
                [(k, v) for k, v in (self.dict_val(e.vars["__annotations__"]).values() if "__annotations__" in e.vars else ())] +
                [(s.target.id, ast.unparse(s.annotation))])
            self.put(self.frame().env, e)

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            self.store_name(t.id, self.inplace(op, old, lambda: self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            name = self.mangle(t.attr)
            old = self.get_attr(o, name)
            self.set_attr(o, name, self.inplace(op, old, lambda: self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, old, lambda: self.ev(s.value)))
        else:
            self.unsupported("augmented target")

    def inplace(self, op, old, rhs):
        v = rhs()

        def f(old):
            if isinstance(old, Ref):
                r = self.rec(old)
                if isinstance(r, ListRec) and op == "add":
                    items = self.to_items(v)
                    self.list_extend(old, items)
                    return old
                if isinstance(r, ObjRec):
                    m = self.class_lookup(r.cls, "__i%s__" % DUNDER[op])
                    if m is not None:
                        x = self.call(m, [old, v], {})
                        if not self.is_notimpl(x):
                            return x
                    elif self.is_array(old):
                        return self.arr_inplace(op, old, v)
                if isinstance(r, (SetRec, DictRec)) and op in ("bitor", "bitand", "sub"):
                    if isinstance(r, DictRec):
                        self.call_method(old, "update", [v])
                    else:
                        self.call_method(old, {"bitor": "update", "sub": "difference_update",
                                               "bitand": "intersection_update"}[op], [v])
                    return old
            return self.binop(op, old, v)
        return self.dist_ref(old, f)

    def dist_ref(self, v, f):
        """distribute over gates only when some alternative is not a plain scalar"""
        v = self.simp(v)
        if is_phi(v) and not self.scalar_like(v):
            return self.dist(v, f)
        return f(v)

    def scalar_like(self, v):
        if is_phi(v):
            return self.scalar_like(v.args[1]) and self.scalar_like(v.args[2])
        if isinstance(v, Term):
            return v.op != "select" or is_scalar_select(v)
        return is_num(v)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frame().returns.append((self.st, v))
        self.st = None
        raise Dead()

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.del_name(t.id)
            elif isinstance(t, ast.Attribute):
                self.del_attr(self.ev(t.value), self.mangle(t.attr))
            elif isinstance(t, ast.Subscript):
                d = self.dict_owner(t.value)
                if d is not None:
                    k = self.ev(t.slice)
                    if self.rec(d).attrs.get(k, ABSENT) is ABSENT:
                        self.raise_("KeyError", k)
                    self.del_attr(d, k)
                    continue
                self.delitem(self.ev(t.value), self.ev(t.slice))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.s_Delete(ast.Delete(targets=[e]))
            else:
                self.unsupported("del target")

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.fork(c, lambda: None, lambda: self.raise_("AssertionError"))

    def s_Raise(self, s):
        if s.exc is None:
            e = self.frame_exc()
            if e is None:
                self.raise_("RuntimeError", "No active exception to reraise")
            self.throw(e)
        e = self.ev(s.exc)

        def f(e):
            if self.is_class(e):
                e = self.call(e, [], {})
                return self.dist(e, self.throw)
            cls = self.type_of(e)
            if not self.is_exc_class(cls):
                self.raise_("TypeError", "exceptions must derive from BaseException")
            if s.cause is not None:
                c = self.simp(self.ev(s.cause))
                if self.is_class(c):
                    c = self.call(c, [], {})
                self.set_attr_plain(e, "__cause__", c)
            self.throw(e)
        self.dist(e, f)

    def is_exc_class(self, cls):
        for c in self.mro(cls):
            if isinstance(c, Ext) and c.obj is BaseException:
                return True
        return False

    def frame_exc(self):
        return self.exc_stack[-1] if self.exc_stack else None

    exc_stack = []

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            f = self.call(dv, [f], {})
        self.store_name(s.name, f)

    def make_func(self, node, name=None):
        a = node.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwdefaults = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frame()
        anns = {}
        if not isinstance(node, ast.Lambda):
            future = self.has_future(fr.module)
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                if x.annotation is not None:
                    anns[x.arg] = ast.unparse(x.annotation) if future else self.ev(x.annotation)
            if node.returns is not None:
                anns["return"] = ast.unparse(node.returns) if future else self.ev(node.returns)
        return self.alloc(FuncRec(node, fr.env, defaults, kwdefaults, name or getattr(node, "name", "<lambda>"),
                                  fr.module, {}, scope_info(node), anns))

    def has_future(self, module):
        f = self.rec(module).file
        key = ("future", f)
        if key not in self._parse_cache:
            src = self.overlay[self.rec(module).name] if self.rec(module).name in self.overlay else \
                open(f, encoding="utf8").read()
            self._parse_cache[key] = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(
                x.name == "annotations" for x in n.names) for n in self.parse(src, f).body)
        return self._parse_cache[key]

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            bases.append(self.simp(self.ev(b)))
        kw = {k.arg: self.ev(k.value) for k in s.keywords}
        meta = kw.pop("metaclass", None)
        cls = self.make_class(s, tuple(bases), meta)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d), [cls], {})
        self.store_name(s.name, cls)

    def make_class(self, node, bases, meta):
        fr = self.frame()
        if not bases:
            bases = (Ext("builtins.object", object),)
        if meta is None:
            for b in bases:
                if isinstance(b, Ref) and self.rec(b).meta is not None:
                    meta = self.rec(b).meta
        # cell scope holding __class__
        cell = self.alloc(EnvRec({}, fr.env, None, fr.module, "cell"))
        env = self.alloc(EnvRec({"__module__": self.rec(fr.module).name, "__qualname__": node.name},
                                cell, None, fr.module, "class"))
        doc = ast.get_docstring(node, False)
        if doc is not None:
            self.rec(env).vars["__doc__"] = doc
        cfr = Frame(env, None, fr.module, "<class %s>" % node.name)
        self.frames.append(cfr)
        try:
            self.block(node.body)
        finally:
            self.frames.pop()
        attrs = dict(self.rec(env).vars)
        cref = self.alloc(ClassRec(node.name, bases, None, attrs, meta, fr.module, node.name, node))
        r = self.rec(cref)
        r.mro = self.c3(cref, bases)
        e = self.rec(cell).copy()
        e.vars["__class__"] = cref
        self.put(cell, e)
        if any(isinstance(c, Ext) and c.path.startswith("enum.") for c in r.mro):
            self.make_enum(cref)
        return cref

    def c3(self, cref, bases):
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [cref]
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                return tuple(out)
            for q in seqs:
                h = q[0]
                if not any(any(same(h, x) for x in p[1:]) for p in seqs):
                    break
            else:
                self.unsupported("inconsistent MRO")
            out.append(h)
            for q in seqs:
                if same(q[0], h):
                    del q[0]

    def make_enum(self, cref):
        r = self.rec(cref).copy()
        members = []
        for k, v in list(r.attrs.items()):
            if k.startswith("__") and k.endswith("__") or k.startswith("_"):
                continue
            if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec) and isinstance(self.rec(v).cls, Ext) and \
                    self.rec(v).cls.path == "enum.auto":
                last = [self.rec(m).attrs["_value_"] for m in members]
                if any(isinstance(c, Ext) and c.path in ("enum.Flag", "enum.IntFlag", "enum.StrEnum") for c in r.mro) or \
                        not all(isinstance(x, int) for x in last):
                    self.unsupported("enum.auto")
                v = max(last + [0]) + 1
            if isinstance(v, (Ref, ClsM, StatM, PropV)):
                continue
            if isinstance(v, (int, str, float)) or isinstance(v, tuple) and not has_sym(v) and \
                    self.class_lookup(cref, "__init__") is None:
                is_int = any(isinstance(c, Ext) and c.path in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum", "builtins.int", "builtins.str", "builtins.float")
                             for c in r.mro)
                dup = [m for m in members if same(self.rec(m).attrs["_value_"], v)]
                if dup:
                    r.attrs[k] = dup[0]
                    continue
                m = self.alloc(ObjRec(cref, {"_name_": k, "_value_": v, "name": k, "value": v},
                                      v if is_int else None))
                r.attrs[k] = m
                members.append(m)
        r.members = tuple(members)
        self.put(cref, r)

    # ---- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop_over(it, s.target, s.body, s.orelse)

    def loop_over(self, it, target, body, orelse):
        fr = self.frame()
        loop = Loop()
        fr.loops.append(loop)
        done = []

        def one(v):
            base_loops = len(fr.loops)
            ok = []
            try:
                self.assign(target, v)
                self.block(body)
                ok.append((self.st, None))
            except Dead:
                pass
            ok += loop.conts
            loop.conts = []
            self.join_many(ok)

        try:
            self.for_each(it, one)
            if orelse:
                fr.loops.pop()
                try:
                    self.block(orelse)
                finally:
                    fr.loops.append(loop)
            done.append((self.st, None))
        except Dead:
            pass
        fr.loops.pop()
        done += loop.breaks
        self.join_many(done)

    def for_each(self, it, fn):
        """run fn on each element of an abstract iterable"""
        it = self.simp(it)
        if is_phi(it):
            a, b = it.args[1], it.args[2]
            return self.fork(it.args[0], lambda: self.for_each(a, fn), lambda: self.for_each(b, fn))
        if isinstance(it, Ref):
            r = self.rec(it)
            if isinstance(r, ListRec):
                return self._for_list(it, 0, fn)
            if isinstance(r, ObjRec) and not self.is_array(it):
                m = self.class_lookup(r.cls, "__iter__")
                if m is not None and not isinstance(m, Ext):
                    return self.for_each(self.call(m, [it], {}), fn)
                if m is None and self.class_lookup(r.cls, "__next__") is None:
                    g = self.class_lookup(r.cls, "__getitem__")
                    if g is not None:
                        return self._for_getitem(it, fn)
                if self.class_lookup(r.cls, "__next__") is not None and not isinstance(
                        self.class_lookup(r.cls, "__next__"), Ext):
                    return self._for_next(it, fn)
        items = self.to_items(it)

        def go(items):
            for x in items:
                fn(x)
        self.dist(items, go)

    def _for_next(self, it, fn):
        for i in range(4096):
            sink = []
            self.sinks.append(sink)
            try:
                try:
                    v = self.call_method(it, "__next__", [])
                    alive = True
                except Dead:
                    alive = False
            finally:
                self.sinks.pop()
            stop = [x for x in sink if self.exc_in(x, Ext("builtins.StopIteration", StopIteration)) is True]
            rest = [x for x in sink if x not in stop]
            self.sinks[-1].extend(rest)
            if alive and stop:
                self.unsupported("conditionally exhausted iterator")
            if stop:
                self.join_many([(x[0], None) for x in stop])
                return
            if not alive:
                raise Dead()
            fn(v)
        self.unsupported("iterator not bounded")

    def _for_getitem(self, it, fn):
        for i in range(4096):
            sink = []
            self.sinks.append(sink)
            try:
                try:
                    v = self.getitem(it, i)
                    alive = True
                except Dead:
                    alive = False
            finally:
                self.sinks.pop()
            stop = [x for x in sink if self.exc_in(x, Ext("builtins.IndexError", IndexError)) is True]
            rest = [x for x in sink if x not in stop]
            self.sinks[-1].extend(rest)
            if alive and stop:
                self.unsupported("conditionally exhausted sequence")
            if stop:
                self.join_many([(x[0], None) for x in stop])
                return
            if not alive:
                raise Dead()
            fn(v)
        self.unsupported("iteration not bounded")

    def _for_list(self, ref, i, fn):
        while True:
            items = self.simp(self.rec(ref).items)
            if is_phi(items):
                self.fork(items.args[0], lambda: self._for_list(ref, i, fn), lambda: self._for_list(ref, i, fn))
                return
            if i >= len(items):
                return
            fn(items[i])
            i += 1
            if i > 5000:
                self.unsupported("loop not bounded")

    def s_While(self, s):
        fr = self.frame()
        loop = Loop()
        fr.loops.append(loop)
        done = []

        def body():
            ok = []
            try:
                self.block(s.body)
                ok.append((self.st, None))
            except Dead:
                pass
            ok += loop.conts
            loop.conts = []
            self.join_many(ok)

        def step(n, und):
            while True:
                n += 1
                if n > 3000:
                    self.unsupported("while loop not bounded")
                c = self.decide(self.truth(self.ev(s.test)))
                if c is True:
                    body()
                    continue
                if c is False:
                    return
                if und >= 12:
                    self.unsupported("while loop with undetermined condition")

                def again():
                    body()
                    step(n, und + 1)
                self.fork(c, again, lambda: None)
                return
        try:
            step(0, 0)
            if s.orelse:
                fr.loops.pop()
                try:
                    self.block(s.orelse)
                finally:
                    fr.loops.append(loop)
            done.append((self.st, None))
        except Dead:
            pass
        fr.loops.pop()
        done += loop.breaks
        self.join_many(done)

    def s_Break(self, s):
        self.frame().loops[-1].breaks.append((self.st, None))
        self.st = None
        raise Dead()

    def s_Continue(self, s):
        self.frame().loops[-1].conts.append((self.st, None))
        self.st = None
        raise Dead()

    # ---- try / with
    def exc_matches(self, exc, typ):
        """True / False / Term: does the exception value match the handler type"""
        if isinstance(typ, tuple):
            r = False
            for t in typ:
                r = mk_or(r, self.exc_matches(exc, t))
            return r
        if isinstance(typ, Ref) and isinstance(self.rec(typ), ListRec):
            return False
        if is_phi(exc):
            return mk_ite(exc.args[0], self.exc_matches(exc.args[1], typ), self.exc_matches(exc.args[2], typ))
        cls = self.type_of(exc)
        if isinstance(cls, Ext) and cls.obj is Exception and isinstance(typ, Ext) and \
                typ.obj is not Ext.MISSING and typ.obj not in (Exception, BaseException):
            args = self.rec(exc).payload
            if args and isinstance(args[0], str) and args[0].startswith("raised by"):
                return mk("exc_is", exc, typ, ty="bool")      # an unknown exception may or may not match
        return self.issubclass_(cls, typ)

    def exc_in(self, exit_, typ):
        """exc_matches for an exit (state, exception) other than the current state"""
        old, self.st = self.st, exit_[0]
        try:
            return self.exc_matches(exit_[1], typ)
        finally:
            self.st = old

    def run_capture(self, fn):
        """run fn() capturing every exit; returns list of (state, completion)"""
        fr = self.frame()
        sink = []
        self.sinks.append(sink)
        old_ret, fr.returns = fr.returns, []
        loop = fr.loops[-1] if fr.loops else None
        if loop:
            ob, oc = loop.breaks, loop.conts
            loop.breaks, loop.conts = [], []
        comps = []
        try:
            try:
                fn()
                comps.append((self.st, ("normal", None)))
            except Dead:
                pass
        finally:
            self.sinks.pop()
            rets, fr.returns = fr.returns, old_ret
            if loop:
                br, co = loop.breaks, loop.conts
                loop.breaks, loop.conts = ob, oc
        comps += [(st, ("return", v)) for st, v in rets]
        if loop:
            comps += [(st, ("break", None)) for st, _ in br]
            comps += [(st, ("continue", None)) for st, _ in co]
        comps += [(st, ("raise", e)) for st, e, l in sink]
        return comps

    def resume(self, comp):
        """continue with a completion captured earlier"""
        def f(c):
            kind, v = c
            fr = self.frame()
            if kind == "normal":
                return
            if kind == "return":
                fr.returns.append((self.st, v))
            elif kind == "break":
                fr.loops[-1].breaks.append((self.st, None))
            elif kind == "continue":
                fr.loops[-1].conts.append((self.st, None))
            else:
                self.throw(v)
            self.st = None
            raise Dead()
        self.dist(comp, f)

    def s_Try(self, s):
        if s.finalbody:
            comps = self.run_capture(lambda: self.try_body(s))
            comp = self.join_many(comps)
            self.block(s.finalbody)
            self.resume(comp)
        else:
            self.try_body(s)

    s_TryStar = s_Try

    def try_body(self, s):
        if not s.handlers:
            self.block(s.body)
            if s.orelse:
                self.block(s.orelse)
            return
        sink = []
        self.sinks.append(sink)
        out = []
        alive = False
        try:
            try:
                self.block(s.body)
                alive = True
            except Dead:
                pass
        finally:
            self.sinks.pop()
        if alive:
            try:
                if s.orelse:
                    self.block(s.orelse)
                out.append((self.st, None))
            except Dead:
                pass
        for st, exc, loc in sink:
            self.st = st
            try:
                self.handle(s.handlers, exc, loc)
                out.append((self.st, None))
            except Dead:
                pass
        self.join_many(out)

    def handle(self, handlers, exc, loc):
        if not handlers:
            self.sinks[-1].append((self.st, exc, loc))
            self.st = None
            raise Dead()
        h = handlers[0]
        if h.type is None:
            c = True
        else:
            c = self.exc_matches(exc, self.simp(self.ev(h.type)))

        def yes():
            if h.name:
                self.store_name(h.name, exc)
            self.exc_stack = self.exc_stack + [exc]
            try:
                self.block(h.body)
            finally:
                self.exc_stack = self.exc_stack[:-1]
        self.fork(c, yes, lambda: self.handle(handlers[1:], exc, loc))

    def s_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            self.block(body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)

        def f(cm):
            if isinstance(cm, Ref) and isinstance(self.rec(cm), ObjRec) and self.rec(cm).payload is not None and \
                    isinstance(self.rec(cm).payload, tuple) and self.rec(cm).payload[:1] == ("gencm",):
                _, func, args, kwargs = self.rec(cm).payload
                return self.with_gen(func, list(args), dict(kwargs), it, items, body)
            entered = self.call_method(cm, "__enter__", [])

            def run():
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, entered)
                self.with_items(items[1:], body)
            comps = self.run_capture(run)
            comp = self.join_many(comps)

            def leave(c):
                kind, v = c
                if kind == "raise":
                    r = self.call_method(cm, "__exit__", [self.type_of(v), v, None])
                    self.fork(self.truth(r), lambda: None, lambda: self.resume(c))
                else:
                    self.call_method(cm, "__exit__", [None, None, None])
                    self.resume(c)
            self.dist(comp, leave)
        self.dist(cm, f)

    def with_gen(self, func, args, kwargs, it, items, body):
        caller = self.frame()
        holder = self.alloc(ListRec((("normal", None),)))

        def cb(value):
            gen_frame = self.frames.pop()
            assert self.frames[-1] is caller
            loc = self.loc
            try:
                def run():
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, value)
                    self.with_items(items[1:], body)
                comps = self.run_capture(run)
                comp = self.join_many(comps)
            finally:
                self.frames.append(gen_frame)
            self.loc = loc

            def at_yield(c):
                if c[0] == "raise":
                    self.throw(c[1])
                self.put(holder, ListRec((c,)))
            self.dist(comp, at_yield)
            return None
        self.call_func(func, args, kwargs, yield_cb=cb)
        self.resume(self.rec(holder).items[0] if isinstance(self.rec(holder).items, tuple) else
                    self.unsupported("with holder"))

    def s_Match(self, s):
        subj = self.ev(s.subject)

        def go(cases):
            if not cases:
                return
            c = cases[0]
            binds = {}
            cond = self.match_pat(c.pattern, subj, binds)

            def yes():
                for k, v in binds.items():
                    self.store_name(k, v)
                if c.guard is not None:
                    g = self.truth(self.ev(c.guard))
                    self.fork(g, lambda: self.block(c.body), lambda: go(cases[1:]))
                else:
                    self.block(c.body)
            self.fork(cond, yes, lambda: go(cases[1:]))
        self.dist_ref(subj, lambda v: go(s.cases))

    def match_pat(self, p, v, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare_eq(v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            c = True
            if p.pattern is not None:
                c = self.match_pat(p.pattern, v, binds)
            if p.name:
                binds[p.name] = v
            return c
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                r = mk_or(r, self.match_pat(q, v, binds))
            return r
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, self.ev(p.cls))
        if isinstance(p, ast.MatchSequence):
            if not (isinstance(v, tuple) or isinstance(v, Ref) and isinstance(self.rec(v), ListRec)):
                return False
            items = v if isinstance(v, tuple) else self.rec(v).items
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            pats = list(p.patterns)
            if star:
                i, n = star[0], len(items) - (len(pats) - 1)
                if n < 0:
                    return False
                if pats[i].name:
                    binds[pats[i].name] = self.new_list(items[i:i + n])
                items = items[:i] + items[i + n:]
                del pats[i]
            if len(items) != len(pats):
                return False
            r = True
            for q, x in zip(pats, items):
                r = mk_and(r, self.match_pat(q, x, binds))
            return r
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, Ref) and isinstance(self.rec(v), DictRec)):
                return False
            r = True
            for key, q in zip(p.keys, p.patterns):
                key = self.ev(key)
                c = self.truth(self.contains(v, key))
                if c is False:
                    return False
                if c is not True:
                    self.unsupported("mapping pattern on a gated dictionary")
                r = mk_and(r, self.match_pat(q, self.getitem(v, key), binds))
            if p.rest:
                self.unsupported("mapping pattern with **rest")
            return r
        if isinstance(p, ast.MatchClass):
            c = self.isinstance_(v, self.ev(p.cls))
            if c is not True:
                if c is False:
                    return False
                self.unsupported("class pattern on a gated value")
            names = list(p.kwd_attrs)
            if p.patterns:
                cls = self.ev(p.cls)
                ma = self.get_attr(cls, "__match_args__", None) if isinstance(cls, Ref) else None
                if ma is None and len(p.patterns) == 1 and isinstance(cls, Ext):
                    return self.match_pat(p.patterns[0], v, binds)
                if not isinstance(ma, tuple):
                    self.unsupported("class pattern")
                names = list(ma[:len(p.patterns)]) + names
            r = True
            for n, q in zip(names, list(p.patterns) + list(p.kwd_patterns)):
                r = mk_and(r, self.match_pat(q, self.get_attr(v, n), binds))
            return r
        self.unsupported("pattern " + type(p).__name__)

    # ------------------------------------------------------------------ names
    def frame(self):
        return self.frames[-1]

    def mangle(self, name):
        return name

    def load_name(self, name):
        fr = self.frame()
        env = fr.env
        first = True
        while env is not None:
            r = self.rec(env)
            if r.kind == "class" and not first:
                env = r.parent
                continue
            if r.kind == "func" and name in r.info.globals:
                break
            if name in r.vars:
                v = self.simp(r.vars[name])
                return self.not_absent(v, "UnboundLocalError", "local variable %r" % name)
            if r.kind == "func" and name in r.info.locals:
                self.raise_("UnboundLocalError", "local variable %r referenced before assignment" % name)
            env = r.parent
            first = False
        m = self.rec(fr.module).attrs
        if name in m:
            return self.not_absent(self.simp(m[name]), "NameError", "name %r is not defined" % name)
        if hasattr(builtins, name):
            return self.wrap_ext("builtins." + name, getattr(builtins, name))
        if "builtins." + name in self.models:
            return Ext("builtins." + name)
        self.raise_("NameError", "name %r is not defined" % name)

    def not_absent(self, v, exc, msg):
        if v is ABSENT:
            self.raise_(exc, msg)
        if is_phi(v) and has_absent(v):
            return self.dist(v, lambda x: self.raise_(exc, msg) if x is ABSENT else x)
        return v

    def store_name(self, name, v):
        fr = self.frame()
        env = fr.env
        if env is None:
            r = self.rec(fr.module).copy()
            r.attrs[name] = v
            self.put(fr.module, r)
            return
        r = self.rec(env)
        if r.kind == "func":
            if name in r.info.globals:
                m = self.rec(fr.module).copy()
                m.attrs[name] = v
                self.put(fr.module, m)
                return
            if name in r.info.nonlocals:
                e = r.parent
                while e is not None:
                    q = self.rec(e)
                    if q.kind == "func" and name in q.info.locals:
                        q = q.copy()
                        q.vars[name] = v
                        self.put(e, q)
                        return
                    e = q.parent
                self.unsupported("nonlocal")
        if r.kind == "comp" and name not in r.info:
            # walrus target: enclosing function
            e = r.parent
            while e is not None and self.rec(e).kind == "comp":
                e = self.rec(e).parent
            if e is not None:
                q = self.rec(e).copy()
                q.vars[name] = v
                self.put(e, q)
                return
        r = r.copy()
        r.vars[name] = v
        self.put(env, r)

    def del_name(self, name):
        fr = self.frame()
        if fr.env is None:
            r = self.rec(fr.module).copy()
            if name not in r.attrs:
                self.raise_("NameError", name)
            del r.attrs[name]
            self.put(fr.module, r)
        else:
            r = self.rec(fr.env).copy()
            if name not in r.vars:
                self.raise_("NameError", name)
            del r.vars[name]
            self.put(fr.env, r)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            d = self.dict_owner(t.value)
            if d is not None:
                self.dist(self.ev(t.slice), lambda k: self.set_attr_plain(d, k, v))
                return
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.to_items(v)

            def go(items):
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        self.raise_("ValueError", "not enough values to unpack")
                    for e, x in zip(t.elts[:i], items[:i]):
                        self.assign(e, x)
                    self.assign(t.elts[i].value, self.new_list(items[i:len(items) - after]))
                    for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                        self.assign(e, x)
                    return
                if len(items) != len(t.elts):
                    self.raise_("ValueError", "cannot unpack %d values into %d" % (len(items), len(t.elts)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
            if isinstance(items, tuple):
                go(items)
            else:
                self.dist(items, go)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported("assignment target")

    def dict_owner(self, e):
        """the object whose instance dictionary the expression denotes, or None"""
        o = None
        if isinstance(e, ast.Attribute) and e.attr == "__dict__":
            o = self.simp(self.ev(e.value))
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "vars" and len(e.args) == 1 and \
                not e.keywords:
            o = self.simp(self.ev(e.args[0]))
        if o is None:
            return None
        if isinstance(o, Ref) and isinstance(self.rec(o), ObjRec):
            return o
        self.unsupported("writing through __dict__ of " + self.describe(o))

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported("expression " + type(e).__name__)
        v = m(e)
        if self.st is None:
            raise Dead()
        return v

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.mark(e)
        return self.get_attr(o, self.mangle(e.attr))

    def mark(self, e):
        self.loc = (getattr(e, "_file", self.loc[0]), getattr(e, "lineno", self.loc[1]))

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev(e.slice)
        self.mark(e)
        return self.getitem(o, k)

    def e_Slice(self, e):
        return slice(self.ev(e.lower) if e.lower else None, self.ev(e.upper) if e.upper else None,
                     self.ev(e.step) if e.step else None)

    def e_Tuple(self, e):
        return self.ev_seq(e.elts)

    def ev_seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.to_items(self.ev(x.value))
                if not isinstance(items, tuple):
                    self.unsupported("starred gated sequence")
                out.extend(items)
            else:
                out.append(self.ev(x))
        return tuple(out)

    def e_List(self, e):
        return self.new_list(self.ev_seq(e.elts))

    def e_Set(self, e):
        return self.new_set(self.ev_seq(e.elts))

    def e_Dict(self, e):
        d = self.new_dict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call_method(d, "update", [self.ev(v)])
            else:
                kv = self.ev(k)
                self.setitem(d, kv, self.ev(v))
        return d

    def new_list(self, items):
        return self.alloc(ListRec(tuple(items)))

    def new_set(self, items):
        out = []
        seen = set()
        for x in items:
            k = self.dkey(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return self.alloc(SetRec(tuple(out)))

    def new_dict(self, pairs):
        d = {}
        for k, v in pairs:
            d[self.dkey(k)] = (k, v)
        return self.alloc(DictRec(DictVal(d)))

    def dkey(self, k):
        if isinstance(k, Ref):
            r = self.rec(k)
            if isinstance(r, ObjRec):
                if isinstance(r.payload, (int, str, float)) and not isinstance(r.payload, bool):
                    return r.payload
                if isinstance(r.payload, Term) and r.payload.ty in ("int", "str", "float"):
                    return r.payload
                h = self.class_lookup(r.cls, "__hash__")
                if h is not None and not isinstance(h, Ext) and h is not NONE_ATTR and r.payload is None:
                    return ("hashed", self.call(h, [k], {}))
            if isinstance(r, (ListRec, DictRec, SetRec)):
                self.raise_("TypeError", "unhashable type")
            return k
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, np.generic):
            return k.item()
        return k

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.mark(e)
        return self.binop(BIN[type(e.op)], a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        self.mark(e)
        return self.unop(type(e.op), v)

    def unop(self, op, v):
        if op is ast.Not:
            return mk_not(self.truth(v))

        def f(v):
            name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[op]
            if isinstance(v, Ref):
                r = self.rec(v)
                if self.is_array(v):
                    return self.arr_unop(op, v)
                if isinstance(r, ObjRec):
                    if r.payload is not None and is_num(r.payload) or isinstance(r.payload, Term):
                        return f(r.payload)
                    m = self.class_lookup(r.cls, name)
                    if m is not None:
                        return self.call(m, [v], {})
                self.raise_("TypeError", "bad operand type for unary operator")
            if isinstance(v, Term) or is_num(v):
                if op is ast.USub:
                    return neg(v)
                if op is ast.UAdd:
                    return v
                if isinstance(v, Term):
                    return mk_not(v) if v.ty == "bool" else mk("invert", v, ty="int")
                return ~v
            self.raise_("TypeError", "bad operand type for unary operator")
        return self.dist_ref(v, f)

    def e_BoolOp(self, e):
        def go(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isinstance(e.op, ast.And):
                return self.fork(c, lambda: go(vals[1:]), lambda: v)
            return self.fork(c, lambda: v, lambda: go(vals[1:]))
        return go(e.values)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Compare(self, e):
        def go(left, ops, comps):
            right = self.ev(comps[0])
            self.mark(e)
            r = self.compare(ops[0], left, right)
            if len(ops) == 1:
                return r
            return self.fork(self.truth(r), lambda: go(right, ops[1:], comps[1:]), lambda: r)
        return go(self.ev(e.left), e.ops, e.comparators)

    def e_Call(self, e):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super()
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("update", "pop", "setdefault", "clear", "popitem"):
            d = self.dict_owner(e.func.value)
            if d is not None:
                return self.call_on_instance_dict(d, e)
        f = self.ev(e.func)
        args = list(self.ev_seq(e.args))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.simp(self.ev(k.value))
                if is_phi(m):
                    self.unsupported("** of a gated value")
                d = self.dict_val(m)
                for _, (kk, vv) in d.items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.mark(e)
        if isinstance(f, Ext) and f.path in ("builtins.locals", "builtins.globals", "builtins.vars", "builtins.eval",
                                             "builtins.exec", "builtins.dir") and f.path not in self.models:
            self.unsupported(f.path)
        return self.call(f, args, kwargs)

    def call_on_instance_dict(self, o, e):
        """o.__dict__.update(...) and so on: done on a dictionary, then written back"""
        before = {k: v for k, v in self.rec(o).attrs.items() if v is not ABSENT}
        d = self.new_dict(list(before.items()))
        args = [self.ev(x) for x in e.args]
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                self.unsupported("** into an instance dictionary")
            kwargs[k.arg] = self.ev(k.value)
        v = self.call_method(d, e.func.attr, args, kwargs)
        after = self.simp(self.rec(d).d)
        if is_phi(after):
            self.unsupported("instance dictionary changed on some paths only")
        now = {k: x for k, x in after.d.values()}
        for k in before:
            if k not in now:
                self.del_attr(o, k)
        for k, x in now.items():
            if k not in before or not same(before[k], x):
                self.set_attr_plain(o, k, x)
        return v

    def zero_super(self):
        fr = self.frame()
        env = fr.env
        while self.rec(env).kind == "comp":
            env = self.rec(env).parent
        cls = self.load_name("__class__")
        node = self.rec(fr.func).node
        a = node.args
        first = (a.posonlyargs + a.args)
        name = first[0].arg if first else a.vararg.arg
        obj = self.simp(self.rec(env).vars[name])
        if not first:
            obj = obj[0]
        return SuperV(cls, obj)

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                if v.conversion == ord("r"):
                    x = self.repr_(x)
                parts.append(self.format_(x, spec))
        return self.cat(parts)

    def e_FormattedValue(self, e):
        return self.format_(self.ev(e.value), None)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Starred(self, e):
        self.unsupported("starred")

    def comp(self, e, gens, emit):
        fr = self.frame()
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        first = self.ev(gens[0].iter)
        env = self.alloc(EnvRec({}, fr.env, names, fr.module, "comp"))
        old = fr.env

        def level(i, it):
            g = gens[i]
            if i > 0:
                it = self.ev(g.iter)

            def one(v):
                self.assign(g.target, v)

                def conds(j):
                    if j == len(g.ifs):
                        if i + 1 < len(gens):
                            level(i + 1, None)
                        else:
                            emit()
                        return
                    c = self.truth(self.ev(g.ifs[j]))
                    self.fork(c, lambda: conds(j + 1), lambda: None)
                conds(0)
            self.for_each(it, one)
        fr.env = env
        try:
            level(0, first)
        finally:
            fr.env = old

    def e_ListComp(self, e):
        out = self.new_list(())
        self.comp(e, e.generators, lambda: self.list_append(out, self.ev(e.elt)))
        return out

    def e_GeneratorExp(self, e):
        out = self.new_list(())
        self.comp(e, e.generators, lambda: self.list_append(out, self.ev(e.elt)))
        return self.alloc(IterRec(out, 0))

    def e_SetComp(self, e):
        out = self.new_list(())
        self.comp(e, e.generators, lambda: self.list_append(out, self.ev(e.elt)))
        return self.dist(self.rec(out).items, lambda it: self.new_set(it))

    def e_DictComp(self, e):
        out = self.new_dict([])
        self.comp(e, e.generators, lambda: self.setitem(out, self.ev(e.key), self.ev(e.value)))
        return out

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        fr = self.frame()
        if fr.yield_cb is not None:
            return fr.yield_cb(v)
        self.list_append(fr.yields, v)
        if e is not self.stmt_value:
            self.unsupported("the value of a yield expression")
        return None

    def e_YieldFrom(self, e):
        fr = self.frame()
        self.for_each(self.ev(e.value), lambda v: self.list_append(fr.yields, v))
        return None

    def e_Await(self, e):
        self.unsupported("await")

    # ------------------------------------------------------------------ lists
    def list_append(self, ref, v):
        items = self.simp(self.rec(ref).items)
        if is_phi(items):
            self.dist(items, lambda it: self.put(ref, ListRec(it + (v,))))
        else:
            self.put(ref, ListRec(items + (v,)))

    def list_extend(self, ref, items):
        def go(new):
            cur = self.simp(self.rec(ref).items)
            self.dist(cur, lambda it: self.put(ref, ListRec(it + tuple(new))))
        self.dist(items, go)

    def dict_val(self, v):
        """contents of a dict value: dkey -> (key, value); forks on gated contents are the caller's business"""
        r = self.rec(v)
        if isinstance(r, DictRec):
            d = self.simp(r.d)
            if is_phi(d):
                self.unsupported("gated dict contents")
            return d.d
        self.unsupported("not a dict")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.simp(f)
        if is_phi(f):
            return self.dist(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, Ref):
            r = self.rec(f)
            if isinstance(r, FuncRec):
                return self.call_func(f, args, kwargs)
            if isinstance(r, ClassRec):
                return self.instantiate(f, args, kwargs)
            if isinstance(r, ObjRec):
                m = self.class_lookup(r.cls, "__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kwargs)
            if isinstance(r, ExtRec):
                return self.ext_obj_call(f, "__call__", args, kwargs)
            self.refuse("__call__", "%s is not callable" % self.describe(f), f)
        if isinstance(f, BM):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, BBM):
            return self.call_builtin_method(f.self, f.name, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Ext):
            return self.ext_call(f, args, kwargs)
        if isinstance(f, ExtAttr):
            return self.ext_obj_call(f.ref, f.name, args, kwargs)
        if isinstance(f, (ClsM, StatM)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, Term):
            self.maybe_raise("call of unknown value")
            return mk("call", f, tuple(args), tuple(sorted(kwargs.items())))
        if isinstance(f, SuperV):
            self.unsupported("call of super()")
        self.refuse("__call__", "%s is not callable" % self.describe(f), f)

    def call_method(self, obj, name, args, kwargs=None):
        return self.call(self.get_attr(obj, name), list(args), kwargs or {})

    def qual(self, fref):
        r = self.rec(fref)
        return "%s.%s" % (self.rec(r.module).name, getattr(r.node, "_qual", r.name))

    def bind(self, r, args, kwargs):
        a = r.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        nposonly = len(a.posonlyargs)
        args = list(args)
        for name, v in zip(pos, args):
            out[name] = v
        if len(args) > len(pos):
            if a.vararg:
                out[a.vararg.arg] = tuple(args[len(pos):])
            else:
                return None, "%s() takes %d positional arguments but %d were given" % (r.name, len(pos), len(args))
        elif a.vararg:
            out[a.vararg.arg] = ()
        extra = {}
        names = set(pos[nposonly:]) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in out:
                    return None, "%s() got multiple values for argument %r" % (r.name, k)
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None, "%s() got an unexpected keyword argument %r" % (r.name, k)
        nd = len(r.defaults)
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[name] = r.defaults[j]
                else:
                    return None, "%s() missing required argument %r" % (r.name, name)
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in r.kwdefaults:
                    out[x.arg] = r.kwdefaults[x.arg]
                else:
                    return None, "%s() missing keyword argument %r" % (r.name, x.arg)
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(list(extra.items()))
        return out, None

    def call_func(self, fref, args, kwargs, yield_cb=None):
        r = self.rec(fref)
        self.calls_analysed += 1
        file = getattr(r.node, "_file", "?")
        k = (file, getattr(r.node, "_qual", r.name))
        if k not in self.funcs_keys:
            self.funcs_keys.add(k)
            self.funcs_seen.add("%s:%s" % (os.path.relpath(file, self.root) if file.startswith(self.root) else file, k[1]))
        if self.hooks:
            h = self.hooks.get(self.fname(fref))
            if h is not None:
                x = h(self, fref, args, kwargs)
                if x is not NotImplemented:
                    return x
        if self.depth > self.max_depth:
            self.unsupported("call depth")
        cache = r.attrs.get("__lru_cache__")
        if cache is not None:
            return self.call_cached(fref, cache, args, kwargs)
        vars, err = self.bind(r, args, kwargs)
        if err:
            self.raise_("TypeError", err)
        env = self.alloc(EnvRec(vars, r.env, r.info, r.module, "func"))
        if r.info.is_gen and yield_cb is None:
            return self.alloc(GenRec((fref, env), None, 0))
        return self.run_body(fref, env, yield_cb)

    def call_cached(self, fref, cache, args, kwargs):
        """a call of a function that remembers its results"""
        key = (tuple(args), tuple(sorted(kwargs.items())))

        def make():
            q = self.rec(fref).copy()
            del q.attrs["__lru_cache__"]
            v = self.call_func(self.alloc(q), args, kwargs)
            self.setitem(cache, key, v)
            return v
        return self.fork(self.truth(self.contains(cache, key)), lambda: self.getitem(cache, key), make)

    def run_body(self, fref, env, yield_cb=None, yields=None):
        r = self.rec(fref)
        fr = Frame(env, fref, r.module, r.name)
        fr.yield_cb = yield_cb
        fr.yields = yields
        self.frames.append(fr)
        loc = self.loc
        self.depth += 1
        try:
            try:
                if isinstance(r.node, ast.Lambda):
                    v = self.ev(r.node.body)
                    fr.returns.append((self.st, v))
                else:
                    self.block(r.node.body)
                    fr.returns.append((self.st, None))
            except Dead:
                pass
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = loc
        return self.join_many(fr.returns)

    def fname(self, fref):
        r = self.rec(fref)
        return "%s:%s" % (self.rec(r.module).name, r.name)

    def gen_items(self, ref):
        """run a generator to completion (eagerly); returns its items"""
        r = self.rec(ref)
        if r.items is None:
            ys = self.new_list(())
            fref, env = r.call
            self.run_body(fref, env, None, ys)
            r = self.rec(ref).copy()
            r.items = self.rec(ys).items
            self.put(ref, r)
        return r.items

    # ------------------------------------------------------------------ classes
    def is_class(self, v):
        return isinstance(v, Ref) and isinstance(self.rec(v), ClassRec) or \
            isinstance(v, Ext) and isinstance(v.obj, type)

    def mro(self, c):
        if isinstance(c, Ref):
            return self.rec(c).mro
        if isinstance(c, Ext) and isinstance(c.obj, type):
            return tuple([c] + [self.ext_class(k) for k in c.obj.__mro__[1:]])
        if isinstance(c, Ext):
            return (c, Ext("builtins.object", object))
        return (Ext("builtins.object", object),)

    def ext_class(self, k):
        mod = k.__module__
        return Ext("%s.%s" % (mod, k.__qualname__), k)

    def wrap_ext(self, path, obj):
        if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes, np.dtype, slice, type(Ellipsis),
                                           np.generic)) or obj is NotImplemented:
            return obj
        if isinstance(obj, type):
            return Ext("%s.%s" % (obj.__module__, obj.__qualname__), obj)
        return Ext(path, obj)

    def class_lookup(self, cls, name, after=None):
        """raw attribute in the MRO (None when missing).  Attributes of external bases come as Ext."""
        mro = self.mro(cls)
        if after is not None:
            idx = [i for i, c in enumerate(mro) if same(c, after)]
            mro = mro[idx[0] + 1:] if idx else ()
        for c in mro:
            if isinstance(c, Ref):
                a = self.rec(c).attrs
                if name in a:
                    v = self.simp(a[name])
                    if v is None and name not in PROTOCOL:
                        return NONE_ATTR
                    if v is not ABSENT:
                        return self.not_absent(v, "AttributeError", name)
            elif isinstance(c, Ext) and c.obj is not Ext.MISSING and c.obj is not object and isinstance(c.obj, type):
                if name in vars(c.obj):
                    if c.obj is type and name in ("__call__",):
                        return None
                    if not hasattr(c.obj, name):     # name and value of enumerations: found in the members
                        return None
                    return Ext("%s.%s.%s" % (c.obj.__module__, c.obj.__qualname__, name), getattr(c.obj, name))
        return None

    def type_of(self, v):
        """the class of a value (Ref or Ext), or None when unknown"""
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ObjRec):
                return r.cls
            if isinstance(r, ClassRec):
                return r.meta or Ext("builtins.type", type)
            k = {ListRec: list, DictRec: dict, SetRec: set}.get(type(r))
            if k is list and r.kind:
                k = VIEWS[r.kind]
            if k:
                return self.ext_class(k)
            if isinstance(r, FuncRec):
                import types
                return Ext("types.FunctionType", types.FunctionType)
            if isinstance(r, ModRec):
                import types
                return Ext("types.ModuleType", types.ModuleType)
            if isinstance(r, GenRec):
                import types
                return Ext("types.GeneratorType", types.GeneratorType)
            if isinstance(r, ExtRec):
                return Ext(r.path)
            return Ext("builtins.object", object)
        if isinstance(v, Term):
            t = v.ty
            if isinstance(t, Ref):
                return t
            if v.op == "phi" or t == "any":
                return None
            k = {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes, "complex": complex}.get(t)
            return self.ext_class(k) if k else None
        if isinstance(v, Ext):
            if v.obj is not Ext.MISSING:
                return self.ext_class(type(v.obj))
            return Ext("builtins.object", object)
        if isinstance(v, MemV):
            return self.ext_class(memoryview)
        if isinstance(v, UnionV):
            import types
            return self.ext_class(types.UnionType)
        if isinstance(v, (BM, BBM, Native, PartialV, ExtAttr)):
            import types
            return Ext("types.MethodType", types.MethodType)
        if isinstance(v, PropV):
            return self.ext_class(property)
        return self.ext_class(type(v))

    def issubclass_(self, c, d):
        if isinstance(d, tuple):
            r = False
            for x in d:
                r = mk_or(r, self.issubclass_(c, x))
            return r
        if isinstance(d, UnionV):
            return self.issubclass_(c, d.args)
        if d is None:
            d = self.ext_class(type(None))
        if is_phi(d):
            return mk_ite(d.args[0], self.issubclass_(c, d.args[1]), self.issubclass_(c, d.args[2]))
        if c is None:
            return None
        if isinstance(d, Ext) and d.obj is object:
            return True
        if isinstance(c, Ext) and isinstance(d, Ext) and isinstance(c.obj, type) and isinstance(d.obj, type):
            try:
                return issubclass(c.obj, d.obj)
            except TypeError:
                return False
        return any(same(x, d) or (isinstance(x, Ext) and isinstance(d, Ext) and x == d) for x in self.mro(c))

    def isinstance_(self, v, d):
        """True / False / Term"""
        v = self.simp(v)
        if is_phi(v):
            return mk_ite(v.args[0], self.isinstance_(v.args[1], d), self.isinstance_(v.args[2], d))
        d = self.simp(d)
        if isinstance(d, tuple):
            r = False
            for x in d:
                r = mk_or(r, self.isinstance_(v, x))
            return r
        if isinstance(d, UnionV):
            return self.isinstance_(v, d.args)
        if d is None:
            return v is None
        if isinstance(v, Ext) and v.obj is not Ext.MISSING and isinstance(d, Ext) and isinstance(d.obj, type):
            return isinstance(v.obj, d.obj)
        if isinstance(v, SuperV):
            return False
        cls = self.type_of(v)
        if cls is None:
            if isinstance(v, Term) and v.op == "select":
                rs = [self.isinstance_(x, d) for x in v.args[1]]
                if all(same(r, rs[0]) for r in rs):
                    return rs[0]
            if isinstance(d, Ext) and d.obj is object:
                return True
            return mk("isinstance", v, d if not isinstance(d, UnionV) else d.args, ty="bool")
        r = self.issubclass_(cls, d)
        if r is False and isinstance(d, Ext) and isinstance(d.obj, type) and isinstance(v, Ref) and \
                isinstance(self.rec(v), ObjRec):
            return any(isinstance(c, Ext) and isinstance(c.obj, type) and issubclass(c.obj, d.obj)
                       for c in self.mro(cls) if not isinstance(c, Ext) or c.obj is not object)
        return r

    def instantiate(self, cls, args, kwargs):
        r = self.rec(cls)
        if r.meta is not None:
            m = self.class_lookup(r.meta, "__call__")
            if m is not None and not isinstance(m, Ext):
                return self.call(m, [cls] + list(args), kwargs)
        return self.type_call(cls, args, kwargs)

    def type_call(self, cls, args, kwargs):
        r = self.rec(cls)
        if r.members is not None:
            return self.enum_lookup(cls, args)
        new = self.class_lookup(cls, "__new__")
        if isinstance(new, StatM):
            new = new.func
        if new is not None and not (isinstance(new, Ext) and not self.ext_new_matters(new)):
            obj = self.call(new, [cls] + list(args), kwargs)
        else:
            if self.is_exc_class(cls):
                obj = self.alloc(ObjRec(cls, {}, tuple(args)))
            else:
                obj = self.alloc(ObjRec(cls, {}))

        def init(o):
            if isinstance(o, Ref) and isinstance(self.rec(o), ObjRec) and self.issubclass_(self.rec(o).cls, cls) is True:
                i = self.class_lookup(self.rec(o).cls, "__init__")
                if i is not None and not isinstance(i, Ext):
                    self.call(i, [o] + list(args), kwargs)
                elif i is None and new is None and (args or kwargs):
                    self.raise_("TypeError", "%s() takes no arguments" % r.name)
            return o
        return self.dist(obj, init)

    def ext_new_matters(self, new):
        return new.path.split(".")[-2] in ("int", "float", "str", "tuple", "ndarray", "dict", "list", "bytes")

    def enum_lookup(self, cls, args):
        members = self.rec(cls).members
        if len(args) != 1:
            self.raise_("TypeError", "enum lookup")

        def f(v):
            if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
                if same(self.rec(v).cls, cls):
                    return v
                v = self.rec(v).payload
            v = py(v)
            for m in members:
                if not isinstance(v, Term) and self.rec(m).attrs["_value_"] == v:
                    return m
            if isinstance(v, Term):
                out = None

                def go(ms):
                    if not ms:
                        self.raise_("ValueError", "not a valid enum value")
                    return self.fork(eq(v, self.rec(ms[0]).attrs["_value_"]), lambda: ms[0], lambda: go(ms[1:]))
                return go(list(members))
            self.raise_("ValueError", "%s is not a valid %s" % (show(v), self.rec(cls).name))
        return self.dist(args[0], f)

    # ------------------------------------------------------------------ attributes
    def get_attr(self, o, name, default=ABSENT):
        def f(o):
            v = self.get_attr1(o, name)
            if v is ABSENT:
                if default is not ABSENT:
                    return default
                self.raise_("AttributeError", "%s has no attribute %r" % (self.describe(o), name))
            return v
        o = self.simp(o)
        if isinstance(o, Term) and o.op == "phi":
            if self.scalar_like(o) and name in ("real", "imag"):
                return unary(name, o)
            return self.dist(o, f)
        return f(o)

    def describe(self, o):
        t = self.type_of(o)
        n = self.class_name(t) if t is not None else "value"
        if isinstance(o, Ref) and isinstance(self.rec(o), ModRec):
            return "module %r" % self.rec(o).name
        if isinstance(o, Ref) and isinstance(self.rec(o), ClassRec):
            return "type object %r" % self.rec(o).name
        return "%r object" % n

    def class_name(self, c):
        if isinstance(c, Ref):
            return self.rec(c).name
        if isinstance(c, Ext):
            if isinstance(c.obj, type):
                return c.obj.__name__
            return c.path.split(".")[-1]
        return "?"

    def bind_attr(self, v, obj, cls):
        if v is NONE_ATTR:
            return None
        """descriptor protocol for a raw class attribute"""
        if isinstance(v, PropV):
            if obj is None:
                return v
            if v.fget is None:
                self.raise_("AttributeError", "unreadable attribute")
            return self.call(v.fget, [obj], {})
        if isinstance(v, ClsM):
            return BM(v.func, cls)
        if isinstance(v, StatM):
            return v.func
        if isinstance(v, Ref) and isinstance(self.rec(v), FuncRec) and obj is not None:
            return BM(v, obj)
        if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec) and isinstance(self.rec(v).cls, Ref):
            g = self.class_lookup(self.rec(v).cls, "__get__")
            if g is not None:
                return self.call(g, [v, obj, cls], {})
        if isinstance(v, PartialV) or isinstance(v, Native):
            return BM(v, obj) if isinstance(v, Native) and obj is not None else v
        if isinstance(v, Ext) and callable(v.obj) and obj is not None and not isinstance(v.obj, type):
            import types
            if isinstance(v.obj, (types.MethodDescriptorType, types.WrapperDescriptorType, types.FunctionType)):
                return BM(v, obj)
        return v

    def get_attr1(self, o, name):
        if isinstance(o, Ref):
            r = self.rec(o)
            if isinstance(r, ObjRec):
                return self.obj_attr(o, r, name)
            if isinstance(r, ClassRec):
                return self.class_attr(o, r, name)
            if isinstance(r, ModRec):
                if name in r.attrs:
                    return self.not_absent(self.simp(r.attrs[name]), "AttributeError", name)
                if name == "__dict__":
                    return self.new_dict([(k, v) for k, v in r.attrs.items() if v is not ABSENT])
                return ABSENT
            if isinstance(r, FuncRec):
                return self.func_attr(o, r, name)
            if isinstance(r, ExtRec):
                return self.ext_obj_attr(o, r, name)
            if name == "__class__":
                return self.type_of(o)
            return self.builtin_attr(o, name)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, ExtAttr):
            return self.get_attr1(self.ext_child(o), name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, BM):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.get_attr1(o.func, name)
        if isinstance(o, PropV):
            if name in ("setter", "getter", "deleter"):
                return BBM(o, name)
            if name in ("fget", "fset"):
                return getattr(o, name)
        if isinstance(o, (ClsM, StatM)) and name == "__func__":
            return o.func
        if name == "__class__":
            t = self.type_of(o)
            return t if t is not None else mk("type", o)
        if isinstance(o, Native) and name in ("__name__", "__doc__"):
            return o.name
        return self.builtin_attr(o, name)

    def obj_attr(self, o, r, name):
        if name == "__class__":
            return r.cls
        raw = self.class_lookup(r.cls, name)
        if isinstance(raw, PropV):
            return self.bind_attr(raw, o, r.cls)
        if "native" in r.attrs and isinstance(r.cls, Ext) and not callable(getattr(r.attrs["native"], name, int)):
            return self.from_native(getattr(r.attrs["native"], name))
        if name in r.attrs:
            v = self.simp(r.attrs[name])
            if v is not ABSENT:
                if has_absent(v):
                    return self.dist(v, lambda x: self.obj_attr_missing(o, r, name, raw) if x is ABSENT else x)
                return v
        return self.obj_attr_missing(o, r, name, raw)

    def native_method(self, o, cls, name):
        """methods the analysis supplies for instances of external classes"""
        for c in ((cls,) if isinstance(cls, Ext) else self.mro(cls)):
            if isinstance(c, Ext):
                f = self.native.get(c.path, {}).get(name)
                if f is not None:
                    return Native(c.path + "." + name, lambda it, a, k, f=f: f(it, o, list(a), dict(k)))
        return ABSENT

    def obj_attr_missing(self, o, r, name, raw, use_getattr=True):
        if raw is not None:
            if isinstance(raw, Ext):
                nat = self.native_method(o, r.cls, name)
                if nat is not ABSENT:
                    return nat
                if self.is_array(o):
                    v = self.arr_attr(o, name)
                    if v is not ABSENT:
                        return v
                if r.payload is not None:
                    v = self.payload_attr(o, r, name)
                    if v is not ABSENT:
                        return v
            return self.bind_attr(raw, o, r.cls)
        nat = self.native_method(o, r.cls, name)
        if nat is not ABSENT:
            return nat
        if name == "__dict__":
            return self.new_dict([(k, v) for k, v in r.attrs.items() if v is not ABSENT])
        if self.is_array(o):
            v = self.arr_attr(o, name)
            if v is not ABSENT:
                return v
        elif r.payload is not None:
            v = self.payload_attr(o, r, name)
            if v is not ABSENT:
                return v
        if r.lazy and not (name.startswith("__") and name.endswith("__")):
            v = mk("attr", mk("obj", o.addr), name)
            nr = r.copy()
            nr.attrs[name] = v
            self.put(o, nr)
            return v
        if use_getattr:
            g = self.class_lookup(r.cls, "__getattr__")
            if g is not None and not isinstance(g, Ext):
                return self.call(g, [o, name], {})
        return self.object_attr(o, name)

    def object_attr(self, o, name):
        """attributes every object inherits from `object`"""
        if name == "__init__":
            return Native("object.__init__", lambda it, a, k: None)
        if name == "__setattr__":
            return Native("object.__setattr__", lambda it, a, k: it.set_attr_plain(o, a[0], a[1]))
        if name == "__getattribute__":
            def ga(it, a, k):
                r = it.rec(o)
                raw = it.class_lookup(r.cls, a[0])
                if a[0] in r.attrs and r.attrs[a[0]] is not ABSENT:
                    return it.simp(r.attrs[a[0]])
                v = it.obj_attr_missing(o, r, a[0], raw, use_getattr=False)
                if v is ABSENT:
                    it.raise_("AttributeError", "no attribute %s" % show(a[0]))
                return v
            return Native("object.__getattribute__", ga)
        if name in ("__eq__", "__ne__"):
            return Native("object." + name, lambda it, a, k: it.is_(o, a[0]) if name == "__eq__" else
                          mk_not(it.is_(o, a[0])))
        if name == "__hash__":
            return Native("object.__hash__", lambda it, a, k: mk("hash", o.addr, ty="int"))
        if name in ("__repr__", "__str__"):
            return Native("object.__repr__", lambda it, a, k: mk("repr", o.addr, ty="str"))
        if name == "__doc__":
            return None
        return ABSENT

    def payload_attr(self, o, r, name):
        p = r.payload
        if isinstance(p, tuple) and self.is_exc_class(r.cls):
            if name == "args":
                return p
            if name in ("__cause__", "__context__", "__traceback__"):
                return None
            if name == "with_traceback":
                return Native("with_traceback", lambda it, a, k: o)
            return ABSENT
        if isinstance(p, tuple) and p[:1] == ("gencm",):
            return ABSENT
        fields = self.nt_fields(r.cls)
        if fields is not None and name in fields:
            return p[fields.index(name)]
        if fields is not None and name == "_fields":
            return fields
        if fields is not None and name == "_asdict":
            return Native("_asdict", lambda it, a, k: it.new_dict(list(zip(fields, p))))
        if fields is not None and name == "_replace":
            def rep(it, a, k):
                q = tuple(k.get(f, v) for f, v in zip(fields, p))
                return it.alloc(ObjRec(r.cls, {}, q))
            return Native("_replace", rep)
        if isinstance(p, (int, float, str, tuple, bytes)) or isinstance(p, Term):
            return self.builtin_attr(p, name)
        return ABSENT

    def nt_fields(self, cls):
        for c in self.mro(cls):
            if isinstance(c, Ref) and "_fields" in self.rec(c).attrs:
                return self.rec(c).attrs["_fields"]
        return None

    def class_attr(self, o, r, name):
        if name == "__name__":
            return r.name
        if name == "__qualname__":
            return r.qual
        if name == "__mro__":
            return r.mro
        if name == "__bases__":
            return r.bases
        if name == "__base__":
            return r.bases[0]
        if name == "__class__":
            return r.meta or Ext("builtins.type", type)
        if name == "__dict__":
            return self.new_dict([(k, v) for k, v in r.attrs.items() if v is not ABSENT])
        if name == "__members__" and r.members is not None:
            return self.new_dict([(self.rec(m).attrs["name"], m) for m in r.members])
        raw = self.class_lookup(o, name)
        if raw is not None:
            if isinstance(raw, PropV):
                return raw
            return self.bind_attr(raw, None, o)
        if r.meta is not None:
            raw = self.class_lookup(r.meta, name)
            if raw is not None and not isinstance(raw, Ext):
                return self.bind_attr(raw, o, r.meta)
        if name == "__new__":
            return Native("object.__new__", lambda it, a, k: it.alloc(ObjRec(a[0], {})))
        if name == "__init__":
            return Native("object.__init__", lambda it, a, k: None)
        if name == "__doc__":
            return None
        if name == "__annotations__":
            return self.new_dict([])
        if name in ("__repr__", "__str__", "__setattr__", "__eq__", "__hash__", "__getattribute__"):
            def un(it, a, k):
                return it.call(it.object_attr(a[0], name), a[1:], k)
            return Native("object." + name, un)
        if name in ("mro", "__subclasses__", "__call__"):
            if name == "mro":
                return Native("mro", lambda it, a, k: it.new_list(r.mro))
        return ABSENT

    def func_attr(self, o, r, name):
        if name in r.attrs:
            return self.simp(r.attrs[name])
        if name in ("__name__", "__qualname__"):
            return r.name
        if name == "__module__":
            return self.rec(r.module).name
        if name == "__annotations__":
            return self.new_dict(list(r.anns.items()))
        if name == "__defaults__":
            return r.defaults or None
        if name == "__kwdefaults__":
            return self.new_dict(list(r.kwdefaults.items())) if r.kwdefaults else None
        if name == "__doc__":
            return ast.get_docstring(r.node, False) if not isinstance(r.node, ast.Lambda) else None
        if name == "__code__":
            a = r.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            extra = [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + \
                ([a.kwarg.arg] if a.kwarg else [])
            others = [n for n in self.ordered_locals(r.node) if n not in pos + extra]
            import types
            return self.alloc(ObjRec(Ext("types.CodeType", types.CodeType), {
                "co_varnames": tuple(pos + extra + others), "co_argcount": len(pos), "co_name": r.node.name
                if not isinstance(r.node, ast.Lambda) else "<lambda>",
                "co_kwonlyargcount": len(a.kwonlyargs), "co_posonlyargcount": len(a.posonlyargs),
                "co_filename": getattr(r.node, "_file", "?"), "co_firstlineno": r.node.lineno,
                "co_flags": 0, "co_qualname": r.name, "co_nlocals": len(pos + extra + others)}))
        if name == "__globals__":
            return self.get_attr1(r.module, "__dict__")
        if name == "__dict__":
            return self.new_dict(list(r.attrs.items()))
        if name == "__get__":
            return Native("__get__", lambda it, a, k: BM(o, a[0]) if a[0] is not None else o)
        if name == "__call__":
            return o
        if name == "__class__":
            return self.type_of(o)
        if name == "__closure__":
            return None
        return ABSENT

    def ordered_locals(self, node):
        out = []
        info = scope_info(node)
        if isinstance(node, ast.Lambda):
            return out
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in info.locals and n.id not in out:
                out.append(n.id)
        return out

    def super_attr(self, s, name):
        obj = s.obj
        cls = obj if isinstance(obj, Ref) and isinstance(self.rec(obj), ClassRec) and \
            not (self.rec(obj).meta is not None and self.issubclass_(self.rec(obj).meta, s.cls) is True) \
            else self.type_of(obj)
        raw = self.class_lookup(cls, name, after=s.cls)
        is_cls = cls is obj or same(cls, obj)
        if raw is None:
            mro = self.mro(cls)
            if name == "__call__" and any(isinstance(c, Ext) and c.obj is type for c in mro):
                return Native("type.__call__", lambda it, a, k: it.type_call(obj, a, k))
            if name == "__new__":
                return Native("object.__new__", lambda it, a, k: it.alloc(ObjRec(a[0], {})))
            if name == "__init_subclass__":
                return Native(name, lambda it, a, k: None)
            if is_cls:
                return self.class_attr(obj, self.rec(obj), name) if name in ("__name__",) else ABSENT
            if name == "__getattr__":
                return ABSENT
            return self.object_attr(obj, name)
        if name == "__new__":
            if isinstance(raw, StatM):
                raw = raw.func
            return raw
        if isinstance(raw, Ext):
            import types
            if name in ("__setattr__", "__getattribute__", "__repr__", "__str__") and "ndarray" in raw.path:
                if name in ("__setattr__", "__getattribute__"):
                    return self.object_attr(obj, name)
            if name == "__init__":
                return Native("ext.__init__", lambda it, a, k: None)
            return raw if is_cls else BM(raw, obj)
        return self.bind_attr(raw, None if is_cls else obj, cls)

    def set_attr(self, o, name, v):
        def f(o):
            if isinstance(o, Ref):
                r = self.rec(o)
                if isinstance(r, ObjRec):
                    m = self.class_lookup(r.cls, "__setattr__")
                    if m is not None and not isinstance(m, Ext):
                        self.call(m, [o, name, v], {})
                        return
                    self.set_attr_plain(o, name, v)
                    return
                if isinstance(r, (ClassRec, ModRec, FuncRec)):
                    r = r.copy()
                    if isinstance(r, FuncRec) and name == "__name__":
                        r.name = v
                    r.attrs[name] = v
                    self.put(o, r)
                    return
                if isinstance(r, ExtRec):
                    r = r.copy()
                    r.attrs[name] = v
                    r.calls = r.calls + (("=" + name, (v,), ()),) if isinstance(r.calls, tuple) else r.calls
                    self.put(o, r)
                    return
            if isinstance(o, ExtAttr):
                return f(self.ext_child(o))
            if isinstance(o, (Term,)):
                return          # a write to an object the analysis knows nothing about
            if isinstance(o, Ext):
                if o.path.startswith("builtins.") or o.obj is not Ext.MISSING and callable(o.obj):
                    self.raise_("AttributeError", "cannot set attribute %s of %s" % (name, o.path))
                return
            self.raise_("AttributeError", "cannot set attribute %s" % name)
        self.dist(o, f)

    def set_attr_plain(self, o, name, v):
        r = self.rec(o)
        raw = self.class_lookup(r.cls, name)
        if isinstance(raw, PropV):
            if raw.fset is None:
                self.raise_("AttributeError", "property %r has no setter" % name)
            self.call(raw.fset, [o, v], {})
            return
        if self.is_array(o) and self.arr_setattr(o, name, v):
            return
        r = self.rec(o).copy()
        r.attrs[name] = v
        self.put(o, r)

    def del_attr(self, o, name):
        def f(o):
            r = self.rec(o).copy()
            if name not in r.attrs or r.attrs[name] is ABSENT:
                self.raise_("AttributeError", name)
            del r.attrs[name]
            self.put(o, r)
        self.dist(o, f)

    # ------------------------------------------------------------------ identity and comparison
    def is_(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if is_phi(a):
            return self.decide(mk_ite(a.args[0], self.is_(a.args[1], b), self.is_(a.args[2], b)))
        if is_phi(b):
            return self.is_(b, a)
        if isinstance(a, Term) or isinstance(b, Term):
            if a is b:
                return True
            t = a if isinstance(a, Term) else b
            o = b if isinstance(a, Term) else a
            if t.op == "select":
                rs = [self.is_(x, o) for x in t.args[1]]
                if all(same(r, rs[0]) for r in rs):
                    return rs[0]
            if t.ty == "any":
                if o is None:
                    return self.decide(mk("is_none", t, ty="bool"))
                if isinstance(o, (Ref, Ext)):
                    return self.decide(mk("is", t, o, ty="bool"))
            if t.ty == "bool" and isinstance(o, bool):
                return t if o else mk_not(t)
            if isinstance(t.ty, str) and t.ty in ("int", "float", "str", "bytes") and isinstance(o, (Ref, type(None), Ext)):
                return False
            return self.decide(mk("is", a, b, ty="bool"))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a is b or (a == () and b == ())
        return same(a, b) if not isinstance(a, UnionV) else a is b

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return mk_not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            c = self.contains(b, a)
            return mk_not(c)
        if isinstance(op, ast.Eq):
            return self.compare_eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.compare_ne(a, b)
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        return self.order(name, a, b)

    def order(self, name, a, b):
        def f(a):
            def g(b):
                x, y = self.unpayload(a), self.unpayload(b)
                if self.is_array(x) or self.is_array(y):
                    return self.arr_compare(name, x, y)
                if isinstance(x, Ref) and isinstance(self.rec(x), ObjRec):
                    m = self.class_lookup(self.rec(x).cls, "__%s__" % name)
                    if m is not None:
                        return self.call(m, [x, y], {})
                if isinstance(y, Ref) and isinstance(self.rec(y), ObjRec):
                    inv = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[name]
                    m = self.class_lookup(self.rec(y).cls, "__%s__" % inv)
                    if m is not None:
                        return self.call(m, [y, x], {})
                if isinstance(x, Ref) and isinstance(self.rec(x), SetRec) and isinstance(y, Ref) and \
                        isinstance(self.rec(y), SetRec):
                    A = {self.dkey(i) for i in self.rec(x).items}
                    B = {self.dkey(i) for i in self.rec(y).items}
                    return {"lt": A < B, "le": A <= B, "gt": A > B, "ge": A >= B}[name]
                if (isinstance(x, Term) or is_num(x)) and (isinstance(y, Term) or is_num(y)):
                    return {"lt": lambda: lt(x, y), "gt": lambda: lt(y, x), "le": lambda: le(x, y),
                            "ge": lambda: le(y, x)}[name]()
                if isinstance(x, str) and isinstance(y, str) or isinstance(x, bytes) and isinstance(y, bytes):
                    return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[name]
                if isinstance(x, tuple) and isinstance(y, tuple):
                    try:
                        if not has_sym(x) and not has_sym(y):
                            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[name]
                    except TypeError:
                        pass
                    return self.order_items(name, x, y)
                if isinstance(x, tuple) and isinstance(y, tuple) or isinstance(x, Ref) and isinstance(y, Ref) and \
                        isinstance(self.rec(x), ListRec) and isinstance(self.rec(y), ListRec):
                    return self.dist(self.to_items(x), lambda p: self.dist(
                        self.to_items(y), lambda q: self.order_items(name, p, q)))
                self.refuse_operands(name, x, y)
            return self.dist_ref(b, g)
        return self.dist_ref(a, f)

    def order_items(self, name, p, q):
        """order of sequences: that of the first items that differ"""
        if not p or not q:
            n = len(p), len(q)
            return {"lt": n[0] < n[1], "le": n[0] <= n[1], "gt": n[0] > n[1], "ge": n[0] >= n[1]}[name]
        return self.fork(self.truth(self.compare_eq(p[0], q[0])), lambda: self.order_items(name, p[1:], q[1:]),
                         lambda: self.order(name, p[0], q[0]))

    def unpayload(self, v):
        if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
            p = self.rec(v).payload
            if p is not None and (is_num(p) or isinstance(p, str) or isinstance(p, Term)):
                cls = self.rec(v).cls
                return p
        return v

    def compare_ne(self, a, b):
        def f(a):
            def g(b):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Ref) and isinstance(self.rec(x), ObjRec):
                        m = self.class_lookup(self.rec(x).cls, "__ne__")
                        if m is not None and not isinstance(m, Ext):
                            return self.call(m, [x, y], {})
                if self.is_array(a) or self.is_array(b):
                    return self.arr_compare("ne", a, b)
                r = self.compare_eq(a, b)
                return mk_not(self.truth(r))
            return self.dist_ref(b, g)
        return self.dist_ref(a, f)

    def compare_eq(self, a, b):
        def f(a):
            def g(b):
                return self.eq1(a, b)
            return self.dist_ref(b, g)
        return self.dist_ref(a, f)

    def eq1(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(self.rec(x), ObjRec) and not self.is_array(x):
                m = self.class_lookup(self.rec(x).cls, "__eq__")
                if m is not None and not isinstance(m, Ext):
                    return self.call(m, [x, y], {})
        if self.is_array(a) or self.is_array(b):
            return self.arr_compare("eq", a, b)
        x, y = self.unpayload(a), self.unpayload(b)
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y:
                return True
            rx, ry = self.rec(x), self.rec(y)
            if isinstance(rx, ListRec) and isinstance(ry, ListRec):
                return self.dist(rx.items, lambda i: self.dist(self.rec(y).items, lambda j: self.seq_eq(i, j)))
            if isinstance(rx, DictRec) and isinstance(ry, DictRec):
                d, e = self.dict_val(x), self.dict_val(y)
                if set(d) != set(e):
                    return False
                r = True
                for k in d:
                    r = mk_and(r, self.truth(self.compare_eq(d[k][1], e[k][1])))
                return r
            if any(isinstance(r, ListRec) and r.kind in ("keys", "items") for r in (rx, ry)):
                if all(isinstance(r, SetRec) or isinstance(r, ListRec) and r.kind in ("keys", "items") for r in (rx, ry)):
                    A, B = self.to_items(x), self.to_items(y)
                    if isinstance(A, tuple) and isinstance(B, tuple):
                        return {self.dkey(i) for i in A} == {self.dkey(i) for i in B}
                    self.unsupported("comparison of gated views")
                return False
            if isinstance(rx, SetRec) and isinstance(ry, SetRec):
                return {self.dkey(i) for i in rx.items} == {self.dkey(i) for i in ry.items}
            if isinstance(rx, ObjRec) and isinstance(ry, ObjRec) and isinstance(rx.payload, tuple) and \
                    isinstance(ry.payload, tuple) and self.nt_fields(rx.cls) and self.nt_fields(ry.cls):
                return self.seq_eq(rx.payload, ry.payload)
            return False
        if isinstance(x, Ref) and isinstance(self.rec(x), ObjRec) and isinstance(self.rec(x).payload, tuple) and \
                isinstance(y, tuple):
            return self.seq_eq(self.rec(x).payload, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return self.seq_eq(x, y)
        if isinstance(x, Term) or isinstance(y, Term):
            if isinstance(x, Term) and x.op == "select" or isinstance(y, Term) and y.op == "select":
                return mk("eq", x, y, ty="bool")
            for p, q in ((x, y), (y, x)):
                if isinstance(p, Ref) and isinstance(q, Term):
                    if q.ty != "any":
                        return False
                    return self.decide(mk("eq", p, q, ty="bool"))
            return self.decide(eq(x, y))
        if isinstance(x, (Ref, Ext, Wrapper, UnionV)) or isinstance(y, (Ref, Ext, Wrapper, UnionV)):
            if isinstance(x, Ext) and isinstance(y, Ext):
                return x == y
            if isinstance(x, Ext) and isinstance(y, np.dtype) or isinstance(y, Ext) and isinstance(x, np.dtype):
                d, e = (y, x) if isinstance(y, np.dtype) else (x, y)
                try:
                    return bool(d == np.dtype(e.obj))
                except TypeError:
                    return False
            return same(x, y)
        try:
            return bool(x == y)
        except Exception:
            return False

    def seq_eq(self, a, b):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = mk_and(r, self.truth(self.compare_eq(x, y)))
        return r

    def contains(self, c, v):
        def f(c):
            if isinstance(c, str):
                return self.dist(v, lambda x: self.str_contains(c, x))
            if isinstance(c, Ref):
                r = self.rec(c)
                if isinstance(r, DictRec):
                    return self.dist(r.d, lambda d: self.dist_key(v, lambda x: self.dict_has(d.d, x)))
                if isinstance(r, ListRec):
                    return self.dist(r.items, lambda it: self.in_items(it, v))
                if isinstance(r, SetRec):
                    return self.dist(r.items, lambda it: self.in_items(it, v))
                if isinstance(r, ObjRec):
                    m = self.class_lookup(r.cls, "__contains__")
                    if m is not None and not isinstance(m, Ext):
                        return self.truth(self.call(m, [c, v], {}))
                    if self.is_array(c):
                        r = False
                        eq = self.arr_compare("eq", c, v)
                        for x in self.cells(eq).ravel() if self.is_array(eq) else [eq]:
                            r = mk_or(r, self.truth(x))
                        return r
                    items = self.to_items(c)
                    return self.dist(items, lambda it: self.in_items(it, v))
                if isinstance(r, ClassRec) and r.members is not None:
                    return self.in_items(r.members, v)
            if isinstance(c, (tuple, range)):
                return self.in_items(tuple(c), v)
            if isinstance(c, Term):
                return mk("in", v, c, ty="bool")
            if isinstance(c, (bytes,)):
                return mk("in", v, c, ty="bool") if isinstance(v, Term) else v in c
            items = self.to_items(c)
            return self.dist(items, lambda it: self.in_items(it, v))
        return self.dist(c, f)

    def dist_key(self, v, f):
        return self.dist(v, f)

    def str_contains(self, c, x):
        x = self.unpayload(x)
        if isinstance(x, str):
            return x in c
        if isinstance(x, Term):
            return mk("in", x, c, ty="bool")
        self.raise_("TypeError", "'in <string>' requires string as left operand, not %s" % self.describe(x))

    def in_items(self, items, v):
        r = False
        for x in items:
            if isinstance(x, Ref) and isinstance(v, Ref) and x == v:
                return True
            r = mk_or(r, self.truth(self.compare_eq(x, v)))
            if r is True:
                return True
        return r

    def dict_has(self, d, k):
        dk = self.dkey(k)
        if isinstance(dk, Term) or isinstance(dk, tuple) and has_sym(dk):
            if dk in d:
                return True
            r = False
            for q in d:
                r = mk_or(r, self.key_eq(q, dk))
            return r
        if dk in d:
            return True
        r = False
        for q in d:
            if isinstance(q, Term) or isinstance(q, tuple) and has_sym(q):
                r = mk_or(r, self.key_eq(q, dk))
        return r

    def key_eq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = mk_and(r, self.key_eq(x, y))
            return r
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, (Ref, Ext)) or isinstance(b, (Ref, Ext)):
                t = a if isinstance(a, Term) else b
                if t.ty != "any":
                    return False
                return self.decide(mk("eq", a, b, ty="bool"))
            return self.decide(eq(a, b))
        return same(a, b) or (not isinstance(a, (Ref, Ext)) and not isinstance(b, (Ref, Ext)) and a == b)

    def dict_find(self, d, k, found, missing):
        """dispatch on the presence of key k in dict contents d"""
        dk = self.dkey(k)
        symk = isinstance(dk, Term) or isinstance(dk, tuple) and has_sym(dk)
        if dk in d:
            return found(dk)
        cands = [q for q in d if symk or isinstance(q, Term) or isinstance(q, tuple) and has_sym(q)]

        def go(cs):
            if not cs:
                return missing()
            c = self.key_eq(cs[0], dk)
            return self.fork(c, lambda: found(cs[0]), lambda: go(cs[1:]))
        return go(cands)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.simp(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Term):
            if v.op == "phi":
                return self.decide(mk_ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2])))
            if v.ty == "bool":
                return self.decide(v)
            if v.ty in ("int", "float", "complex"):
                return self.decide(mk_not(eq(v, 0)))
            if v.op == "cat":
                return True if any(isinstance(x, str) and x for x in v.args) else self.decide(mk("truth", v, ty="bool"))
            return self.decide(mk("truth", v, ty="bool"))
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, (ListRec, SetRec)):
                it = self.simp(r.items)
                return self.items_truth(it)
            if isinstance(r, DictRec):
                d = self.simp(r.d)
                return self.items_truth(d)
            if isinstance(r, ObjRec):
                if self.is_array(v):
                    return self.arr_truth(v)
                m = self.class_lookup(r.cls, "__bool__")
                if m is not None and not isinstance(m, Ext):
                    return self.truth(self.call(m, [v], {}))
                m = self.class_lookup(r.cls, "__len__")
                if m is not None and not isinstance(m, Ext):
                    return self.truth(self.call(m, [v], {}))
                if r.payload is not None and (is_num(r.payload) or isinstance(r.payload, (str, Term))):
                    return self.truth(r.payload)
                if isinstance(r.payload, tuple) and self.nt_fields(r.cls):
                    return bool(r.payload)
            return True
        if isinstance(v, MemV):
            return True
        if isinstance(v, (Ext, Wrapper, Native, UnionV, PartialV)):
            return True
        return bool(v)

    def items_truth(self, it):
        if is_phi(it):
            return self.decide(mk_ite(it.args[0], self.items_truth(self.simp(it.args[1])),
                                      self.items_truth(self.simp(it.args[2]))))
        if isinstance(it, DictVal):
            return bool(it.d)
        return bool(it)

    # ------------------------------------------------------------------ items / iteration
    def to_items(self, v):
        """the elements of an iterable as a tuple (or a gate over tuples)"""
        v = self.simp(v)
        if is_phi(v):
            return self.dist(v, self.to_items)
        if isinstance(v, tuple):
            return v
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, range):
            return tuple(v)
        if isinstance(v, bytes):
            return tuple(v)
        if isinstance(v, frozenset):
            return tuple(sorted(v, key=repr))
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ListRec):
                return self.simp(r.items)
            if isinstance(r, SetRec):
                return self.simp(r.items)
            if isinstance(r, DictRec):
                return self.dist(r.d, lambda d: tuple(k for k, _ in d.d.values()))
            if isinstance(r, GenRec):
                items = self.gen_items(v)
                r = self.rec(v)
                pos = self.simp(r.pos)

                def fin(it):
                    out = it[pos:]
                    q = self.rec(v).copy()
                    q.pos = len(it)
                    self.put(v, q)
                    return out
                return self.dist(items, fin)
            if isinstance(r, IterRec):
                items = self.to_items(r.src)
                pos = self.simp(self.rec(v).pos)

                def fin2(it):
                    q = self.rec(v).copy()
                    q.pos = len(it)
                    self.put(v, q)
                    return it[pos:]
                return self.dist(items, fin2)
            if isinstance(r, ObjRec):
                if self.is_array(v):
                    return self.arr_items(v)
                if isinstance(r.payload, tuple) and self.nt_fields(r.cls):
                    return r.payload
                if isinstance(r.payload, str):
                    return tuple(r.payload)
                out = self.new_list(())
                self.for_each_obj(v, lambda x: self.list_append(out, x))
                return self.rec(out).items
            if isinstance(r, ClassRec) and r.members is not None:
                return r.members
            if isinstance(r, ExtRec):
                return self.ext_obj_items(v)
        if isinstance(v, ExtAttr):
            return self.ext_obj_items(self.ext_child(v))
        if isinstance(v, Term):
            if v.op == "select" and all(isinstance(x, (tuple, Ref)) for x in v.args[1]):
                its = [self.to_items(x) for x in v.args[1]]
                if all(isinstance(i, tuple) and len(i) == len(its[0]) for i in its):
                    return tuple(mk_select(v.args[0], [i[j] for i in its]) for j in range(len(its[0])))
            self.unsupported("iteration over an unknown value %s" % show(v, 3))
        if isinstance(v, Ext):
            h = self.models.get(v.path + "#iter")
            if h:
                return h(self, v)
            self.unsupported("iteration over " + v.path)
        self.refuse("__iter__", "%s is not iterable" % self.describe(v), v)

    def refuse(self, dunder, message, v):
        """TypeError when the builtin type of the value lacks the operation; else the engine has no model for it"""
        p = self.prototype(v)
        if p is not ABSENT and not (p is None and isinstance(v, Term)) and not hasattr(p, dunder):
            self.raise_("TypeError", message)
        self.unsupported(dunder + " of " + self.describe(v))

    def for_each_obj(self, v, fn):
        r = self.rec(v)
        if isinstance(r.cls, Ext) and r.cls.path == "gspsa.File":
            return self.for_each(self.call_method(v, "readlines", []), fn)
        m = self.class_lookup(r.cls, "__iter__")
        if m is not None and not isinstance(m, Ext):
            return self.for_each(self.call(m, [v], {}), fn)
        nx = self.class_lookup(r.cls, "__next__")
        if nx is not None and not isinstance(nx, Ext):
            return self._for_next(v, fn)
        if self.class_lookup(r.cls, "__getitem__") is not None:
            return self._for_getitem(v, fn)
        self.refuse("__iter__", "%s is not iterable" % self.describe(v), v)

    # ------------------------------------------------------------------ subscripts
    def norm_index(self, k):
        k = self.simp(k)
        k = self.unpayload(k)
        if isinstance(k, np.generic):
            k = k.item()
        return k

    def getitem(self, o, k):
        kt = k if isinstance(k, tuple) else (k,)

        def f(o):
            if all(x is Ellipsis or x is None for x in kt) and (
                    type(o) in (int, float, bool, complex) or isinstance(o, Term) and o.ty in ("int", "float", "bool", "complex")):
                # numpy scalars are represented by plain numbers: they can be indexed as arrays without axes
                return self.arr_getitem(self.np_asanyarray([o], {}), k)
            if isinstance(o, Ref):
                r = self.rec(o)
                if isinstance(r, ListRec):
                    if r.kind:
                        self.raise_("TypeError", "%s is not subscriptable" % self.describe(o))
                    return self.dist(r.items, lambda it: self.seq_get(it, k, True))
                if isinstance(r, DictRec):
                    default = r.default

                    def missing():
                        if default is not None:
                            v = self.call(default, [], {})
                            self.setitem(o, k, v)
                            return v
                        self.raise_("KeyError", k)
                    return self.dist(k, lambda key: self.dist(
                        self.rec(o).d, lambda d: self.dict_find(d.d, key, lambda q: self.simp(d.d[q][1]), missing)))
                if isinstance(r, ObjRec):
                    m = self.class_lookup(r.cls, "__getitem__")
                    if m is not None and not isinstance(m, Ext):
                        return self.call(m, [o, k], {})
                    if self.is_array(o):
                        return self.arr_getitem(o, k)
                    if isinstance(r.payload, tuple):
                        return self.seq_get(r.payload, k, False)
                    if isinstance(r.payload, (str, Term)):
                        return f(r.payload)
                if isinstance(r, ExtRec):
                    return self.ext_obj_item(o, k)
                if isinstance(r, ClassRec):
                    if r.members is not None:
                        for m in r.members:
                            if self.rec(m).attrs["name"] == k:
                                return m
                        self.raise_("KeyError", k)
                    return o         # a generic alias
                self.refuse("__getitem__", "%s is not subscriptable" % self.describe(o), o)
            if isinstance(o, tuple):
                return self.seq_get(o, k, False)
            if isinstance(o, (str, bytes)):
                kk = self.norm_index(k)
                if isinstance(kk, Term) or isinstance(kk, slice) and has_sym((kk.start, kk.stop, kk.step)):
                    return mk("stritem", o, kk, ty="str")
                try:
                    return o[kk]
                except (IndexError, TypeError) as e:
                    self.raise_(type(e).__name__, str(e))
            if isinstance(o, range):
                return o[self.norm_index(k)]
            if isinstance(o, ExtAttr):
                return f(self.ext_child(o))
            if isinstance(o, Ext):
                h = self.models.get(o.path + "#getitem")
                if h:
                    return h(self, k)
                if isinstance(o.obj, type) or o.path.startswith("typing."):
                    return o
                if o.obj is not Ext.MISSING and not hasattr(type(o.obj), "__getitem__"):
                    self.raise_("TypeError", "%s is not subscriptable" % o.path)
                return mk("item", o, k)
            if isinstance(o, Term):
                if o.op == "select":
                    return mk_select(o.args[0], [self.getitem(x, k) for x in o.args[1]])
                if o.ty in ("int", "float", "bool", "complex"):
                    self.raise_("TypeError", "number is not subscriptable")
                self.maybe_raise("subscript of unknown value")
                return mk("item", o, self.freeze_key(k))
            if isinstance(o, MemV):
                return mk("item", o, self.freeze_key(k))
            if isinstance(o, np.dtype):
                try:
                    return o[k]
                except KeyError:
                    self.raise_("KeyError", k)
            self.refuse("__getitem__", "%s is not subscriptable" % self.describe(o), o)
        return self.dist(o, f)

    def freeze_key(self, k):
        return k

    def seq_get(self, items, k, is_list):
        k = self.norm_index(k)
        if is_phi(k):
            return self.dist(k, lambda kk: self.seq_get(items, kk, is_list))
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if -len(items) <= k < len(items):
                return self.simp(items[k])
            self.raise_("IndexError", "index %d out of range (length %d)" % (k, len(items)))
        if isinstance(k, slice):
            s = slice(*[self.norm_index(x) for x in (k.start, k.stop, k.step)])
            if has_sym((s.start, s.stop, s.step)):
                self.unsupported("slice with symbolic bounds")
            out = items[s]
            return self.new_list(out) if is_list else out
        if isinstance(k, Term):
            if not items:
                self.raise_("IndexError", "index out of range")
            self.order_in_bounds([k], len(items))
            return mk_select(k, items)
        if self.is_array(k) and self.cells(k).size == 1:
            return self.seq_get(items, self.cells(k).ravel()[0], is_list)
        self.raise_("TypeError", "indices must be integers or slices, not %s" % self.describe(k))

    def setitem(self, o, k, v):
        def f(o):
            if isinstance(o, Ref):
                r = self.rec(o)
                if isinstance(r, ListRec):
                    kk = self.norm_index(k)

                    def go(items):
                        if isinstance(kk, int):
                            if not -len(items) <= kk < len(items):
                                self.raise_("IndexError", "assignment index out of range")
                            l = list(items)
                            l[kk] = v
                            self.put(o, ListRec(tuple(l)))
                        elif isinstance(kk, slice):
                            l = list(items)
                            new = self.to_items(v)
                            if is_phi(new):
                                self.unsupported("slice assignment")
                            l[kk] = list(new)
                            self.put(o, ListRec(tuple(l)))
                        elif isinstance(kk, Term):
                            self.put(o, ListRec(tuple(mk_phi(eq(kk, i), v, x) if isinstance(eq(kk, i), Term) else
                                                      (v if eq(kk, i) else x) for i, x in enumerate(items))))
                        else:
                            self.raise_("TypeError", "list indices must be integers")
                    return self.dist(r.items, go)
                if isinstance(r, DictRec):
                    def put(key):
                        def g(d):
                            dk = self.dkey(key)

                            def found(q):
                                nd = dict(d.d)
                                nd[q] = (d.d[q][0], v)
                                self.put(o, DictRec(DictVal(nd), self.rec(o).default))

                            def missing():
                                nd = dict(d.d)
                                nd[dk] = (key, v)
                                self.put(o, DictRec(DictVal(nd), self.rec(o).default))
                            self.dict_find(d.d, key, found, missing)
                        self.dist(self.rec(o).d, g)
                    return self.dist(k, put)
                if isinstance(r, ObjRec):
                    m = self.class_lookup(r.cls, "__setitem__")
                    if m is not None and not isinstance(m, Ext):
                        self.call(m, [o, k, v], {})
                        return
                    if self.is_array(o):
                        self.arr_setitem(o, k, v)
                        return
                if isinstance(r, ExtRec):
                    self.ext_obj_call(o, "__setitem__", [k, v], {})
                    return
                self.raise_("TypeError", "%s does not support item assignment" % self.describe(o))
            if isinstance(o, ExtAttr):
                return f(self.ext_child(o))
            if isinstance(o, Term) and o.ty == "any":
                return
            self.raise_("TypeError", "%s does not support item assignment" % self.describe(o))
        self.dist(o, f)

    def delitem(self, o, k):
        def f(o):
            r = self.rec(o) if isinstance(o, Ref) else None
            if isinstance(r, DictRec):
                def g(d):
                    def found(q):
                        nd = dict(d.d)
                        del nd[q]
                        self.put(o, DictRec(DictVal(nd), self.rec(o).default))
                    self.dict_find(d.d, k, found, lambda: self.raise_("KeyError", k))
                return self.dist(r.d, g)
            if isinstance(r, ListRec):
                def h(items):
                    l = list(items)
                    try:
                        del l[self.norm_index(k)]
                    except IndexError:
                        self.raise_("IndexError", "del")
                    self.put(o, ListRec(tuple(l)))
                return self.dist(r.items, h)
            if isinstance(r, ObjRec):
                m = self.class_lookup(r.cls, "__delitem__")
                if m is not None:
                    return self.call(m, [o, k], {})
            self.unsupported("del item")
        self.dist(o, f)

    # ------------------------------------------------------------------ binary operators
    def is_notimpl(self, v):
        return v is NotImplemented

    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if (is_num(a) or isinstance(a, Term)) and (is_num(b) or isinstance(b, Term)) and op != "matmul":
            if self.scalar_like(a) and self.scalar_like(b):
                return self.scalar_binop(op, a, b)
        return self.dist_ref(a, lambda x: self.dist_ref(b, lambda y: self.binop1(op, x, y)))

    def scalar_binop(self, op, a, b):
        ta, tb = num_ty(a), num_ty(b)
        if isinstance(a, Term) and ta == "str" or isinstance(b, Term) and tb == "str":
            if op == "mod":
                return self.str_mod(a, b)
            if op == "add":
                if ta != "str" or tb != "str":
                    if ta in ("int", "float", "bool") or tb in ("int", "float", "bool"):
                        self.raise_("TypeError", "can only concatenate str")
                return self.cat([a, b])
            return mk("str" + op, a, b, ty="str")
        if ta == "bool" and tb == "bool" and op in ("bitand", "bitor"):
            return mk_and(a, b) if op == "bitand" else mk_or(a, b)
        if ta == "bytes" or tb == "bytes":
            return mk(op, a, b, ty="bytes")
        if isinstance(ta, Ref) or isinstance(tb, Ref):
            return mk(op, a, b)
        if not isinstance(b, Term) and b == 0 and op in ("div", "floordiv", "mod") and num_ty(b) in ("int", "float", "bool"):
            self.raise_("ZeroDivisionError", "division by zero")
        if op in ("lshift", "rshift") and ta not in ("int", "any", "bool"):
            self.raise_("TypeError", "shift")
        try:
            return arith(op, a, b)
        except (ZeroDivisionError, TypeError, ValueError, OverflowError) as e:
            self.raise_(type(e).__name__, str(e))

    def binop1(self, op, a, b):
        # reflected method of a subclass first
        an, bn = self.is_array(a), self.is_array(b)
        ra = self.rec(a) if isinstance(a, Ref) else None
        rb = self.rec(b) if isinstance(b, Ref) else None
        d = DUNDER[op]

        def user(r, name):
            if isinstance(r, ObjRec):
                m = self.class_lookup(r.cls, name)
                if m is not None and not isinstance(m, Ext):
                    return m
            return None
        # type | type
        if op == "bitor" and (self.is_class(a) or a is None or isinstance(a, UnionV)) and \
                (self.is_class(b) or b is None or isinstance(b, UnionV)) and not (a is None and b is None):
            nt = self.ext_class(type(None))
            return UnionV([nt if a is None else a, nt if b is None else b])
        mb = user(rb, "__r%s__" % d)
        ma = user(ra, "__%s__" % d)
        if mb is not None and ma is not None and isinstance(ra, ObjRec) and not same(ra.cls, rb.cls) and \
                self.issubclass_(rb.cls, ra.cls) is True:
            x = self.call(mb, [b, a], {})
            if not self.is_notimpl(x):
                return x
            mb = None
        if ma is not None:
            x = self.call(ma, [a, b], {})
            if not self.is_notimpl(x):
                return x
        elif an:
            if mb is not None and self.array_defers(a, b):
                return self.call(mb, [b, a], {})
            return self.arr_binop(op, a, b)
        if mb is not None:
            x = self.call(mb, [b, a], {})
            if not self.is_notimpl(x):
                return x
        elif bn:
            return self.arr_binop(op, a, b)
        x, y = self.unpayload(a), self.unpayload(b)
        if op == "matmul":
            self.refuse_operands(op, a, b)
        if (is_num(x) or isinstance(x, Term)) and (is_num(y) or isinstance(y, Term)):
            return self.scalar_binop(op, x, y)
        if isinstance(x, str) or isinstance(y, str):
            return self.str_binop(op, x, y)
        if isinstance(x, bytes) and op == "add" and isinstance(y, (bytes, Term)):
            return x + y if isinstance(y, bytes) else mk("add", x, y, ty="bytes")
        if op == "mul" and (isinstance(x, bytes) and type(y) in (int, bool) or isinstance(y, bytes) and type(x) in (int, bool)):
            return x * y
        if isinstance(x, tuple) and op == "add" and isinstance(y, tuple):
            return x + y
        if isinstance(x, tuple) and op == "mul" and isinstance(self.unpayload(y), int):
            return x * y
        if isinstance(y, tuple) and op == "mul" and isinstance(x, int):
            return y * x
        if isinstance(ra, ListRec):
            if op == "add" and isinstance(rb, ListRec):
                return self.dist(ra.items, lambda i: self.dist(self.rec(b).items, lambda j: self.new_list(i + j)))
            if op == "mul" and isinstance(y, int):
                return self.dist(ra.items, lambda i: self.new_list(i * y))
            if op == "mul" and isinstance(y, Term):
                self.unsupported("list repeated a symbolic number of times")
        if isinstance(rb, ListRec) and op == "mul" and isinstance(x, int):
            return self.dist(rb.items, lambda i: self.new_list(i * x))
        if isinstance(ra, DictRec) and op == "bitor" and isinstance(rb, DictRec):
            out = self.alloc(DictRec(ra.d))
            self.call_method(out, "update", [b])
            return out
        if isinstance(ra, SetRec) and isinstance(rb, SetRec):
            A, B = ra.items, rb.items
            ka, kb = {self.dkey(i) for i in A}, {self.dkey(i) for i in B}
            if op == "bitor":
                return self.new_set(A + B)
            if op == "bitand":
                return self.new_set([i for i in A if self.dkey(i) in kb])
            if op == "sub":
                return self.new_set([i for i in A if self.dkey(i) not in kb])
            if op == "bitxor":
                return self.new_set([i for i in A if self.dkey(i) not in kb] + [i for i in B if self.dkey(i) not in ka])
        if op in ("bitor", "bitand", "sub", "bitxor") and any(isinstance(r, ListRec) and r.kind for r in (ra, rb)):
            A, B = self.to_items(a), self.to_items(b)
            if not (isinstance(A, tuple) and isinstance(B, tuple)):
                self.unsupported("set operation on gated value")
            A, B = self.new_set(A), self.new_set(B)
            return self.binop1(op, A, B)
        if isinstance(ra, ExtRec) or isinstance(rb, ExtRec) or isinstance(a, ExtAttr) or isinstance(b, ExtAttr):
            return self.ext_binop(op, a, b)
        if isinstance(x, Ext) or isinstance(y, Ext):
            if (isinstance(x, Ext) and x.obj is Ext.MISSING) or (isinstance(y, Ext) and y.obj is Ext.MISSING):
                return mk(op, x, y)
        self.refuse_operands(op, a, b)

    PY_OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "mod": operator.mod,
              "floordiv": operator.floordiv, "pow": operator.pow, "matmul": operator.matmul, "bitand": operator.and_,
              "bitor": operator.or_, "bitxor": operator.xor, "lshift": operator.lshift, "rshift": operator.rshift,
              "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}

    def prototype(self, v):
        """a concrete stand-in of the same builtin type, to ask Python whether an operation is defined on the type"""
        u = self.unpayload(v)
        if isinstance(u, Term):
            p = {"int": 1, "float": 1.0, "bool": True, "str": "a", "bytes": b"a", "complex": 1j}
            if u.ty in p and u.op != "phi":
                return p[u.ty]
            return None
        if u is None or isinstance(u, (int, float, complex, str, bytes, tuple, slice)):
            return (u,)[0] if not isinstance(u, tuple) else ()
        if isinstance(u, (np.number, np.bool_)):
            return u
        if isinstance(u, BM):
            return _Proto().method
        if isinstance(u, BBM):
            return "".join
        if isinstance(u, PropV):
            return property()
        if isinstance(u, PartialV):
            return functools.partial(len)
        if isinstance(u, Ref):
            r = self.rec(u)
            if isinstance(r, ModRec):
                return operator
            if isinstance(r, ListRec):
                return {"keys": {}.keys(), "values": {}.values(), "items": {}.items()}[r.kind] if r.kind else []
            if isinstance(r, DictRec):
                return {}
            if isinstance(r, SetRec):
                return set()
            if isinstance(r, FuncRec):
                return lambda: None
            if isinstance(r, ClassRec):
                return type("C", (), {})
            if isinstance(r, ObjRec) and r.payload is None and not r.lazy and \
                    all(isinstance(c, Ref) or c.obj is object for c in self.mro(r.cls)):
                return object()
        return ABSENT

    def refuse_operands(self, op, a, b):
        """TypeError when Python defines no such operation on these types; else the engine has no model for it"""
        p, q = self.prototype(a), self.prototype(b)
        if p is not ABSENT and q is not ABSENT and not (p is None and isinstance(a, Term)) and \
                not (q is None and isinstance(b, Term)) and op in self.PY_OPS:
            try:
                self.PY_OPS[op](p, q)
            except TypeError as e:
                self.raise_("TypeError", "unsupported operand type(s) for %s: %s and %s" % (
                    op, self.describe(a), self.describe(b)))
            except Exception:
                pass
        self.unsupported("%s of %s and %s" % (op, self.describe(a), self.describe(b)))

    def array_defers(self, a, b):
        """numpy defers to the other operand when its __array_priority__ is higher (or __array_ufunc__ is None)"""
        r = self.rec(b)
        p = self.class_lookup(r.cls, "__array_priority__")
        if p is not None and not isinstance(p, Ext) and is_num(p):
            mine = self.class_lookup(self.rec(a).cls, "__array_priority__")
            mine = mine if is_num(mine) else 0.0
            return p > mine
        u = self.class_lookup(r.cls, "__array_ufunc__")
        return False


class _Proto:
    def method(self):
        pass


def is_scalar_select(v):
    return all(is_num(x) or isinstance(x, Term) for x in v.args[1])


def mk_select(idx, items):
    items = tuple(items)
    if all(same(x, items[0]) for x in items):
        return items[0]
    tys = {num_ty(x) for x in items}
    ty = tys.pop() if len(tys) == 1 else ("float" if tys <= {"int", "float"} else "any")
    return mk("select", idx, items, ty=ty)


def has_absent(v):
    if v is ABSENT:
        return True
    return is_phi(v) and (has_absent(v.args[1]) or has_absent(v.args[2]))


def has_sym(v):
    if isinstance(v, Term):
        return True
    if isinstance(v, tuple):
        return any(has_sym(x) for x in v)
    return False
