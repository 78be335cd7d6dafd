"""Models of Python builtins and of the standard library used by the analysed tree."""
import ast
import builtins
import math
import numpy as np
import operator
import types
import typing
from .values import *
from .engine import (ObjRec, ListRec, SetRec, DictRec, ClassRec, FuncRec, ModRec, EnvRec, GenRec, IterRec, ExtRec, VIEWS,
                     DictVal, Dead, Unsupported, Frame, has_sym, mk_select, has_absent)


def install(it):
    cls = type(it)
    for k, v in list(globals().items()):
        if k.startswith("M_"):
            setattr(cls, k[2:], v)
    it.models.update(MODELS)
    it.native = NATIVE


MODELS = {}
NATIVE = {}      # class path -> {method: fn(it, obj, args, kwargs)}


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def native(cls, name):
    def deco(f):
        NATIVE.setdefault(cls, {})[name] = f
        return f
    return deco


# --------------------------------------------------------------------------------- engine hooks
def M_ext_attr(self, o, name):
    p = o.path + "." + name
    h = self.models.get(p + "#value")
    if h:
        return h(self)
    if p in self.models:
        return Ext(p, getattr(o.obj, name, Ext.MISSING) if o.obj is not Ext.MISSING else Ext.MISSING)
    if name == "__class__":
        return self.type_of(o)
    if o.obj is not Ext.MISSING:
        if isinstance(o.obj, type) and name == "__name__":
            return o.obj.__name__
        if isinstance(o.obj, type) and name in ("__mro__",):
            return self.mro(o)
        if isinstance(o.obj, type) and name == "__bases__":
            return tuple(self.ext_class(k) for k in o.obj.__bases__)
        if isinstance(o.obj, type) and name == "__base__":
            return self.ext_class(o.obj.__base__) if o.obj.__base__ else None
        try:
            v = getattr(o.obj, name)
        except AttributeError:
            if isinstance(o.obj, types.ModuleType):
                try:
                    import importlib
                    return Ext(p, importlib.import_module(p))
                except Exception:
                    pass
            return ABSENT
        return self.wrap_ext(p, v)
    if name in ("__name__", "__qualname__"):
        return o.path.split(".")[-1]
    return Ext(p)


BUILTIN_CLASS_METHODS = ("builtins.str.maketrans", "builtins.int.from_bytes", "builtins.bytes.fromhex", "builtins.float.fromhex",
                         "builtins.bytearray.fromhex")
# modules of pure helpers: a function of theirs without a model is not analysable (it is not a device of its own)
PURE_MODULES = ("itertools", "functools", "collections", "dataclasses", "enum", "copy", "operator", "contextlib", "heapq",
                "bisect", "statistics", "fractions", "decimal", "struct", "json", "abc", "weakref", "types", "array", "typing")


UFUNC_OPTIONS = {"out", "where", "axes", "axis", "keepdims", "casting", "order", "dtype", "subok", "signature", "extobj"}
# functions of the C level without a signature: least and most positional arguments
ARITY = {"builtins.type": (1, 3), "builtins.dict": (0, 1), "builtins.range": (1, 3), "builtins.slice": (1, 3), "builtins.iter": (1, 2),
         "builtins.next": (1, 2), "builtins.getattr": (2, 3), "builtins.min": (1, None), "builtins.max": (1, None),
         "builtins.str": (0, 3), "builtins.int": (0, 2), "builtins.float": (0, 1), "builtins.bool": (0, 1), "builtins.list": (0, 1),
         "builtins.tuple": (0, 1), "builtins.set": (0, 1), "builtins.zip": (0, None), "builtins.map": (2, None), "builtins.vars": (0, 1),
         "builtins.dir": (0, 1), "numpy.array": (1, 6), "numpy.zeros": (1, 3), "numpy.empty": (1, 3), "numpy.arange": (0, 4)}
KEYWORDS = {"numpy.array": {"object", "dtype", "copy", "order", "subok", "ndmin", "like"}, "numpy.zeros": {"shape", "dtype", "order", "like"},
            "numpy.empty": {"shape", "dtype", "order", "like"}}
SIGNATURES = {}


def signature_error(p, obj, args, kwargs):
    """why this library function refuses such an argument list; None when it accepts it or that is not known"""
    if p in ARITY:
        lo, hi = ARITY[p]
        kw = KEYWORDS.get(p)
        if kw is not None:
            for k in kwargs:
                if k not in kw:
                    return "%s() got an unexpected keyword argument %r" % (p, k)
        if hi is not None and len(args) > hi or len(args) + len(kwargs) < lo:
            return "%s() takes %s to %s arguments but %d were given" % (p, lo, hi, len(args))
        return None
    if isinstance(obj, np.ufunc):
        if len(args) < obj.nin or len(args) > obj.nargs:
            return "%s() takes %d arguments but %d were given" % (p, obj.nin, len(args))
        for k in kwargs:
            if k not in UFUNC_OPTIONS:
                return "%s() got an unexpected keyword argument %r" % (p, k)
        return None
    if p not in SIGNATURES:
        try:
            import inspect
            SIGNATURES[p] = inspect.signature(obj)
        except Exception:
            SIGNATURES[p] = None
    s = SIGNATURES[p]
    if s is not None:
        try:
            s.bind(*args, **kwargs)
        except TypeError as e:
            return "%s(): %s" % (p, e)
    return None


def M_ext_call(self, f, args, kwargs):
    p = f.path
    if f.obj is not Ext.MISSING and callable(f.obj):
        e = signature_error(p, f.obj, args, kwargs)
        if e:
            self.raise_("TypeError", e)
    h = self.models.get(p)
    if h is not None:
        return h(self, list(args), dict(kwargs))
    # method of an external class called through the class
    if f.obj is not Ext.MISSING and isinstance(f.obj, type) and issubclass(f.obj, BaseException):
        return self.alloc(ObjRec(f, {}, tuple(args)))
    parts = p.split(".")
    if p.startswith(("os.path.", "posixpath.")) and parts[-1] in (
            "join", "splitext", "basename", "dirname", "split", "normpath", "isabs", "commonprefix") and f.obj is not Ext.MISSING:
        return self.concrete_call(f.obj, args, kwargs, p)
    if p in BUILTIN_CLASS_METHODS:
        return self.concrete_call(f.obj, args, kwargs, p)
    if len(parts) >= 3 and parts[0] == "builtins" and args:
        return self.call_builtin_method(args[0], parts[2], list(args[1:]), kwargs)
    if parts[0] == "numpy":
        return self.np_call(p, args, kwargs)
    if parts[0] in ("math", "cmath", "operator", "re", "base64", "string", "textwrap", "types", "datetime") and f.obj is not Ext.MISSING \
            and callable(f.obj):
        return self.concrete_call(f.obj, args, kwargs, p)
    if parts[0] == "builtins" and f.obj is not Ext.MISSING:
        return self.concrete_call(f.obj, args, kwargs, p)
    if parts[0] in PURE_MODULES:
        self.unsupported(p)
    self.maybe_raise(p)
    return self.ext_new(p, args, kwargs)


def M_to_native(self, v):
    """fully concrete abstract value -> native Python value (raises Unsupported otherwise)"""
    v = self.simp(v)
    if isinstance(v, Term):
        raise Unsupported("symbolic")
    if isinstance(v, tuple):
        return tuple(self.to_native(x) for x in v)
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ListRec) and isinstance(r.items, tuple):
            return [self.to_native(x) for x in r.items]
        if isinstance(r, SetRec) and isinstance(r.items, tuple):
            return set(self.to_native(x) for x in r.items)
        if isinstance(r, DictRec) and isinstance(r.d, DictVal):
            return {self.to_native(k): self.to_native(x) for k, x in r.d.d.values()}
        if isinstance(r, ObjRec) and isinstance(r.payload, (int, float, str)):
            return r.payload
        if isinstance(r, ObjRec) and isinstance(r.cls, Ext) and "native" in r.attrs:
            return r.attrs["native"]
        raise Unsupported("object")
    if isinstance(v, Ext):
        if v.obj is Ext.MISSING:
            raise Unsupported("ext")
        return v.obj
    if isinstance(v, (Wrapper, Native, PartialV)):
        raise Unsupported("wrapper")
    return v


def M_from_native(self, v, path="value"):
    if isinstance(v, list):
        return self.new_list([self.from_native(x) for x in v])
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(self.from_native(x) for x in v)
    if isinstance(v, dict):
        return self.new_dict([(self.from_native(k), self.from_native(x)) for k, x in v.items()])
    if isinstance(v, (set,)):
        return self.new_set([self.from_native(x) for x in v])
    if v is None or isinstance(v, (Term, bool, int, float, complex, str, bytes, np.dtype, slice, range, np.generic, frozenset)):
        return v
    if isinstance(v, type):
        return self.ext_class(v)
    if isinstance(v, np.ndarray):
        return self.new_arr(v.astype(object), v.dtype)
    return self.alloc(ObjRec(self.ext_class(type(v)), {"native": v}))


def M_concrete_call(self, fn, args, kwargs, path):
    """call a pure library function on fully concrete arguments; opaque otherwise"""
    args = [self.simp(a) for a in args]
    if any(is_phi(a) for a in args):
        for i, a in enumerate(args):
            if is_phi(a):
                return self.dist(a, lambda x: self.concrete_call(fn, args[:i] + [x] + args[i + 1:], kwargs, path))
    try:
        na = [self.to_native(a) for a in args]
        nk = {k: self.to_native(v) for k, v in kwargs.items()}
    except Unsupported:
        if path.startswith("math.") or path.startswith("cmath."):
            r = self.math_call(path.split(".")[1], args)
            if r is not None:
                return r
        if path.split(".")[0] in ("re", "str"):
            r = self.digits_call(fn, args, kwargs)
            if r is not None:
                return r[0]
        self.maybe_raise(path)
        return mk("ext", path, tuple(args), tuple(sorted(kwargs.items())))
    try:
        return self.from_native(fn(*na, **nk), path)
    except Exception as e:
        if isinstance(e, (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, AttributeError, OverflowError)):
            self.raise_(type(e).__name__, str(e))
        self.raise_("Exception", str(e))


class Match:
    """a match of a regular expression in a text that contains symbolic numbers"""

    def __init__(self, whole, groups, names, last):
        self.g, self.names, self.lastgroup = [whole] + list(groups), names, last

    def __getitem__(self, i):
        return self.g[self.names[i] if isinstance(i, str) else i]

    def group(self, *a):
        a = a or (0,)
        return self[a[0]] if len(a) == 1 else tuple(self[i] for i in a)

    def groups(self, default=None):
        return tuple(default if x is None else x for x in self.g[1:])

    def groupdict(self, default=None):
        return {k: default if self.g[i] is None else self.g[i] for k, i in self.names.items()}


Match.__module__ = "re"


def M_digits_call(self, fn, args, kwargs):
    """a text function applied to texts containing the text of symbolic numbers: applied to the texts having a positive number, a
    negative one, one with an exponent in their place; the answer counts if it treats the number as a whole, and is the same"""
    import re
    parts = []

    def text(v, style):
        v = self.simp(v)
        if isinstance(v, (str, int, type(None))):
            return v
        if isinstance(v, tuple):
            return tuple(text(x, style) for x in v)
        if not isinstance(v, Term):
            return self.to_native(v)
        out = ""
        for q in (v.args if v.op == "cat" else (v,)):
            if isinstance(q, str):
                out += q
                continue
            if not (isinstance(q, Term) and q.op == "fmt" and not q.args[1] and num_ty(q.args[0]) in ("int", "float")):
                raise Unsupported("text of an unknown value")
            i = [j for j, x in enumerate(parts) if x is q]
            if not i:
                parts.append(q)
                i = [len(parts) - 1]
            whole = num_ty(q.args[0]) == "int"
            x = q.args[0]
            lo = self.ranges.get(x.args[0], (None, None))[0] if x.op == "sym" else None
            t = ("7%04d7", "-7%04d7", "7%04d7") if whole else ("7%04d.257", "-7%04d.257", "7.%04d7e-07")
            t = t[style]
            if style == 1 and isinstance(lo, (int, float)) and lo >= 0:
                t = t.replace("-7", "8", 1)
            out += t % i[0]
        return out
    pat = (r"7(\d{4})(?:\.25)?7", r"(?:-7|8)(\d{4})(?:\.25)?7", r"7\.?(\d{4})7(?:e-07)?")

    def back(r, style):
        if isinstance(r, str):
            q = re.split(pat[style], r)
            out = []
            for j, x in enumerate(q):
                if j % 2:
                    if int(x) >= len(parts):
                        raise Unsupported("number cut in pieces")
                    out.append(parts[int(x)])
                else:
                    if re.search(r"[78]\.?\d\d|\d\.257|e-07", x):
                        raise Unsupported("number cut in pieces")
                    out.append(x)
            return self.cat(out)
        if isinstance(r, (list, tuple)):
            return type(r)(back(x, style) for x in r)
        if isinstance(r, re.Match):
            return Match(back(r.group(), style), [back(x, style) for x in r.groups()], dict(r.re.groupindex), r.lastgroup)
        if r is None or isinstance(r, bool):
            return r
        if hasattr(r, "__next__"):
            return [back(x, style) for x in r]
        raise Unsupported("position in a text of unknown length")

    def shape(r):
        if isinstance(r, Match):
            return ("match", shape(r.g), r.lastgroup)
        if isinstance(r, (list, tuple)):
            return tuple(shape(x) for x in r)
        return r
    try:
        res = []
        for style in (0, 1, 2):
            a = [text(x, style) for x in args]
            k = {n: text(x, style) for n, x in kwargs.items()}
            res.append(back(fn(*a, **k), style))
        if not all(same(shape(res[0]), shape(r)) for r in res[1:]):
            return None
        return (self.from_native(res[0]),)
    except (Unsupported, TypeError, ValueError, IndexError, AttributeError):
        return None


def M_math_call(self, name, args):
    a = [self.unpayload(x) for x in args]
    if name not in ("prod", "fsum", "dist", "sumprod"):
        a = [self.arr_scalar(x) if self.is_array(x) else x for x in a]
    un = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan",
          "exp": "exp", "log": "log", "floor": "floor", "ceil": "ceil", "trunc": "trunc", "fabs": "abs"}
    if name in un and len(a) == 1:
        return unary(un[name], a[0])
    if name == "radians":
        return arith("mul", a[0], math.pi / 180)
    if name == "degrees":
        return arith("mul", a[0], 180 / math.pi)
    if name == "pow":
        return arith("pow", a[0], a[1])
    if name == "hypot":
        s = 0
        for x in a:
            s = arith("add", s, arith("mul", x, x))
        return unary("sqrt", s)
    if name == "atan2":
        return mk("atan2", a[0], a[1], ty="float")
    if name == "fmod":
        return mk("fmod", a[0], a[1], ty="float")
    if name == "isclose":
        return mk("ext", "isclose", tuple(a), ty="bool")
    if name in ("isnan", "isinf"):
        return False
    if name in ("prod", "fsum"):
        items = args[0]
        if self.is_array(items):
            items = self.call(self.get_attr(items, "tolist"), [], {})
        items = self.to_items(items)
        r = 1 if name == "prod" else 0
        for x in items:
            r = self.binop("mul" if name == "prod" else "add", r, x)
        return r
    if name in ("dist", "sumprod"):
        p, q = ([self.unpayload(x) for x in self.to_items(v)] for v in args[:2])
        if len(p) != len(q):
            self.raise_("ValueError", "both points must have the same number of dimensions")
        s = 0
        for x, y in zip(p, q):
            if name == "dist":
                x = y = arith("sub", x, y)
            s = arith("add", s, arith("mul", x, y))
        return unary("sqrt", s) if name == "dist" else s
    if a and all(is_num(x) or isinstance(x, Term) and x.ty in ("int", "float", "bool") for x in a):
        if name in ("frexp", "modf"):
            return tuple(mk("mathfn", name, tuple(a), i, ty="int" if name == "frexp" and i else "float") for i in range(2))
        ty = "int" if name in ("gcd", "lcm", "comb", "perm", "factorial", "isqrt") else "bool" if name == "isfinite" else "float"
        return mk("mathfn", name, tuple(a), None, ty=ty)
    return None


# --------------------------------------------------------------------------------- strings
def M_cat(self, parts):
    out = []
    for p in parts:
        p = self.simp(p)
        if is_phi(p):
            i = len(out)
            return self.dist(p, lambda x: self.cat(out + [x] + list(parts[len(out):][1:] if False else parts_after(parts, p))))
        if isinstance(p, Term) and p.op == "cat":
            q = list(p.args)
        else:
            q = [p]
        for x in q:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
    out = [x for x in out if x != ""]
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return mk("cat", *out, ty="str")


def parts_after(parts, p):
    for i, x in enumerate(parts):
        if x is p:
            return parts[i + 1:]
    return []


def M_format_(self, x, spec):
    x = self.simp(x)
    if is_phi(x) and not self.scalar_like(x):
        return self.dist(x, lambda v: self.format_(v, spec))
    v = self.unpayload(x)
    if isinstance(v, Term):
        if v.ty == "str" and not spec:
            return v
        return mk("fmt", v, spec, ty="str")
    if not isinstance(v, (Ref, Wrapper, Ext, UnionV)) and not (isinstance(v, tuple) and has_sym(v)):
        if spec is None or isinstance(spec, str):
            try:
                return format(v, spec or "")
            except Exception:
                pass
    return self.str_(x)


def M_str_(self, v):
    v = self.simp(v)
    t = self.type_text(v)
    if t is not None:
        return t
    if is_phi(v):
        return self.dist(v, self.str_)
    if isinstance(v, str):
        return v
    if isinstance(v, Term):
        return v if v.ty == "str" else mk("fmt", v, None, ty="str")
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ObjRec):
            for n in ("__str__", "__repr__"):
                m = self.class_lookup(r.cls, n)
                if m is not None and not isinstance(m, Ext):
                    return self.call(m, [v], {})
            if r.payload is not None and is_num(r.payload) and "_name_" not in r.attrs:
                return str(r.payload)
            if isinstance(r.payload, Term):
                return mk("fmt", r.payload, None, ty="str")
            if isinstance(r.payload, tuple) and self.is_exc_class(r.cls):
                return self.str_(r.payload[0]) if r.payload else ""
        t = self.container_text(v)
        t = self.object_text(v, True) if t is None else t
        return t if t is not None else mk("strof", v, ty="str")
    if isinstance(v, (Ext, Wrapper, Native, UnionV, PartialV)):
        return mk("strof", v if isinstance(v, (Wrapper, Ext)) else repr(v), ty="str")
    if isinstance(v, tuple):
        return self.container_text(v)
    if isinstance(v, MemV):
        return mk("strof", v, ty="str")
    return str(v)


def M_type_name(self, c):
    if c is None or isinstance(c, Ext) and c.obj is type(None):
        return "None"
    if isinstance(c, Ext) and isinstance(c.obj, type):
        return c.obj.__qualname__ if c.obj.__module__ == "builtins" else "%s.%s" % (c.obj.__module__, c.obj.__qualname__)
    if isinstance(c, Ref) and isinstance(self.rec(c), ClassRec):
        m = self.get_attr(c, "__module__", None)
        if isinstance(m, str):
            return "%s.%s" % (m, self.rec(c).qual or self.rec(c).name)
    return None


def M_type_text(self, v):
    if isinstance(v, UnionV):
        names = [self.type_name(a) for a in v.args]
        return " | ".join(names) if None not in names else None
    if isinstance(v, Ext) and isinstance(v.obj, type) or isinstance(v, Ref) and isinstance(self.rec(v), ClassRec):
        n = self.type_name(v)
        return "<class '%s'>" % n if n is not None else None
    return None


def M_container_text(self, v):
    """text of a list, tuple, dictionary or named tuple (None for other objects)"""
    if isinstance(v, tuple):
        if len(v) == 1:
            return self.cat(["(", self.repr_(v[0]), ",)"])
        return self.cat(["("] + self.commas([self.repr_(x) for x in v]) + [")"])
    r = self.rec(v)
    if isinstance(r, ListRec) and not r.kind:
        return self.dist(r.items, lambda it: self.cat(["["] + self.commas([self.repr_(x) for x in it]) + ["]"]))
    if isinstance(r, DictRec) and r.default is None:
        def go(d):
            out = []
            for k, x in d.d.values():
                out.append(self.cat([self.repr_(k), ": ", self.repr_(x)]))
            return self.cat(["{"] + self.commas(out) + ["}"])
        return self.dist(r.d, go)
    if isinstance(r, ObjRec) and isinstance(r.payload, tuple) and not self.is_exc_class(r.cls) and self.nt_fields(r.cls):
        names = self.nt_fields(r.cls)
        return self.cat([self.rec(r.cls).name + "("] + self.commas(
            [self.cat([n + "=", self.repr_(x)]) for n, x in zip(names, r.payload)]) + [")"])
    return None


def M_object_text(self, v, shown):
    """text of an enumeration entry, an array or an object without one of its own (None for other values)"""
    r = self.rec(v)
    if isinstance(r, ObjRec) and isinstance(r.cls, Ref) and self.rec(r.cls).members is not None and "_name_" in r.attrs:
        mixed = [c.obj for c in self.mro(r.cls) if isinstance(c, Ext) and c.path in
                 ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum", "builtins.int", "builtins.str", "builtins.float")]
        if any(isinstance(c, Ext) and c.path in ("enum.Flag", "enum.IntFlag") for c in self.mro(r.cls)):
            return None
        n = self.rec(r.cls).name
        if not shown:
            return self.cat(["<%s.%s: " % (n, r.attrs["_name_"]), self.repr_(r.attrs["_value_"]), ">"])
        if any(isinstance(c, Ext) and c.path in ("enum.IntEnum", "enum.StrEnum") for c in self.mro(r.cls)):
            return self.str_(r.attrs["_value_"])
        return "%s.%s" % (n, r.attrs["_name_"])
    if self.is_array(v):
        c = self.cells(v)
        dt = r.payload.dtype
        flat = [self.simp(x) for x in c.ravel().tolist()]
        kind = self.rec(r.cls).name if isinstance(r.cls, Ref) else "array"
        if dt is not None and not dt.names and all(isinstance(x, (bool, int, float, complex, str, bytes)) for x in flat):
            a = np.array(flat, dtype=dt).reshape(c.shape)
            return str(a) if shown else repr(a).replace("array(", kind + "(", 1)
        return mk("arraytext", kind, shown, str(dt), c.shape, *flat, ty="str")
    if isinstance(r, ObjRec) and r.payload is None and isinstance(r.cls, Ref) and not self.is_exc_class(r.cls) and \
            all(c.path == "builtins.object" for c in self.mro(r.cls) if isinstance(c, Ext)):
        return self.cat(["<%s object at " % self.type_name(r.cls), mk("address", v, ty="str"), ">"])
    return None


def M_commas(self, parts):
    out = []
    for i, p in enumerate(parts):
        out += [", ", p] if i else [p]
    return out


def M_repr_(self, v):
    v = self.simp(v)
    t = self.type_text(v)
    if t is not None:
        return t
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ObjRec):
            m = self.class_lookup(r.cls, "__repr__")
            if m is not None and not isinstance(m, Ext):
                return self.call(m, [v], {})
            if isinstance(r.payload, (int, float, str, bytes)) and not isinstance(r.payload, Term) and "_name_" not in r.attrs:
                return repr(r.payload)
        t = self.container_text(v)
        t = self.object_text(v, False) if t is None else t
        return t if t is not None else mk("reprof", v, ty="str")
    if is_phi(v):
        return self.dist(v, self.repr_)
    if isinstance(v, Term):
        return mk("fmt", v, None, ty="str") if v.ty in ("int", "float", "bool") else mk("repr", v, ty="str")
    if isinstance(v, tuple):
        return self.container_text(v)
    if isinstance(v, MemV):
        return mk("reprof", v, ty="str")
    if isinstance(v, (Ext, Wrapper, Native, UnionV)):
        return mk("reprof", repr(v), ty="str")
    return repr(v)


def M_str_mod(self, fmt, args):
    if not isinstance(fmt, str):
        return mk("strmod", fmt, args, ty="str")
    if isinstance(args, tuple):
        vals = list(args)
    else:
        vals = [args]
    out = []
    i = 0
    import re
    pos = 0
    for m in re.finditer(r"%(\([^)]*\))?([-#0 +]*)(\d+|\*)?(\.\d+)?([a-zA-Z%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = self.getitem(args, m.group(1)[1:-1])
        else:
            if i >= len(vals):
                self.raise_("TypeError", "not enough arguments for format string")
            v = vals[i]
            i += 1
        spec = "%" + (m.group(2) or "") + (m.group(3) or "") + (m.group(4) or "") + m.group(5)
        k = m.group(5)
        if k in "dix" and not isinstance(self.simp(v), Term):
            u = self.unpayload(v)
            if not is_num(u):
                self.raise_("TypeError", "%%%s format: a real number is required, not %s" % (k, self.describe(v)))
            out.append(spec % u)
        elif k == "r":
            out.append(self.repr_(v))
        elif k == "s":
            s = self.str_(v)
            out.append(spec % s if isinstance(s, str) else s)
        else:
            u = self.unpayload(self.simp(v))
            if isinstance(u, Term):
                out.append(mk("fmt", u, spec, ty="str"))
            elif is_num(u):
                out.append(spec % u)
            else:
                self.raise_("TypeError", "must be real number, not %s" % self.describe(v))
    out.append(fmt[pos:])
    if i < len(vals) and not (len(vals) == 1 and isinstance(vals[0], Ref)):
        self.raise_("TypeError", "not all arguments converted during string formatting")
    return self.cat(out)


def M_str_binop(self, op, a, b):
    if op == "mod" and (isinstance(a, str)):
        return self.str_mod(a, b)
    if op == "add":
        if (isinstance(a, str) or isinstance(a, Term)) and (isinstance(b, str) or isinstance(b, Term)):
            for x in (a, b):
                if isinstance(x, Term) and x.ty in ("int", "float", "bool", "bytes"):
                    self.raise_("TypeError", "can only concatenate str")
            return self.cat([a, b])
    if op == "mul":
        s, n = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(n, int):
            return s * n
        if isinstance(n, Term):
            return mk("strmul", s, n, ty="str")
    self.refuse_operands(op, a, b)


# --------------------------------------------------------------------------------- builtin methods
def M_builtin_attr(self, o, name):
    if isinstance(o, Ref):
        r = self.rec(o)
        k = {ListRec: list, DictRec: dict, SetRec: set}.get(type(r))
        if k is list and r.kind:
            k = VIEWS[r.kind]
        if k is not None:
            return BBM(o, name) if hasattr(k, name) else ABSENT
        if isinstance(r, (GenRec, IterRec)):
            return BBM(o, name) if name in ("__next__", "__iter__", "send", "close", "throw") else ABSENT
        return ABSENT
    if isinstance(o, Term):
        if o.ty == "any" or isinstance(o.ty, Ref) or o.op == "select":
            if o.op == "select":
                return mk_select(o.args[0], [self.get_attr(x, name) for x in o.args[1]])
            if isinstance(o.ty, Ref):
                raw = self.class_lookup(o.ty, name)
                if raw is not None:
                    return self.bind_attr(raw, o, o.ty)
            return mk("attr", o, name)
        k = {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes, "complex": complex}.get(o.ty)
        if o.ty in ("float", "int", "complex") and name in ("real", "imag"):
            return unary(name, o)
        if k is None:
            return mk("attr", o, name)
        if o.ty in ("float", "int") and name in ("shape", "strides", "ndim", "size", "base", "T"):
            return {"shape": (), "strides": (), "ndim": 0, "size": 1, "base": None, "T": o}[name]
        if o.ty in ("float", "int") and hasattr(np.float64, name):
            return BBM(o, name)
        return BBM(o, name) if hasattr(k, name) else ABSENT
    if isinstance(o, MemV):
        if self.is_array(o.src) and name in ("nbytes", "shape", "ndim", "itemsize"):
            return self.arr_attr(o.src, name)
        if self.is_array(o.src) and name in ("c_contiguous", "contiguous"):
            from .nparr import contiguous
            return contiguous(self.rec(o.src).payload)
        if name == "nbytes":
            return len(o.src) if isinstance(o.src, bytes) else mk("nbytes", o, ty="int")
        if name in ("c_contiguous", "contiguous", "f_contiguous") and isinstance(o.src, (bytes, Term)):
            return True
        return BBM(o, name) if hasattr(memoryview, name) else ABSENT
    if isinstance(o, np.dtype):
        try:
            v = getattr(o, name)
        except AttributeError:
            return ABSENT
        if callable(v) and not isinstance(v, type):
            return BBM(o, name)
        return self.from_native(v)
    if isinstance(o, slice):
        return getattr(o, name) if name in ("start", "stop", "step") else (BBM(o, name) if hasattr(o, name) else ABSENT)
    if isinstance(o, (int, float, complex)) and name in ("real", "imag", "numerator", "denominator"):
        return getattr(o, name)
    if isinstance(o, np.generic):
        if name in ("T", "shape", "dtype", "size", "ndim", "itemsize", "real", "imag", "base"):
            return self.from_native(getattr(o, name))
    if isinstance(o, UnionV):
        if name == "__args__":
            return o.args
        return ABSENT
    if isinstance(o, (str, bytes, int, float, complex, tuple, bool, range, frozenset, np.generic)):
        return BBM(o, name) if hasattr(o, name) else ABSENT
    if o is None or o is Ellipsis:
        return ABSENT
    if isinstance(o, (BBM, Native, PartialV)):
        if name == "__name__":
            return o.name if not isinstance(o, PartialV) else ABSENT
        if isinstance(o, PartialV) and name == "func":
            return o.func
        return ABSENT
    return ABSENT


# methods of arrays: least and most positional arguments
ARRAY_ARITY = {"astype": (1, 5), "view": (0, 2), "fill": (1, 1), "dot": (1, 2), "tolist": (0, 0), "tobytes": (0, 1), "copy": (0, 1), "ravel": (0, 1),
               "flatten": (0, 1), "swapaxes": (2, 2), "squeeze": (0, 1), "take": (1, 4), "repeat": (1, 2), "item": (0, None), "nonzero": (0, 0),
               "conj": (0, 0), "conjugate": (0, 0), "reshape": (1, None), "clip": (0, 3)}


def method_error(o, cls, name, args, kwargs):
    """why this method of a builtin type refuses such an argument list; None when it accepts it or that is not known"""
    if cls is np.ndarray:
        lo, hi = ARRAY_ARITY.get(name, (0, None))
        if hi is not None and len(args) > hi or len(args) + len(kwargs) < lo:
            return "%s() takes %s to %s arguments but %d were given" % (name, lo, hi, len(args))
        return None
    f = getattr(cls, name, None)
    if f is None or name.startswith("__") or isinstance(cls.__dict__.get(name), (classmethod, staticmethod)):
        return None
    return signature_error("builtins.%s.%s" % (cls.__name__, name), f, [o] + list(args), kwargs)


BUILTIN_CLASS = ((ListRec, list), (DictRec, dict), (SetRec, set))


def M_call_builtin_method(self, o, name, args, kwargs):
    o = self.simp(o)
    if is_phi(o) and not self.scalar_like(o):
        return self.dist(o, lambda x: self.call_builtin_method(x, name, args, kwargs))
    cls = None
    if isinstance(o, Ref):
        cls = next((c for t, c in BUILTIN_CLASS if isinstance(self.rec(o), t)), None) or (np.ndarray if self.is_array(o) else None)
    elif isinstance(o, (str, bytes, tuple)):
        cls = type(o)
    elif isinstance(o, Term) and o.ty == "str":
        cls = str
    if cls is not None:
        e = method_error(o, cls, name, args, kwargs)
        if e:
            self.raise_("TypeError", e)
    if isinstance(o, Ref):
        r = self.rec(o)
        if isinstance(r, ListRec):
            return self.list_method(o, name, args, kwargs)
        if isinstance(r, DictRec):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(r, SetRec):
            return self.set_method(o, name, args, kwargs)
        if isinstance(r, (GenRec, IterRec)):
            if name == "__iter__":
                return o
            if name == "__next__":
                return self.next_(o, ABSENT)
            return None
        if self.is_array(o):
            return self.arr_method(o, name, args, kwargs)
        if isinstance(r, ObjRec):
            if r.payload is not None and not isinstance(r.payload, tuple):
                return self.call_builtin_method(r.payload, name, args, kwargs)
            if isinstance(r.payload, tuple):
                return self.call_builtin_method(r.payload, name, args, kwargs)
    if isinstance(o, PropV):
        if name == "setter":
            return PropV(o.fget, args[0], o.fdel)
        if name == "getter":
            return PropV(args[0], o.fset, o.fdel)
        return PropV(o.fget, o.fset, args[0])
    if isinstance(o, MemV):
        if name == "tobytes":
            if self.is_array(o.src) and (args or kwargs):
                return self.arr_method(o.src, name, args, kwargs)
            return self.tobytes(o)
        if name in ("cast", "toreadonly"):
            return o
        return mk("mem." + name, o, tuple(args))
    if isinstance(o, str):
        return self.str_method(o, name, args, kwargs)
    if isinstance(o, Term):
        if o.ty in ("float", "int", "complex") and name in ("conjugate",):
            return unary("conj", o)
        if o.ty in ("float", "int") and hasattr(np.ndarray, name):
            return self.arr_method(self.scalar_arr(o), name, args, kwargs, scalar=True)
        if o.op == "b64" and name == "decode":
            return mk("b64str", o.args[0], ty="str")
        if o.ty == "str":
            if name == "encode":
                return mk("encode", o, ty="bytes")
            if name in ("startswith", "endswith"):
                r = self.affix(o, name, args[0])
                if r is not None:
                    return r
            if hasattr(str, name) and name not in ("join", "format") and not any(is_phi(self.simp(x)) for x in args):
                r = self.digits_call(getattr(str, name), [o] + list(args), kwargs)
                if r is not None:
                    return r[0]
            if name in ("startswith", "endswith"):
                return mk("str." + name, o, tuple(args), ty="bool")
            if name in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "join", "title", "capitalize", "format"):
                return mk("str." + name, o, tuple(args), ty="str")
            if name in ("split", "rsplit", "partition", "rpartition"):
                r = self.cat_split(o, name, args)
                if r is not None:
                    return r
            return mk("str." + name, o, tuple(args))
        if name == "decode":
            return mk("decode", o, ty="str")
        return mk("mcall", o, name, tuple(args))
    if isinstance(o, np.generic) and hasattr(np.ndarray, name):
        return self.arr_method(self.scalar_arr(o.item()), name, args, kwargs, scalar=True)
    fn = getattr(o, name, None)
    if fn is None:
        self.raise_("AttributeError", name)
    return self.concrete_call(fn, args, kwargs, type(o).__name__ + "." + name)


def M_affix(self, o, name, x):
    if o.op == "cat" and isinstance(x, str):
        p = o.args[0] if name == "startswith" else o.args[-1]
        if isinstance(p, str) and len(p) >= len(x):
            return getattr(p, name)(x)
    return None


def M_cat_split(self, o, name, args):
    """split of a concatenation whose symbolic parts are assumed free of the separator"""
    if o.op != "cat" or not args or not isinstance(args[0], str):
        return None
    sep = args[0]
    pieces = [[]]
    for p in o.args:
        if isinstance(p, str):
            q = p.split(sep)
            pieces[-1].append(q[0])
            for x in q[1:]:
                pieces.append([x])
        else:
            pieces[-1].append(p)
    vals = [self.cat(p) for p in pieces]
    if name == "split" and len(args) == 1:
        return self.new_list(vals)
    return None


def M_str_method(self, o, name, args, kwargs):
    args = [self.simp(a) for a in args]
    if name == "join":
        items = self.to_items(args[0])

        def j(items):
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(o)
                x = self.unpayload(x)
                if not isinstance(x, (str, Term)):
                    self.raise_("TypeError", "sequence item %d: expected str instance, %s found" % (i, self.describe(x)))
                parts.append(x)
            return self.cat(parts)
        return self.dist(items, j)
    if name == "format":
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            base = field.split(".")[0].split("[")[0]
            if base == "":
                v = args[auto]
                auto += 1
            elif base.isdigit():
                v = args[int(base)]
            else:
                if base not in kwargs:
                    self.raise_("KeyError", base)
                v = kwargs[base]
            for a in field.split(".")[1:]:
                v = self.get_attr(v, a)
            if conv == "r":
                v = self.repr_(v)
            parts.append(self.format_(v, spec or None))
        return self.cat(parts)
    for i, a in enumerate(args):
        if is_phi(a):
            return self.dist(a, lambda x: self.str_method(o, name, args[:i] + [x] + args[i + 1:], kwargs))
    args = [self.unpayload(a) for a in args]
    if any(isinstance(a, Term) for a in args):
        if name in ("index", "find", "rfind", "rindex", "count"):
            return mk("str." + name, o, tuple(args), ty="int")
        if name in ("startswith", "endswith"):
            return mk("str." + name, o, tuple(args), ty="bool")
        return mk("str." + name, o, tuple(args), ty="str")
    return self.concrete_call(getattr(o, name), args, kwargs, "str." + name)


def M_list_method(self, o, name, args, kwargs):
    r = self.rec(o)
    if name == "append":
        return self.list_append(o, args[0])
    if name in ("extend", "__iadd__"):
        return self.list_extend(o, self.to_items(args[0]))
    if name == "__iter__":
        return self.alloc(IterRec(o, 0))

    def go(items):
        if name == "pop":
            i = self.norm_index(args[0]) if args else -1
            if not items or not isinstance(i, int) or not -len(items) <= i < len(items):
                if isinstance(i, Term):
                    self.unsupported("pop at symbolic index")
                self.raise_("IndexError", "pop from empty list")
            l = list(items)
            v = l.pop(i)
            self.put(o, ListRec(tuple(l)))
            return v
        if name == "insert":
            l = list(items)
            l.insert(self.norm_index(args[0]), args[1])
            self.put(o, ListRec(tuple(l)))
            return None
        if name == "clear":
            self.put(o, ListRec(()))
            return None
        if name == "copy":
            return self.new_list(items)
        if name == "reverse":
            self.put(o, ListRec(tuple(reversed(items))))
            return None
        if name == "sort":
            self.put(o, ListRec(self.sort_items(items, kwargs.get("key"), kwargs.get("reverse", False))))
            return None
        if name in ("index", "remove"):
            def find(i):
                if i >= len(items):
                    self.raise_("ValueError", "not in list")
                c = self.truth(self.compare_eq(items[i], args[0])) if not (
                    isinstance(items[i], Ref) and isinstance(args[0], Ref) and items[i] == args[0]) else True

                def yes():
                    if name == "index":
                        return i
                    self.put(o, ListRec(items[:i] + items[i + 1:]))
                return self.fork(c, yes, lambda: find(i + 1))
            return find(0)
        if name == "count":
            n = 0
            for x in items:
                n = arith("add", n, self.bool_int(self.truth(self.compare_eq(x, args[0]))))
            return n
        if name == "__len__":
            return len(items)
        if name == "__getitem__":
            return self.getitem(o, args[0])
        if name == "__setitem__":
            return self.setitem(o, args[0], args[1])
        if name == "__contains__":
            return self.contains(o, args[0])
        if name == "__eq__":
            return self.compare_eq(o, args[0])
        if name == "popleft":
            if not items:
                self.raise_("IndexError", "pop from an empty deque")
            self.put(o, ListRec(items[1:]))
            return items[0]
        if name == "appendleft":
            self.put(o, ListRec((args[0],) + items))
            return None
        self.unsupported("list." + name)
    return self.dist(r.items, go)


def M_bool_int(self, c):
    if isinstance(c, bool):
        return int(c)
    return mk_phi(c, 1, 0)


def M_dict_method(self, o, name, args, kwargs):
    if name == "get" or name == "setdefault" or name == "pop":
        default = args[1] if len(args) > 1 else kwargs.get("default", None)

        def key(k):
            def g(d):
                def found(q):
                    v = self.simp(d.d[q][1])
                    if name == "pop":
                        nd = dict(d.d)
                        del nd[q]
                        self.put(o, DictRec(DictVal(nd), self.rec(o).default))
                    return v

                def missing():
                    if name == "pop" and len(args) < 2:
                        self.raise_("KeyError", k)
                    if name == "setdefault":
                        self.setitem(o, k, default)
                    return default
                return self.dict_find(d.d, k, found, missing)
            return self.dist(self.rec(o).d, g)
        return self.dist(args[0], key)
    if name == "__contains__":
        return self.contains(o, args[0])
    if name == "__getitem__":
        return self.getitem(o, args[0])
    if name == "__setitem__":
        return self.setitem(o, args[0], args[1])
    if name == "__delitem__":
        return self.delitem(o, args[0])
    if name == "update":
        def upd(src):
            if isinstance(src, Ref) and isinstance(self.rec(src), DictRec):
                def g(d):
                    for k, v in d.d.values():
                        self.setitem(o, k, v)
                self.dist(self.rec(src).d, g)
            else:
                def each(p):
                    items = self.to_items(p)
                    self.setitem(o, items[0], items[1])
                self.for_each(src, each)
        if args:
            self.dist(args[0], upd)
        for k, v in kwargs.items():
            self.setitem(o, k, v)
        return None

    def go(d):
        d = d.d
        if name in ("keys", "__iter__"):
            return self.alloc(ListRec(tuple(k for k, _ in d.values()), "keys")) if name == "keys" else \
                self.alloc(IterRec(self.new_list([k for k, _ in d.values()]), 0))
        if name == "values":
            return self.alloc(ListRec(tuple(self.simp(v) for _, v in d.values()), "values"))
        if name == "items":
            return self.alloc(ListRec(tuple((k, self.simp(v)) for k, v in d.values()), "items"))
        if name == "copy":
            return self.alloc(DictRec(DictVal(dict(d)), self.rec(o).default))
        if name == "clear":
            self.put(o, DictRec(DictVal({}), self.rec(o).default))
            return None
        if name == "__len__":
            return len(d)
        if name == "popitem":
            if not d:
                self.raise_("KeyError", "popitem")
            q = list(d)[-1]
            nd = dict(d)
            kv = nd.pop(q)
            self.put(o, DictRec(DictVal(nd), self.rec(o).default))
            return kv
        if name == "move_to_end":
            nd = dict(d)
            q = self.dkey(args[0])
            kv = nd.pop(q)
            nd[q] = kv
            self.put(o, DictRec(DictVal(nd), self.rec(o).default))
            return None
        if name == "__eq__":
            return self.compare_eq(o, args[0])
        if name == "fromkeys":
            return self.new_dict([(k, args[1] if len(args) > 1 else None) for k in self.to_items(args[0])])
        self.unsupported("dict." + name)
    return self.dist(self.rec(o).d, go)


def M_set_method(self, o, name, args, kwargs):
    def go(items):
        keys = {self.dkey(x) for x in items}

        def other(i=0):
            t = self.to_items(args[i])
            if is_phi(t):
                self.unsupported("set operation on gated value")
            return t
        if name == "add":
            if self.dkey(args[0]) not in keys:
                self.put(o, SetRec(items + (args[0],)))
            return None
        if name in ("discard", "remove"):
            k = self.dkey(args[0])
            if k not in keys and name == "remove":
                self.raise_("KeyError", args[0])
            self.put(o, SetRec(tuple(x for x in items if self.dkey(x) != k)))
            return None
        if name == "issubset":
            return all(self.dkey(x) in {self.dkey(y) for y in other()} for x in items)
        if name == "issuperset":
            return all(self.dkey(x) in keys for x in other())
        if name == "isdisjoint":
            return not any(self.dkey(x) in keys for x in other())
        if name in ("union", "update"):
            s = self.new_set(items + other())
            if name == "update":
                self.put(o, self.rec(s))
                return None
            return s
        if name == "intersection":
            t = {self.dkey(y) for y in other()}
            return self.new_set([x for x in items if self.dkey(x) in t])
        if name in ("difference", "difference_update"):
            t = {self.dkey(y) for y in other()}
            s = self.new_set([x for x in items if self.dkey(x) not in t])
            if name == "difference_update":
                self.put(o, self.rec(s))
                return None
            return s
        if name == "copy":
            return self.new_set(items)
        if name == "clear":
            self.put(o, SetRec(()))
            return None
        if name == "pop":
            if not items:
                self.raise_("KeyError", "pop from an empty set")
            self.put(o, SetRec(items[1:]))
            return items[0]
        if name == "__contains__":
            return self.in_items(items, args[0])
        if name == "__len__":
            return len(items)
        self.unsupported("set." + name)
    return self.dist(self.rec(o).items, go)


def M_next_(self, v, default):
    v = self.simp(v)
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, (GenRec, IterRec)):
            items = self.gen_items(v) if isinstance(r, GenRec) else self.to_items_raw(r.src)

            def go(it):
                pos = self.simp(self.rec(v).pos)

                def g(pos):
                    if pos >= len(it):
                        if default is ABSENT:
                            self.raise_("StopIteration")
                        return default
                    q = self.rec(v).copy()
                    q.pos = pos + 1
                    self.put(v, q)
                    return self.simp(it[pos])
                return self.dist(pos, g)
            return self.dist(items, go)
        if isinstance(r, ObjRec):
            return self.call_method(v, "__next__", [])
    if isinstance(v, Term):
        return fresh("next")
    self.raise_("TypeError", "not an iterator")


def M_to_items_raw(self, src):
    return self.to_items(src)


def M_sort_items(self, items, key, reverse):
    if key is not None:
        keys = [self.call(key, [x], {}) for x in items]
    else:
        keys = [self.unpayload(x) for x in items]
    rev = self.truth(reverse)
    if not isinstance(rev, bool):
        self.unsupported("sorted(reverse=symbolic)")
    if any(has_sym(k) for k in keys):
        if all(is_num(k) or isinstance(k, Term) for k in keys):
            ks = tuple(neg(k) for k in keys) if rev else tuple(keys)
            return tuple(mk_select(mk("argsort", ks, i, ty="int"), items) for i in range(len(items)))
        if all(isinstance(k, tuple) and len(k) == len(keys[0]) and all(is_num(x) or isinstance(x, Term) for x in k)
               for k in keys):
            ks = tuple(tuple(neg(x) for x in k) for k in keys) if rev else tuple(keys)
            return tuple(mk_select(mk("argsort", ks, i, ty="int"), items) for i in range(len(items)))
        self.unsupported("sort with symbolic keys")
    if any(isinstance(x, Ref) for k in keys for x in (k if isinstance(k, tuple) else (k,))):
        import functools

        def before(i, j):
            for x, y, r in ((i, j, -1), (j, i, 1)):
                a, b = keys[x], keys[y]
                ra = self.rec(a) if isinstance(a, Ref) else None
                if isinstance(ra, ObjRec) and isinstance(ra.cls, Ext) and ra.cls.path == "gspsa.CmpKey":
                    c = self.order("lt", self.call(ra.attrs["f"], [ra.attrs["v"], self.rec(b).attrs["v"]], {}), 0)
                else:
                    c = self.order("lt", a, b)
                c = self.truth(c)
                if not isinstance(c, bool):
                    self.unsupported("sort with a symbolic order")
                if c:
                    return r
            return 0
        idx = sorted(range(len(items)), key=functools.cmp_to_key(before), reverse=rev)
        return tuple(items[i] for i in idx)
    try:
        idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)
    except TypeError as e:
        self.raise_("TypeError", str(e))
    return tuple(items[i] for i in idx)


# --------------------------------------------------------------------------------- builtin functions
@model("builtins.len")
def _len(it, a, k):
    def f(v):
        if isinstance(v, Term) and v.op == "bytesof":
            return np.dtype(v.args[0]).itemsize * len(v.args[1])
        if isinstance(v, Term) and v.op == "rawbytes":
            return len(v.args[0])
        if isinstance(v, Ref):
            r = it.rec(v)
            if isinstance(r, (ListRec, SetRec)):
                return it.dist_len(r.items)
            if isinstance(r, DictRec):
                return it.dist_len(r.d)
            if isinstance(r, ObjRec):
                m = it.class_lookup(r.cls, "__len__")
                if m is not None and not isinstance(m, Ext):
                    return it.call(m, [v], {})
                if it.is_array(v):
                    sh = it.arr_shape(v)
                    if not sh:
                        it.raise_("TypeError", "len() of unsized object")
                    return sh[0]
                if isinstance(r.payload, (tuple, str)):
                    return len(r.payload)
                if r.lazy:
                    return mk("len", mk("obj", v.addr), ty="int")
            if isinstance(r, ClassRec) and r.members is not None:
                return len(r.members)
            if isinstance(r, ExtRec):
                return mk("len", v, ty="int")
            it.refuse("__len__", "object of type %s has no len()" % it.describe(v), v)
        if isinstance(v, (tuple, str, bytes, range, frozenset)):
            return len(v)
        if isinstance(v, Term):
            if v.ty in ("int", "float", "bool", "complex"):
                it.raise_("TypeError", "object of type %s has no len()" % v.ty)
            if v.op == "select":
                return mk_select(v.args[0], [f(x) for x in v.args[1]])
            return mk("len", v, ty="int")
        if isinstance(v, (MemV, Ext, ExtAttr)):
            return mk("len", v, ty="int")
        it.refuse("__len__", "object of type %s has no len()" % it.describe(v), v)
    return it.dist(a[0], f)


def M_dist_len(self, items):
    items = self.simp(items)
    if is_phi(items):
        return mk_phi(items.args[0], self.dist_len(items.args[1]), self.dist_len(items.args[2]))
    if isinstance(items, DictVal):
        return len(items.d)
    return len(items)


@model("builtins.isinstance")
def _isinstance(it, a, k):
    d = it.simp(a[1])
    if isinstance(d, tuple):
        chk = d
    else:
        chk = (d,)
    for x in chk:
        if not (it.is_class(x) or isinstance(x, (UnionV, tuple, Term)) or x is None or isinstance(x, Ext)):
            it.raise_("TypeError", "isinstance() arg 2 must be a type")
        if x is None:
            it.raise_("TypeError", "isinstance() arg 2 must be a type")
    return it.decide(it.isinstance_(a[0], d))


@model("builtins.issubclass")
def _issubclass(it, a, k):
    def f(c):
        if isinstance(c, Term):
            return mk("issubclass", c, a[1], ty="bool")
        if not it.is_class(c) and not isinstance(c, Ext):
            it.raise_("TypeError", "issubclass() arg 1 must be a class")
        d = it.simp(a[1])
        for x in (d if isinstance(d, tuple) else (d,)):
            if not (it.is_class(x) or isinstance(x, (UnionV, tuple, Ext))):
                it.raise_("TypeError", "issubclass() arg 2 must be a class")
        return it.issubclass_(c, d)
    return it.dist(a[0], f)


@model("builtins.type")
def _type(it, a, k):
    if len(a) == 1:
        def f(v):
            t = it.type_of(v)
            return t if t is not None else mk("type", v)
        return it.dist(a[0], f)
    if len(a) == 3:
        node = ast.ClassDef(name=a[0], bases=[], keywords=[], body=[], decorator_list=[])
        bases = it.to_items(a[1]) or (Ext("builtins.object", object),)
        attrs = {kk: v for kk, v in it.dict_val(a[2]).values()}
        ref = it.alloc(ClassRec(a[0], bases, None, attrs, None, it.frame().module, a[0], node))
        it.rec(ref).mro = it.c3(ref, bases)
        return ref
    it.unsupported("type()")


@model("builtins.getattr")
def _getattr(it, a, k):
    def f(name):
        name = it.unpayload(name)
        if isinstance(name, Term):
            return mk("getattr", a[0] if not isinstance(a[0], list) else 0, name)
        if not isinstance(name, str):
            it.raise_("TypeError", "attribute name must be string")
        if len(a) > 2:
            if may_compute(it, a[0], name):
                return rt_call(it, "getattr_default", [a[0], name, a[2]])
            return it.get_attr(a[0], name, a[2])
        return it.get_attr(a[0], name)
    return it.dist(a[1], f)


def rt_call(it, name, a, k=None):
    """call a helper written in rt.txt"""
    return it.call(it.get_attr1(it.rt, name), list(a), dict(k or {}))


def may_compute(it, o, name):
    """does looking the attribute up run code of the object's class?"""
    o = it.simp(o)
    if is_phi(o):
        return True
    if not (isinstance(o, Ref) and isinstance(it.rec(o), ObjRec)):
        return False
    r = it.rec(o)
    raw = it.class_lookup(r.cls, name)
    if isinstance(raw, PropV):
        return True
    g = it.class_lookup(r.cls, "__getattr__")
    return raw is None and name not in r.attrs and g is not None and not isinstance(g, Ext) or \
        user_method(it, r.cls, "__getattribute__")


def user_method(it, cls, name):
    m = it.class_lookup(cls, name)
    return m is not None and not isinstance(m, Ext)


def _rt(path, name):
    @model(path)
    def f(it, a, k):
        return rt_call(it, name, a, k)


for _m, _names in (("dataclasses", "dataclass field fields is_dataclass asdict astuple replace"),
                   ("functools", "total_ordering singledispatch"), ("contextlib", "ExitStack closing"),
                   ("bisect", "bisect_left bisect_right insort")):
    for _n in _names.split():
        _rt(_m + "." + _n, _n)
_rt("bisect.bisect", "bisect_right")
_rt("bisect.insort_right", "insort")


@model("builtins.hasattr")
def _hasattr(it, a, k):
    m = object()

    def f(o):
        if isinstance(o, Term) and o.ty == "any" and o.op != "select":
            return mk("hasattr", o, a[1], ty="bool")
        if isinstance(a[1], str) and may_compute(it, o, a[1]):
            return rt_call(it, "hasattr_", [o, a[1]])
        sink = []
        it.sinks.append(sink)
        try:
            try:
                v = it.get_attr1(o, a[1])
                alive = True
            except Dead:
                alive = False
        finally:
            it.sinks.pop()
        if sink and alive:
            it.unsupported("hasattr of a gated attribute")
        if not alive:
            it.join_many([(s, None) for s, e, l in sink])
            return False
        return v is not ABSENT
    return it.dist(a[0], f)


@model("builtins.setattr")
def _setattr(it, a, k):
    return it.dist(a[1], lambda n: it.set_attr(a[0], n, a[2]))


@model("builtins.delattr")
def _delattr(it, a, k):
    return it.del_attr(a[0], a[1])


@model("builtins.callable")
def _callable(it, a, k):
    def f(v):
        if isinstance(v, Ref):
            r = it.rec(v)
            if isinstance(r, (FuncRec, ClassRec)):
                return True
            if isinstance(r, ObjRec):
                return it.class_lookup(r.cls, "__call__") is not None
            return False
        if isinstance(v, (BM, BBM, Native, PartialV)):
            return True
        if isinstance(v, Ext):
            return callable(v.obj) if v.obj is not Ext.MISSING else True
        if isinstance(v, Term):
            return mk("callable", v, ty="bool") if v.ty == "any" else False
        return callable(v)
    return it.dist(a[0], f)


@model("builtins.print")
def _print(it, a, k):
    sep, end = k.get("sep"), k.get("end", "\n")
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(" " if sep is None else sep)
        parts.append(_str(it, [x], {}))
    parts.append("\n" if end is None else end)
    text = it.cat(parts)
    to = k.get("file")
    if to is None or isinstance(to, Ext) and to.path in ("sys.stdout", "sys.__stdout__"):
        it.setitem(it.files, "<stdout>", it.cat([it.call_method(it.files, "get", ["<stdout>", ""]), text]))
    elif isinstance(to, Ext) and to.path in ("sys.stderr", "sys.__stderr__"):
        pass
    else:
        it.call_method(to, "write", [text])
    return None


@model("builtins.range")
def _range(it, a, k):
    v = [it.norm_index(x) for x in a]
    v = [it.arr_scalar(x) if it.is_array(x) else x for x in v]
    for i, x in enumerate(v):
        if is_phi(x):
            return it.dist(x, lambda y: _range(it, v[:i] + [y] + v[i + 1:], k))
    if any(isinstance(x, Term) for x in v):
        it.unsupported("range with symbolic bounds %s" % show(tuple(v), 3))
    try:
        return range(*v)
    except (TypeError, ValueError) as e:
        it.raise_(type(e).__name__, str(e))


@model("builtins.enumerate")
def _enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return it.dist(it.to_items(a[0]), lambda x: it.new_list([(arith("add", start, i), v) for i, v in enumerate(x)]))


@model("builtins.zip")
def _zip(it, a, k):
    cols = []

    def go(i, cols):
        if i == len(a):
            return it.new_list(list(zip(*cols)))
        v = a[i]
        if isinstance(v, Ref) and isinstance(it.rec(v), ObjRec) and isinstance(it.rec(v).cls, Ext) and \
                it.rec(v).cls.path in ("itertools.count", "itertools.cycle", "itertools.repeat"):
            n = min([len(c) for c in cols] or [0]) if cols else 64
            return go(i + 1, cols + [tuple(it.call_method(v, "__next__", []) for _ in range(n))])
        return it.dist(it.to_items(v), lambda x: go(i + 1, cols + [x]))
    return go(0, [])


@model("builtins.map")
def _map(it, a, k):
    if len(a) == 2:
        out = it.new_list(())
        it.for_each(a[1], lambda x: it.list_append(out, it.call(a[0], [x], {})))
        return it.alloc(IterRec(out, 0))
    z = _zip(it, a[1:], {})
    out = it.new_list(())
    it.for_each(z, lambda x: it.list_append(out, it.call(a[0], list(x), {})))
    return it.alloc(IterRec(out, 0))


@model("builtins.filter")
def _filter(it, a, k):
    out = it.new_list(())

    def one(x):
        c = it.truth(x) if a[0] is None else it.truth(it.call(a[0], [x], {}))
        it.fork(c, lambda: it.list_append(out, x), lambda: None)
    it.for_each(a[1], one)
    return it.alloc(IterRec(out, 0))


@model("builtins.sorted")
def _sorted(it, a, k):
    return it.dist(it.to_items(a[0]), lambda x: it.new_list(it.sort_items(x, k.get("key"), k.get("reverse", False))))


@model("builtins.reversed")
def _reversed(it, a, k):
    if isinstance(a[0], range):
        return it.new_list(tuple(reversed(a[0])))
    return it.dist(it.to_items(a[0]), lambda x: it.alloc(IterRec(it.new_list(tuple(reversed(x))), 0)))


@model("builtins.sum")
def _sum(it, a, k):
    def f(items):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in items:
            r = it.binop("add", r, x)
        return r
    return it.dist(it.to_items(a[0]), f)


def _minmax(op):
    def f(it, a, k):
        if len(a) == 1:
            items = it.to_items(a[0])
        else:
            items = tuple(a)

        def g(items):
            if not items:
                if "default" in k:
                    return k["default"]
                it.raise_("ValueError", "arg is an empty sequence")
            if "key" in k:
                s = it.sort_items(items, k["key"], op == "max")
                return s[0]
            r = items[0]
            for x in items[1:]:
                r = it.minmax(op, r, x)
            return r
        return it.dist(items, g)
    return f


MODELS["builtins.min"] = _minmax("min")
MODELS["builtins.max"] = _minmax("max")


def M_minmax(self, op, a, b):
    a, b = self.simp(a), self.simp(b)
    a, b = self.unpayload(a), self.unpayload(b)
    a = self.arr_scalar(a) if self.is_array(a) else a
    b = self.arr_scalar(b) if self.is_array(b) else b
    if isinstance(a, Term) or isinstance(b, Term):
        if not (is_num(a) or isinstance(a, Term)) or not (is_num(b) or isinstance(b, Term)):
            self.raise_("TypeError", "'<' not supported")
        return mm(op, a, b)
    try:
        return min(a, b) if op == "min" else max(a, b)
    except TypeError as e:
        self.raise_("TypeError", str(e))


def mm(op, a, b):
    a, b = py(a), py(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return min(a, b) if op == "min" else max(a, b)
    if same(a, b):
        return a
    if akey_order(a) > akey_order(b):
        a, b = b, a
    return mk(op, a, b, ty=join_ty(num_ty(a), num_ty(b)))


@model("builtins.abs")
def _abs(it, a, k):
    def f(v):
        v = it.unpayload(v)
        if it.is_array(v):
            return it.arr_map("abs", v)
        if isinstance(v, Ref):
            return it.call_method(v, "__abs__", [])
        return unary("abs", v)
    return it.dist_ref(a[0], f)


@model("builtins.round")
def _round(it, a, k):
    v = it.unpayload(it.simp(a[0]))
    if isinstance(v, Term):
        return unary("round", v) if len(a) == 1 else mk("roundn", v, a[1], ty="float")
    return round(v, *a[1:])


@model("builtins.divmod")
def _divmod(it, a, k):
    return (it.binop("floordiv", a[0], a[1]), it.binop("mod", a[0], a[1]))


@model("builtins.pow")
def _pow(it, a, k):
    if len(a) > 2 or k:
        return it.concrete_call(pow, a, k, "builtins.pow")
    return it.binop("pow", a[0], a[1])


@model("builtins.int", "builtins.int.__new__")
def _int(it, a, k):
    def f(v):
        v0 = v
        if it.is_array(v):
            v = it.arr_scalar(v)
        v = it.unpayload(v)
        if isinstance(v, Term):
            if v.ty == "str":
                return mk("intof", v, ty="int")
            if v.op == "nbytes":
                return v
            return unary("trunc", v) if v.ty != "any" else mk("intof", v, ty="int")
        if isinstance(v, str):
            if v in it.taint:
                return unary("trunc", it.taint[v])
            try:
                return int(v, *a[1:])
            except ValueError as e:
                it.raise_("ValueError", str(e))
        if is_num(v):
            try:
                return int(v)
            except (TypeError, OverflowError, ValueError) as e:
                it.raise_(type(e).__name__, str(e))
        if isinstance(v, Ref) and isinstance(it.rec(v), ObjRec):
            for n in ("__int__", "__index__"):
                m = it.class_lookup(it.rec(v).cls, n)
                if m is not None and not isinstance(m, Ext):
                    return it.call(m, [v], {})
        it.raise_("TypeError", "int() argument must be a number, not %s" % it.describe(v))
    return it.dist_ref(a[0] if a else 0, f)


def _int_new(it, a, k):
    cls = a[0]
    v = _int(it, a[1:] or [0], k)
    if isinstance(cls, Ref):
        return it.alloc(ObjRec(cls, {}, v))
    return v


MODELS["builtins.int.__new__"] = _int_new
MODELS["builtins.object.__new__"] = lambda it, a, k: it.alloc(ObjRec(a[0], {}))
MODELS["builtins.object"] = lambda it, a, k: it.alloc(ObjRec(Ext("builtins.object", object), {}))


@model("builtins.str.__new__")
def _str_new(it, a, k):
    v = it.str_(a[1]) if len(a) > 1 else ""
    return it.alloc(ObjRec(a[0], {}, v)) if isinstance(a[0], Ref) else v


@model("builtins.float")
def _float(it, a, k):
    def f(v):
        if it.is_array(v):
            v = it.arr_scalar(v)
        v = it.unpayload(v)
        if isinstance(v, str):
            if v in it.taint:
                return it.taint[v]
            try:
                return float(v)
            except ValueError as e:
                it.raise_("ValueError", str(e))
        if isinstance(v, Term):
            if v.ty in ("int", "float", "bool"):
                return unary("tofloat", v)
            if v.op == "fmt" and not v.args[1] and num_ty(v.args[0]) in ("int", "float"):
                return unary("tofloat", v.args[0])
            if v.op == "cat" and len(v.args) == 2 and v.args[0] in ("-", "+") and isinstance(v.args[1], Term) \
                    and v.args[1].op == "fmt" and not v.args[1].args[1] and isinstance(
                        it.ranges.get(v.args[1].args[0].args[0] if isinstance(v.args[1].args[0], Term) and v.args[1].args[0].op
                                      == "sym" else None, (None,))[0], (int, float)):
                x = unary("tofloat", v.args[1].args[0])
                if it.ranges[v.args[1].args[0].args[0]][0] >= 0:
                    return neg(x) if v.args[0] == "-" else x
            return mk("floatof", v, ty="float")
        if is_num(v) and not isinstance(v, complex):
            return float(v)
        if isinstance(v, Ref) and isinstance(it.rec(v), ObjRec):
            m = it.class_lookup(it.rec(v).cls, "__float__")
            if m is not None and not isinstance(m, Ext):
                return it.call(m, [v], {})
        it.raise_("TypeError", "float() argument must be a number, not %s" % it.describe(v))
    return it.dist_ref(a[0] if a else 0.0, f)


@model("builtins.complex")
def _complex(it, a, k):
    re = it.unpayload(a[0]) if a else k.get("real", 0.0)
    im = it.unpayload(a[1]) if len(a) > 1 else k.get("imag", 0.0)
    re = it.arr_scalar(re) if it.is_array(re) else re
    im = it.arr_scalar(im) if it.is_array(im) else im
    if num_ty(re) == "complex":
        return arith("add", re, arith("mul", im, 1j))
    return mk_cplx(re, im)


@model("builtins.bool")
def _bool(it, a, k):
    return it.truth(a[0]) if a else False


@model("builtins.str")
def _str(it, a, k):
    if not a:
        return ""
    if len(a) > 1 or k:
        return mk("decode", a[0], ty="str")
    return it.str_(a[0])


@model("builtins.repr")
def _repr(it, a, k):
    return it.dist(a[0], it.repr_)


@model("builtins.format")
def _format(it, a, k):
    return it.format_(a[0], a[1] if len(a) > 1 else None)


@model("builtins.bytes")
def _bytes(it, a, k):
    if not a:
        return b""

    def f(v):
        if isinstance(v, MemV):
            return it.tobytes(v)
        if it.is_array(v):
            return it.tobytes(v)
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, str) or isinstance(v, Term) and v.ty == "str":
            if len(a) < 2 and "encoding" not in k:
                it.raise_("TypeError", "string argument without an encoding")
            return v.encode(*a[1:]) if isinstance(v, str) else mk("encode", v, ty="bytes")
        if isinstance(v, Term):
            return v if v.ty == "bytes" else mk("bytes", v, ty="bytes")
        if isinstance(v, int):
            return bytes(v)
        try:
            return bytes(it.to_native(v))
        except Unsupported:
            return mk("bytes", v, ty="bytes")
        except TypeError as e:
            it.raise_("TypeError", str(e))
    return it.dist(a[0], f)


@model("builtins.memoryview")
def _memoryview(it, a, k):
    def f(v):
        if isinstance(v, MemV):
            return v
        if isinstance(v, bytes) or it.is_array(v) or isinstance(v, Term) and v.ty in ("bytes", "any"):
            return MemV(v)
        it.raise_("TypeError", "memoryview: a bytes-like object is required")
    return it.dist(a[0], f)


def M_tobytes(self, v):
    if isinstance(v, MemV):
        v = v.src
    if self.is_array(v):
        return self.arr_tobytes(v)
    if isinstance(v, Term) and v.ty != "bytes":
        return mk("bytes", v, ty="bytes")
    return v


@model("builtins.list")
def _list(it, a, k):
    if not a:
        return it.new_list(())
    return it.dist(it.to_items(a[0]), lambda x: it.new_list(x))


@model("builtins.tuple", "builtins.tuple.__new__")
def _tuple(it, a, k):
    if not a:
        return ()
    return it.to_items(a[0])


def _tuple_new(it, a, k):
    items = it.to_items(a[1]) if len(a) > 1 else ()
    if isinstance(a[0], Ref):
        return it.alloc(ObjRec(a[0], {}, items))
    return items


MODELS["builtins.tuple.__new__"] = _tuple_new


@model("builtins.set")
def _set(it, a, k):
    if not a:
        return it.new_set(())
    return it.dist(it.to_items(a[0]), lambda x: it.new_set(x))


@model("builtins.frozenset")
def _frozenset(it, a, k):
    return _set(it, a, k)


@model("builtins.dict", "collections.OrderedDict")
def _dict(it, a, k):
    d = it.new_dict([])
    if a:
        it.call_method(d, "update", [a[0]])
    for kk, v in k.items():
        it.setitem(d, kk, v)
    return d


@model("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def _fromkeys(it, a, k):
    v = a[1] if len(a) > 1 else k.get("value")
    return it.dist(it.to_items(a[0]), lambda x: it.new_dict([(q, v) for q in x]))


@model("collections.defaultdict")
def _defaultdict(it, a, k):
    d = it.alloc(DictRec(DictVal({}), a[0] if a else None))
    return d


@model("collections.deque")
def _deque(it, a, k):
    if len(a) > 1 or k:
        it.unsupported("deque of bounded length")
    return _list(it, a[:1], {})


@model("builtins.id")
def _id(it, a, k):
    v = a[0]
    return mk("id", v if isinstance(v, (Ref, Term)) else repr(v), ty="int")


@model("builtins.hash")
def _hash(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, Ref) and isinstance(it.rec(v), ObjRec):
        m = it.class_lookup(it.rec(v).cls, "__hash__")
        if m is not None and not isinstance(m, Ext):
            return it.call(m, [v], {})
    return mk("hash", v if not isinstance(v, Ref) else v.addr, ty="int")


@model("builtins.iter")
def _iter(it, a, k):
    def f(v):
        if isinstance(v, Ref):
            r = it.rec(v)
            if isinstance(r, (GenRec, IterRec)):
                return v
            if isinstance(r, ListRec):
                return it.alloc(IterRec(v, 0))
            if isinstance(r, ObjRec) and not it.is_array(v):
                m = it.class_lookup(r.cls, "__iter__")
                if m is not None and not isinstance(m, Ext):
                    return it.call(m, [v], {})
        return it.dist(it.to_items(v), lambda x: it.alloc(IterRec(it.new_list(x), 0)))
    return it.dist(a[0], f)


@model("builtins.next")
def _next(it, a, k):
    return it.next_(a[0], a[1] if len(a) > 1 else ABSENT)


@model("builtins.any")
def _any(it, a, k):
    def f(items):
        r = False
        for x in items:
            r = mk_or(r, it.truth(x))
        return r
    return it.dist(it.to_items(a[0]), f)


@model("builtins.all")
def _all(it, a, k):
    def f(items):
        r = True
        for x in items:
            r = mk_and(r, it.truth(x))
        return r
    return it.dist(it.to_items(a[0]), f)


@model("builtins.super")
def _super(it, a, k):
    if not a:
        return it.zero_super()
    return SuperV(it.simp(a[0]), it.simp(a[1]))


@model("builtins.property")
def _property(it, a, k):
    return PropV(*(list(a) + [k.get("fget"), k.get("fset")][len(a):]))


@model("builtins.classmethod")
def _classmethod(it, a, k):
    return ClsM(a[0])


@model("builtins.staticmethod")
def _staticmethod(it, a, k):
    return StatM(a[0])


@model("builtins.slice")
def _slice(it, a, k):
    return slice(*a)


@model("builtins.vars")
def _vars(it, a, k):
    if not a:
        it.unsupported("vars()")
    return it.dist(a[0], lambda v: it.get_attr(v, "__dict__"))


@model("builtins.globals")
def _globals(it, a, k):
    return it.get_attr1(it.frame().module, "__dict__")


@model("builtins.locals")
def _locals(it, a, k):
    fr = it.frame()
    if fr.env is None:
        return it.get_attr1(fr.module, "__dict__")
    return it.new_dict([(kk, v) for kk, v in it.rec(fr.env).vars.items() if v is not ABSENT])


@model("builtins.dir")
def _dir(it, a, k):
    v = it.simp(a[0])
    r = it.rec(v)
    names = set(r.attrs)
    if isinstance(r, ObjRec):
        for c in it.mro(r.cls):
            if isinstance(c, Ref):
                names |= set(it.rec(c).attrs)
    return it.new_list(sorted(names))


@model("builtins.eval")
def _eval(it, a, k):
    src = it.simp(a[0])
    if is_phi(src):
        return it.dist(src, lambda s: _eval(it, [s] + list(a[1:]), k))
    if not isinstance(src, str):
        if isinstance(src, Term):
            it.unsupported("eval of a symbolic string")
        it.raise_("TypeError", "eval() arg 1 must be a string")
    g = a[1] if len(a) > 1 else k.get("globals")
    l = a[2] if len(a) > 2 else k.get("locals")
    for x, n in ((g, "globals"), (l, "locals")):
        if x is not None and not (isinstance(x, Ref) and isinstance(it.rec(x), DictRec)):
            it.raise_("TypeError", "%s must be a dict" % n)
    try:
        node = ast.parse(src, "<eval>", "eval").body
    except SyntaxError as e:
        it.raise_("SyntaxError", str(e))
    fr = it.frame()
    vars = {}
    for d in (g, l):
        if d is not None:
            for kk, v in it.dict_val(d).values():
                vars[kk] = v
    mod = fr.module
    if g is not None:
        mod = it.alloc(ModRec("<eval>", {}, None))
    env = it.alloc(EnvRec(vars, fr.env if g is None and l is None else None, set(vars), mod, "comp"))
    nf = Frame(env, fr.func, mod, "<eval>")
    it.frames.append(nf)
    try:
        return it.ev(node)
    finally:
        it.frames.pop()


@model("builtins.open")
def _open(it, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    name = a[0]
    it.maybe_raise("open")
    if isinstance(mode, str) and "w" in mode:
        it.setitem(it.files, name, "")
    return it.alloc(ObjRec(Ext("gspsa.File"), {"name": name, "mode": mode, "closed": False}))


@native("gspsa.File", "__enter__")
def _fenter(it, o, a, k):
    return o


@native("gspsa.File", "readlines")
def _freadlines(it, o, a, k):
    return it.call_method(it.getitem(it.files, it.rec(o).attrs["name"]), "splitlines", [True])


@native("gspsa.File", "__exit__")
def _fexit(it, o, a, k):
    it.set_attr(o, "closed", True)
    return None


@native("gspsa.File", "close")
def _fclose(it, o, a, k):
    it.set_attr(o, "closed", True)


@native("gspsa.File", "write")
def _fwrite(it, o, a, k):
    name = it.rec(o).attrs["name"]
    old = it.call_method(it.files, "get", [name, ""])
    it.setitem(it.files, name, it.cat([old, a[0]]))
    return mk("len", a[0], ty="int") if isinstance(a[0], Term) else len(a[0])


@native("gspsa.File", "read")
def _fread(it, o, a, k):
    name = it.rec(o).attrs["name"]
    return it.getitem(it.files, name)


@native("gspsa.File", "flush")
def _fflush(it, o, a, k):
    return None


# --------------------------------------------------------------------------------- stdlib
@native("itertools.count", "__next__")
def _cnext(it, o, a, k):
    n = it.rec(o).attrs["n"]
    it.set_attr(o, "n", it.binop("add", n, it.rec(o).attrs.get("step", 1)))
    return n


@native("itertools.count", "__iter__")
def _citer(it, o, a, k):
    return o


@model("itertools.count")
def _count(it, a, k):
    return it.alloc(ObjRec(Ext("itertools.count"), {"n": a[0] if a else k.get("start", 0),
                                                   "step": a[1] if len(a) > 1 else k.get("step", 1)}))


@model("itertools.chain")
def _chain(it, a, k):
    out = it.new_list(())
    for x in a:
        it.list_extend(out, it.to_items(x))
    return it.alloc(IterRec(out, 0))


@model("itertools.chain.from_iterable")
def _chainfrom(it, a, k):
    out = it.new_list(())
    it.for_each(a[0], lambda x: it.list_extend(out, it.to_items(x)))
    return it.alloc(IterRec(out, 0))


@model("itertools.accumulate")
def _accumulate(it, a, k):
    def f(items):
        out = []
        init = k.get("initial")
        acc = init
        if init is not None:
            out.append(acc)
        fn = a[1] if len(a) > 1 else k.get("func")
        for x in items:
            acc = x if acc is None else (it.binop("add", acc, x) if fn is None else it.call(fn, [acc, x], {}))
            out.append(acc)
        return it.alloc(IterRec(it.new_list(out), 0))
    return it.dist(it.to_items(a[0]), f)


def columns(it, values, fn):
    """fn of the items of each iterable"""
    def go(i, cols):
        if i == len(values):
            return fn(cols)
        return it.dist(it.to_items(values[i]), lambda x: go(i + 1, cols + [x]))
    return go(0, [])


def made(it, items):
    return it.alloc(IterRec(it.new_list(tuple(items)), 0))


@model("itertools.product")
def _product(it, a, k):
    import itertools
    n = k.get("repeat", 1)
    return columns(it, a, lambda cols: made(it, [tuple(x) for x in itertools.product(*cols, repeat=n)]))


@model("itertools.zip_longest")
def _zip_longest(it, a, k):
    import itertools
    return columns(it, a, lambda cols: made(it, [tuple(x) for x in itertools.zip_longest(
        *cols, fillvalue=k.get("fillvalue"))]))


def _combi(name):
    def f(it, a, k):
        import itertools
        r = a[1] if len(a) > 1 else k.get("r")
        rest = [] if r is None else [r]
        return it.dist(it.to_items(a[0]), lambda x: made(it, [tuple(y) for y in getattr(itertools, name)(x, *rest)]))
    return f


for _n in ("combinations", "permutations", "combinations_with_replacement"):
    model("itertools." + _n)(_combi(_n))


@model("itertools.starmap")
def _starmap(it, a, k):
    out = it.new_list(())
    it.for_each(a[1], lambda x: it.dist(it.to_items(x), lambda v: it.list_append(out, it.call(a[0], list(v), {}))))
    return it.alloc(IterRec(out, 0))


@model("itertools.takewhile")
def _takewhile(it, a, k):
    def go(items, taken):
        if not items:
            return made(it, taken)
        return it.fork(it.truth(it.call(a[0], [items[0]], {})), lambda: go(items[1:], taken + (items[0],)),
                       lambda: made(it, taken))
    return it.dist(it.to_items(a[1]), lambda x: go(tuple(x), ()))


@model("itertools.dropwhile")
def _dropwhile(it, a, k):
    def go(items):
        if not items:
            return made(it, ())
        return it.fork(it.truth(it.call(a[0], [items[0]], {})), lambda: go(items[1:]), lambda: made(it, items))
    return it.dist(it.to_items(a[1]), lambda x: go(tuple(x)))


@model("itertools.filterfalse")
def _filterfalse(it, a, k):
    out = it.new_list(())

    def one(x):
        v = x if a[0] is None else it.call(a[0], [x], {})
        it.fork(it.truth(v), lambda: None, lambda: it.list_append(out, x))
    it.for_each(a[1], one)
    return it.alloc(IterRec(out, 0))


@model("itertools.compress")
def _compress(it, a, k):
    out = it.new_list(())
    it.for_each(_zip(it, a[:2], {}), lambda x: it.fork(it.truth(x[1]), lambda: it.list_append(out, x[0]), lambda: None))
    return it.alloc(IterRec(out, 0))


@model("itertools.tee")
def _tee(it, a, k):
    n = a[1] if len(a) > 1 else k.get("n", 2)
    return it.dist(it.to_items(a[0]), lambda x: tuple(made(it, x) for _ in range(n)))


@model("itertools.groupby")
def _groupby(it, a, k):
    key = a[1] if len(a) > 1 else k.get("key")

    def go(items):
        out = []
        for x in items:
            q = x if key is None else it.call(key, [x], {})
            if out:
                same_ = it.truth(it.compare_eq(out[-1][0], q))
                if not isinstance(same_, bool):
                    it.unsupported("groupby of symbolic keys")
                if same_:
                    out[-1][1].append(x)
                    continue
            out.append((q, [x]))
        return made(it, [(q, made(it, xs)) for q, xs in out])
    return it.dist(it.to_items(a[0]), go)


@model("itertools.pairwise")
def _pairwise(it, a, k):
    return it.dist(it.to_items(a[0]), lambda x: made(it, zip(x, x[1:])))


@model("itertools.islice")
def _islice(it, a, k):
    import itertools
    if isinstance(a[0], Ref) and isinstance(it.rec(a[0]), ObjRec) and isinstance(it.rec(a[0]).cls, Ext):
        start, stop, step = (0, a[1], 1) if len(a) == 2 else (a[1] or 0, a[2], a[3] if len(a) > 3 and a[3] else 1)
        if stop is None:
            it.unsupported("itertools.islice without end")
        return made(it, [it.call_method(a[0], "__next__", []) for _ in range(stop)][start:stop:step])
    r = it.rec(a[0]) if isinstance(a[0], Ref) else None
    if isinstance(r, (GenRec, IterRec)) and len(a) == 2 and isinstance(a[1], int):
        pos = it.simp(r.pos)

        def take(items):
            q = it.rec(a[0]).copy()
            q.pos = min(pos + a[1], pos + len(items))
            it.put(a[0], q)
            return made(it, items[:a[1]])
        if isinstance(pos, int):
            return it.dist(it.to_items(a[0]), take)
    return it.dist(it.to_items(a[0]), lambda x: made(it, itertools.islice(x, *a[1:])))


@model("itertools.repeat")
def _repeat(it, a, k):
    n = a[1] if len(a) > 1 else k.get("times")
    if isinstance(n, int):
        return made(it, [a[0]] * max(n, 0))
    if n is None:
        return it.alloc(ObjRec(Ext("itertools.repeat"), {"v": a[0]}))
    it.unsupported("itertools.repeat")


NATIVE["itertools.repeat"] = {"__next__": lambda it, o, a, k: it.rec(o).attrs["v"], "__iter__": lambda it, o, a, k: o}


@model("itertools.cycle")
def _cycle(it, a, k):
    return it.dist(it.to_items(a[0]), lambda x: it.alloc(ObjRec(Ext("itertools.cycle"), {"items": tuple(x), "n": 0})))


def _cyc_next(it, o, a, k):
    r = it.rec(o)
    if not r.attrs["items"]:
        it.raise_("StopIteration", None)
    n = r.attrs["n"]
    if not isinstance(n, int):
        it.unsupported("itertools.cycle at a gated position")
    it.set_attr(o, "n", n + 1)
    return r.attrs["items"][n % len(r.attrs["items"])]


NATIVE["itertools.cycle"] = {"__next__": _cyc_next, "__iter__": lambda it, o, a, k: o}


@model("enum.auto")
def _auto(it, a, k):
    return it.alloc(ObjRec(Ext("enum.auto"), {}))


@model("functools.wraps")
def _wraps(it, a, k):
    src = a[0]

    def deco(it2, aa, kk):
        f = aa[0]
        if isinstance(f, Ref) and isinstance(it2.rec(f), FuncRec):
            r = it2.rec(f).copy()
            s = it2.simp(src)
            r.attrs["__wrapped__"] = s
            if isinstance(s, Ref) and isinstance(it2.rec(s), FuncRec):
                r.attrs["__name__"] = it2.get_attr1(s, "__name__")
                r.attrs["__annotations__"] = it2.get_attr1(s, "__annotations__")
                r.attrs["__doc__"] = it2.get_attr1(s, "__doc__")
                r.attrs["__module__"] = it2.get_attr1(s, "__module__")
            it2.put(f, r)
        return f
    return Native("functools.wraps", deco)


@model("functools.update_wrapper")
def _update_wrapper(it, a, k):
    return it.call(_wraps(it, [a[1]], {}), [a[0]], {})


@model("functools.partial")
def _partial(it, a, k):
    return PartialV(a[0], tuple(a[1:]), dict(k))


@model("functools.lru_cache", "functools.cache")
def _lru(it, a, k):
    def deco(it2, aa, kk):
        f = it2.simp(aa[0])
        if isinstance(f, Ref) and isinstance(it2.rec(f), FuncRec):
            r = it2.rec(f).copy()
            r.attrs["__lru_cache__"] = it2.new_dict([])
            r.attrs["cache_clear"] = Native("cache_clear", lambda it3, x, y: it3.call_method(
                it3.rec(f).attrs["__lru_cache__"], "clear", []))
            it2.put(f, r)
            return f
        it2.unsupported("lru_cache of " + it2.describe(f))
    if a and isinstance(it.simp(a[0]), Ref):
        return deco(it, a, k)
    return Native("lru", deco)


@model("functools.cmp_to_key")
def _cmp_to_key(it, a, k):
    return Native("cmp_to_key", lambda it2, aa, kk: it2.alloc(ObjRec(Ext("gspsa.CmpKey"), {"f": a[0], "v": aa[0]})))


@model("functools.reduce")
def _reduce(it, a, k):
    def f(items):
        items = list(items)
        if len(a) > 2:
            r = a[2]
        else:
            r = items.pop(0)
        for x in items:
            r = it.call(a[0], [r, x], {})
        return r
    return it.dist(it.to_items(a[1]), f)


@model("functools.cached_property")
def _cached_property(it, a, k):
    name = "_cached_property_" + it.get_attr1(a[0], "__name__")

    def get(it2, aa, kk):
        o = aa[0]
        have = it2.rec(o).attrs.get(name, ABSENT)

        def one(v):
            if v is ABSENT:
                v = it2.call(a[0], [o], {})
                it2.set_attr_plain(o, name, v)
            return v
        return it2.dist(it2.simp(have), one)
    return PropV(Native("cached_property", get))


@model("contextlib.contextmanager")
def _ctxm(it, a, k):
    func = a[0]

    def make(it2, aa, kk):
        return it2.alloc(ObjRec(Ext("gspsa.GenCM"), {}, ("gencm", func, tuple(aa), tuple(kk.items()))))
    n = it.alloc(ObjRec(Ext("gspsa.GenCMFactory"), {}, None))
    return Native("contextmanager", make)


@model("contextlib.nullcontext")
def _nullctx(it, a, k):
    return it.alloc(ObjRec(Ext("gspsa.NullCM"), {"v": a[0] if a else None}))


NATIVE["gspsa.NullCM"] = {"__enter__": lambda it, o, a, k: it.rec(o).attrs["v"], "__exit__": lambda it, o, a, k: None}


@model("contextlib.suppress")
def _suppress(it, a, k):
    return it.alloc(ObjRec(Ext("gspsa.SuppressCM"), {"types": tuple(a)}))


NATIVE["gspsa.SuppressCM"] = {
    "__enter__": lambda it, o, a, k: None,
    "__exit__": lambda it, o, a, k: a[0] is not None and it.exc_matches(a[1], it.rec(o).attrs["types"])}


@model("contextlib.ExitStack")
def _exitstack(it, a, k):
    return it.alloc(ObjRec(Ext("gspsa.ExitStack"), {"cbs": it.new_list(())}))


def _es_callback(it, o, a, k):
    it.list_append(it.rec(o).attrs["cbs"], PartialV(a[0], tuple(a[1:]), dict(k)))
    return a[0]


def _es_exit(it, o, a, k):
    cbs = it.rec(o).attrs["cbs"]
    for cb in reversed(it.to_items(cbs)):
        it.call(cb, [], {})
    return None


NATIVE["gspsa.ExitStack"] = {"__enter__": lambda it, o, a, k: o, "__exit__": _es_exit, "callback": _es_callback}


@model("inspect.signature")
def _signature(it, a, k):
    f = it.simp(a[0])
    skip = 0
    while True:
        if isinstance(f, BM):
            f = f.func
            skip = 1
            continue
        if isinstance(f, Ref) and isinstance(it.rec(f), FuncRec) and "__wrapped__" in it.rec(f).attrs:
            f = it.rec(f).attrs["__wrapped__"]
            continue
        break
    if isinstance(f, Ref) and isinstance(it.rec(f), ClassRec):
        f = it.class_lookup(f, "__init__")
        skip = 1
        while isinstance(f, Ref) and "__wrapped__" in it.rec(f).attrs:
            f = it.rec(f).attrs["__wrapped__"]
    r = it.rec(f)
    args = r.node.args
    import inspect
    empty = Ext("inspect._empty", inspect._empty)
    pairs = []
    pos = args.posonlyargs + args.args

    def par(name, kind, default):
        return (name, it.alloc(ObjRec(Ext("inspect.Parameter", inspect.Parameter),
                                      {"name": name, "kind": kind, "default": default,
                                       "annotation": r.anns.get(name, empty)})))
    nd = len(r.defaults)
    P = inspect.Parameter
    for i, x in enumerate(pos):
        j = i - (len(pos) - nd)
        pairs.append(par(x.arg, Ext("inspect.POSITIONAL_OR_KEYWORD", P.POSITIONAL_OR_KEYWORD), r.defaults[j] if j >= 0 else empty))
    if args.vararg:
        pairs.append(par(args.vararg.arg, Ext("inspect.VAR_POSITIONAL", P.VAR_POSITIONAL), empty))
    for x in args.kwonlyargs:
        pairs.append(par(x.arg, Ext("inspect.KEYWORD_ONLY", P.KEYWORD_ONLY), r.kwdefaults.get(x.arg, empty)))
    if args.kwarg:
        pairs.append(par(args.kwarg.arg, Ext("inspect.VAR_KEYWORD", P.VAR_KEYWORD), empty))
    pairs = pairs[skip:]
    o = it.alloc(ObjRec(Ext("gspsa.Signature"), {"parameters": it.new_dict(pairs), "func": f, "skip": skip}))
    return o


def _sig_bind(partial):
    def f(it, o, a, k):
        at = it.rec(o).attrs
        params = [kk for kk, _ in it.dict_val(at["parameters"]).values()]
        d = {}
        if len(a) > len(params):
            it.raise_("TypeError", "too many positional arguments")
        for n, v in zip(params, a):
            d[n] = v
        for n, v in k.items():
            if n not in params:
                it.raise_("TypeError", "got an unexpected keyword argument %r" % n)
            if n in d:
                it.raise_("TypeError", "multiple values for argument %r" % n)
            d[n] = v
        ordered = [(n, d[n]) for n in params if n in d]
        return it.alloc(ObjRec(Ext("gspsa.BoundArguments"), {"arguments": it.new_dict(ordered), "signature": o}))
    return f


def _ba_defaults(it, o, a, k):
    import inspect
    at = it.rec(o).attrs
    d = it.dict_val(at["arguments"])
    ps = it.dict_val(it.rec(at["signature"]).attrs["parameters"])
    out = []
    for n, p in ps.values():
        if n in d:
            out.append((n, d[n][1]))
        else:
            dv = it.rec(p).attrs["default"]
            if not (isinstance(dv, Ext) and dv.obj is inspect._empty):
                out.append((n, dv))
    it.put(at["arguments"], it.rec(it.new_dict(out)))


NATIVE["gspsa.Signature"] = {"bind": _sig_bind(False), "bind_partial": _sig_bind(True)}
NATIVE["gspsa.BoundArguments"] = {"apply_defaults": _ba_defaults}


@model("inspect.getmro")
def _getmro(it, a, k):
    return it.dist(a[0], lambda c: tuple(it.mro(c)) if not isinstance(c, Term) else it.unsupported("mro of unknown"))


@model("inspect.isclass")
def _isclass(it, a, k):
    return it.is_class(a[0])


@model("inspect.unwrap")
def _unwrap(it, a, k):
    f = a[0]
    while isinstance(f, Ref) and isinstance(it.rec(f), FuncRec) and "__wrapped__" in it.rec(f).attrs:
        f = it.rec(f).attrs["__wrapped__"]
    return f


@model("typing.get_type_hints")
def _hints(it, a, k):
    f = it.simp(a[0])
    if isinstance(f, BM):
        f = f.func
    while isinstance(f, Ref) and isinstance(it.rec(f), FuncRec) and "__wrapped__" in it.rec(f).attrs:
        f = it.rec(f).attrs["__wrapped__"]
    r = it.rec(f)
    out = []
    for n, v in r.anns.items():
        if isinstance(v, str):
            node = ast.parse(v, "<annotation>", "eval").body
            nf = Frame(None, None, r.module, "<annotation>")
            it.frames.append(nf)
            try:
                v = it.ev(node)
            finally:
                it.frames.pop()
        if v is None:
            v = it.ext_class(type(None))
        out.append((n, v))
    return it.new_dict(out)


@model("typing.get_origin")
def _get_origin(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, UnionV):
        return Ext("typing.Union", typing.Union) if v.typing else it.ext_class(types.UnionType)
    if isinstance(v, Ext) and v.obj is not Ext.MISSING:
        try:
            return it.from_native(typing.get_origin(v.obj))
        except Exception:
            it.unsupported("typing.get_origin")
    return None


@model("typing.get_args")
def _get_args(it, a, k):
    v = it.simp(a[0])
    return v.args if isinstance(v, UnionV) else ()


MODELS["typing.Union#getitem"] = lambda it, k: UnionV(k if isinstance(k, tuple) else (k,), True)
MODELS["typing.Optional#getitem"] = lambda it, k: UnionV((k, it.ext_class(type(None))), True)


@model("typing.cast")
def _cast(it, a, k):
    return a[1]


@model("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today")
def _now(it, a, k):
    return it.alloc(ObjRec(Ext("gspsa.DateTime"), {"t": fresh("now", "float")}))


@model("datetime.datetime.timestamp")
def _timestamp(it, a, k):
    return it.rec(a[0]).attrs["t"]


@model("datetime.datetime.fromtimestamp")
def _fromtimestamp(it, a, k):
    return it.alloc(ObjRec(Ext("gspsa.DateTime"), {"t": a[0]}))


def _dt_text(op):
    def f(it, o, a, k):
        t = it.simp(it.rec(o).attrs["t"])
        if is_num(t) and not has_sym(tuple(a)) and not k:
            import datetime
            return getattr(datetime.datetime.fromtimestamp(t), op)(*a)
        return mk(op, t, *a, ty="str")
    return f


NATIVE["gspsa.DateTime"] = {
    "timestamp": lambda it, o, a, k: it.rec(o).attrs["t"],
    "strftime": _dt_text("strftime"), "isoformat": _dt_text("isoformat"), "ctime": _dt_text("ctime")}


@model("time.time")
def _time(it, a, k):
    return fresh("time", "float")


@model("collections.namedtuple", "typing.NamedTuple")
def _namedtuple(it, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = tuple(fields.replace(",", " ").split())
    else:
        fields = it.to_items(fields)
    if any(isinstance(f, tuple) for f in fields):
        fields = tuple(f[0] for f in fields)
    defaults = it.to_items(k["defaults"]) if k.get("defaults") is not None else ()
    node = ast.ClassDef(name=name, bases=[], keywords=[], body=[], decorator_list=[])
    bases = (Ext("builtins.tuple", tuple),)

    def new(it2, aa, kk):
        cls = aa[0]
        vals = list(aa[1:])
        if len(vals) > len(fields):
            it2.raise_("TypeError", "%s takes %d arguments" % (name, len(fields)))
        d = dict(zip(fields, vals))
        for n, v in kk.items():
            if n not in fields or n in d:
                it2.raise_("TypeError", "unexpected argument %r" % n)
            d[n] = v
        for f, v in zip(fields[len(fields) - len(defaults):], defaults):
            d.setdefault(f, v)
        if len(d) != len(fields):
            it2.raise_("TypeError", "%s missing arguments" % name)
        return it2.alloc(ObjRec(cls, {}, tuple(d[f] for f in fields)))
    mod = it.frame().module
    ref = it.alloc(ClassRec(name, bases, None, {"_fields": fields, "__module__": it.rec(mod).name,
                                                "__new__": Native(name + ".__new__", new)},
                            None, mod, name, node))
    it.rec(ref).mro = it.c3(ref, bases)
    return ref


# ---- json
def M_to_json(self, v, default):
    """abstract JSON structure of a value: fresh dict / list records, str, numbers, bool, None, terms"""
    v = self.simp(v)
    if is_phi(v) and not self.scalar_like(v):
        return self.dist(v, lambda x: self.to_json(x, default))
    if v is None or isinstance(v, (bool, int, float, str)) and not isinstance(v, np.generic):
        return v
    if isinstance(v, Term) and (v.ty in ("int", "float", "str", "bool", "any") or v.op == "phi"):
        return v
    if isinstance(v, tuple):
        return self.new_list([self.to_json(x, default) for x in v])
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ListRec):
            return self.dist(r.items, lambda items: self.new_list([self.to_json(x, default) for x in items]))
        if isinstance(r, DictRec):
            def g(d):
                out = []
                for k, x in d.d.values():
                    k = self.unpayload(k)
                    if not isinstance(k, (str, int, float, bool, type(None))) and not isinstance(k, Term):
                        self.raise_("TypeError", "keys must be str, int, float, bool or None")
                    if not isinstance(k, (str, Term)):
                        k = {True: "true", False: "false", None: "null"}.get(k, str(k)) if not is_num(k) or isinstance(k, bool) else str(k)
                    out.append((k, self.to_json(x, default)))
                return self.new_dict(out)
            return self.dist(r.d, g)
        if isinstance(r, ObjRec):
            if is_num(r.payload) or isinstance(r.payload, str):
                return r.payload
            if isinstance(r.payload, Term):
                return r.payload
            if isinstance(r.payload, tuple) and self.nt_fields(r.cls):
                return self.to_json(r.payload, default)
    if default is None:
        self.raise_("TypeError", "Object of type %s is not JSON serializable" % self.describe(v))
    return self.to_json(self.call(default, [v], {}), default)


def M_json_copy(self, v):
    v = self.simp(v)
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ListRec):
            return self.dist(r.items, lambda items: self.new_list([self.json_copy(x) for x in items]))
        if isinstance(r, DictRec):
            return self.dist(r.d, lambda d: self.new_dict([(k, self.json_copy(x)) for k, x in d.d.values()]))
    return v


@model("json.dumps")
def _dumps(it, a, k):
    it.maybe_raise("json.dumps")
    return mk("json", it.to_json(a[0], k.get("default")), ty="str")


@model("json.dump")
def _dump(it, a, k):
    it.maybe_raise("json.dump")
    v = mk("json", it.to_json(a[0], k.get("default")), ty="str")
    it.call_method(a[1], "write", [v])
    return None


@model("json.loads")
def _loads(it, a, k):
    def f(v):
        if isinstance(v, Term) and v.op == "json":
            return it.json_copy(v.args[0])
        if isinstance(v, str):
            import json
            try:
                return it.from_native(json.loads(v))
            except ValueError as e:
                it.raise_("ValueError", str(e))
        return mk("json.loads", v)
    return it.dist(a[0], f)


@model("json.load")
def _load(it, a, k):
    return _loads(it, [it.call_method(a[0], "read", [])], {})


# ---- base64
@model("base64.b64encode", "base64.standard_b64encode")
def _b64e(it, a, k):
    def f(v):
        if isinstance(v, bytes):
            import base64
            return base64.b64encode(v)
        if isinstance(v, MemV) or it.is_array(v):
            src = v.src if isinstance(v, MemV) else v
            from .nparr import contiguous
            if it.is_array(src) and not contiguous(it.rec(src).payload):
                it.raise_("BufferError" if isinstance(v, MemV) else "ValueError", "not C-contiguous")
            v = it.tobytes(v)
        if isinstance(v, Term):
            if v.ty == "str":
                it.raise_("TypeError", "a bytes-like object is required, not 'str'")
            return mk("b64", v, ty="bytes")
        it.raise_("TypeError", "a bytes-like object is required")
    return it.dist(a[0], f)


@model("base64.urlsafe_b64encode")
def _b64eu(it, a, k):
    def f(v):
        if isinstance(v, Term) and v.ty != "str":
            return mk("b64url", v, ty="bytes")
        if isinstance(v, MemV) or it.is_array(v):
            v = it.tobytes(v)
            if isinstance(v, Term):
                return mk("b64url", v, ty="bytes")
        return it.concrete_call(__import__("base64").urlsafe_b64encode, [v], k, "base64.urlsafe_b64encode")
    return it.dist(a[0], f)


@model("base64.urlsafe_b64decode")
def _b64du(it, a, k):
    def f(v):
        if isinstance(v, Term):
            w = v.args[0] if v.op == "decode" else v
            if isinstance(w, Term) and w.op == "b64url":
                return w.args[0]
            return mk("unb64url", v, ty="bytes")
        return it.concrete_call(__import__("base64").urlsafe_b64decode, [v], k, "base64.urlsafe_b64decode")
    return it.dist(a[0], f)


@model("base64.b64decode", "base64.standard_b64decode", "base64.decodebytes", "binascii.a2b_base64")
def _b64d(it, a, k):
    def f(v):
        if isinstance(v, Term):
            if v.op in ("b64", "b64str"):
                return v.args[0]
            if v.op == "decode" and isinstance(v.args[0], Term) and v.args[0].op == "b64":
                return v.args[0].args[0]
            return mk("unb64", v, ty="bytes")
        return it.concrete_call(__import__("base64").b64decode, [v], k, "base64.b64decode")
    return it.dist(a[0], f)


@model("copy.copy")
def _copy(it, a, k):
    def f(v):
        if isinstance(v, Ref):
            r = it.rec(v)
            if isinstance(r, ObjRec) and not it.is_array(v):
                return it.alloc(ObjRec(r.cls, dict(r.attrs), r.payload, r.lazy))
            if isinstance(r, (ListRec, DictRec, SetRec)):
                return it.alloc(r.copy())
            if it.is_array(v):
                return it.arr_method(v, "copy", [], {})
        return v
    return it.dist(a[0], f)


@model("copy.deepcopy")
def _deepcopy(it, a, k):
    memo = {}

    def f(v):
        v = it.simp(v)
        if is_phi(v):
            return it.dist(v, f)
        if isinstance(v, tuple):
            return tuple(f(x) for x in v)
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            r = it.rec(v)
            if isinstance(r, ListRec):
                n = it.new_list(())
                memo[v.addr] = n
                it.put(n, ListRec(tuple(f(x) for x in it.to_items(v))))
                return n
            if isinstance(r, DictRec):
                n = it.new_dict([(kk, f(x)) for kk, x in it.dict_val(v).values()])
                memo[v.addr] = n
                return n
            if it.is_array(v):
                return it.arr_method(v, "copy", [], {})
            if isinstance(r, ObjRec) and isinstance(r.cls, Ref):
                n = it.alloc(ObjRec(r.cls, {}, r.payload, r.lazy))
                memo[v.addr] = n
                q = it.rec(n)
                q.attrs = {kk: f(x) for kk, x in r.attrs.items()}
                return n
        return v
    return f(a[0])


@model("pathlib.Path", "pathlib.PurePath")
def _path(it, a, k):
    v = it.unpayload(a[0])
    if isinstance(v, str):
        import pathlib
        return it.alloc(ObjRec(Ext("gspsa.Path"), {"suffix": pathlib.Path(v).suffix, "stem": pathlib.Path(v).stem,
                                                   "name": pathlib.Path(v).name, "p": v}))
    if isinstance(v, Term) and v.op == "cat" and isinstance(v.args[-1], str) and "." in v.args[-1]:
        import pathlib
        return it.alloc(ObjRec(Ext("gspsa.Path"), {"suffix": pathlib.Path("x" + v.args[-1]).suffix, "p": v}))
    return it.alloc(ObjRec(Ext("gspsa.Path"), {"suffix": mk("suffix", v, ty="str"), "p": v}))


NATIVE["gspsa.Path"] = {"__str__": lambda it, o, a, k: it.rec(o).attrs["p"],
                        "__fspath__": lambda it, o, a, k: it.rec(o).attrs["p"]}


@model("os.path.splitext")
def _splitext(it, a, k):
    v = it.unpayload(a[0])
    if isinstance(v, str):
        import os
        return os.path.splitext(v)
    if isinstance(v, Term) and v.op == "cat" and isinstance(v.args[-1], str) and "." in v.args[-1]:
        i = v.args[-1].rindex(".")
        return (it.cat(list(v.args[:-1]) + [v.args[-1][:i]]), v.args[-1][i:])
    return (mk("stem", v, ty="str"), mk("suffix", v, ty="str"))


@model("io.BytesIO", "io.StringIO")
def _bytesio(it, a, k):
    return it.ext_new("io.BytesIO", a, k)


@model("logging.getLogger")
def _getlogger(it, a, k):
    return it.alloc(ObjRec(Ext("gspsa.Logger"), {}))


for _n in ("debug", "info", "warning", "error", "critical", "exception", "log", "setLevel", "addHandler", "warn"):
    NATIVE.setdefault("gspsa.Logger", {})[_n] = lambda it, o, a, k: None
for _n in ("warnings.warn",):
    MODELS[_n] = lambda it, a, k: None

for _n, _op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("matmul", "matmul"),
                ("mod", "mod"), ("floordiv", "floordiv"), ("pow", "pow"), ("and_", "bitand"), ("or_", "bitor"),
                ("lshift", "lshift"), ("rshift", "rshift"), ("xor", "bitxor")):
    MODELS["operator." + _n] = (lambda op: lambda it, a, k: it.binop(op, a[0], a[1]))(_op)
    MODELS["operator.i" + _n.rstrip("_")] = (lambda op: lambda it, a, k: it.inplace(op, a[0], lambda: a[1]))(_op)
for _n, _node in (("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq)):
    MODELS["operator." + _n] = (lambda n: lambda it, a, k: it.compare(n(), a[0], a[1]))(_node)
MODELS["operator.neg"] = lambda it, a, k: it.unop(ast.USub, a[0])
MODELS["operator.getitem"] = lambda it, a, k: it.getitem(a[0], a[1])
MODELS["operator.attrgetter"] = lambda it, a, k: Native("attrgetter", lambda i2, b, kk: i2.get_attr(b[0], a[0]))
MODELS["operator.itemgetter"] = lambda it, a, k: Native("itemgetter", lambda i2, b, kk: i2.getitem(b[0], a[0])
                                                       if len(a) == 1 else tuple(i2.getitem(b[0], x) for x in a))
MODELS["sys.exit"] = lambda it, a, k: it.raise_("SystemExit", *a)


# abstract inputs for client programs
@model("builtins.__sym__")
def _sym(it, a, k):
    return sym(*a)


MODELS["sys.version_info#value"] = lambda it: (3, 12, 3, "final", 0)
