"""Abstract values: hash-consed terms (a value graph) and references into the abstract heap.

A value is one of
  * an immutable Python constant (None, bool, int, float, complex, str, bytes, tuple, slice, np.dtype ...)
  * a Term: a node of the value graph (`sym` leaves, operators, `phi` gates)
  * a Ref: an address of the abstract heap (object, list, dict, class, function, module ...)
  * one of the small immutable wrappers below (bound methods, properties, external names ...)
"""
import cmath
import math
import numpy as np


class Term:
    __slots__ = ("op", "args", "ty", "id")
    table = {}
    counter = [0]

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term used natively: %s" % show(self))


class Ref:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, other):
        return isinstance(other, Ref) and other.addr == self.addr

    def __hash__(self):
        return hash(("Ref", self.addr))

    def __repr__(self):
        return "&%d" % self.addr


class _Absent:
    def __repr__(self):
        return "<absent>"


ABSENT = _Absent()


class Ext:
    """A name outside the analysed tree (builtins, numpy, matplotlib ...).  `obj` is the real
    object when the analysis environment has it (used only for constants and class tables)."""
    __slots__ = ("path", "obj")
    MISSING = object()

    def __init__(self, path, obj=MISSING):
        self.path = path
        self.obj = obj

    def key(self):
        return self.path

    def __eq__(self, other):
        if not isinstance(other, Ext):
            return False
        if self.obj is not Ext.MISSING and other.obj is not Ext.MISSING:
            return self.obj is other.obj
        return self.path == other.path

    def __hash__(self):
        if self.obj is not Ext.MISSING:
            try:
                return hash(("Ext", id(self.obj)))
            except TypeError:
                pass
        return hash(("Ext", self.path))

    def __repr__(self):
        return "<ext %s>" % self.path


class Wrapper:
    __slots__ = ()

    def fields(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, other):
        return type(self) is type(other) and all(same(a, b) for a, b in zip(self.fields(), other.fields()))

    def __hash__(self):
        return hash((type(self).__name__,) + tuple(akey(f) for f in self.fields()))

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.fields())


class BM(Wrapper):          # bound method of an analysed function
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class BBM(Wrapper):         # bound method of a builtin value
    __slots__ = ("self", "name")

    def __init__(self, self_, name):
        self.self, self.name = self_, name


class PropV(Wrapper):
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ClsM(Wrapper):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class StatM(Wrapper):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class SuperV(Wrapper):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class UnionV:
    """X | Y on classes (types.UnionType)"""

    def __init__(self, args, typing=False):
        self.typing = typing or any(isinstance(a, UnionV) and a.typing for a in args)
        out = []
        for a in args:
            for b in (a.args if isinstance(a, UnionV) else (a,)):
                if not any(same(b, c) for c in out):
                    out.append(b)
        self.args = tuple(out)

    def __eq__(self, o):
        return isinstance(o, UnionV) and len(o.args) == len(self.args) and all(
            any(same(a, b) for b in o.args) for a in self.args)

    def __hash__(self):
        return hash("union")

    def __repr__(self):
        return "Union%r" % (self.args,)


class ExtAttr(Wrapper):     # attribute of an external object, not yet known to be a method or a child
    __slots__ = ("ref", "name")

    def __init__(self, ref, name):
        self.ref, self.name = ref, name


class Native:
    """A function supplied by the analysis; fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class MemV(Wrapper):        # memoryview of an abstract array / bytes
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


# ---------------------------------------------------------------------------------------------
def akey(a):
    if isinstance(a, Term):
        return ("T", a.id)
    if isinstance(a, Ref):
        return ("R", a.addr)
    if isinstance(a, tuple):
        return ("t",) + tuple(akey(x) for x in a)
    if isinstance(a, slice):
        return ("sl", akey(a.start), akey(a.stop), akey(a.step))
    if isinstance(a, float) and a != a:
        return ("nan",)
    if isinstance(a, float):
        return ("float", a, math.copysign(1, a) if a == 0 else 1)
    if isinstance(a, frozenset):
        return ("fs", frozenset(akey(x) for x in a))
    try:
        hash(a)
        return (type(a).__name__, a)
    except TypeError:
        return ("id", id(a))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return akey(a) == akey(b)


def mk(op, *args, ty="any"):
    key = (op, tuple(akey(a) for a in args), ty if isinstance(ty, str) else akey(ty))
    t = Term.table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        Term.counter[0] += 1
        t.id = Term.counter[0]
        Term.table[key] = t
    return t


_fresh = [0]


def sym(name, ty="float"):
    return mk("sym", name, ty=ty)


def fresh(name="u", ty="any"):
    _fresh[0] += 1
    return mk("sym", "%s!%d" % (name, _fresh[0]), ty=ty)


def is_term(v):
    return isinstance(v, Term)


def is_phi(v):
    return isinstance(v, Term) and v.op == "phi"


NUM = (int, float, complex, np.number, np.bool_)


def is_num(v):
    return isinstance(v, NUM)


def num_ty(v):
    if isinstance(v, Term):
        return v.ty
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, (int, np.integer)):
        return "int"
    if isinstance(v, (complex, np.complexfloating)):
        return "complex"
    if isinstance(v, (float, np.floating)):
        return "float"
    return "any"


def join_ty(a, b, div=False):
    s = {a, b}
    if "any" in s:
        return "any" if not (s & {"float", "complex"}) else "float"
    if "complex" in s:
        return "complex"
    if div or "float" in s:
        return "float"
    return "int"


def py(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def is_scalar_term(v):
    """a term that stands for a scalar (numbers, booleans); phi of scalars included"""
    if isinstance(v, Term):
        if v.op == "phi":
            return all(is_scalar_term(x) or is_num(x) for x in v.args[1:])
        return True
    return False


def cplx(v):
    """(re, im) of a value"""
    if isinstance(v, Term):
        if v.op == "cplx":
            return v.args
        if v.ty == "complex":
            return (mk("real", v, ty="float"), mk("imag", v, ty="float"))
        return (v, 0.0)
    if isinstance(v, complex):
        return (v.real, v.imag)
    return (v, 0.0)


def mk_cplx(re, im):
    if not isinstance(re, Term) and not isinstance(im, Term):
        return complex(re, im)
    return mk("cplx", re, im, ty="complex")


def arith(op, a, b):
    """binary arithmetic over numbers and terms"""
    if (isinstance(a, np.integer) and isinstance(b, (int, np.integer)) or isinstance(b, np.integer) and isinstance(a, int)) \
            and op in ("add", "sub", "mul") and not isinstance(a, bool) and not isinstance(b, bool):
        with np.errstate(all="ignore"):
            return _PYOP[op](a, b)          # stays within the width of the numpy scalar
    a, b = py(a), py(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return _PYOP[op](a, b)
    if num_ty(a) == "complex" or num_ty(b) == "complex":
        (ar, ai), (br, bi) = cplx(a), cplx(b)
        if op == "add":
            return mk_cplx(arith("add", ar, br), arith("add", ai, bi))
        if op == "sub":
            return mk_cplx(arith("sub", ar, br), arith("sub", ai, bi))
        if op == "mul":
            return mk_cplx(arith("sub", arith("mul", ar, br), arith("mul", ai, bi)),
                           arith("add", arith("mul", ar, bi), arith("mul", ai, br)))
        if op == "div" and not isinstance(bi, Term) and bi == 0:
            return mk_cplx(arith("div", ar, br), arith("div", ai, br))
        return mk(op, a, b, ty="complex")
    ty = join_ty(num_ty(a), num_ty(b), op == "div")
    r = _arith(op, a, b, ty)
    if ty == "float" and isinstance(r, Term) and r.ty in ("int", "bool"):
        return unary("tofloat", r)
    return r


def _arith(op, a, b, ty):
    if op == "add":
        if not isinstance(a, Term) and a == 0:
            return b
        if not isinstance(b, Term) and b == 0:
            return a
        if isinstance(b, Term) and b.op == "neg":
            return arith("sub", a, b.args[0])
    elif op == "sub":
        if not isinstance(b, Term) and b == 0:
            return a
        if not isinstance(a, Term) and a == 0:
            return neg(b)
        if a is b:
            return 0.0 if ty == "float" else 0
    elif op == "mul":
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Term):
                if x == 0:
                    return 0.0 if ty == "float" else 0
                if x == 1:
                    return y
                if x == -1:
                    return neg(y)
    elif op == "div":
        if not isinstance(b, Term) and b == 1:
            return a
        if not isinstance(a, Term) and a == 0:
            return 0.0
    elif op == "pow":
        if not isinstance(b, Term) and b == 1:
            return a
        if not isinstance(b, Term) and b == 0.5:
            return unary("sqrt", a)
    if op in ("add", "mul") and akey_order(a) > akey_order(b):
        a, b = b, a
    return mk(op, a, b, ty=ty)


def akey_order(a):
    return (1, a.id) if isinstance(a, Term) else (0, 0)


def neg(a):
    a = py(a)
    if not isinstance(a, Term):
        return -a
    if a.op == "neg":
        return a.args[0]
    if a.op == "cplx":
        return mk_cplx(neg(a.args[0]), neg(a.args[1]))
    return mk("neg", a, ty=a.ty if a.ty != "bool" else "int")


_PYOP = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "pow": lambda a, b: a ** b, "bitand": lambda a, b: a & b, "bitor": lambda a, b: a | b,
    "bitxor": lambda a, b: a ^ b, "lshift": lambda a, b: a << b, "rshift": lambda a, b: a >> b,
}
_UN = {
    "sqrt": lambda a: cmath.sqrt(a) if isinstance(a, complex) else (math.sqrt(a) if a >= 0 else math.nan),
    "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "asin": lambda a: math.asin(max(-1, min(1, a))) if abs(a) < 1 + 1e-9 else math.nan,
    "acos": lambda a: math.acos(max(-1, min(1, a))) if abs(a) < 1 + 1e-9 else math.nan,
    "atan": math.atan, "exp": lambda a: math.exp(min(a, 700)),
    "log": lambda a: math.log(a) if a > 0 else math.nan,
    "abs": abs, "floor": math.floor, "ceil": math.ceil, "round": round,
    "pixels": lambda a: math.floor(a + 1e-6), "trunc": lambda a: int(a), "tofloat": float, "sign": lambda a: (a > 0) - (a < 0),
    "real": lambda a: a.real, "imag": lambda a: a.imag, "conj": lambda a: a.conjugate(),
}


def unary(op, a):
    a = py(a)
    if not isinstance(a, Term):
        return _UN[op](a)
    if op == "tofloat":
        if a.ty == "float":
            return a
        return mk("tofloat", a, ty="float")
    if op == "pixels":
        return mk("pixels", a, ty="int")
    if op == "trunc":
        if a.ty == "int":
            return a
        return mk("trunc", a, ty="int")
    if op in ("real", "imag"):
        return cplx(a)[0 if op == "real" else 1]
    if op == "conj":
        r, i = cplx(a)
        return mk_cplx(r, neg(i)) if num_ty(a) == "complex" else a
    if op == "abs" and num_ty(a) == "complex":
        r, i = cplx(a)
        return unary("sqrt", arith("add", arith("mul", r, r), arith("mul", i, i)))
    if op == "abs" and a.op == "neg":
        a = a.args[0]
    if op in ("floor", "ceil", "round", "sign", "pixels"):
        return mk(op, a, ty="int")
    return mk(op, a, ty=a.ty if op == "abs" else "float")


# ---------------------------------------------------------------------------- conditions
def mk_not(c):
    if isinstance(c, (bool, np.bool_)):
        return not c
    if c.op == "not":
        return c.args[0]
    return mk("not", c, ty="bool")


def mk_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    return mk("and", a, b, ty="bool")


def mk_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is b:
        return a
    return mk_not(mk_and(mk_not(a), mk_not(b)))


def mk_ite(c, a, b):
    """boolean if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if a is True:
        return mk_or(c, b)
    if a is False:
        return mk_and(mk_not(c), b)
    if b is True:
        return mk_or(mk_not(c), a)
    if b is False:
        return mk_and(c, a)
    return mk_or(mk_and(c, a), mk_and(mk_not(c), b))


def mk_phi(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if c.op == "not":
        return mk_phi(c.args[0], b, a)
    if is_phi(a) and a.args[0] is c:
        a = a.args[1]
    if is_phi(b) and b.args[0] is c:
        b = b.args[2]
    if same(a, b):
        return a
    ta = num_ty(a)
    tb = num_ty(b)
    ty = ta if ta == tb else ("float" if {ta, tb} <= {"int", "float", "bool"} else "any")
    return mk("phi", c, a, b, ty=ty)


def lt(a, b):
    a, b = py(a), py(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return bool(a < b)
    if a is b:
        return False
    return mk("lt", a, b, ty="bool")


def le(a, b):
    a, b = py(a), py(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return bool(a <= b)
    return mk_not(lt(b, a))


def eq(a, b):
    a, b = py(a), py(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return bool(a == b)
    if a is b:
        return True
    ta, tb = num_ty(a), num_ty(b)
    if a is None or b is None:
        t = ta if isinstance(a, Term) else tb
        x = a if isinstance(a, Term) else b
        if t in ("int", "float", "bool", "str", "bytes", "complex"):
            return False
        return mk("is_none", x, ty="bool")
    NUMT = {"int", "float", "bool", "complex"}
    ka = ta if isinstance(a, Term) else _const_kind(a)
    kb = tb if isinstance(b, Term) else _const_kind(b)
    if ka in NUMT and kb in ("str", "bytes", "other") or kb in NUMT and ka in ("str", "bytes", "other"):
        return False
    if {ka, kb} == {"str", "bytes"}:
        return False
    for x, y in ((a, b), (b, a)):
        # the text of a number is neither empty nor a word
        if isinstance(x, Term) and isinstance(y, str) and x.op in ("fmt", "cat"):
            q = x.args if x.op == "cat" else (x,)
            if any(isinstance(p, Term) and p.op == "fmt" and not p.args[1] and num_ty(p.args[0]) in ("int", "float")
                   for p in q) and not any(c.isdigit() for c in y) and y not in ("nan", "inf", "-inf"):
                return False
    if akey_order(a) > akey_order(b):
        a, b = b, a
    if "complex" in (ta, tb):
        (ar, ai), (br, bi) = cplx(a), cplx(b)
        return mk_and(eq(ar, br), eq(ai, bi))
    return mk("eq", a, b, ty="bool")


def _const_kind(v):
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    if is_num(v):
        return num_ty(v)
    return "other"


# ---------------------------------------------------------------------------- display
def show(v, depth=6):
    if isinstance(v, Term):
        if v.op == "sym":
            return str(v.args[0])
        if depth == 0:
            return "…"
        d = depth - 1
        a = [show(x, d) for x in v.args]
        inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "eq": "==", "and": "and", "pow": "**"}
        if v.op in inf and len(a) == 2:
            return "(%s %s %s)" % (a[0], inf[v.op], a[1])
        if v.op == "phi":
            return "(%s if %s else %s)" % (a[1], a[0], a[2])
        return "%s(%s)" % (v.op, ", ".join(a))
    if isinstance(v, tuple):
        if depth == 0:
            return "…"
        return "(%s)" % ", ".join(show(x, depth - 1) for x in v)
    if isinstance(v, float):
        return "%.6g" % v
    return repr(v)
