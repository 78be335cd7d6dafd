"""Analysis clients.

A client is a small program over the public API of the analysed packages, written as text and analysed (never
run) by the abstract interpreter together with the source it calls.  Its inputs are symbolic leaves, so one
client speaks about every input value.  It states obligations:

    __same__(label, got, want)   the two abstract values denote the same value on every path that reaches here
    __check__(label, cond)       the condition holds on every path that reaches here
    __fail__(label)              no path reaches here

plus one implicit obligation: no feasible path leaves the client with an exception.
"""
import os
import numpy as np
from .values import *
from .values import Term
from .engine import (Interp, ObjRec, ListRec, SetRec, DictRec, ClassRec, FuncRec, ModRec, GenRec, IterRec, ExtRec,
                     StoreRec, DictVal, Dead, Unsupported, Frame)
from .models import MODELS
from .rand_eval import View, Tester, agree, Unknown
from . import nparr


class Obl:
    __slots__ = ("client", "label", "pc", "got", "want", "kind", "loc", "verdict", "detail", "where")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


# ---------------------------------------------------------------------------------- views
def to_view(it, v, depth=0, seen=()):
    if depth > 12:
        return View("unknown", "deep structure")
    v = it.simp(v)
    if is_phi(v):
        c, a, b = v.args
        st = it.st
        out = []
        for val, x in ((True, a), (False, b)):
            s = st.copy()
            it.assume(s, c, val)
            it.st = s
            out.append(to_view(it, x, depth + 1, seen))
        it.st = st
        if same_view(out[0], out[1]):
            return out[0]
        return View("phi", c, out[0], out[1])
    if isinstance(v, Term):
        if v.op == "json":
            return View("json", to_view(it, v.args[0], depth + 1, seen))
        if v.op == "select" and not all(is_num(x) or isinstance(x, (Term, str)) for x in v.args[1]):
            return View("selview", v.args[0], tuple(to_view(it, x, depth + 1, seen) for x in v.args[1]))
        return v
    if isinstance(v, tuple):
        return View("seq", tuple(to_view(it, x, depth + 1, seen) for x in v))
    if isinstance(v, range):
        return View("seq", tuple(v))
    if isinstance(v, Ref):
        if v.addr in seen:
            return View("cycle", v.addr)
        seen = seen + (v.addr,)
        r = it.rec(v)
        if it.is_array(v):
            c = it.cells(v)
            return arr_view(it, c, depth, seen)
        if isinstance(r, ListRec):
            return items_view(it, r.items, lambda i: View("seq", tuple(to_view(it, x, depth + 1, seen) for x in i)))
        if isinstance(r, SetRec):
            return items_view(it, r.items, lambda i: View("set", tuple(to_view(it, x, depth + 1, seen) for x in i)))
        if isinstance(r, DictRec):
            return items_view(it, r.d, lambda d: View("dict", tuple(sorted(
                ((to_view(it, k, depth + 1, seen), to_view(it, x, depth + 1, seen)) for k, x in d.d.values()), key=key_order))))
        if isinstance(r, ObjRec):
            if isinstance(r.payload, Term) or is_num(r.payload) or isinstance(r.payload, (str, bytes)):
                return to_view(it, r.payload, depth, seen)
            if isinstance(r.payload, tuple) and not it.is_exc_class(r.cls) and it.nt_fields(r.cls):
                return to_view(it, r.payload, depth, seen)
            return View("obj", v.addr)
        return View("ref", v.addr)
    if isinstance(v, Ext):
        return View("extname", v.path)
    if isinstance(v, MemV):
        return View("mem", to_view(it, v.src, depth + 1, seen))
    if isinstance(v, (Wrapper, Native, PartialV)):
        return View("wrap", repr(v))
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.dtype):
        return View("dtype", repr(v))
    if isinstance(v, (frozenset, set)):
        return View("set", tuple(v))
    if isinstance(v, slice):
        return View("slice", to_view(it, v.start, depth + 1), to_view(it, v.stop, depth + 1), to_view(it, v.step, depth + 1))
    return v


def key_order(kv):
    """dictionaries are compared as mappings, whatever the order of their keys"""
    k = kv[0]
    return (1, k.id, "") if isinstance(k, Term) else (0, 0, repr(k))


def items_view(it, items, f):
    items = it.simp(items)
    if is_phi(items):
        c, a, b = items.args
        st = it.st
        out = []
        for val, x in ((True, a), (False, b)):
            s = st.copy()
            it.assume(s, c, val)
            it.st = s
            out.append(items_view(it, x, f))
        it.st = st
        return View("phi", c, out[0], out[1])
    if isinstance(items, Term):
        return View("unknown", "items " + items.op)
    return f(items)


def arr_view(it, c, depth, seen):
    if c.ndim == 0:
        return to_view(it, c[()], depth + 1, seen)
    return View("seq", tuple(arr_view(it, c[i], depth, seen) if c.ndim > 1 else to_view(it, c[i], depth + 1, seen)
                             for i in range(c.shape[0])))


def same_view(a, b):
    if isinstance(a, View) and isinstance(b, View):
        return a.k == b.k and len(a.a) == len(b.a) and all(same_view(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_view(x, y) for x, y in zip(a, b))
    if isinstance(a, View) or isinstance(b, View):
        return False
    return same(a, b)


# ---------------------------------------------------------------------------------- builtins for clients
def _rng(it, name, k):
    lo, hi = k
    if lo is not None or hi is not None:
        it.ranges[name] = (lo, hi)


def c_sym(it, a, k):
    name, ty = a[0], (a[1] if len(a) > 1 else "float")
    rng = [it.to_native(x) for x in a[2:]]
    if len(rng) == 1:
        it.ranges[name] = (list(rng[0]), None)
    elif rng:
        it.ranges[name] = tuple(rng)
    return sym(name, ty)


def c_arr(it, a, k):
    name, shape = a[0], a[1]
    dt = it.to_dtype(a[2]) if len(a) > 2 and a[2] is not None else np.dtype(np.float64)
    rng = tuple(it.to_native(x) for x in a[3:5])
    shape = (shape,) if isinstance(shape, int) else tuple(it.to_native(shape))
    ty = {"f": "float", "i": "int", "u": "int", "b": "bool", "c": "complex"}[dt.kind]
    c = np.empty(shape, object)
    for i in np.ndindex(shape):
        n = "%s[%s]" % (name, ",".join(map(str, i)))
        c[i] = sym(n, ty)
        if rng:
            it.ranges[n] = rng
    return it.new_arr(c, dt)


def c_same(it, a, k):
    it.obligations.append(Obl(kind="same", label=a[0], pc=it.st.pc, got=to_view(it, a[1]), want=to_view(it, a[2]), loc=it.loc))
    return None


def c_ident(it, a, k):
    it.obligations.append(Obl(kind="same", label=a[0], pc=it.st.pc, got=it.truth(it.is_(a[1], a[2])), want=True, loc=it.loc))


def c_check(it, a, k):
    c = it.truth(a[1])
    it.obligations.append(Obl(kind="check", label=a[0], pc=it.st.pc, got=c, want=True, loc=it.loc))
    return None


def c_fail(it, a, k):
    it.obligations.append(Obl(kind="check", label=a[0], pc=it.st.pc, got=False, want=True, loc=it.loc))
    return None


def c_ext(it, a, k):
    """external objects created so far, of the given kind, in creation order"""
    items = it.rec(it.extlist).items
    if not isinstance(items, tuple):
        raise Unsupported("gated list of external objects")
    out = [x for x in items if it.rec(x).path in a]
    return it.new_list(out)


def c_extcalls(it, a, k):
    """calls recorded on an external object: list of (args list, kwargs dict)"""
    r = it.rec(it.simp(a[0]))
    if not isinstance(r.calls, tuple):
        raise Unsupported("gated call record")
    return it.new_list([(it.new_list(list(c[1])), it.new_dict(list(c[2]))) for c in r.calls if c[0] == a[1]])


def c_callbacks(it, a, k):
    """callbacks registered with mpl_connect for an event, in registration order, over every canvas"""
    out = []
    for addr in sorted(it.st.heap):
        r = it.st.heap[addr]
        if isinstance(r, ExtRec) and isinstance(r.calls, tuple):
            for c in r.calls:
                if c[0] == "mpl_connect" and c[1] and same(c[1][0], a[0]):
                    out.append(c[1][1])
        elif isinstance(r, ExtRec) and not isinstance(r.calls, tuple):
            raise Unsupported("gated call record")
    return it.new_list(out)


def c_xset(it, a, k):
    it.xset(a[0], a[1], a[2])


def c_xget(it, a, k):
    r = it.simp(a[0])
    if isinstance(r, ExtAttr):
        r = it.ext_child(r)
    v = it.xget(r, a[1])
    if v is ABSENT:
        return a[2] if len(a) > 2 else None
    return v


def c_xall(it, a, k):
    """the properties an external object has received, but those that are themselves external objects"""
    r = it.rec(it.simp(a[0]))
    out = []
    for n in sorted(r.attrs):
        v = it.simp(r.attrs[n])
        if n.startswith("@") and v is not ABSENT and not isinstance(v, (Ext, ExtAttr)) and not (
                isinstance(v, Ref) and isinstance(it.rec(v), ExtRec)):
            out.append((n, v))
    return it.new_dict(out)


def c_isarr(it, a, k):
    return it.is_array(it.simp(a[0]))


def c_exact(it, a, k):
    """numpy dtype string of an array"""
    p = it.rec(it.simp(a[0])).payload
    return p.dtype.str if p.dtype is not None else None


def c_mayraise(it, a, k):
    """from here on, opaque operations may raise (prefix match on the path)"""
    pats = [it.to_native(x) for x in a]
    it.may_raise = (lambda p: any(p.startswith(x) or x in p for x in pats)) if pats else None


def c_shares(it, a, k):
    def pair(x, y):
        p, q = it.rec(x).payload, it.rec(y).payload
        return p.store == q.store and bool(set(p.idx.ravel().tolist()) & set(q.idx.ravel().tolist()))
    return it.dist(a[0], lambda x: it.dist(a[1], lambda y: pair(x, y)))


def c_term(it, a, k):
    """uninterpreted application, to state specifications about modelled external functions"""
    return mk(a[0], *[x for x in a[1:-1]], ty=a[-1])


def c_printed(it, a, k):
    """what was printed since the last call"""
    v = it.call_method(it.files, "get", ["<stdout>", ""])
    it.setitem(it.files, "<stdout>", "")
    return v


def c_math(name):
    return lambda it, a, k: unary(name, it.unpayload(a[0]))


CLIENT = {"__sym__": c_sym, "__arr__": c_arr, "__same__": c_same, "__ident__": c_ident, "__check__": c_check,
          "__fail__": c_fail, "__ext__": c_ext, "__extcalls__": c_extcalls, "__callbacks__": c_callbacks,
          "__xset__": c_xset, "__xget__": c_xget, "__xall__": c_xall, "__isarr__": c_isarr, "__dtype__": c_exact,
          "__mayraise__": c_mayraise, "__shares__": c_shares, "__term__": c_term,
          "__printed__": c_printed}
for _k, _f in CLIENT.items():
    MODELS["builtins." + _k] = _f


# ---------------------------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.obls = []
        self.unsupported = None
        self.functions = set()


def describe_exc(it, st, exc):
    old = it.st
    it.st = st
    try:
        e = it.simp(exc)
        if is_phi(e):
            e = e.args[1]
        r = it.rec(e)
        n = it.class_name(r.cls)
        p = r.payload
        return "%s%s" % (n, show(p) if p else "")
    except Exception as x:
        return "exception (%s)" % type(x).__name__
    finally:
        it.st = old


def run_client(it, name, src, budget=20000):
    """analyse one client; returns a Result with undecided obligations"""
    res = Result()
    it.reset()
    it.obligations = []
    it.ranges = {}
    it.budget = budget
    it.forks = 0
    before = set(it.funcs_seen)
    it.funcs_seen.clear()
    mod = "client_" + name
    it.overlay[mod] = src
    it.frames.append(Frame(None, None, None, "<client>"))
    it.max_forks = budget
    try:
        try:
            it.import_module(mod)
        except Dead:
            pass
        for st, exc, loc in it.sinks[0]:
            res.obls.append(Obl(kind="raise", label="no path of the client may end in an exception", pc=st.pc,
                                got=describe_exc(it, st, exc), want=None, loc=loc))
    except Unsupported as e:
        res.unsupported = "%s at %s:%s" % ((e,) + tuple(it.err_loc or it.loc))
    except nparr.GatedArray as e:
        res.unsupported = "gated array at %s:%s" % tuple(it.err_loc or it.loc)
    except RecursionError:
        res.unsupported = "recursion"
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError, NotImplementedError) as e:
        res.unsupported = "internal %s: %s at %s:%s" % ((type(e).__name__, e) + tuple(it.err_loc or it.loc))
        if os.environ.get("GSPSA_DEBUG"):
            import traceback
            traceback.print_exc()
    finally:
        it.overlay.pop(mod, None)
    res.obls = it.obligations + res.obls
    res.functions = set(it.funcs_seen)
    it.funcs_seen |= before
    res.ranges = dict(it.ranges)
    for o in res.obls:
        o.client = name
    return res


def decide(o, ranges, seed, samples):
    t = Tester(seed, ranges, samples)
    if o.kind == "raise":
        o.verdict, d = t.run(o.pc, lambda e: "ends in " + o.got, [])
        if o.verdict == "violated":
            o.detail = d
        else:
            # 'ok' is impossible; vacuous means no feasible valuation was found
            o.verdict = "ok" if o.verdict == "vacuous" else o.verdict
            o.detail = d
        return o
    if not o.pc and same_view(o.got, o.want):
        o.verdict, o.detail = "ok", "equal by value numbering"
        return o
    if same_view(o.got, o.want):
        o.verdict, o.detail = "ok", "equal by value numbering"
        return o

    def f(e):
        g, w = e.ev(o.got), e.ev(o.want)
        if has_token(g) != has_token(w):
            raise Unknown("opaque value against a known one")
        if not agree(g, w):
            return "got %s, expected %s" % (brief(g), brief(w))
        return None
    o.verdict, o.detail = t.run(o.pc, f, [o.got, o.want])
    return o


def has_token(x):
    if isinstance(x, View):
        return x.k == "token" or any(has_token(y) for y in x.a)
    if isinstance(x, tuple):
        return any(has_token(y) for y in x)
    return False


def brief(x):
    s = show_val(x)
    return s if len(s) < 260 else s[:257] + "..."


def show_val(x):
    if isinstance(x, tuple):
        return "[" + ", ".join(show_val(y) for y in x) + "]"
    if isinstance(x, float):
        return "%.6g" % x
    if isinstance(x, View):
        if x.k == "D":
            return "{" + ", ".join("%s: %s" % (show_val(k), show_val(v)) for k, v in x.a[0]) + "}"
        return "<%s %s>" % (x.k, " ".join(show_val(y) for y in x.a))
    return repr(x)
