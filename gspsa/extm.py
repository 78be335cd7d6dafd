"""Models of external (matplotlib & co) objects.

An external object is a record of what was done to it: attributes written, constructor arguments, calls.
`set_X(v)` stores a property, `get_X()` reads it back.  The geometry the analysed code relies on
(figure size, axes position, window extent, limits, affine transforms, paths) has an explicit model;
everything else is opaque, and a value that depends on it is undetermined rather than guessed.
"""
import math
import numpy as np
from .values import *
from .nparr import GatedArray
from .engine import (ObjRec, ListRec, SetRec, DictRec, ExtRec, StoreRec, DictVal, Unsupported)

NEW = {}        # class path -> fn(it, ref, args, kwargs)  (initialise)
METHODS = {}    # (class path, method) -> fn(it, ref, args, kwargs)
PROPS = {}      # (class path, attr) -> fn(it, ref)
BINOPS = {}
ALIAS = {
    "matplotlib.pyplot.figure": "Figure", "matplotlib.figure.Figure": "Figure",
    "matplotlib.transforms.Affine2D": "Affine2D", "matplotlib.markers.MarkerStyle": "MarkerStyle",
    "matplotlib.path.Path": "Path", "matplotlib.collections.LineCollection": "LineCollection",
    "matplotlib.collections.PolyCollection": "PolyCollection",
    "matplotlib.collections.PathCollection": "PathCollection",
    "matplotlib.collections.Collection": "Collection",
    "matplotlib.transforms.Bbox": "Bbox", "matplotlib.transforms.Bbox.from_bounds": "BboxB",
}
CONST = {"matplotlib.path.Path.STOP": 0, "matplotlib.path.Path.MOVETO": 1, "matplotlib.path.Path.LINETO": 2,
         "matplotlib.path.Path.CURVE3": 3, "matplotlib.path.Path.CURVE4": 4, "matplotlib.path.Path.CLOSEPOLY": 79}


def install(it):
    cls = type(it)
    for k, v in list(globals().items()):
        if k.startswith("X_"):
            setattr(cls, k[2:], v)
    for p, v in CONST.items():
        it.models[p + "#value"] = lambda _it, v=v: v
    it.models["matplotlib.path.Path.arc"] = _arc
    it.models["matplotlib.pyplot.get_cmap"] = _cmap
    it.models["matplotlib.colormaps.get_cmap"] = _cmap
    it.models["matplotlib.colormaps#getitem"] = lambda it, k: _cmap(it, [k], {})
    it.models["matplotlib.cm.get_cmap"] = _cmap
    it.models["matplotlib.colors.Normalize"] = _normalize
    it.models["matplotlib.pyplot.Normalize"] = _normalize


def meth(c, *names):
    def deco(f):
        for n in names:
            METHODS[c, n] = f
        return f
    return deco


def prop(c, n):
    def deco(f):
        PROPS[c, n] = f
        return f
    return deco


# ------------------------------------------------------------------------------- primitives
def X_xnew(self, kind, path=None, attrs=None, args=(), kwargs=None):
    return self.alloc(ExtRec(kind, dict(attrs or {}), tuple(args), tuple(sorted((kwargs or {}).items())), ()))


def X_xget(self, ref, name, default=ABSENT):
    r = self.rec(ref)
    v = r.attrs.get(name, ABSENT)
    v = self.simp(v)
    return default if v is ABSENT else v


def X_xset(self, ref, name, v):
    r = self.rec(ref).copy()
    r.attrs[name] = v
    self.put(ref, r)


def X_xlog(self, ref, name, args, kwargs):
    r = self.rec(ref).copy()
    if isinstance(r.calls, tuple):
        r.calls = r.calls + ((name, tuple(args), tuple(sorted(kwargs.items()))),)
    self.put(ref, r)


def X_ext_new(self, p, args, kwargs):
    kind = ALIAS.get(p, p)
    ref = self.xnew(kind, p, {}, args, kwargs)
    init = NEW.get(kind)
    if init:
        def start(args, kwargs):
            for i, x in enumerate(args):
                if is_phi(x) and not self.scalar_like(x):
                    return self.dist(x, lambda y: start(args[:i] + [y] + args[i + 1:], kwargs))
            for n, x in kwargs.items():
                if is_phi(x) and not self.scalar_like(x):
                    return self.dist(x, lambda y: start(args, {**kwargs, n: y}))
            try:
                init(self, ref, list(args), dict(kwargs))
            except GatedArray as g:
                v = self.simp(g.v)
                if not is_phi(v):
                    raise
                return self.fork(v.args[0], lambda: start(args, kwargs), lambda: start(args, kwargs))
        start([self.simp(x) for x in args], {n: self.simp(x) for n, x in kwargs.items()})
    self.note_ext(ref)
    return ref


def X_note_ext(self, ref):
    """remember every external object created (in creation order) so that clients can list them"""
    lst = self.rec(self.extlist)
    self.put(self.extlist, ListRec(lst.items + (ref,) if isinstance(lst.items, tuple) else lst.items))


def X_ext_child(self, ea):
    """the object behind an attribute of an external object"""
    r = self.rec(ea.ref)
    key = "." + ea.name
    if key in r.attrs:
        v = self.simp(r.attrs[key])
        if v is not ABSENT:
            return v
    child = self.xnew(r.path + "." + ea.name)
    self.xset(ea.ref, key, child)
    return child


def X_ext_obj_attr(self, o, r, name):
    if name in r.attrs:
        v = self.simp(r.attrs[name])
        if v is not ABSENT:
            return v
    h = PROPS.get((r.path, name))
    if h:
        return h(self, o)
    if name == "__class__":
        return Ext(r.path)
    if name == "__dict__":
        return self.new_dict([(k, v) for k, v in r.attrs.items() if v is not ABSENT])
    if name.startswith("__") and name.endswith("__") and name not in ("__enter__", "__exit__", "__call__"):
        return ABSENT
    return ExtAttr(o, name)


# setters which can be called without argument
NO_ARGUMENT = {"set_axis_off", "set_axis_on", "set_xlim", "set_ylim", "set_xbound", "set_ybound", "set_default_alignment", "set_tight_layout"}


def X_ext_obj_call(self, ref, name, args, kwargs):
    r = self.rec(ref)
    args = list(args)
    self.xlog(ref, name, args, kwargs)
    if name.startswith("set_") and not args and not kwargs and name not in NO_ARGUMENT:
        self.raise_("TypeError", "%s.%s() missing 1 required positional argument" % (r.path, name))
    h = METHODS.get((r.path, name))
    if h:
        if r.path in ("Affine2D", "Path"):
            def go(args):
                for i, x in enumerate(args):
                    x = self.simp(x)
                    if is_phi(x) and not self.scalar_like(x):
                        return self.dist(x, lambda y: go(args[:i] + [y] + args[i + 1:]))
                return h(self, ref, args, dict(kwargs))
            return go(args)
        return h(self, ref, args, dict(kwargs))
    if name == "__enter__":
        return ref
    if name == "__exit__":
        return None
    self.maybe_raise("%s.%s" % (r.path, name))
    if name.startswith("set_") and len(args) == 1 and not kwargs:
        self.xset(ref, "@" + name[4:], args[0])
        return None
    if name == "set":
        for k, v in kwargs.items():
            self.xset(ref, "@" + k, v)
        return None
    if name.startswith("get_") and not args and not kwargs:
        v = self.xget(ref, "@" + name[4:])
        if v is not ABSENT:
            return v
        return self.ext_child(ExtAttr(ref, name + "()"))
    if name in ("getvalue",):
        return mk("ext", r.path + "." + name, ref)
    return self.xnew("%s.%s()" % (r.path, name), None, {}, args, kwargs)


def X_ext_obj_item(self, o, k):
    r = self.rec(o)
    h = METHODS.get((r.path, "__getitem__"))
    if h:
        return h(self, o, [k], {})
    key = "[%s]" % (k if isinstance(k, (str, int)) else show(k))
    v = self.xget(o, key)
    if v is not ABSENT:
        return v
    child = self.xnew(r.path + key)
    self.xset(o, key, child)
    return child


def X_ext_obj_items(self, v):
    r = self.rec(v)
    h = METHODS.get((r.path, "__iter__"))
    if h:
        return h(self, v, [], {})
    raise Unsupported("iteration over an external object %s" % r.path)


def X_ext_binop(self, op, a, b):
    if isinstance(a, ExtAttr):
        a = self.ext_child(a)
    if isinstance(b, ExtAttr):
        b = self.ext_child(b)
    ra = self.rec(a) if isinstance(a, Ref) else None
    rb = self.rec(b) if isinstance(b, Ref) else None
    if op == "add" and isinstance(ra, ExtRec) and isinstance(rb, ExtRec) and ra.path == rb.path == "Affine2D":
        return self.affine(matmul(self.rec(b).attrs["#m"], self.rec(a).attrs["#m"]))
    self.maybe_raise("operator %s on %s" % (op, (ra or rb).path))
    return self.xnew("binop", None, {}, (op, a, b))


# ------------------------------------------------------------------------------- affine, paths
def matmul(a, b):
    """3x3 affine products over (a b c / d e f), rows of abstract cells"""
    out = []
    for i in range(2):
        for j in range(3):
            v = arith("add", arith("mul", a[3 * i], b[j]), arith("mul", a[3 * i + 1], b[3 + j]))
            if j == 2:
                v = arith("add", v, a[3 * i + 2])
            out.append(v)
    return tuple(out)


IDENT = (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)


def X_affine(self, m):
    r = self.xnew("Affine2D")
    self.xset(r, "#m", tuple(m))
    return r


def _num1(it, v):
    v = it.simp(v)
    v = it.unpayload(v)
    if it.is_array(v):
        c = it.cells(v)
        if c.size != 1:
            it.raise_("TypeError", "only size-1 arrays can be converted to Python scalars")
        return c.ravel()[0]
    if isinstance(v, Term) or is_num(v):
        return py(v)
    it.raise_("TypeError", "a number is required")


def _aff_init(it, ref, a, k):
    m = IDENT
    src = a[0] if a else k.get("matrix")
    if src is not None:
        c, _ = it.as_cells(src)
        if c.shape != (3, 3):
            it.raise_("ValueError", "Input must be 3x3")
        m = tuple(c[i, j] for i in range(2) for j in range(3))
    it.xset(ref, "#m", m)


NEW["Affine2D"] = _aff_init


def _aff_apply(it, ref, n):
    it.xset(ref, "#m", matmul(n, it.rec(ref).attrs["#m"]))
    return ref


def _rot(t):
    c, s = unary("cos", t), unary("sin", t)
    return (c, neg(s), 0.0, s, c, 0.0)


def _rad(t):
    return arith("mul", t, math.pi / 180)


@meth("Affine2D", "rotate_deg")
def _a_rd(it, ref, a, k):
    return _aff_apply(it, ref, _rot(_rad(_num1(it, (a + list(k.values()))[0]))))


@meth("Affine2D", "rotate")
def _a_r(it, ref, a, k):
    return _aff_apply(it, ref, _rot(_num1(it, (a + list(k.values()))[0])))


def _around(it, ref, x, y, m):
    _aff_apply(it, ref, (1.0, 0.0, neg(x), 0.0, 1.0, neg(y)))
    _aff_apply(it, ref, m)
    return _aff_apply(it, ref, (1.0, 0.0, x, 0.0, 1.0, y))


@meth("Affine2D", "rotate_deg_around")
def _a_rda(it, ref, a, k):
    return _around(it, ref, _num1(it, a[0]), _num1(it, a[1]), _rot(_rad(_num1(it, a[2])))) if len(a) == 3 else \
        it.unsupported("rotate_deg_around")


def X_rotate_around_fix(self):
    pass


@meth("Affine2D", "rotate_around")
def _a_ra(it, ref, a, k):
    return _around(it, ref, _num1(it, a[0]), _num1(it, a[1]), _rot(_num1(it, a[2])))


@meth("Affine2D", "translate")
def _a_t(it, ref, a, k):
    return _aff_apply(it, ref, (1.0, 0.0, _num1(it, a[0]), 0.0, 1.0, _num1(it, a[1])))


@meth("Affine2D", "scale")
def _a_s(it, ref, a, k):
    sx = _num1(it, a[0])
    sy = _num1(it, a[1]) if len(a) > 1 and a[1] is not None else (_num1(it, k["sy"]) if k.get("sy") is not None else sx)
    return _aff_apply(it, ref, (sx, 0.0, 0.0, 0.0, sy, 0.0))


@meth("Affine2D", "copy", "frozen")
def _a_c(it, ref, a, k):
    return it.affine(it.rec(ref).attrs["#m"])


def _tr(m, x, y):
    return (arith("add", arith("add", arith("mul", m[0], x), arith("mul", m[1], y)), m[2]),
            arith("add", arith("add", arith("mul", m[3], x), arith("mul", m[4], y)), m[5]))


def tr_cells(m, c):
    out = np.empty(c.shape, object)
    for i in np.ndindex(c.shape[:-1]):
        out[i + (0,)], out[i + (1,)] = _tr(m, c[i + (0,)], c[i + (1,)])
    return out


@meth("Affine2D", "transform", "transform_affine")
def _a_tr(it, ref, a, k):
    c, _ = it.as_cells(a[0])
    return it.new_arr(tr_cells(it.rec(ref).attrs["#m"], c), np.dtype(np.float64))


@meth("Affine2D", "transform_point")
def _a_tp(it, ref, a, k):
    c, _ = it.as_cells(a[0])
    return it.new_arr(tr_cells(it.rec(ref).attrs["#m"], c), np.dtype(np.float64))


@meth("Affine2D", "transform_path", "transform_path_affine")
def _a_tpath(it, ref, a, k):
    return _p_trd(it, a[0], [ref], {})


@meth("Affine2D", "get_matrix")
def _a_gm(it, ref, a, k):
    m = it.rec(ref).attrs["#m"]
    c = np.empty((3, 3), object)
    for i in range(6):
        c[i // 3, i % 3] = m[i]
    c[2] = [0.0, 0.0, 1.0]
    return it.new_arr(c, np.dtype(np.float64))


def _path_init(it, ref, a, k):
    names = ["vertices", "codes", "_interpolation_steps", "closed", "readonly"]
    v = dict(zip(names, a))
    v.update(k)
    c, dt = it.as_cells(v["vertices"])
    if c.size and (c.ndim != 2 or c.shape[1] != 2):
        it.raise_("ValueError", "'vertices' must be 2D with shape (N, 2)")
    arr = v["vertices"] if it.is_array(v["vertices"]) else it.new_arr(c, np.dtype(np.float64), cast=True)
    codes = v.get("codes")
    if codes is not None:
        cc, _ = it.as_cells(codes)
        if cc.ndim != 1 or len(cc) != len(c):
            it.raise_("ValueError", "'codes' must be a 1D list or array with the same length of 'vertices'")
        if len(cc) and not isinstance(cc[0], Term) and cc[0] != 1:
            it.raise_("ValueError", "The first element of 'code' must be equal to 'MOVETO' (1)")
        codes = it.new_arr(cc, np.dtype(np.uint8))
    elif it.simp(v.get("closed", False)) is True and len(c):
        cc = np.empty(len(c), object)
        cc[:] = [1] + [2] * (len(c) - 2) + [79] if len(c) > 1 else [1]
        codes = it.new_arr(cc, np.dtype(np.uint8))
    it.xset(ref, "_vertices", arr)
    it.xset(ref, "_codes", codes)


NEW["Path"] = _path_init


@prop("Path", "vertices")
def _p_v(it, ref):
    return it.xget(ref, "_vertices")


@prop("Path", "codes")
def _p_c(it, ref):
    return it.xget(ref, "_codes")


def _mpath(it, verts, codes):
    r = it.xnew("Path")
    it.xset(r, "_vertices", verts)
    it.xset(r, "_codes", codes)
    return r


@meth("Path", "transformed")
def _p_trd(it, ref, a, k):
    T = a[0]
    if isinstance(T, ExtAttr):
        T = it.ext_child(T)
    if not (isinstance(T, Ref) and isinstance(it.rec(T), ExtRec) and it.rec(T).path == "Affine2D"):
        raise Unsupported("path transformed by an unknown transform")
    c, _ = it.as_cells(it.xget(ref, "_vertices"))
    return _mpath(it, it.new_arr(tr_cells(it.rec(T).attrs["#m"], c), np.dtype(np.float64)), it.xget(ref, "_codes"))


@meth("Path", "deepcopy", "copy", "cleaned")
def _p_copy(it, ref, a, k):
    c, _ = it.as_cells(it.xget(ref, "_vertices"))
    return _mpath(it, it.new_arr(c.copy(), np.dtype(np.float64)), it.xget(ref, "_codes"))


def _arc(it, a, k):
    """matplotlib.path.Path.arc: the arc as 2, 4, 8 or 16 cubic curves, depending on its extent"""
    names = ["theta1", "theta2", "n", "is_wedge"]
    v = dict(zip(names, a))
    v.update(k)
    if "theta1" not in v or "theta2" not in v or len(a) > 4 or set(k) - set(names):
        it.raise_("TypeError", "arc() takes theta1, theta2, n and is_wedge")
    t1, t2 = it.simp(v["theta1"]), it.simp(v["theta2"])
    wedge = it.simp(v.get("is_wedge", False))
    if wedge is not False or v.get("n") is not None:
        raise Unsupported("arc given a number of curves, or a wedge")
    turns = arith("div", arith("sub", t2, t1), 360.0)
    near = unary("round", turns)
    full = mk_and(mk_not(eq(near, 0)), le(unary("abs", arith("sub", turns, near)), 1e-12))
    ext = it.fork(full, lambda: 360.0,
                  lambda: arith("sub", arith("sub", t2, arith("mul", 360.0, unary("floor", turns))), t1))
    rad = math.pi / 180.0
    e1 = arith("mul", t1, rad)
    ext = arith("mul", ext, rad)

    def build(n):
        d = arith("div", ext, float(n))
        t = unary("tan", arith("mul", 0.5, d))
        al = arith("div", arith("mul", unary("sin", d), arith("sub", unary("sqrt", arith(
            "add", 4.0, arith("mul", 3.0, arith("mul", t, t)))), 1.0)), 3.0)
        P = []
        for i in range(n + 1):
            e = arith("add", e1, arith("mul", float(i), d)) if i else e1
            P.append((unary("cos", e), unary("sin", e)))
        c = np.empty((3 * n + 1, 2), object)
        c[0, 0], c[0, 1] = P[0]
        for i in range(n):
            (xa, ya), (xb, yb) = P[i], P[i + 1]
            c[3 * i + 1, 0], c[3 * i + 1, 1] = arith("sub", xa, arith("mul", al, ya)), arith("add", ya, arith("mul", al, xa))
            c[3 * i + 2, 0], c[3 * i + 2, 1] = arith("add", xb, arith("mul", al, yb)), arith("sub", yb, arith("mul", al, xb))
            c[3 * i + 3, 0], c[3 * i + 3, 1] = xb, yb
        cc = np.empty(3 * n + 1, object)
        cc[:] = [1] + [4] * (3 * n)
        return _mpath(it, it.new_arr(c, np.dtype(np.float64)), it.new_arr(cc, np.dtype(np.uint8)))
    half = math.pi * 0.5

    def choose(i):
        n = 2 ** i
        if i == 4:
            return build(n)
        return it.fork(le(arith("div", ext, half), i), lambda: build(n), lambda: choose(i + 1))
    return choose(0)


MARKER_POINTS = 5


def _mk_init(it, ref, a, k):
    m = it.simp(a[0] if a else k.get("marker"))
    it.xset(ref, "#m", m)


NEW["MarkerStyle"] = _mk_init


@meth("MarkerStyle", "get_path")
def _mk_path(it, ref, a, k):
    m = it.rec(ref).attrs["#m"]
    c = np.empty((MARKER_POINTS, 2), object)
    for i in np.ndindex(c.shape):
        c[i] = mk("mpath", m, i[0], i[1], ty="float")
    return _mpath(it, it.new_arr(c, np.dtype(np.float64)), None)


@meth("MarkerStyle", "get_transform")
def _mk_tr(it, ref, a, k):
    m = it.rec(ref).attrs["#m"]
    s = mk("mscale", m, ty="float")
    return it.affine((s, 0.0, 0.0, 0.0, s, 0.0))


@meth("MarkerStyle", "get_marker")
def _mk_m(it, ref, a, k):
    return it.rec(ref).attrs["#m"]


# ------------------------------------------------------------------------------- figures and axes
def _fig_init(it, ref, a, k):
    it.maybe_raise("matplotlib.pyplot.figure")
    it.xset(ref, "dpi", k.get("dpi", 100.0))
    fs = k.get("figsize")
    if fs is not None:
        c, _ = it.as_cells(fs)
        size = tuple(c)
    else:
        size = (6.4, 4.8)
    it.xset(ref, "#size", size)
    for n in ("canvas", "patch"):
        ch = it.xnew("Figure." + n)
        it.xset(ch, "figure", ref)
        it.xset(ref, n, ch)
    tr = it.xnew("DpiScale")
    it.xset(tr, "#fig", ref)
    it.xset(ref, "dpi_scale_trans", tr)


NEW["Figure"] = _fig_init


@meth("Figure", "set_size_inches")
def _f_ssi(it, ref, a, k):
    a = [x for x in a] + ([k["h"]] if "h" in k else [])
    if len(a) == 1:
        c, _ = it.as_cells(a[0])
        a = list(c)
    it.xset(ref, "#size", (_num1(it, a[0]), _num1(it, a[1])))


@meth("Figure", "get_size_inches")
def _f_gsi(it, ref, a, k):
    s = it.rec(ref).attrs["#size"]
    s = it.simp(s)
    if not isinstance(s, tuple):
        raise Unsupported("gated figure size")
    c = np.empty(2, object)
    c[:] = list(s)
    return it.new_arr(c, np.dtype(np.float64))


@meth("Figure", "set_dpi")
def _f_sd(it, ref, a, k):
    it.xset(ref, "dpi", a[0])


@meth("Figure", "get_dpi")
def _f_gd(it, ref, a, k):
    return it.xget(ref, "dpi")


@meth("Figure", "set_figwidth")
def _f_fw(it, ref, a, k):
    it.xset(ref, "#size", (_num1(it, a[0]), it.rec(ref).attrs["#size"][1]))


@meth("Figure", "set_figheight")
def _f_fh(it, ref, a, k):
    it.xset(ref, "#size", (it.rec(ref).attrs["#size"][0], _num1(it, a[0])))


def _pixels(it, fig, dpi=None):
    """(width, height) of the image of a figure"""
    r = it.rec(fig)
    d = r.attrs["dpi"] if dpi is None or dpi == "figure" else dpi
    s = it.simp(r.attrs["#size"])
    if not isinstance(s, tuple):
        raise Unsupported("gated figure size")
    return tuple(unary("pixels", arith("mul", x, d)) for x in s)


def _image(it, w, h, shape):
    r = it.xnew("Image")
    it.xset(r, "#wh", (w, h))
    it.xset(r, "shape", shape)
    it.xset(r, "ndim", len(shape))
    it.xset(r, "dtype", np.dtype(np.uint8))
    return r


def X_is_image(self, v):
    return isinstance(v, Ref) and isinstance(self.rec(v), ExtRec) and self.rec(v).path == "Image"


def X_image_reshape(self, ref, dims):
    w, h = self.rec(ref).attrs["#wh"]
    total = arith("mul", arith("mul", w, h), 4)
    known, free = 1, None
    for i, d in enumerate(dims):
        if num_ty(d) == "float" or not (isinstance(d, Term) or is_num(d)):
            self.raise_("TypeError", "%s cannot be interpreted as an integer" % show(d))
        if not isinstance(d, Term) and d == -1:
            free = i
        else:
            known = arith("mul", known, d)
    if free is not None:
        ok = eq(arith("mod", total, known), 0)
        dims = [arith("floordiv", total, known) if i == free else d for i, d in enumerate(dims)]
    else:
        ok = eq(total, known)
    return self.fork(ok, lambda: _image(self, w, h, tuple(dims)),
                     lambda: self.raise_("ValueError", "cannot reshape an image of %s values" % show(total)))


@meth("Image", "reshape")
def _im_reshape(it, ref, a, k):
    dims = a[0] if len(a) == 1 and isinstance(it.simp(a[0]), tuple) else a
    if k:
        raise Unsupported("reshape options")
    return it.image_reshape(ref, [it.simp(x) for x in (it.simp(dims) if isinstance(dims, Term) else dims)])


@meth("Image", "copy", "__array__")
def _im_copy(it, ref, a, k):
    return ref


def _bio_init(it, ref, a, k):
    it.xset(ref, "#content", a[0] if a else b"")
    it.xset(ref, "#pos", 0)


NEW["io.BytesIO"] = _bio_init


@meth("io.BytesIO", "getvalue", "getbuffer")
def _bio_value(it, ref, a, k):
    return it.xget(ref, "#content")


@meth("io.BytesIO", "seek")
def _bio_seek(it, ref, a, k):
    if len(a) != 1 or a[0] != 0:
        raise Unsupported("seek")
    it.xset(ref, "#pos", 0)
    return 0


@meth("io.BytesIO", "read")
def _bio_read(it, ref, a, k):
    if it.xget(ref, "#pos") != 0 or a and a[0] not in (-1, None):
        raise Unsupported("partial read")
    it.xset(ref, "#pos", 1)
    return it.xget(ref, "#content")


@meth("Figure", "savefig")
def _f_savefig(it, ref, a, k):
    it.maybe_raise("Figure.savefig")
    t = it.simp(a[0] if a else k.get("fname"))
    if isinstance(t, Ref) and isinstance(it.rec(t), ExtRec) and it.rec(t).path == "io.BytesIO":
        if it.xget(t, "#content") != b"":
            raise Unsupported("image appended")
        if set(k) - {"fname", "format", "dpi"} or len(a) > 1 or k.get("format") not in ("raw", "rgba"):
            it.xset(t, "#content", it.xnew("Encoded"))
        else:
            w, h = _pixels(it, ref, it.simp(k.get("dpi")))
            it.xset(t, "#content", _image(it, w, h, (arith("mul", arith("mul", w, h), 4),)))
        it.xset(t, "#pos", 1)
    return None


@meth("Figure.canvas", "get_width_height")
def _fc_wh(it, ref, a, k):
    return _pixels(it, it.rec(ref).attrs["figure"])


@meth("Figure.canvas", "buffer_rgba")
def _fc_rgba(it, ref, a, k):
    w, h = _pixels(it, it.rec(ref).attrs["figure"])
    return _image(it, w, h, (h, w, 4))


@meth("DpiScale", "inverted")
def _d_inv(it, ref, a, k):
    r = it.xnew("DpiScaleInv")
    it.xset(r, "#fig", it.rec(ref).attrs["#fig"])
    return r


@meth("Figure", "add_axes")
def _f_aa(it, ref, a, k):
    ax = it.xnew("Axes")
    rect = a[0] if a else k.get("rect")
    it.xset(ax, "figure", ref)
    it.xset(ax, "patch", it.xnew("Axes.patch"))
    it.xset(ax, "#xlim", (0.0, 1.0))
    it.xset(ax, "#ylim", (0.0, 1.0))
    it.note_ext(ax)
    _ax_pos(it, ax, [rect], {})
    return ax


@meth("Figure", "get_axes")
def _f_ga(it, ref, a, k):
    raise Unsupported("Figure.get_axes")


def _ax_pos(it, ref, a, k):
    p = a[0] if a else k.get("pos")
    c, _ = it.as_cells(p)
    if c.shape != (4,):
        it.raise_("ValueError", "position must have 4 elements")
    it.xset(ref, "#pos", tuple(c))


METHODS["Axes", "set_position"] = _ax_pos


def _bbox(it, x, y, w, h):
    b = it.xnew("Bbox")
    for n, v in (("x0", x), ("y0", y), ("width", w), ("height", h), ("x1", arith("add", x, w)), ("y1", arith("add", y, h)),
                 ("xmin", x), ("ymin", y), ("xmax", arith("add", x, w)), ("ymax", arith("add", y, h)),
                 ("bounds", (x, y, w, h)), ("size", (w, h))):
        it.xset(b, n, v)
    return b


@meth("Axes", "get_position")
def _ax_gp(it, ref, a, k):
    return _bbox(it, *it.rec(ref).attrs["#pos"])


def _pix(it, ax):
    x, y, w, h = it.simp(it.rec(ax).attrs["#pos"])
    fig = it.rec(it.rec(ax).attrs["figure"])
    W, H = it.simp(fig.attrs["#size"])
    d = fig.attrs["dpi"]
    m = lambda a, b: arith("mul", arith("mul", a, b), d)
    return m(x, W), m(y, H), m(w, W), m(h, H)


@meth("Axes", "get_window_extent")
def _ax_we(it, ref, a, k):
    return _bbox(it, *_pix(it, ref))


@prop("Axes", "bbox")
def _ax_bbox(it, ref):
    return _bbox(it, *_pix(it, ref))


@meth("Bbox", "transformed")
def _bb_t(it, ref, a, k):
    t = a[0]
    if isinstance(t, ExtAttr):
        t = it.ext_child(t)
    r = it.rec(t)
    if r.path not in ("DpiScaleInv", "DpiScale"):
        raise Unsupported("bbox transformed by " + r.path)
    d = it.rec(r.attrs["#fig"]).attrs["dpi"]
    op = "div" if r.path == "DpiScaleInv" else "mul"
    return _bbox(it, *[arith(op, v, d) for v in it.rec(ref).attrs["bounds"]])


def _lim(axis, names):
    def setter(it, ref, a, k):
        lo, hi = it.rec(ref).attrs["#%slim" % axis]
        if len(a) == 1 and not (isinstance(a[0], Term) or is_num(a[0]) or a[0] is None):
            c, _ = it.as_cells(a[0])
            a = list(c)
        for i, v in enumerate(a[:2]):
            if v is not None:
                lo, hi = (_num1(it, v), hi) if i == 0 else (lo, _num1(it, v))
        for n, v in k.items():
            if n in (names[0], axis + "min") and v is not None:
                lo = _num1(it, v)
            if n in (names[1], axis + "max") and v is not None:
                hi = _num1(it, v)
        it.xset(ref, "#%slim" % axis, (lo, hi))
        return (lo, hi)

    def getter(it, ref, a, k):
        return it.simp(it.rec(ref).attrs["#%slim" % axis])
    METHODS["Axes", "set_%slim" % axis] = setter
    METHODS["Axes", "get_%slim" % axis] = getter


_lim("x", ("left", "right"))
_lim("y", ("bottom", "top"))


@meth("Axes", "axis")
def _ax_axis(it, ref, a, k):
    if a and not isinstance(a[0], (str, bool)):
        c, _ = it.as_cells(a[0])
        it.xset(ref, "#xlim", (c[0], c[1]))
        it.xset(ref, "#ylim", (c[2], c[3]))
    return None


def _coll_init(it, ref, a, k):
    r = it.rec(ref)
    names = {"LineCollection": "segments", "PolyCollection": "verts", "PathCollection": "paths"}
    if a and r.path in names:
        it.xset(ref, "@" + names[r.path], a[0])
    for n, v in k.items():
        it.xset(ref, "@" + PLURAL.get(n, n), v)


PLURAL = {"edgecolor": "edgecolors", "facecolor": "facecolors", "linewidth": "linewidths", "lw": "linewidths",
          "linestyle": "linestyles", "linestyle_": "linestyles", "capstyle": "capstyle", "color": "color",
          "antialiased": "antialiaseds", "dashes": "linestyles", "ls": "linestyles", "ec": "edgecolors",
          "fc": "facecolors", "s": "sizes", "array": "array"}
for _c in ("LineCollection", "PolyCollection", "PathCollection", "Collection"):
    NEW[_c] = _coll_init
    for _s, _p in (("edgecolor", "edgecolors"), ("facecolor", "facecolors"), ("linewidth", "linewidths"),
                   ("lw", "linewidths"), ("linestyle", "linestyles"), ("ls", "linestyles"), ("ec", "edgecolors"),
                   ("fc", "facecolors"), ("edgecolors", "edgecolors"), ("facecolors", "facecolors"),
                   ("antialiased", "antialiaseds"), ("dashes", "linestyles")):
        def _set(it, ref, a, k, _p=_p):
            it.maybe_raise("Collection.set_" + _p)
            it.xset(ref, "@" + _p, a[0])
        METHODS[_c, "set_" + _s] = _set
        METHODS[_c, "set_" + _p] = _set

    def _setcolor(it, ref, a, k, _c=_c):
        it.maybe_raise("Collection.set_color")
        it.xset(ref, "@edgecolors", a[0])
        if _c != "LineCollection":
            it.xset(ref, "@facecolors", a[0])
    METHODS[_c, "set_color"] = _setcolor

    def _setpaths(it, ref, a, k):
        it.maybe_raise("Collection.set_paths")
        it.xset(ref, "@paths", a[0])
        r = it.rec(ref).copy()
        for n in ("@segments", "@verts"):
            r.attrs.pop(n, None)
        it.put(ref, r)
    for _n in ("set_paths", "set_segments", "set_verts"):
        METHODS[_c, _n] = _setpaths


@meth("Axes", "scatter")
def _ax_scatter(it, ref, a, k):
    it.maybe_raise("Axes.scatter")
    c = it.xnew("PathCollection")
    it.xset(c, "axes", ref)
    it.xset(c, "#added", 1)
    names = ["x", "y", "s", "c", "marker"]
    v = dict(zip(names, a))
    v.update(k)
    if "s" in v and v["s"] is not None:
        it.xset(c, "@sizes", v["s"])
    it.note_ext(c)
    return c


@meth("Axes", "add_collection", "add_artist")
def _ax_addc(it, ref, a, k):
    it.maybe_raise("Axes.add_collection")
    c = it.simp(a[0] if a else k.get("collection"))
    if isinstance(c, Ref) and isinstance(it.rec(c), ExtRec):
        n = it.xget(c, "#added", 0)
        it.xset(c, "axes", ref)
        it.xset(c, "#added", arith("add", n, 1))
    return c


# ------------------------------------------------------------------------------- colormaps
def _cmap(it, a, k):
    name = a[0] if a else k.get("name")
    lut = a[1] if len(a) > 1 else k.get("lut")
    if isinstance(name, Ref):
        return name if lut is None else _cm_resampled(it, name, [lut], {})
    r = it.xnew("Cmap")
    it.xset(r, "name", name)
    it.xset(r, "lut", None)
    return r if lut is None else _cm_resampled(it, r, [lut], {})


@meth("Cmap", "resampled")
def _cm_resampled(it, ref, a, k):
    n = a[0] if a else k.get("lutsize")
    if not isinstance(n, int):
        raise Unsupported("colormap of a size that is not known")
    r = it.xnew("Cmap")
    it.xset(r, "name", it.xget(ref, "name"))
    it.xset(r, "lut", None if n == 256 else n)
    return r


@meth("Cmap", "reversed")
def _cm_reversed(it, ref, a, k):
    name = it.xget(ref, "name")
    if not isinstance(name, str):
        raise Unsupported("reversed colormap without a name")
    r = it.xnew("Cmap")
    it.xset(r, "name", name[:-2] if name.endswith("_r") else name + "_r")
    it.xset(r, "lut", it.xget(ref, "lut"))
    return r


@meth("Cmap", "copy", "__copy__")
def _cm_copy(it, ref, a, k):
    r = it.xnew("Cmap")
    for n in ("name", "lut"):
        it.xset(r, n, it.xget(ref, n))
    return r


def _map_cells(it, v, f, tail=()):
    if it.is_array(v):
        c = it.cells(v)
        out = np.empty(c.shape + tail, object)
        for i in np.ndindex(c.shape):
            r = f(c[i])
            if tail:
                for j in range(tail[0]):
                    out[i + (j,)] = r[j]
            else:
                out[i] = r
        return it.new_arr(out, np.dtype(np.float64))
    c, dt = it.as_cells(v)
    if c.ndim:
        return _map_cells(it, it.new_arr(c, np.dtype(np.float64)), f, tail)
    r = f(c[()])
    return r


@meth("Cmap", "__call__")
def _cm_call(it, ref, a, k):
    name, lut = it.xget(ref, "name"), it.xget(ref, "lut")
    if lut is not None:
        name = mk("str.resampled", name, lut, ty="str")
    x = a[0] if a else k.get("X")
    alpha = a[1] if len(a) > 1 else k.get("alpha")
    by = a[2] if len(a) > 2 else k.get("bytes", False)
    if by is not False or alpha is not None and (isinstance(alpha, Ref) or num_ty(alpha) not in ("int", "float")):
        raise Unsupported("colormap options")
    if it.is_array(x) and it.rec(x).payload.dtype.kind in "iu" or not isinstance(x, Ref) and num_ty(x) == "int":
        g = lambda c: tuple(mk("cmapi", name, c, j, ty="float") for j in range(4))
    else:
        g = lambda c: tuple(mk("cmap", name, c, j, ty="float") for j in range(4))
    if alpha is not None:
        h = g
        g = lambda c: h(c)[:3] + (it.binop("+", alpha, 0.0),)
    return _map_cells(it, x, g, (4,))


def _normalize(it, a, k):
    names = ["vmin", "vmax", "clip"]
    v = dict(zip(names, a))
    v.update(k)
    r = it.xnew("Normalize")
    for n in names:
        it.xset(r, n, v.get(n, False if n == "clip" else None))
    return r


@meth("Normalize", "__call__")
def _norm_call(it, ref, a, k):
    x = a[0] if a else k.get("value")
    lo, hi = it.xget(ref, "vmin"), it.xget(ref, "vmax")
    if lo is None or hi is None:
        c, _ = it.as_cells(x)
        if lo is None:
            lo = it.np_call("numpy.min", [x], {})
            it.xset(ref, "vmin", lo)
        if hi is None:
            hi = it.np_call("numpy.max", [x], {})
            it.xset(ref, "vmax", hi)
    lo, hi = it.unpayload(lo), it.unpayload(hi)
    def f(c):
        if not (is_num(c) or isinstance(c, Term)):
            it.raise_("TypeError", "Normalize of a non number")
        return it.fork(eq(lo, hi), lambda: 0.0, lambda: arith("div", arith("sub", c, lo), arith("sub", hi, lo)))
    clip = it.simp(it.xget(ref, "clip"))
    if clip is True:
        f0 = f
        f = lambda c: f0(it.clampv(c, lo, hi))
    return _map_cells(it, x, f)


def X_clampv(self, c, lo, hi):
    a = lt(c, lo)
    b = lt(hi, c)
    return mk_phi(a, lo, mk_phi(b, hi, c))
