"""Abstract numpy arrays: a storage of abstract cells plus a real index array that locates each element.

The index array is built with real numpy *view* operations, so shapes, strides, contiguity and aliasing
are those of numpy; the cells hold abstract values (terms or constants).
"""
import ast
import math
import operator
import numpy as np
from .values import *
from .values import Term
from .engine import (ObjRec, ListRec, SetRec, DictRec, ClassRec, FuncRec, GenRec, IterRec, ExtRec, StoreRec, DictVal,
                     Dead, Unsupported, has_sym, mk_select)

NDARRAY = Ext("numpy.ndarray", np.ndarray)


class ArrP:
    """payload of an array object"""
    __slots__ = ("store", "idx", "dtype", "base", "byteview", "owns", "ro")

    def __init__(self, store, idx, dtype, base=None, byteview=False, owns=True, ro=False):
        self.store, self.idx, self.dtype, self.base, self.byteview, self.owns = store, idx, dtype, base, byteview, owns
        self.ro = ro        # read-only

    def __eq__(self, o):
        return isinstance(o, ArrP) and o.store == self.store and o.dtype == self.dtype and o.base == self.base and \
            o.byteview == self.byteview and o.ro == self.ro and o.idx.shape == self.idx.shape and bool((o.idx == self.idx).all())

    def __hash__(self):
        return hash((self.store, self.idx.shape))


# ---- arithmetic on terms, so that numpy's object loops (sum, dot, cross, matmul ...) apply to them
def _num(v):
    return v if isinstance(v, Term) or is_num(v) else None


def _op(name, swap=False):
    def f(a, b):
        if not isinstance(b, Term) and not is_num(b):
            return NotImplemented
        return arith(name, b, a) if swap else arith(name, a, b)
    return f


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("floordiv", "floordiv"),
               ("mod", "mod"), ("pow", "pow")):
    setattr(Term, "__%s__" % _n, _op(_o))
    setattr(Term, "__r%s__" % _n, _op(_o, True))
Term.__neg__ = lambda self: neg(self)


def install(it):
    cls = type(it)
    for k, v in list(globals().items()):
        if k.startswith("N_"):
            setattr(cls, k[2:], v)
    it.models.update(MODELS)


MODELS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


# --------------------------------------------------------------------------------- construction
def N_is_array(self, v):
    if not isinstance(v, Ref):
        return False
    r = self.rec(v)
    return isinstance(r, ObjRec) and isinstance(r.payload, ArrP)


def N_cells(self, v):
    p = self.rec(v).payload
    st = self.rec(p.store).cells
    if p.byteview:
        n = p.byteview
        out = np.empty(p.idx.shape, object)
        for i in np.ndindex(p.idx.shape):
            o = int(p.idx[i])
            out[i] = mk_byte(st[o // n], o % n, self.store_dtype(p)) if n > 1 else st[o]
        return out
    out = np.empty(p.idx.shape, object)
    if p.dtype.names:
        n = len(leaves(p.dtype))
        for i in np.ndindex(p.idx.shape):
            o = int(p.idx[i])
            out[i] = tuple(self.simp(x) for x in st[o:o + n])
        return out
    if out.ndim == 0:
        out[()] = st[int(p.idx)]
    elif out.size:
        out[...] = st[p.idx]
    for i in np.ndindex(out.shape):
        c = out[i]
        if isinstance(c, Term) and c.op == "phi":
            out[i] = self.simp(c)
    return out


def base_dtype(dt):
    return dt.base if dt is not None and dt.subdtype else dt


def leaves(dt):
    """[(field, dtype)] of the scalars of one record, in storage order"""
    out = []
    for n in dt.names:
        f = dt.fields[n][0]
        if f.base.names:
            raise Unsupported("nested record type")
        out += [(n, f.base)] * (int(np.prod(f.shape)) if f.shape else 1)
    return out


def leaf_dtype(dt):
    """the type of all the scalars of a record"""
    ls = {d for _, d in leaves(dt)}
    if len(ls) != 1 or dt.itemsize != len(leaves(dt)) * min(ls, key=str).itemsize:
        raise Unsupported("bytes of records of mixed types")
    return ls.pop()


def N_cast_cell(self, v, dt):
    if dt is None or dt == object:
        return v
    if dt.names:
        ls = leaves(dt)
        if isinstance(v, tuple) and len(v) == len(ls):
            return tuple(self.cast_cell(x, t) for x, (_, t) in zip(v, ls))
        if is_num(v) or isinstance(v, Term):
            return tuple(self.cast_cell(v, t) for _, t in ls)
        raise Unsupported("record from %s" % show(v, 2))
    k = dt.kind
    v = py(self.unpayload(v))
    if k == "f":
        if isinstance(v, Term):
            if v.ty in ("int", "bool"):
                return unary("tofloat", v)
            return v
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                self.raise_("ValueError", str(e))
        return float(v.real if isinstance(v, complex) else v) if is_num(v) else v
    if k in "iu":
        if isinstance(v, Term):
            return unary("trunc", v) if v.ty == "float" else v
        if isinstance(v, float) and (v != v or math.isinf(v)):
            return 0
        if not is_num(v):
            return v
        v = int(v.real if isinstance(v, complex) else v)
        i = np.iinfo(dt)
        return v if i.min <= v <= i.max else (v - int(i.min)) % (1 << 8 * dt.itemsize) + int(i.min)
    if k == "b":
        if isinstance(v, Term):
            return self.truth(v)
        return bool(v)
    if k == "c":
        return complex(v) if is_num(v) else v
    return v


def N_new_arr(self, cells, dtype, cls=None, finalize=ABSENT, base=None, cast=False):
    """a fresh array owning its storage"""
    cells = np.asarray(cells, object) if not isinstance(cells, np.ndarray) else cells
    if cells.dtype != object:
        cells = cells.astype(object)
    if cast:
        out = np.empty(cells.shape, object)
        for i in np.ndindex(cells.shape):
            out[i] = self.cast_cell(cells[i], dtype)
        cells = out
    if dtype is not None and dtype.names:
        ls = leaves(dtype)
        flat = np.empty(cells.size * len(ls), object)
        for j, i in enumerate(np.ndindex(cells.shape)):
            c = cells[i]
            if not isinstance(c, tuple) or len(c) != len(ls):
                raise Unsupported("record cells")
            for q, x in enumerate(c):
                flat[j * len(ls) + q] = x
        idx = (np.arange(cells.size) * len(ls)).reshape(cells.shape)
        ref = self.alloc(ObjRec(cls or NDARRAY, {}, ArrP(self.alloc(StoreRec(flat)), idx, dtype, base, False, True)))
        return self.finalize(ref, finalize)
    flat = np.empty(cells.size, object)
    flat[:] = [cells[i] for i in np.ndindex(cells.shape)] if cells.ndim else [cells[()]]
    store = self.alloc(StoreRec(flat))
    idx = np.arange(cells.size).reshape(cells.shape)
    ref = self.alloc(ObjRec(cls or NDARRAY, {}, ArrP(store, idx, dtype, base, False, True)))
    return self.finalize(ref, finalize)


def N_finalize(self, ref, obj):
    cls = self.rec(ref).cls
    if isinstance(cls, Ref) and obj is not ABSENT:
        m = self.class_lookup(cls, "__array_finalize__")
        if m is not None and not isinstance(m, Ext):
            self.call(m, [ref, obj], {})
    return ref


def N_arr_class(self, ref):
    return self.rec(ref).cls


def mk_byte(cell, k, dtype):
    """byte k of a cell"""
    if isinstance(cell, Term) and cell.op == "frombytes":
        return cell.args[0][k]
    if not isinstance(cell, Term) and is_num(cell) and dtype.kind in "fiub":
        return np.array(cell, dtype).tobytes()[k]
    return mk("byte", cell, k, dtype.str, ty="int")


def whole_cell(full):
    """the cell which has these bytes, if they are known to be those of one cell"""
    first = next((x for x in full if isinstance(x, Term) and x.op == "byte"), None)
    if first is not None:
        dt = first.args[2]
        if all(isinstance(x, Term) and x.op == "byte" and x.args[1] == k and x.args[2] == dt and same(x.args[0], first.args[0])
               for k, x in enumerate(full)) and len(full) == np.dtype(dt).itemsize:
            return first.args[0], dt
    return None


def eq_bytes(x, y, eq):
    """byte per byte comparison; the bytes of a cell are compared as one"""
    r, i = True, 0
    while i < len(x):
        n = next((np.dtype(t.args[2]).itemsize for t in (x[i], y[i]) if isinstance(t, Term) and t.op == "byte" and t.args[1] == 0), 0)
        if n > 1 and i + n <= len(x):
            a, b = whole_cell(x[i:i + n]), whole_cell(y[i:i + n])
            dt = (a or b or (0, None))[1]
            a, b = [c[0] if c and c[1] == dt else
                    np.frombuffer(bytes(z), dt)[0].item() if dt and all(isinstance(q, int) for q in z) else None
                    for c, z in ((a, x[i:i + n]), (b, y[i:i + n]))]
            if a is not None and b is not None:
                r = mk_and(r, eq(a, b))
                i += n
                continue
        r = mk_and(r, eq(x[i], y[i]))
        i += 1
    return r


def contiguous(p):
    f = p.idx.ravel()
    return f.size <= 1 or bool((np.diff(f) == 1).all())


def N_view_of(self, src, idx, cls=None, dtype=None, finalize=ABSENT, byteview=None, collapse=True, ro=False):
    """a view on the storage of src"""
    p = self.rec(src).payload
    cls = cls if cls is not None else self.rec(src).cls
    base = src
    while collapse:
        q = self.rec(base).payload
        if q.base is None:
            break
        nb = q.base
        if not self.is_array(nb) or not same(self.rec(nb).cls, cls):
            break
        base = nb
    np_ = ArrP(p.store, idx, dtype or p.dtype, base, p.byteview if byteview is None else byteview, False, p.ro or ro)
    ref = self.alloc(ObjRec(cls, {}, np_))
    return self.finalize(ref, src if finalize is ABSENT else finalize)


def N_reindex(self, src, idx):
    """result of a shape operation: a view when numpy makes one, a copy otherwise"""
    p = self.rec(src).payload
    if idx is p.idx:
        idx = idx.view()
    if idx.size == 0 or np.shares_memory(idx, p.idx):
        return self.view_of(src, idx)
    st = self.rec(p.store).cells
    tmp = ArrP(p.store, idx, p.dtype, None, p.byteview, False)
    t = self.alloc(ObjRec(NDARRAY, {}, tmp))
    return self.new_arr(self.cells(t), p.dtype, self.rec(src).cls, src)


def infer_dtype(cells):
    kinds = set()
    for c in cells.ravel() if cells.ndim else [cells[()]]:
        t = num_ty(c)
        if t == "any":
            t = "str" if isinstance(c, str) else "obj"
        kinds.add(t)
    if not kinds:
        return np.dtype(np.float64)
    if kinds == {"bool"}:
        return np.dtype(bool)
    if kinds <= {"bool", "int"}:
        return np.dtype(np.int64)
    if kinds <= {"bool", "int", "float"}:
        return np.dtype(np.float64)
    if kinds <= {"bool", "int", "float", "complex"}:
        return np.dtype(complex)
    if kinds == {"str"}:
        try:
            return np.array([c for c in cells.ravel()]).dtype
        except Exception:
            return np.dtype(object)
    return np.dtype(object)


def N_nest(self, v):
    """nested tuples of cells of a sequence; arrays become their cells"""
    v = self.simp(v)
    if is_phi(v) and not self.scalar_like(v):
        raise GatedArray(v)
    if isinstance(v, Ref):
        r = self.rec(v)
        if self.is_array(v):
            return self.cells(v)
        if isinstance(r, (ListRec, GenRec, IterRec)) and not isinstance(r, (GenRec, IterRec)):
            items = self.to_items(v)
            if is_phi(items):
                raise GatedArray(items)
            return tuple(self.nest(x) for x in items)
        if isinstance(r, ObjRec):
            m = self.class_lookup(r.cls, "__array__")
            if m is not None and not isinstance(m, Ext):
                return self.nest(self.call(m, [v], {}))
            if r.payload is not None and not isinstance(r.payload, tuple):
                return r.payload
            if self.class_lookup(r.cls, "__len__") is not None and self.class_lookup(r.cls, "__getitem__") is not None \
                    and not isinstance(self.class_lookup(r.cls, "__getitem__"), Ext):
                items = self.to_items(v)
                if is_phi(items):
                    raise GatedArray(items)
                return tuple(self.nest(x) for x in items)
            if isinstance(r.payload, tuple) and self.nt_fields(r.cls):
                return tuple(self.nest(x) for x in r.payload)
        return v
    if isinstance(v, tuple):
        return tuple(self.nest(x) for x in v)
    if isinstance(v, range):
        return tuple(v)
    if isinstance(v, MemV):
        return self.nest(v.src)
    return v


class GatedArray(Exception):
    def __init__(self, v):
        self.v = v


def shape_of(n):
    if isinstance(n, np.ndarray):
        return n.shape
    if isinstance(n, tuple):
        if not n:
            return (0,)
        s = [shape_of(x) for x in n]
        if any(x != s[0] for x in s):
            return None
        return (len(n),) + s[0]
    return ()


def fill(out, n):
    if out.ndim == 0:
        out[()] = n[()] if isinstance(n, np.ndarray) else n
        return
    if isinstance(n, np.ndarray):
        for i in np.ndindex(n.shape):
            out[i] = n[i]
        return
    for i, x in enumerate(n):
        if out.ndim == 1 and not isinstance(x, np.ndarray):
            out[i] = x
        elif out.ndim == 1:
            out[i] = x[()]
        else:
            fill(out[i], x)


def N_as_cells(self, v):
    """(object array of cells, dtype or None) of anything array-like"""
    if self.is_array(v):
        return self.cells(v), self.rec(v).payload.dtype
    n = self.nest(v)
    if isinstance(n, np.ndarray):
        dt = None
        return n, infer_dtype(n)
    s = shape_of(n)
    if s is None:
        self.raise_("ValueError", "setting an array element with a sequence (inhomogeneous shape)")
    out = np.empty(s, object)
    fill(out, n)
    return out, None if s == () else infer_dtype(out)


def N_arr_in(self, v):
    """cells + dtype usable in a ufunc: scalars keep dtype None (weak)"""
    c, dt = self.as_cells(v)
    return c, dt


def N_to_dtype(self, v):
    v = self.simp(v)
    if v is None or isinstance(v, np.dtype):
        return v
    if isinstance(v, Ext):
        if v.obj is Ext.MISSING:
            raise Unsupported("dtype " + v.path)
        try:
            return np.dtype(v.obj)
        except TypeError as e:
            self.raise_("TypeError", str(e))
    for x in v if isinstance(v, tuple) else (v,):
        x = self.simp(x)
        if self.is_array(x) or isinstance(x, Term) and x.ty == "float" or isinstance(x, Term) and x.ty == "int" and x is v:
            self.raise_("TypeError", "Cannot construct a dtype from an array")
    try:
        n = self.to_native(v)
        return np.dtype(n)
    except TypeError as e:
        self.raise_("TypeError", str(e))


def N_shape_arg(self, v):
    v = self.unpayload(self.simp(v))
    if isinstance(v, Ref) or isinstance(v, tuple):
        items = self.to_items(v)
        if is_phi(items):
            raise Unsupported("gated shape")
        v = tuple(py(self.simp(self.unpayload(x))) for x in items)
    else:
        v = py(v)
    if has_sym(v):
        raise Unsupported("symbolic array shape %s" % show(v, 3))
    if isinstance(v, float) or isinstance(v, tuple) and any(isinstance(x, float) for x in v):
        self.raise_("TypeError", "'float' object cannot be interpreted as an integer")
    return v if isinstance(v, tuple) else (v,)


def N_arr_shape(self, v):
    return self.rec(v).payload.idx.shape


def N_arr_scalar(self, v):
    c = self.cells(v)
    if c.size != 1:
        self.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
    return c.ravel()[0]


def N_scalar_arr(self, v):
    return self.new_arr(np.array(v, object), infer_dtype(np.array(v, object)))


def N_out_scalar(self, c, dt):
    """an element of an array as a value"""
    if not isinstance(c, Term) and dt is not None and dt.kind in "iu" and isinstance(c, int) and not isinstance(c, bool):
        try:
            return dt.type(c)
        except OverflowError:
            return c
    return c


# --------------------------------------------------------------------------------- indexing
def N_norm_key(self, k):
    """-> (native key, symbolic): native numpy key, or symbolic when terms are involved"""
    k = self.simp(k)
    if isinstance(k, tuple):
        return tuple(self.norm_key(x) for x in k)
    if isinstance(k, slice):
        s = slice(*[py(self.norm_index(x)) if x is not None else None for x in (k.start, k.stop, k.step)])
        for x in (s.start, s.stop, s.step):
            if isinstance(x, Term):
                raise Unsupported("array slice with symbolic bounds")
            if isinstance(x, float):
                self.raise_("TypeError", "slice indices must be integers")
        return s
    if isinstance(k, Ref):
        if self.is_array(k):
            c = self.cells(k)
            if c.ndim == 0:
                return c[()]
            if any(isinstance(x, Term) for x in c.ravel()):
                return c
            return c.astype(self.rec(k).payload.dtype if self.rec(k).payload.dtype.kind in "iub" else int)
        r = self.rec(k)
        if isinstance(r, (ListRec,)):
            c, dt = self.as_cells(k)
            if c.size == 0:
                return np.zeros(c.shape, int)
            if any(isinstance(x, Term) for x in c.ravel()):
                return c
            return c.astype(dt if dt is not None and dt.kind in "iub" else int)
        if isinstance(r, ObjRec) and r.payload is not None and isinstance(r.payload, (int, Term)):
            return r.payload
        if isinstance(r, ObjRec) and self.class_lookup(r.cls, "__array__") is not None:
            c, dt = self.as_cells(k)
            if any(isinstance(x, Term) for x in c.ravel()):
                return c
            return c.astype(int)
        self.raise_("IndexError", "only integers, slices, ellipsis, newaxis and arrays are valid indices")
    if isinstance(k, range):
        return np.array(list(k), int)
    if isinstance(k, np.generic):
        return k.item()
    if isinstance(k, (str, bytes)):
        return k
    if isinstance(k, float):
        self.raise_("IndexError", "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer "
                                  "or boolean arrays are valid indices")
    return k


def key_symbolic(k):
    if isinstance(k, tuple):
        return any(key_symbolic(x) for x in k)
    return isinstance(k, Term) or isinstance(k, np.ndarray) and k.dtype == object


def key_fancy(k):
    if isinstance(k, tuple):
        return any(key_fancy(x) for x in k)
    return isinstance(k, np.ndarray)


def N_arr_getitem(self, o, k):
    return self.dist_ref(k, lambda kk: self.arr_getitem1(o, kk)) if is_phi(k) else self.arr_getitem1(o, k)


def N_arr_getitem1(self, o, k):
    p = self.rec(o).payload
    key = self.norm_key(k)
    if isinstance(key, (str, bytes)):
        return self.field_view(o, key)
    if key_symbolic(key):
        parts = key if isinstance(key, tuple) else (key,)
        for i, x in enumerate(parts):
            if sym_mask(x):
                return self.mask_cases(x, lambda m: self.arr_getitem1(o, tuple(
                    self.from_native(m) if j == i else (self.from_native(y) if isinstance(y, np.ndarray) else y)
                    for j, y in enumerate(parts))))
        return self.sym_getitem(o, key)
    try:
        idx = p.idx[key]
    except (IndexError, TypeError) as e:
        self.raise_("IndexError", str(e))
    if not isinstance(idx, np.ndarray):
        if p.dtype.names:
            return self.view_of(o, np.array(idx))
        st = self.rec(p.store).cells
        if p.byteview:
            n = p.byteview
            return mk_byte(st[int(idx) // n], int(idx) % n, self.store_dtype(p)) if n > 1 else st[int(idx)]
        return self.out_scalar(self.simp(st[int(idx)]), p.dtype)
    if key_fancy(key):
        tmp = self.alloc(ObjRec(NDARRAY, {}, ArrP(p.store, idx, p.dtype, None, p.byteview)))
        c = self.cells(tmp)
        cls = self.rec(o).cls
        if isinstance(cls, Ref):
            plain = self.new_arr(c, p.dtype)
            q = self.rec(plain).payload
            ref = self.alloc(ObjRec(cls, {}, ArrP(q.store, q.idx, p.dtype, plain, False, False)))
            return self.finalize(ref, o)
        return self.new_arr(c, p.dtype)
    return self.view_of(o, idx)


def N_field_view(self, o, name):
    p = self.rec(o).payload
    if not p.dtype.names:
        self.raise_("IndexError", "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                                  "boolean arrays are valid indices")
    if isinstance(name, bytes) or name not in p.dtype.names:
        self.raise_("ValueError", "no field of name %s" % (name,))
    f = p.dtype.fields[name][0]
    off = [n for n, _ in leaves(p.dtype)].index(name)
    idx = p.idx + off
    if f.shape:
        idx = idx.reshape(idx.shape + (1,) * len(f.shape)) + np.arange(int(np.prod(f.shape))).reshape(f.shape)
    return self.view_of(o, idx, dtype=f.base, collapse=False)


def N_order_in_bounds(self, indices, n):
    """a permutation of more than n places cannot index n places"""
    by = {}
    for x in indices:
        if isinstance(x, Term) and x.op == "argsort" and len(x.args[0]) > n:
            by.setdefault(id(x.args[0]), set()).add(x.args[1])
    for used in by.values():
        if len(used) > n:
            self.raise_("IndexError", "index %d is out of bounds for axis with size %d" % (n, n))
    if by:
        raise Unsupported("some places of a permutation as an index of a smaller axis")


def N_sym_getitem(self, o, key):
    p = self.rec(o).payload
    c = self.cells(o)
    if not isinstance(key, tuple):
        key = (key,)
    # position of the symbolic component; the others must be basic
    pos = [i for i, x in enumerate(key) if key_symbolic(x)]
    if len(pos) != 1 or any(isinstance(x, np.ndarray) for i, x in enumerate(key) if i not in pos):
        raise Unsupported("symbolic fancy index")
    i = pos[0]
    if any(x is None for x in key):
        raise Unsupported("newaxis with symbolic index")
    # expand the ellipsis
    nd = c.ndim
    if Ellipsis in [x for x in key if not isinstance(x, (np.ndarray, Term))]:
        e = [j for j, x in enumerate(key) if x is Ellipsis][0]
        fillers = (slice(None),) * (nd - (len(key) - 1))
        key = key[:e] + fillers + key[e + 1:]
        i = [j for j, x in enumerate(key) if key_symbolic(x)][0]
    if any(not isinstance(x, slice) for j, x in enumerate(key) if j < i):
        raise Unsupported("symbolic index after integer index")
    s = key[i]
    n = c.shape[i]
    cols = []
    for j in range(n):
        cols.append(c[key[:i] + (slice(j, j + 1),) + key[i + 1:]])     # keeps axis i with length 1
    sarr = s if isinstance(s, np.ndarray) else np.array(s, object)
    self.order_in_bounds(sarr.ravel(), n)
    rest_before = cols[0].shape[:i] if cols else ()
    cols = [np.squeeze(x, axis=i) if x.ndim > i and x.shape[i] == 1 else x for x in cols]
    shape = cols[0].shape if cols else ()
    out = np.empty(shape[:i] + sarr.shape + shape[i:], object)
    for t in np.ndindex(sarr.shape):
        for q in np.ndindex(shape):
            idxv = sarr[t]
            if isinstance(idxv, Term):
                v = mk_select(idxv, [x[q] for x in cols])
            else:
                v = cols[int(idxv)][q]
            out[q[:i] + t + q[i:]] = v
    if out.ndim == 0:
        return out[()]
    return self.new_arr(out, p.dtype, self.rec(o).cls, o)


def N_arr_setitem(self, o, k, v):
    if self.rec(o).payload.ro:
        self.raise_("ValueError", "assignment destination is read-only")

    def f(k):
        p = self.rec(o).payload
        key = self.norm_key(k)
        if isinstance(key, (str, bytes)):
            self.arr_setitem(self.field_view(o, key), Ellipsis, v)
            return
        if p.dtype.names:
            raise Unsupported("store of whole records")
        if key_symbolic(key):
            parts = key if isinstance(key, tuple) else (key,)
            for i, x in enumerate(parts):
                if sym_mask(x):
                    w = self.simp(v)
                    if is_phi(w) and not self.scalar_like(w):
                        self.dist(w, lambda y: self.arr_setitem(o, k, y))
                        return
                    c, _ = self.as_cells(w)
                    if len(parts) == 1 and c.ndim == 0 and x.shape == p.idx.shape[:x.ndim] and not p.byteview:
                        st = self.rec(p.store).cells.copy()
                        val = self.cast_cell(c[()], p.dtype)
                        for j in np.ndindex(p.idx.shape):
                            q = int(p.idx[j])
                            cond = self.truth(x[j[:x.ndim]])
                            st[q] = mk_phi(cond, val, st[q]) if isinstance(cond, Term) else (val if cond else st[q])
                        self.put(p.store, StoreRec(st))
                        return

                    def put(m):
                        self.arr_setitem(o, tuple(self.from_native(m) if j == i else
                                                  (self.from_native(y) if isinstance(y, np.ndarray) else y)
                                                  for j, y in enumerate(parts)), v)
                    self.mask_cases(x, put)
                    return
            if isinstance(key, Term) and p.idx.ndim == 1:
                st = self.rec(p.store).cells.copy()
                for j in range(p.idx.shape[0]):
                    c = eq(key, j)
                    val = self.cast_cell(v, p.dtype)
                    st[p.idx[j]] = mk_phi(c, val, st[p.idx[j]]) if isinstance(c, Term) else (val if c else st[p.idx[j]])
                self.put(p.store, StoreRec(st))
                return
            if isinstance(key, np.ndarray) and key.ndim == 1 and p.idx.shape and key.shape[0] == p.idx.shape[0] and \
                    all(isinstance(x, Term) and x.op == "argsort" for x in key):
                return self.scatter(o, key, v)
            raise Unsupported("store at a symbolic array index")
        try:
            idx = p.idx[key]
        except (IndexError, TypeError) as e:
            self.raise_("IndexError", str(e))
        idx = np.asarray(idx)
        c, _ = self.as_cells(v)
        try:
            while c.ndim > idx.ndim and c.shape[0] == 1:
                c = c[0]
            c = np.broadcast_to(c, idx.shape)
        except ValueError as e:
            self.raise_("ValueError", str(e))
        st = self.rec(p.store).cells.copy()
        if p.byteview:
            if p.byteview == 1:
                for i in np.ndindex(idx.shape):
                    st[int(idx[i])] = self.cast_cell(c[i], p.dtype)
            else:
                self.store_bytes(st, p, [(int(idx[i]), c[i]) for i in np.ndindex(idx.shape)])
        else:
            for i in np.ndindex(idx.shape):
                st[int(idx[i])] = self.cast_cell(c[i], p.dtype)
        self.put(p.store, StoreRec(st))
    return self.dist_ref(k, f) if is_phi(k) else f(k)


def N_store_bytes(self, st, p, pairs):
    """store bytes (position, byte) in the cells of n bytes st"""
    n = p.byteview
    groups = {}
    for o, b in pairs:
        groups.setdefault(o // n, {})[o % n] = self.simp(b)
    for i, g in groups.items():
        dt = self.store_dtype(p)
        full = [g[k] if k in g else mk_byte(st[i], k, dt) for k in range(n)]
        whole = whole_cell(full)
        if whole is not None and whole[1] == dt.str:
            st[i] = whole[0]
        elif all(isinstance(x, int) for x in full) and dt.kind in "fiub":
            st[i] = np.frombuffer(bytes(full), dt)[0].item()
        else:
            st[i] = mk("frombytes", tuple(full), dt.str, ty="float")


def N_scatter(self, o, key, v):
    """o[perm] = v for a symbolic permutation: o[j] = v[perm^-1[j]]"""
    p = self.rec(o).payload
    c, _ = self.as_cells(v)
    c = np.broadcast_to(c, p.idx.shape)
    st = self.rec(p.store).cells.copy()
    n = p.idx.shape[0]
    for j in range(n):
        for q in np.ndindex(p.idx.shape[1:]):
            r = c[(n - 1,) + q]
            for i in range(n - 1):
                r = mk_phi(eq(key[i], j), c[(i,) + q], r)
            st[int(p.idx[(j,) + q])] = self.cast_cell(r, p.dtype)
    self.put(p.store, StoreRec(st))


def N_arr_items(self, v):
    n = self.arr_shape(v)
    if n == ():
        self.raise_("TypeError", "iteration over a 0-d array")
    return tuple(self.getitem(v, i) for i in range(n[0]))


def N_arr_truth(self, v):
    c = self.cells(v)
    if c.size == 1:
        return self.truth(c.ravel()[0])
    if c.size == 0:
        return False
    self.raise_("ValueError", "The truth value of an array with more than one element is ambiguous")


# --------------------------------------------------------------------------------- attributes
def N_arr_attr(self, o, name):
    p = self.rec(o).payload
    n = p.byteview or p.dtype.itemsize
    if name == "shape":
        return p.idx.shape
    if name == "dtype":
        return p.dtype
    if name == "size":
        return int(p.idx.size)
    if name == "ndim":
        return p.idx.ndim
    if name == "itemsize":
        return p.dtype.itemsize
    if name == "nbytes":
        return int(p.idx.size) * p.dtype.itemsize
    if name == "strides":
        return tuple(int(s) // 8 * p.dtype.itemsize for s in p.idx.strides)
    if name == "base":
        return p.base
    if name == "T":
        return self.view_of(o, p.idx.T)
    if name == "data":
        return MemV(o)
    if name in ("real", "imag"):
        if p.dtype.kind == "c":
            return self.arr_map(name, o)
        return o if name == "real" else self.arr_map("imag", o)
    if name == "flat":
        return self.alloc(IterRec(self.new_list(tuple(self.cells(o).ravel())), 0))
    if name == "__array_interface__":
        off = int(p.idx.ravel()[0]) if p.idx.size else 0
        item = 1 if p.byteview else p.dtype.itemsize
        addr = (p.store.addr << 32) + off * item
        return self.new_dict([("data", (addr, False)), ("strides", None if p.idx.flags.c_contiguous else tuple(x // p.idx.itemsize * item
                                                                                                 for x in p.idx.strides)),
                              ("shape", p.idx.shape), ("typestr", p.dtype.str), ("version", 3)])
    if name == "flags":
        f = p.idx.flags
        d = {"c_contiguous": bool(f.c_contiguous), "owndata": p.owns, "writeable": not p.ro,
             "f_contiguous": bool(f.f_contiguous), "contiguous": bool(f.contiguous)}
        return self.alloc(ObjRec(Ext("gspsa.Flags"), d))
    if name == "__array_priority__":
        return 0.0
    if hasattr(np.ndarray, name) and callable(getattr(np.ndarray, name)):
        if name == "__class__":
            return self.rec(o).cls
        return BBM(o, name)
    return ABSENT


def N_arr_setattr(self, o, name, v):
    r = self.rec(o)
    p = r.payload
    if name == "shape":
        s = self.shape_arg(v)
        q = r.copy()
        q.payload = ArrP(p.store, p.idx.reshape(s), p.dtype, p.base, p.byteview, p.owns, p.ro)
        self.put(o, q)
        return True
    if name == "__class__":
        q = r.copy()
        q.cls = v
        self.put(o, q)
        return True
    if name == "dtype":
        raise Unsupported("assignment to dtype")
    if isinstance(r.cls, Ext):
        self.raise_("AttributeError", "'numpy.ndarray' object has no attribute %r" % name)
    return False


def N_arr_tobytes(self, v):
    p = self.rec(v).payload
    if p.dtype.names:
        return mk("bytesof", cellfmt(leaf_dtype(p.dtype)), tuple(x for c in self.cells(v).ravel() for x in c), ty="bytes")
    if p.byteview and p.byteview > 1:
        n = p.byteview
        st = self.rec(p.store).cells
        b = [int(x) for x in p.idx.ravel()]
        cells = []
        i = 0
        while i < len(b):
            if b[i] % n == 0 and b[i:i + n] == list(range(b[i], b[i] + n)):
                cells.append(self.simp(st[b[i] // n]))
                i += n
            else:
                return mk("rawbytes", tuple(mk_byte(st[x // n], x % n, self.store_dtype(p)) for x in b), ty="bytes")
        return mk("bytesof", cellfmt(self.store_dtype(p)), tuple(cells), ty="bytes")
    c = self.cells(v)
    if p.dtype.kind in "iufb" and all(is_num(x) for x in c.ravel()):
        try:
            return np.array(c.ravel().tolist(), p.dtype).tobytes()
        except (OverflowError, ValueError):
            pass
    return mk("bytesof", cellfmt(p.dtype), tuple(c.ravel()), ty="bytes")


def N_store_dtype(self, p):
    b = p.base
    while b is not None and self.is_array(b):
        q = self.rec(b).payload
        if not q.byteview:
            return leaf_dtype(q.dtype) if q.dtype.names else q.dtype
        b = q.base
    return p.dtype


def cellfmt(dt):
    return dt.str


# --------------------------------------------------------------------------------- methods
REDUCE = {"sum", "prod", "min", "max", "mean", "any", "all", "argmin", "argmax", "std", "var", "ptp"}


def N_arr_method(self, o, name, args, kwargs, scalar=False):
    args = list(args)
    p = self.rec(o).payload
    order = "C"
    if name in ("reshape", "ravel", "flatten", "copy", "tobytes"):
        kwargs = dict(kwargs)
        order = self.simp(kwargs.pop("order", None))
        if order is None and name != "reshape" and args:
            order = self.simp(args.pop(0))
        if order is None or order in ("K", "A") and (p.idx.flags.c_contiguous or name == "copy") or name == "copy":
            order = "C"
        if order == "A" or order == "K" and p.idx.flags.f_contiguous:
            order = "F" if p.idx.flags.f_contiguous else "C"
        if order not in ("C", "F"):
            raise Unsupported("order %r" % (order,))
        if order == "F" and name == "tobytes":
            return self.arr_tobytes(self.reindex(o, p.idx.ravel("F")))
        if name == "reshape" and not args and "shape" in kwargs:
            args = [kwargs["shape"]]
    if name in ("reshape",):
        s = args if len(args) != 1 else [args[0]]
        s = tuple(py(self.norm_index(x)) for x in args) if len(args) > 1 else self.shape_arg(args[0])
        if has_sym(s):
            raise Unsupported("symbolic reshape")
        try:
            idx = p.idx.reshape(s, order=order)
        except ValueError as e:
            self.raise_("ValueError", str(e))
        return self.reindex(o, idx)
    if name == "ravel":
        return self.reindex(o, p.idx.ravel(order))
    if name == "flatten":
        return self.new_arr(self.cells(o).ravel(order), p.dtype, self.rec(o).cls, o)
    if name == "squeeze":
        ax = kwargs.get("axis", args[0] if args else None)
        try:
            idx = p.idx.squeeze(axis=self.axis(ax))
        except ValueError as e:
            self.raise_("ValueError", str(e))
        if idx.shape == p.idx.shape:
            return o
        if isinstance(self.rec(o).cls, Ref):
            tmp = self.view_of(o, idx, NDARRAY)
            return self.view_of(tmp, idx, self.rec(o).cls, finalize=o)
        return self.view_of(o, idx)
    if name in ("transpose", "swapaxes"):
        a = [py(self.norm_index(x)) if not isinstance(x, (tuple, Ref)) else self.shape_arg(x) for x in args]
        return self.view_of(o, getattr(p.idx, name)(*a))
    if name == "view":
        return self.arr_view(o, args, kwargs)
    if name == "astype":
        dt = args[0] if args else kwargs["dtype"]
        dt = self.to_dtype(np.float64 if dt is None else dt)
        if kwargs.get("copy", True) is False and dt == p.dtype:
            return o
        return self.new_arr(self.cells(o), base_dtype(dt), self.rec(o).cls, o, cast=True)
    if name in ("copy", "__copy__", "__deepcopy__"):
        return self.new_arr(self.cells(o), p.dtype, self.rec(o).cls, o)
    if name == "tolist":
        def tl(c):
            if c.ndim == 0:
                return c[()]
            return self.new_list([tl(c[i]) if c.ndim > 1 else c[i] for i in range(c.shape[0])])
        return tl(self.cells(o))
    if name == "tobytes":
        return self.arr_tobytes(o)
    if name == "item":
        if len(args) == 1 and not isinstance(self.simp(args[0]), tuple):
            return self.arr_getitem(self.reindex(o, p.idx.ravel()), args[0])
        if args:
            return self.arr_getitem(o, args[0] if len(args) == 1 else tuple(args))
        return self.arr_scalar(o)
    if name == "fill":
        self.arr_setitem(o, Ellipsis, args[0])
        return None
    if name in REDUCE or name in ("cumsum", "cumprod", "argsort", "dot", "clip", "round", "take", "repeat", "diagonal",
                                  "trace", "conj", "conjugate", "nonzero", "searchsorted", "compress"):
        if name == "compress":
            return self.np_call("numpy.compress", [args[0], o] + args[1:], kwargs)
        return self.np_call("numpy." + name, [o] + args, kwargs)
    if name == "sort":
        s = self.np_call("numpy.sort", [o] + args, kwargs)
        self.arr_setitem(o, Ellipsis, s)
        return None
    if name == "__getitem__":
        return self.arr_getitem(o, args[0])
    if name == "__setitem__":
        self.arr_setitem(o, args[0], args[1])
        return None
    if name == "__len__":
        return self.arr_shape(o)[0]
    if name == "__iter__":
        return self.alloc(IterRec(self.new_list(self.arr_items(o)), 0))
    if name == "__array__":
        return o
    if name == "__array_finalize__":
        return None
    if name == "__array_wrap__":
        return args[0]
    if name == "__setattr__":
        self.set_attr_plain(o, args[0], args[1])
        return None
    if name == "__getattribute__":
        v = self.get_attr1(o, args[0])
        return v
    if name in ("__repr__", "__str__"):
        return mk("arrstr", tuple(self.cells(o).ravel()), ty="str")
    if name.startswith("__") and name.endswith("__"):
        n = name[2:-2]
        inv = {"truediv": "div", "and": "bitand", "or": "bitor", "xor": "bitxor"}
        if n[0] == "i" and n[1:] in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift"):
            return self.arr_inplace(inv.get(n[1:], n[1:]), o, args[0])
        if n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift"):
            return self.arr_binop(inv.get(n, n), o, args[0])
        if n[0] == "r" and n[1:] in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift"):
            return self.arr_binop(inv.get(n[1:], n[1:]), args[0], o)
        if n in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.arr_compare(n, o, args[0])
        if n == "neg":
            return self.arr_unop(ast.USub, o)
        if n == "pos":
            return self.arr_unop(ast.UAdd, o)
        if n == "contains":
            return self.contains(o, args[0])
        if n == "abs":
            return self.arr_map("abs", o)
        if n == "bool":
            return self.arr_truth(o)
        if n in ("float", "int"):
            return self.arr_scalar(o)
    raise Unsupported("ndarray method " + name)


def N_axis(self, ax):
    ax = self.simp(ax)
    if ax is None:
        return None
    if isinstance(ax, (tuple, Ref)):
        return self.shape_arg(ax)
    ax = py(self.norm_index(ax))
    if isinstance(ax, Term):
        raise Unsupported("symbolic axis")
    return ax


def N_arr_view(self, o, args, kwargs):
    p = self.rec(o).payload
    dt, cls = None, None
    vals = list(args) + [kwargs[k] for k in ("dtype", "type") if k in kwargs]
    for v in vals:
        v = self.simp(v)
        is_arr_cls = isinstance(v, Ref) and isinstance(self.rec(v), ClassRec) or \
            isinstance(v, Ext) and isinstance(v.obj, type) and issubclass(v.obj, np.ndarray)
        if is_arr_cls:
            cls = v
        else:
            dt = self.to_dtype(v)
    if dt is None or dt == p.dtype:
        return self.view_of(o, p.idx.view(), cls)
    if p.dtype.names and not p.byteview and dt.itemsize == 1 and dt.kind in "iu":
        k, n = len(leaves(p.dtype)), leaf_dtype(p.dtype).itemsize
        if p.idx.ndim != 1 or not (np.diff(p.idx) == k).all():
            raise Unsupported("byte view of a part of records")
        return self.view_of(o, (p.idx[:, None] * n + np.arange(k * n)).ravel(), cls, dt, byteview=n, collapse=False)
    if p.byteview or p.dtype.names or dt.names:
        raise Unsupported("re-view of a byte view or of records")
    if dt.itemsize == 1:
        n = p.dtype.itemsize
        if n == 1:
            return self.view_of(o, p.idx.view(), cls, dt)
        if p.idx.ndim == 0 or p.idx.size and p.idx.shape[-1] != 1 and p.idx.strides[-1] != p.idx.itemsize:
            self.raise_("ValueError", "To change to a dtype of a different size, the last axis must be contiguous")
        # byte positions, as a strided view of an arange over the bytes of the storage
        total = len(self.rec(p.store).cells)
        store_bytes = np.arange(total * n)
        first = int(p.idx.ravel()[0]) if p.idx.size else 0
        strides = tuple(s * n for s in p.idx.strides[:-1]) + (store_bytes.itemsize,)
        shape = p.idx.shape[:-1] + (p.idx.shape[-1] * n,)
        idx = np.lib.stride_tricks.as_strided(store_bytes[first * n:], shape, strides)
        return self.view_of(o, idx, cls, dt, byteview=n)
    raise Unsupported("view with dtype %s" % dt)


# --------------------------------------------------------------------------------- ufuncs
def res_dtype(*ds, div=False):
    real = [d for d in ds if isinstance(d, np.dtype)]
    if not real:
        return None
    try:
        r = np.result_type(*real)
    except TypeError:
        r = np.dtype(object)
    return r


def weak(dt, cells):
    """dtype of the result given that scalars are weak"""
    return dt


def N_ufunc2(self, fn, a, b, dtype=None, kind=None):
    ca, da = self.arr_in(a)
    cb, db = self.arr_in(b)
    try:
        A, B = np.broadcast_arrays(ca, cb)
    except ValueError as e:
        self.raise_("ValueError", str(e))
    out = np.empty(A.shape, object)
    for i in np.ndindex(A.shape):
        out[i] = fn(self.unpayload(A[i]), self.unpayload(B[i]))
    dt = dtype
    if dt is None:
        inf = infer_dtype(out)
        dt = res_dtype(*[x for x in (da, db) if x is not None])
        if dt is None:
            dt = inf
        elif not out.size:
            pass
        elif inf.kind == "f" and dt.kind in "iub":
            dt = np.dtype(np.float64)
        elif inf.kind == "c" and dt.kind != "c":
            dt = np.dtype(complex)
        elif inf.kind == "i" and dt.kind == "b":
            dt = np.dtype(int)
        elif inf.kind == "b" and kind == "bool":
            dt = inf
    return self.wrap_result(out, dt, (a, b))


def wrap_ints(out, dt):
    """integers known to leave the range of their type turn around"""
    if isinstance(dt, np.dtype) and dt.kind in "iu" and out.size:
        info = np.iinfo(dt)
        lo, hi = int(info.min), int(info.max)
        for i in np.ndindex(out.shape):
            x = out[i]
            if type(x) is int and not lo <= x <= hi or isinstance(x, np.integer) and not lo <= int(x) <= hi:
                out[i] = (int(x) - lo) % (hi - lo + 1) + lo
    return out


def N_weak_fits(self, da, v, dv):
    """a plain integer met by an array of integers must be one of its type"""
    if dv is None and isinstance(da, np.dtype) and da.kind in "iu":
        v = self.simp(v)
        if type(v) is int:
            info = np.iinfo(da)
            if not info.min <= v <= info.max:
                self.raise_("OverflowError", "Python integer %d out of bounds for %s" % (v, da))


def N_bits_only(self, op, da, cb, db):
    if op in ("bitand", "bitor", "bitxor", "lshift", "rshift"):
        kinds = [d.kind for d in (da, db) if isinstance(d, np.dtype)]
        if db is None and cb.size and infer_dtype(cb).kind == "f":
            kinds.append("f")
        if "f" in kinds or "c" in kinds:
            self.raise_("TypeError", "ufunc '%s' not supported for the input types" % op)


def N_wrap_result(self, out, dt, inputs):
    wrap_ints(out, dt)
    arrs = [x for x in inputs if self.is_array(x)]
    if not arrs or out.ndim == 0:
        if out.ndim == 0:
            return out[()]
        return self.new_arr(out, dt)
    src = arrs[0]
    for x in arrs[1:]:
        cs, cx = self.rec(src).cls, self.rec(x).cls
        if not isinstance(cs, Ref) and isinstance(cx, Ref) or \
                isinstance(cs, Ref) and isinstance(cx, Ref) and not same(cs, cx) and self.issubclass_(cx, cs) is True:
            src = x
    cls = self.rec(src).cls
    return self.new_arr(out, dt, cls, src)


def safe_arith(op):
    def f(a, b):
        a, b = py(a), py(b)
        if isinstance(a, bool) and isinstance(b, bool) and op in ("bitand", "bitor"):
            return (a and b) if op == "bitand" else (a or b)
        if num_ty(a) == "bool" and num_ty(b) == "bool" and op in ("bitand", "bitor"):
            return mk_and(a, b) if op == "bitand" else mk_or(a, b)
        if num_ty(a) == "bool" and num_ty(b) == "bool" and op == "bitxor":
            return mk_or(mk_and(a, mk_not(b)), mk_and(mk_not(a), b))
        if not isinstance(b, Term) and is_num(b) and b == 0 and op in ("div", "floordiv", "mod"):
            if isinstance(a, Term):
                return mk(op, a, b, ty="float")
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(0.0)) if op == "div" else 0
        if not (isinstance(a, Term) or is_num(a)) or not (isinstance(b, Term) or is_num(b)):
            raise TypeError("unsupported operand in array arithmetic: %r %r" % (a, b))
        return arith(op, a, b)
    return f


def N_arr_binop(self, op, a, b):
    if op == "matmul":
        return self.arr_matmul(a, b)
    if isinstance(a, ExtAttr) or isinstance(b, ExtAttr) or any(isinstance(x, Ref) and isinstance(self.rec(x), ExtRec)
                                                                for x in (a, b)):
        return mk(op, a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and isinstance(self.rec(x), ObjRec) and not self.is_array(x):
            r = self.rec(x)
            if self.class_lookup(r.cls, "__array__") is None and not is_num(self.unpayload(x)) and \
                    not isinstance(self.unpayload(x), Term) and self.class_lookup(r.cls, "__getitem__") is None and \
                    not isinstance(r.payload, tuple):
                # numpy treats it as an object scalar: elementwise operator of the element and the object
                arr = y
                c = self.cells(arr)
                out = np.empty(c.shape, object)
                for i in np.ndindex(c.shape):
                    out[i] = self.binop(op, c[i], x) if arr is a else self.binop(op, x, c[i])
                return self.new_arr(out, np.dtype(object))
    try:
        ca, da = self.arr_in(a)
        cb, db = self.arr_in(b)
        self.weak_fits(da, b, db)
        self.weak_fits(db, a, da)
        if da is not None:
            self.bits_only(op, da, cb, db)
        elif db is not None:
            self.bits_only(op, db, ca, da)
        return self.ufunc2(safe_arith(op), a, b)
    except TypeError as e:
        self.raise_("TypeError", str(e))


def N_arr_inplace(self, op, o, v):
    p = self.rec(o).payload
    if op == "matmul":
        r = self.arr_matmul(o, v)
        self.arr_setitem(o, Ellipsis, r)
        return o
    ca = self.cells(o)
    cb, db = self.arr_in(v)
    try:
        B = np.broadcast_to(cb, ca.shape)
    except ValueError as e:
        self.raise_("ValueError", str(e))
    self.weak_fits(p.dtype, v, db)
    self.bits_only(op, p.dtype, cb, db)
    f = safe_arith(op)
    out = np.empty(ca.shape, object)
    for i in np.ndindex(ca.shape):
        out[i] = f(ca[i], self.unpayload(B[i]))
    if p.dtype.kind in "iu" and (op == "div" or (db is not None and db.kind == "f") or
                                 out.size and infer_dtype(out).kind == "f" or
                                 db is not None and self.is_array(v) and np.result_type(p.dtype, db).kind == "f"):
        self.raise_("TypeError", "Cannot cast ufunc output from float64 to %s" % p.dtype)
    self.arr_setitem(o, Ellipsis, self.new_arr(wrap_ints(out, p.dtype), p.dtype))
    return o


def N_arr_unop(self, op, v):
    p = self.rec(v).payload
    c = self.cells(v)
    out = np.empty(c.shape, object)
    for i in np.ndindex(c.shape):
        x = c[i]
        if op is ast.USub:
            out[i] = neg(x)
        elif op is ast.UAdd:
            out[i] = x
        else:
            out[i] = mk_not(x) if num_ty(x) == "bool" else (mk("invert", x, ty="int") if isinstance(x, Term) else ~x)
    return self.wrap_result(out, p.dtype, (v,)) if c.ndim else out[()]


CMP = {"lt": lambda a, b: lt(a, b), "gt": lambda a, b: lt(b, a), "le": le, "ge": lambda a, b: le(b, a),
       "eq": eq, "ne": lambda a, b: mk_not(eq(a, b))}


def N_arr_compare(self, name, a, b):
    for x in (a, b):
        if x is None or isinstance(x, (str, Ext)) or isinstance(x, Ref) and isinstance(self.rec(x), (
                ClassRec, FuncRec, DictRec)):
            y = a if x is b else b
            c = self.cells(y)
            v = name == "ne"
            if name not in ("eq", "ne"):
                self.raise_("TypeError", "comparison of an array with %s" % self.describe(x))
            out = np.empty(c.shape, object)
            out[...] = v
            return self.new_arr(out, np.dtype(bool)) if c.ndim else v
    fn = CMP[name]

    def f(x, y):
        x, y = py(x), py(y)
        if (isinstance(x, Term) or is_num(x)) and (isinstance(y, Term) or is_num(y)):
            return fn(x, y)
        if isinstance(x, str) and isinstance(y, str):
            return {"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y, "eq": x == y, "ne": x != y}[name]
        if name in ("eq", "ne"):
            r = self.truth(self.compare_eq(x, y))
            return r if name == "eq" else mk_not(r)
        raise Unsupported("array comparison")
    ca, _ = self.arr_in(a)
    cb, _ = self.arr_in(b)
    try:
        np.broadcast_shapes(ca.shape, cb.shape)
    except ValueError:
        if name == "eq":
            return False
        if name == "ne":
            return True
        self.raise_("ValueError", "operands could not be broadcast together")
    return self.ufunc2(f, a, b, np.dtype(bool), "bool")


def N_arr_matmul(self, a, b):
    ca, da = self.arr_in(a)
    cb, db = self.arr_in(b)
    if ca.ndim == 0 or cb.ndim == 0:
        self.raise_("ValueError", "matmul: Input operand does not have enough dimensions")
    n, m = ca.shape[-1], cb.shape[-2] if cb.ndim > 1 else cb.shape[0]
    if n != m:
        self.raise_("ValueError", "matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different "
                                  "from %d)" % (m, n))
    out = matmul(ca, cb)
    dt = res_dtype(*[x for x in (da, db) if x is not None])
    return self.wrap_result(out, dt, (a, b))


def matmul(ca, cb):
    A = ca[None, :] if ca.ndim == 1 else ca
    B = cb[:, None] if cb.ndim == 1 else cb
    batch = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, batch + A.shape[-2:])
    B = np.broadcast_to(B, batch + B.shape[-2:])
    out = np.empty(batch + (A.shape[-2], B.shape[-1]), object)
    for bt in np.ndindex(batch):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                s = 0
                for k in range(A.shape[-1]):
                    s = arith("add", s, arith("mul", A[bt + (i, k)], B[bt + (k, j)]))
                out[bt + (i, j)] = s
    if ca.ndim == 1:
        out = out[..., 0, :]
    if cb.ndim == 1:
        out = out[..., 0]
    return np.asarray(out, object) if not isinstance(out, np.ndarray) else out


def N_arr_map(self, op, v):
    c, dt = self.arr_in(v)
    out = np.empty(c.shape, object)
    for i in np.ndindex(c.shape):
        out[i] = self.u1(op, c[i])
    if op in ("isnan", "isinf", "isfinite", "logical_not"):
        rdt = np.dtype(bool)
    elif op in ("floor", "ceil", "round", "trunc", "sign", "abs") or op in ("real", "imag"):
        rdt = dt if dt is not None and dt.kind != "c" else infer_dtype(out)
        if op in ("floor", "ceil") and rdt is not None and rdt.kind in "iu":
            pass
    else:
        rdt = dt if dt is not None and dt.kind in "fc" else np.dtype(np.float64)
    return self.wrap_result(out, rdt, (v,))


def N_u1(self, op, x):
    x = py(self.unpayload(x))
    if not isinstance(x, Term) and not is_num(x):
        self.raise_("TypeError", "ufunc %s not supported for the input" % op)
    if op == "sqrt" and not isinstance(x, (Term, complex)) and x < 0:
        return math.nan
    if op == "log" and not isinstance(x, Term):
        return -math.inf if x == 0 else (math.log(x) if x > 0 else math.nan)
    if op == "square":
        return arith("mul", x, x)
    if op == "radians":
        return arith("mul", x, math.pi / 180)
    if op == "degrees":
        return arith("mul", x, 180 / math.pi)
    if op == "negative":
        return neg(x)
    if op == "positive":
        return x
    if op == "exp" and not isinstance(x, Term):
        return math.exp(x) if x < 700 else math.inf
    if op in ("sin", "cos", "tan") and not isinstance(x, Term) and isinstance(x, (int, float)) and math.isinf(x):
        return math.nan
    if op in ("floor", "ceil", "round", "trunc") and isinstance(x, float) and (x != x or math.isinf(x)):
        return x
    if op in ("floor", "ceil", "round", "trunc") and num_ty(x) == "float":
        r = unary(op, x)
        return unary("tofloat", r) if isinstance(r, Term) else float(r)
    if op == "reciprocal":
        return arith("div", 1.0, x)
    if op == "isnan":
        return mk("isnan", x, ty="bool") if isinstance(x, Term) else x != x
    if op == "isinf":
        return mk("isinf", x, ty="bool") if isinstance(x, Term) else math.isinf(x)
    if op == "isfinite":
        return mk_not(mk_or(mk("isnan", x, ty="bool"), mk("isinf", x, ty="bool"))) if isinstance(x, Term) else \
            math.isfinite(x)
    if op == "logical_not":
        return mk_not(self.truth(x))
    return unary(op, x)


# --------------------------------------------------------------------------------- numpy functions
UN = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "asin", "arccos": "acos", "arctan": "atan",
      "asin": "asin", "acos": "acos", "atan": "atan",
      "exp": "exp", "log": "log", "abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor", "ceil": "ceil",
      "rint": "round", "trunc": "trunc", "sign": "sign", "square": "square", "radians": "radians",
      "deg2rad": "radians", "degrees": "degrees", "rad2deg": "degrees", "negative": "negative",
      "positive": "positive", "real": "real", "imag": "imag", "conj": "conj", "conjugate": "conj",
      "reciprocal": "reciprocal", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite",
      "logical_not": "logical_not"}
BI = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
      "floor_divide": "floordiv", "mod": "mod", "remainder": "mod", "power": "pow", "float_power": "pow"}
CM = {"less": "lt", "greater": "gt", "less_equal": "le", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
SHAPE = {"reshape", "transpose", "concatenate", "stack", "vstack", "hstack", "column_stack", "dstack", "repeat", "tile",
         "roll", "flip", "fliplr", "flipud", "squeeze", "expand_dims", "broadcast_to", "swapaxes", "moveaxis", "ravel",
         "append", "insert", "delete", "diag", "outer", "kron", "row_stack", "rot90", "triu", "tril", "take",
         "resize", "diagonal", "trace", "array_split", "split", "hsplit", "vsplit", "block", "rollaxis",
         "atleast_3d", "diagflat", "pad", "take_along_axis"}
ARITHF = {"dot", "cross", "cumsum", "cumprod", "inner", "einsum", "diff", "convolve", "ediff1d"}
SCALAR_TYPES = {"float32": "f", "float64": "f", "float16": "f", "int32": "i", "int64": "i", "int8": "i", "int16": "i",
                "uint8": "i", "uint16": "i", "uint32": "i", "uint64": "i", "intp": "i", "uintp": "i", "bool": "b",
                "bool_": "b", "ubyte": "i", "byte": "i", "longdouble": "f", "short": "i", "ushort": "i", "intc": "i",
                "complex128": "c", "complex64": "c", "half": "f", "single": "f", "double": "f"}


def N_merge_select(self, v):
    """the array chosen among arrays of one shape by an index, as one array"""
    if isinstance(v, Term) and v.op == "select" and len(v.args[1]) and all(self.is_array(x) for x in v.args[1]):
        cs = [self.cells(x) for x in v.args[1]]
        if all(c.shape == cs[0].shape for c in cs):
            out = np.empty(cs[0].shape, object)
            for i in np.ndindex(out.shape):
                out[i] = mk_select(v.args[0], [c[i] for c in cs])
            return self.new_arr(out, self.rec(v.args[1][0]).payload.dtype)
    return v


def N_np_call(self, path, args, kwargs):
    args = [self.merge_select(self.simp(a)) for a in args]
    for i, a in enumerate(args):
        if is_phi(a) and not self.scalar_like(a):
            return self.dist(a, lambda x: self.np_call(path, args[:i] + [x] + args[i + 1:], kwargs))
    for k in list(kwargs):
        v = self.simp(kwargs[k])
        if is_phi(v) and not self.scalar_like(v):
            return self.dist(v, lambda x: self.np_call(path, args, dict(kwargs, **{k: x})))
    try:
        return self.np_call1(path, args, kwargs)
    except GatedArray as g:
        v = self.simp(g.v)
        if not is_phi(v):
            raise Unsupported("array built from a gated sequence")
        return self.fork(v.args[0], lambda: self.np_call(path, args, kwargs), lambda: self.np_call(path, args, kwargs))


OUT_POS = {"clip": 3, "dot": 2, "take": 3, "compress": 3, "cumsum": 3, "cumprod": 3, "sum": 3, "prod": 3, "mean": 3, "max": 2,
           "min": 2, "amax": 2, "amin": 2, "std": 3, "var": 3, "round": 2, "around": 2, "choose": 2}


def N_np_out(self, name, args, kwargs):
    """-> (args, kwargs, array that receives the result or None)"""
    out = self.simp(kwargs["out"]) if "out" in kwargs else None
    kwargs = {k: v for k, v in kwargs.items() if k != "out"}
    fn = getattr(np, name, None)
    pos = fn.nin if isinstance(fn, np.ufunc) else OUT_POS.get(name)
    if pos is not None and len(args) > pos:
        out = self.simp(args[pos])
        args = args[:pos] + args[pos + 1:]
    if isinstance(fn, np.ufunc):
        w = self.simp(kwargs.pop("where", True))
        if w is not True:
            raise Unsupported("numpy.%s(where=...)" % name)
        for n in ("casting", "order", "subok", "signature", "extobj"):
            kwargs.pop(n, None)
        d = kwargs.pop("dtype", None)
        if self.simp(d) is not None:
            raise Unsupported("numpy.%s(dtype=...)" % name)
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if out is not None and not self.is_array(out):
        raise Unsupported("numpy.%s(out=%s)" % (name, self.describe(out)))
    return args, kwargs, out


def N_np_call1(self, path, args, kwargs):
    name = path.split(".", 1)[1]
    if name != "ndarray" and not name.startswith("ndarray.") and name not in SCALAR_TYPES and (
            "out" in kwargs or isinstance(getattr(np, name, None), np.ufunc) or len(args) > OUT_POS.get(name, 99)):
        args, kwargs, out = self.np_out(name, args, kwargs)
        if out is not None:
            r = self.np_call1(path, args, kwargs)
            if is_phi(r):
                raise Unsupported("numpy.%s(out=...) of gated arrays" % name)
            if self.as_cells(r)[0].shape != self.cells(out).shape:
                self.raise_("ValueError", "output array has a wrong shape")
            p = self.rec(out).payload
            d = self.as_cells(r)[1]
            if d is not None and p.dtype.kind in "iu" and d.kind == "f":
                self.raise_("TypeError", "Cannot cast ufunc output from float64 to %s" % p.dtype)
            self.arr_setitem(out, Ellipsis, r)
            return out
    if name.startswith("ndarray."):
        m = name.split(".", 1)[1]
        if m == "__new__":
            return self.ndarray_new(args, kwargs)
        if m == "__array_finalize__":
            return None
        if self.is_array(args[0]):
            return self.arr_method(args[0], m, args[1:], kwargs)
        raise Unsupported("numpy." + name)
    if name.endswith(".__new__") and name.split(".")[0] in SCALAR_TYPES:
        args = args[1:]
        name = name.split(".")[0]
    if name == "ndarray":
        return self.ndarray_new([NDARRAY] + args, kwargs)
    if name in ("may_share_memory", "shares_memory"):
        def shared(a, b):
            if not (self.is_array(a) and self.is_array(b)):
                return False
            p, q = self.rec(a).payload, self.rec(b).payload
            if p.store != q.store or not p.idx.size or not q.idx.size:
                return False
            if name == "shares_memory":
                return bool(np.intersect1d(p.idx, q.idx).size)
            return bool(p.idx.min() <= q.idx.max() and q.idx.min() <= p.idx.max())
        return self.dist(args[0], lambda a: self.dist(args[1], lambda b: shared(a, b)))
    if name in SCALAR_TYPES:
        if not args:
            return {"f": 0.0, "i": 0, "b": False, "c": 0j}[SCALAR_TYPES[name]]
        dt = np.dtype(getattr(np, name))
        v = args[0]
        if self.is_array(v) or isinstance(v, (tuple,)) or isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
            c, _ = self.as_cells(v)
            return self.new_arr(c, dt, cast=True)
        try:
            r = self.cast_cell(v, dt)
        except (TypeError, ValueError) as e:
            self.raise_(type(e).__name__, str(e))
        return self.out_scalar(r, dt) if not isinstance(r, Term) else r
    if name == "dtype":
        return self.dist(args[0], lambda v: self.np_dtype(v))
    if name in UN:
        v = args[0]
        if self.arrayish(v):
            return self.arr_map(UN[name], v)
        return self.u1(UN[name], v)
    if name in BI or name in CM or name in ("minimum", "maximum", "fmin", "fmax", "arctan2", "atan2", "logical_and",
                                            "logical_or", "hypot", "fmod"):
        if name in BI:
            fn = safe_arith(BI[name])
        elif name in CM:
            return self.arr_compare(CM[name], args[0] if self.is_array(args[0]) else self.to_arr(args[0]), args[1])
        elif name in ("minimum", "fmin"):
            fn = lambda a, b: self.minmax("min", a, b)
        elif name in ("maximum", "fmax"):
            fn = lambda a, b: self.minmax("max", a, b)
        elif name in ("arctan2", "atan2"):
            fn = lambda a, b: mk("atan2", a, b, ty="float") if has_sym((a, b)) else math.atan2(a, b)
        elif name == "logical_and":
            fn = lambda a, b: mk_and(self.truth(a), self.truth(b))
        elif name == "logical_or":
            fn = lambda a, b: mk_or(self.truth(a), self.truth(b))
        elif name == "hypot":
            fn = lambda a, b: unary("sqrt", arith("add", arith("mul", a, a), arith("mul", b, b)))
        else:
            fn = lambda a, b: mk(name, a, b, ty="float") if has_sym((a, b)) else float(getattr(np, name)(a, b))
        out = kwargs.get("out")
        r = self.ufunc2(fn, args[0], args[1])
        if out is not None:
            self.arr_setitem(out, Ellipsis, r)
            return out
        return r
    if name.endswith(".at") and isinstance(getattr(np, name[:-3], None), np.ufunc):
        fn = name[:-3]
        c, _ = self.as_cells(args[1])
        if c.ndim > 1 or has_sym(tuple(c.ravel())):
            raise Unsupported("numpy." + name)
        vals = np.broadcast_to(self.as_cells(args[2])[0], c.shape) if len(args) > 2 else None
        for j in np.ndindex(c.shape):
            i = c[j]
            cur = self.arr_getitem(args[0], i)
            self.arr_setitem(args[0], i, self.np_call("numpy." + fn, [cur] + ([vals[j]] if vals is not None else []), {}))
        return None
    if name in ("put", "put_along_axis", "random.shuffle"):
        raise Unsupported("numpy." + name)
    h = getattr(self, "np_" + name.replace(".", "_"), None)
    if h is not None:
        return h(args, kwargs)
    if name in SHAPE or name in ARITHF:
        return self.np_object(name, args, kwargs)
    # everything concrete: evaluate; otherwise opaque
    fn = np
    for part in name.split("."):
        fn = getattr(fn, part, None)
        if fn is None:
            self.raise_("AttributeError", "module 'numpy' has no attribute %r" % name)
    try:
        na = [self.np_native(a) for a in args]
        nk = {k: self.np_native(v) for k, v in kwargs.items()}
    except Unsupported:
        if is_data_independent(name):
            return self.np_term(name, args, kwargs)
        if not name.startswith(OPAQUE_OK):
            raise Unsupported("numpy.%s of symbolic values" % name)
        self.maybe_raise(path)
        return mk("ext", path, tuple(args), tuple(sorted(kwargs.items())))
    try:
        return self.from_native(fn(*na, **nk), path)
    except Exception as e:
        if isinstance(e, (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, AttributeError)):
            self.raise_(type(e).__name__, str(e))
        self.raise_("Exception", str(e))


# numpy functions whose result has a shape that depends on the shapes of the arguments only: the cells of the result are
# terms, evaluated by numpy itself in the random interpretations
DATA_INDEPENDENT = set("""linalg.det linalg.solve linalg.matrix_power linalg.pinv linalg.qr linalg.cholesky linalg.slogdet
linalg.eigvalsh linalg.eigh linalg.svd linalg.multi_dot log10 log2 log1p expm1 exp2 cbrt sinh cosh tanh arcsinh arccosh arctanh
round around fix divmod modf select choose interp average median gradient trapezoid trapz sort argsort lexsort digitize
count_nonzero isclose nan_to_num logical_xor vander take_along_axis polyval correlate cov corrcoef nanmax nanmin nansum
nanmean nanprod nanstd nanvar percentile quantile sinc heaviside ldexp frexp tensordot vdot i0 unwrap copysign float_power
signbit gcd lcm bitwise_and bitwise_or bitwise_xor left_shift right_shift convolve nancumsum std var polyfit polyder polyint
polyadd polymul polysub angle real_if_close isreal iscomplex argmax argmin nanargmax nanargmin partition argpartition
bitwise_not invert cumprod logaddexp isneginf isposinf rollaxis ediff1d nextafter spacing bincount cross inner vecdot
matvec cumulative_sum histogram_bin_edges""".split())
OPAQUE_OK = ("random.", "seterr", "set_printoptions", "errstate", "printoptions", "save", "load", "info", "dtype", "format_float",
             "array2string", "array_repr", "array_str", "memmap", "loadtxt", "savetxt", "genfromtxt", "testing.", "show_config",
             "may_share", "shares", "asarray_chkfinite", "busday", "datetime", "get_printoptions", "geterr")


def is_data_independent(name):
    parts = name.split(".")
    if name in DATA_INDEPENDENT:
        return True
    return len(parts) == 2 and parts[1] in ("reduce", "accumulate", "outer", "reduceat") and isinstance(
        getattr(np, parts[0], None), np.ufunc)


def N_np_term(self, name, args, kwargs):
    """the result of a numpy function on symbolic arrays: numpy is applied when the terms are evaluated"""
    flat = []

    def spec(v):
        v = self.simp(v)
        if self.is_array(v):
            c = self.cells(v)
            p = len(flat)
            flat.extend(self.unpayload(x) for x in c.ravel())
            return ("A", c.shape, self.rec(v).payload.dtype.str, p)
        if isinstance(v, Ref) and isinstance(self.rec(v), (ListRec, GenRec, IterRec)):
            items = self.to_items(v)
            if is_phi(items):
                raise GatedArray(items)
            return ("L", tuple(spec(x) for x in items))
        if isinstance(v, tuple):
            return ("T", tuple(spec(x) for x in v))
        u = self.unpayload(v)
        if isinstance(u, Term) or is_num(u) and not isinstance(u, bool):
            flat.append(u)
            return ("S", len(flat) - 1)
        if isinstance(u, np.generic):
            return ("C", u)
        if isinstance(u, Ext) and u.obj is not Ext.MISSING:
            return ("C", u.obj)
        if u is None or isinstance(u, (bool, str, slice)):
            return ("C", u)
        raise Unsupported("numpy.%s of %s" % (name, self.describe(v)))
    st = ("T", tuple(spec(a) for a in args)), tuple((k, spec(v)) for k, v in sorted(kwargs.items()) if k != "out")
    if kwargs.get("out") is not None:
        raise Unsupported("numpy.%s(out=...)" % name)
    flat = tuple(flat)
    if any(isinstance(x, Term) and x.ty not in ("int", "float", "bool", "any", "complex") or
           not isinstance(x, Term) and not is_num(x) for x in flat):
        raise Unsupported("numpy.%s of cells that are not numbers" % name)
    shapes = []
    import random
    for seed in (1, 2, 3):
        rng = random.Random(seed)
        vals = []
        for x in flat:
            if not isinstance(x, Term):
                vals.append(x)
            elif x.ty == "int":
                vals.append(rng.randint(0, 1))
            elif x.ty == "bool":
                vals.append(rng.random() < .5)
            else:
                vals.append(rng.uniform(.1, .9))
        try:
            with np.errstate(all="ignore"):
                r = np_apply(name, st, vals)
        except (TypeError, ValueError, IndexError) as e:
            self.raise_(type(e).__name__, str(e))
        except np.linalg.LinAlgError:
            continue
        shapes.append((np_shape(r), r))
    if not shapes:
        raise Unsupported("numpy." + name)
    if any(x[0] != shapes[0][0] for x in shapes):
        raise Unsupported("numpy.%s: the shape of the result depends on the values" % name)

    def build(r, path):
        if isinstance(r, (tuple, list)):
            items = [build(x, path + (i,)) for i, x in enumerate(r)]
            return tuple(items) if isinstance(r, tuple) else self.new_list(items)
        a = np.asarray(r)
        ty = {"f": "float", "i": "int", "u": "int", "b": "bool", "c": "complex"}.get(a.dtype.kind)
        if ty is None:
            raise Unsupported("numpy." + name)
        out = np.empty(a.shape, object)
        for j, i in enumerate(np.ndindex(a.shape)):
            out[i] = mk("npfn", name, st, flat, (path, j), ty=ty)
        if a.ndim == 0:
            return out[()]
        return self.new_arr(out, a.dtype)
    return build(shapes[0][1], ())


def np_shape(r):
    if isinstance(r, (tuple, list)):
        return (type(r).__name__, tuple(np_shape(x) for x in r))
    a = np.asarray(r)
    return a.shape, a.dtype.str


def np_apply(name, st, vals):
    def val(s):
        if s[0] == "A":
            n = int(np.prod(s[1]))
            return np.array(vals[s[3]:s[3] + n], dtype=object).reshape(s[1]).astype(s[2])
        if s[0] == "L":
            return [val(x) for x in s[1]]
        if s[0] == "T":
            return tuple(val(x) for x in s[1])
        if s[0] == "S":
            return vals[s[1]]
        return s[1]
    fn = np
    for part in name.split("."):
        fn = getattr(fn, part)
    return fn(*val(st[0]), **{k: val(v) for k, v in st[1]})


def N_mask_cases(self, c, fn):
    """fn of the concrete masks a symbolic mask may be, one path per mask"""
    flat = list(c.ravel())

    def go(i, cur, left):
        if i == len(flat):
            return fn(np.array(cur, bool).reshape(c.shape))
        x = self.unpayload(flat[i])
        x = self.decide(self.truth(x)) if isinstance(x, Term) else bool(x)
        if isinstance(x, bool):
            return go(i + 1, cur + [x], left)
        if not left:
            raise Unsupported("mask with many undetermined entries")
        return self.fork(x, lambda: go(i + 1, cur + [True], left - 1), lambda: go(i + 1, cur + [False], left - 1))
    return go(0, [], 6)


def sym_mask(c):
    return isinstance(c, np.ndarray) and c.dtype == object and c.size and any(
        isinstance(x, Term) and x.ty == "bool" for x in c.ravel()) and all(num_ty(x) == "bool" for x in c.ravel())


def N_np_nonzero(self, a, k):
    c, dt = self.as_cells(a[0])
    if any(isinstance(x, Term) for x in c.ravel()):
        t = np.empty(c.shape, object)
        for i in np.ndindex(c.shape):
            t[i] = self.truth(c[i])
        return self.mask_cases(t, lambda m: tuple(self.from_native(x) for x in np.nonzero(m)))
    return tuple(self.from_native(x) for x in np.nonzero(c.astype(dt if dt is not None else float)))


def N_np_flatnonzero(self, a, k):
    return self.dist(self.np_nonzero([self.np_call("numpy.ravel", [a[0]], {})], {}), lambda t: t[0])


def N_np_argwhere(self, a, k):
    return self.dist(self.np_nonzero(a, {}), lambda t: self.np_call("numpy.stack", [t], {"axis": -1}))


def N_np_extract(self, a, k):
    return self.arr_getitem(self.np_call("numpy.ravel", [a[1]], {}), self.np_call("numpy.ravel", [
        self.arr_map_truth(a[0])], {}))


def N_arr_map_truth(self, v):
    c, _ = self.as_cells(v)
    out = np.empty(c.shape, object)
    for i in np.ndindex(c.shape):
        out[i] = self.truth(c[i])
    return self.new_arr(out, np.dtype(bool))


def N_np_compress(self, a, k):
    b = dict(zip(("condition", "a", "axis"), a))
    b.update(k)
    ax = self.axis(b.get("axis"))
    v = b["a"] if ax is not None else self.np_call("numpy.ravel", [b["a"]], {})
    m, _ = self.as_cells(self.arr_map_truth(b["condition"]))
    if any(isinstance(x, Term) for x in m):
        raise Unsupported("compress with a symbolic condition")
    idx = [i for i, x in enumerate(m) if x]
    return self.np_call("numpy.take", [v, self.new_list(idx)], {"axis": ax if ax is not None else 0})


def N_np_apply_along_axis(self, a, k):
    fn, ax, arr = a[0], a[1], a[2]
    c, dt = self.as_cells(arr)
    t = np.moveaxis(c, ax, -1)
    rows = {}
    for i in np.ndindex(t.shape[:-1]):
        r = self.call(fn, [self.new_arr(t[i], dt or infer_dtype(t))] + list(a[3:]), k)
        rows[i], rdt = self.as_cells(r)
    first = next(iter(rows.values()))
    out = np.empty(t.shape[:-1] + first.shape, object)
    for i, r in rows.items():
        if first.ndim:
            out[i] = r
        else:
            out[i] = r[()]
    if first.ndim:
        out = np.moveaxis(out, tuple(range(len(t.shape) - 1, out.ndim)), tuple(range(ax, ax + first.ndim)))
    return self.new_arr(out, infer_dtype(out))


def N_np_fromiter(self, a, k):
    b = dict(zip(("iter", "dtype", "count"), a))
    b.update(k)
    return self.np_call("numpy.array", [self.new_list(self.to_items(b["iter"]))], {"dtype": b["dtype"]})


def N_np_fromfunction(self, a, k):
    shape = self.shape_arg(a[1])
    dt = self.to_dtype(k.pop("dtype")) if k.get("dtype") is not None else np.dtype(float)
    return self.call(a[0], [self.new_arr(x.astype(object), dt, cast=True) for x in np.indices(shape)], k)


def N_np_native(self, v):
    if self.is_array(v):
        c = self.cells(v)
        if any(isinstance(x, (Term, Ref)) for x in c.ravel()):
            raise Unsupported("symbolic array")
        dt = self.rec(v).payload.dtype
        return c.astype(dt)
    if isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
        return [self.np_native(x) for x in self.to_items(v)]
    if isinstance(v, tuple):
        return tuple(self.np_native(x) for x in v)
    return self.to_native(v)


def N_arrayish(self, v):
    return self.is_array(v) or isinstance(v, (tuple, range)) or isinstance(v, Ref) and (
        isinstance(self.rec(v), ListRec) or isinstance(self.rec(v), ObjRec) and not is_num(self.unpayload(v))
        and not isinstance(self.unpayload(v), Term))


def N_to_arr(self, v):
    if self.is_array(v):
        return v
    c, dt = self.as_cells(v)
    return self.new_arr(c, dt if dt is not None else infer_dtype(c))


def N_np_dtype(self, v):
    if isinstance(v, Term):
        return mk("ext", "numpy.dtype", (v,), ())
    return self.to_dtype(v)


def N_ndarray_new(self, args, kwargs):
    names = ["cls", "shape", "dtype", "buffer", "offset", "strides", "order"]
    b = dict(zip(names, args))
    b.update(kwargs)
    shape = self.shape_arg(b["shape"])
    dt = self.to_dtype(b.get("dtype")) or np.dtype(float)
    full = shape + (dt.shape if dt.subdtype else ())
    base = base_dtype(dt)
    cls = b["cls"]
    buf = self.simp(b.get("buffer"))
    off = py(self.simp(b.get("offset", 0)))
    strides, order = self.simp(b.get("strides")), self.simp(b.get("order"))
    if off is None or isinstance(off, (float, str)):
        self.raise_("TypeError", "%r object cannot be interpreted as an integer" % type(off).__name__)
    if order is not None and not (isinstance(order, str) and order.upper() in ("C", "F", "A", "K")):
        self.raise_("TypeError" if not isinstance(order, str) else "ValueError", "order must be one of 'C', 'F', 'A', or 'K'")
    if strides is not None:
        strides = self.shape_arg(strides)
        if len(strides) != len(shape):
            self.raise_("ValueError", "strides, if given, must be the same length as shape")
    if buf is not None:
        src = buf.src if isinstance(buf, MemV) else buf
        if not self.is_array(src):
            if isinstance(src, (np.dtype, Ext, int, float, str, tuple)) or isinstance(src, Term) and src.ty in ("int", "float", "bool", "str") or \
                    isinstance(src, Ref) and isinstance(self.rec(src), (ListRec, DictRec)):
                self.raise_("TypeError", "a bytes-like object is required")
            raise Unsupported("ndarray over an unknown buffer")
        p = self.rec(src).payload
        if not contiguous(p):
            self.raise_("ValueError", "ndarray is not contiguous")
        n = p.dtype.itemsize
        if isinstance(off, Term) or p.dtype != base or off % n or strides is not None and any(x % n for x in strides):
            raise Unsupported("ndarray over a buffer of another type")
        flat = p.idx.ravel()
        count = int(np.prod(full)) if full else 1
        if strides is None:
            pos = off // n + np.arange(count).reshape(full, order="F" if order is not None and order.upper() == "F" else "C")
        else:
            pos = np.full(full, off // n)
            for i in np.ndindex(full):
                k = i[len(shape):]
                pos[i] += sum(x * (y // n) for x, y in zip(i, strides)) + (int(np.ravel_multi_index(k, dt.shape)) if k else 0)
        if pos.size and (pos.min() < 0 or pos.max() >= flat.size):
            self.raise_("TypeError" if strides is None else "ValueError", "buffer is too small for requested array")
        ref = self.alloc(ObjRec(cls, {}, ArrP(p.store, flat[pos] if pos.size else pos, base, src, False, False, p.ro)))
        return self.finalize(ref, None)
    if base.names:
        raise Unsupported("record array")
    if isinstance(off, int) and off < 0:
        self.raise_("ValueError", "offset must be non-negative and no greater than buffer length")
    cells = np.empty(full, object)
    for i in np.ndindex(full):
        cells[i] = fresh("uninit", "float" if base.kind == "f" else "int" if base.kind in "iu" else "any")
    return self.new_arr(cells, base, cls, None)


def N_np_filled(self, args, kwargs, value, names=("shape", "dtype")):
    b = dict(zip(names, args))
    b.update(kwargs)
    shape = self.shape_arg(b["shape"])
    dt = self.to_dtype(b.get("dtype")) if b.get("dtype") is not None else np.dtype(float)
    full = shape + (dt.shape if dt.subdtype else ())
    base = base_dtype(dt)
    cells = np.empty(full, object)
    for i in np.ndindex(full):
        cells[i] = tuple(fresh("uninit", "any") for _ in leaves(base)) if base.names and value is None else \
            fresh("uninit", "float" if base.kind == "f" else "int" if base.kind in "iu" else "any") \
            if value is None else self.cast_cell(value, base)
    return self.new_arr(cells, base)


def N_np_zeros(self, a, k):
    return self.np_filled(a, k, 0)


def N_np_ones(self, a, k):
    return self.np_filled(a, k, 1)


def N_np_empty(self, a, k):
    return self.np_filled(a, k, None)


def N_np_full(self, a, k):
    b = dict(zip(("shape", "fill_value", "dtype"), a))
    b.update(k)
    shape = self.shape_arg(b["shape"])
    v, vd = self.as_cells(b["fill_value"])
    dt = self.to_dtype(b.get("dtype")) if b.get("dtype") is not None else infer_dtype(v)
    return self.new_arr(np.broadcast_to(v, shape).copy(), dt, cast=True)


def _like(value):
    def f(self, a, k):
        c, dt = self.as_cells(a[0])
        if k.get("dtype") is not None:
            dt = self.to_dtype(k["dtype"])
        out = np.empty(c.shape, object)
        for i in np.ndindex(c.shape):
            out[i] = fresh("uninit", "float") if value is None else self.cast_cell(value, dt)
        cls, fin = (self.rec(a[0]).cls, a[0]) if self.is_array(a[0]) else (None, ABSENT)
        return self.new_arr(out, dt or infer_dtype(c), cls, fin)
    return f


N_np_zeros_like = _like(0)
N_np_ones_like = _like(1)
N_np_empty_like = _like(None)


def N_np_full_like(self, a, k):
    z = self.np_zeros_like([a[0]], k)
    self.arr_setitem(z, Ellipsis, a[1])
    return z


def N_np_eye(self, a, k):
    n = self.shape_arg(a[0] if a else k["N"])[0]
    b = dict(zip(("N", "M", "k", "dtype"), a))
    b.update(k)
    m = self.shape_arg(b["M"])[0] if b.get("M") is not None else n
    dt = self.to_dtype(b["dtype"]) if b.get("dtype") is not None else np.dtype(float)
    return self.new_arr(np.eye(n, m, py(self.norm_index(b.get("k", 0)))).astype(object), dt, cast=True)


def N_np_identity(self, a, k):
    return self.np_eye(a[:1], {"dtype": a[1] if len(a) > 1 else k.get("dtype")})


def _array(self, a, k, copy, subok):
    v = a[0] if a else k.get("object")
    dt = a[1] if len(a) > 1 else k.get("dtype")
    dt = self.to_dtype(dt) if dt is not None else None
    if k.get("copy") is False:
        copy = False
    if k.get("subok") is True:
        subok = True
    if isinstance(v, Term) and v.op != "phi" and v.ty == "any":
        return mk("ext", "numpy.array", (v,), ())
    if not self.is_array(v) and isinstance(v, Ref) and isinstance(self.rec(v), ObjRec) and not copy:
        m = self.class_lookup(self.rec(v).cls, "__array__")
        if m is not None and not isinstance(m, Ext):
            return self.dist(self.call(m, [v], {}), lambda x: _array(self, [x], k, copy, subok))
    if self.is_array(v):
        r = self.rec(v)
        keep = subok or isinstance(r.cls, Ext)
        if not copy and (dt is None or base_dtype(dt) == r.payload.dtype):
            nd = k.get("ndmin")
            if keep:
                return v
            return self.view_of(v, r.payload.idx.view(), NDARRAY)
        c = self.cells(v)
        return self.new_arr(c, base_dtype(dt) if dt is not None else r.payload.dtype,
                            r.cls if keep else None, v if keep else ABSENT, cast=dt is not None)
    if isinstance(v, (GenRec,)):
        raise Unsupported("array of generator")
    if dt is not None and base_dtype(dt).names and not self.is_array(v):
        return self.new_arr(self.record_cells(v, base_dtype(dt)), base_dtype(dt), cast=True)
    c, d0 = self.as_cells(v)
    # array objects inside: the dtype of the parts matters
    if dt is None:
        ds = self.part_dtypes(v)
        d0 = infer_dtype(c) if not ds else res_dtype(*ds)
        if ds is not None and ds and infer_dtype(c).kind == "f" and d0.kind in "iub":
            d0 = np.dtype(float)
        d0 = d0 if d0 is not None else infer_dtype(c)
    else:
        d0 = base_dtype(dt)
    return self.new_arr(c, d0, cast=True)


def N_record_cells(self, v, dt):
    """cells of an array of records given as a (nested list of) tuple(s)"""
    v = self.simp(v)

    def leaf(t):
        c, _ = self.as_cells(t)
        return tuple(c.ravel())

    def rec(x):
        x = self.simp(x)
        if isinstance(x, Ref) and isinstance(self.rec(x), ListRec):
            items = self.to_items(x)
            if is_phi(items):
                raise GatedArray(items)
            return [rec(y) for y in items]
        if isinstance(x, tuple) and len(x) == len(dt.names):
            return np.array([sum((leaf(y) for y in x), ())] + [None], object)[:1]
        raise Unsupported("records")
    r = rec(v)

    def shape(x):
        return (len(x),) + shape(x[0]) if isinstance(x, list) and x else ()

    def flat(x):
        return sum((flat(y) for y in x), []) if isinstance(x, list) else [x[0]]
    out = np.empty(shape(r), object)
    fl = flat(r)
    if len(fl) != out.size:
        raise Unsupported("records")
    for j, i in enumerate(np.ndindex(out.shape)):
        out[i] = fl[j]
    return out


def N_part_dtypes(self, v):
    out = []
    if self.is_array(v):
        return [self.rec(v).payload.dtype]
    if isinstance(v, Ref) and isinstance(self.rec(v), ListRec) or isinstance(v, tuple):
        items = v if isinstance(v, tuple) else self.to_items(v)
        for x in items:
            out += self.part_dtypes(self.simp(x))
    return out


def N_np_array(self, a, k):
    if a and self.is_image(a[0]):
        return a[0]
    return _array(self, a, k, True, False)


def N_np_asarray(self, a, k):
    if a and self.is_image(a[0]):
        return a[0]
    return _array(self, a, k, False, False)


def N_np_asanyarray(self, a, k):
    if a and self.is_image(a[0]):
        return a[0]
    return _array(self, a, k, False, True)


def N_np_ascontiguousarray(self, a, k):
    return _array(self, a, k, False, False)


def N_np_asfortranarray(self, a, k):
    t = self.arr_method(_array(self, a, k, False, False), "transpose", [], {})
    return self.arr_method(_array(self, [t], {}, True, False), "transpose", [], {})


def N_np_copy(self, a, k):
    return _array(self, a[:1], {}, True, False)


def N_np_atleast_1d(self, a, k):
    v = self.np_asanyarray(a[:1], {})
    return v if self.arr_shape(v) else self.arr_method(v, "reshape", [1], {})


def N_np_atleast_2d(self, a, k):
    v = self.np_asanyarray(a[:1], {})
    s = self.arr_shape(v)
    return v if len(s) >= 2 else self.arr_method(v, "reshape", [(1,) + s if s else (1, 1)], {})


def reinterpret(cells, dt, base):
    """the cells of type base which have the bytes of the cells of type dt (None: not a whole number of them)"""
    raw = [mk_byte(c, i, dt) for c in cells for i in range(dt.itemsize)] if dt.itemsize > 1 else list(cells)
    n = base.itemsize
    if len(raw) % n:
        return None
    out = np.empty(len(raw) // n, object)
    for i in range(len(out)):
        full = raw[i * n:i * n + n]
        whole = whole_cell(full)
        if whole is not None and whole[1] == base.str:
            out[i] = whole[0]
        elif n == 1 and base == np.uint8:
            out[i] = full[0]
        elif all(isinstance(x, int) for x in full) and base.kind in "fiub":
            out[i] = np.frombuffer(bytes(full), base)[0].item()
        else:
            out[i] = mk("frombytes", tuple(full), base.str, ty="float" if base.kind == "f" else "int")
    return out


def N_np_frombuffer(self, a, k):
    b = dict(zip(("buffer", "dtype", "count", "offset"), a))
    b.update(k)
    dt = self.to_dtype(b.get("dtype")) if b.get("dtype") is not None else np.dtype(float)
    buf = self.simp(b["buffer"])
    off = py(self.simp(b.get("offset") or 0))
    count = py(self.simp(b.get("count", -1)))
    src = buf.src if isinstance(buf, MemV) else buf
    base = base_dtype(dt)
    if base.names and isinstance(src, Term) and src.op == "bytesof" and np.dtype(src.args[0]) == leaf_dtype(base):
        k = len(leaves(base))
        if off or count != -1 or len(src.args[1]) % k:
            raise Unsupported("part of records")
        cells = np.empty(len(src.args[1]) // k, object)
        for i in range(len(cells)):
            cells[i] = tuple(src.args[1][i * k:i * k + k])
        t = self.new_arr(cells, base)
    elif isinstance(src, Term) and src.op == "bytesof":
        own = np.dtype(src.args[0])
        cells = np.empty(len(src.args[1]), object)
        cells[:] = src.args[1]
        if own != base and base != np.dtype(np.uint8):
            if base.kind not in "fiub" or own.kind not in "fiub":
                raise Unsupported("bytes of %s read as %s" % (src.args[0], base))
            cells, own = reinterpret(cells, own, base), base
            if cells is None:
                self.raise_("ValueError", "buffer size must be a multiple of element size")
        t = self.new_arr(cells, own)
        if own != base:
            t = self.arr_view(t, [Ext("numpy.uint8", np.uint8)], {})
    elif isinstance(src, Term) and src.op == "rawbytes" and base == np.dtype(np.uint8):
        cells = np.empty(len(src.args[0]), object)
        cells[:] = src.args[0]
        t = self.new_arr(cells, base)
    elif self.is_array(src):
        t = src
        if not contiguous(self.rec(t).payload):
            self.raise_("ValueError", "ndarray is not C-contiguous")
    elif self.is_image(src):
        if base != np.dtype(np.uint8) or off != 0 or count != -1:
            raise Unsupported("pixels read as %s" % base)
        return self.image_reshape(src, (-1,))
    elif isinstance(src, bytes):
        try:
            return self.from_native(np.frombuffer(src, dt, count, off))
        except ValueError as e:
            self.raise_("ValueError", str(e))
    else:
        return mk("ext", "numpy.frombuffer", (src, dt.str), ())
    p = self.rec(t).payload
    n = p.dtype.itemsize
    if p.byteview and base == np.dtype(np.uint8):
        n = 1
    elif p.dtype != base:
        if p.byteview or p.dtype.kind not in "fiub" or base.kind not in "fiub":
            raise Unsupported("buffer of %s read as %s" % (p.dtype, base))
        cells = reinterpret(list(self.cells(t).ravel()), p.dtype, base)
        if cells is None:
            self.raise_("ValueError", "buffer size must be a multiple of element size")
        t = self.new_arr(cells, base)
        p = self.rec(t).payload
        n = base.itemsize
    if isinstance(off, Term) or off % n:
        raise Unsupported("buffer offset")
    idx = p.idx.ravel()[off // n:]
    if dt.subdtype:
        per = int(np.prod(dt.shape))
        if idx.size % per:
            self.raise_("ValueError", "buffer size must be a multiple of element size")
        idx = idx.reshape((-1,) + dt.shape)
    if count != -1:
        idx = idx[:count]
    return self.alloc(ObjRec(NDARRAY, {}, ArrP(p.store, idx, base, t, p.byteview, False, p.ro or not self.is_array(src))))


def N_np_object(self, name, args, kwargs):
    """shape functions: real numpy on arrays of abstract cells"""
    if name == "take_along_axis" and self.is_array(args[1]) and has_sym(tuple(self.cells(args[1]).ravel())):
        return self.np_term(name, args, kwargs)
    dts = []
    firsts = []

    def conv(v):
        v = self.simp(v)
        if self.is_array(v):
            dts.append(self.rec(v).payload.dtype)
            firsts.append(v)
            return self.cells(v)
        if isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
            items = self.to_items(v)
            if is_phi(items):
                raise GatedArray(items)
            return [conv(x) for x in items]
        if isinstance(v, tuple):
            return tuple(conv(x) for x in v)
        if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
            m = self.class_lookup(self.rec(v).cls, "__array__")
            if m is not None and not isinstance(m, Ext):
                return conv(self.call(m, [v], {}))
            return self.unpayload(v)
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, Ext):
            return v.obj
        return v
    na = [conv(a) for a in args]
    nk = {k: conv(v) for k, v in kwargs.items() if k != "dtype"}
    if name == "transpose" and len(args) == 1 and self.is_array(args[0]):
        return self.view_of(args[0], self.rec(args[0]).payload.idx.T)
    if name in VIEWS and self.is_array(args[0]) and not self.rec(args[0]).payload.dtype.names and \
            not any(has_sym(x) for x in na[1:]) and (name != "diag" or na[0].ndim == 2):
        p = self.rec(args[0]).payload
        try:
            r = getattr(np, name)(p.idx, *na[1:], **{k: v for k, v in nk.items() if k != "subok"})
        except (ValueError, IndexError, TypeError) as e:
            self.raise_(type(e).__name__, str(e))
        ro = name in ("broadcast_to", "diagonal", "diag")
        cls = NDARRAY if name in ("broadcast_to", "diag") and not nk.get("subok") else None
        if isinstance(r, (list, tuple)):
            return self.new_list([self.view_of(args[0], x, cls) for x in r])
        return self.view_of(args[0], np.array(r), cls, ro=ro)
    if name in ("reshape", "ravel", "squeeze", "swapaxes") and self.is_array(args[0]):
        return self.arr_method(args[0], name, args[1:], kwargs)
    if name == "dot" and len(na) == 2:
        A, B = to_obj(na[0]), to_obj(na[1])
        if A.ndim and B.ndim and B.ndim <= 2:
            if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
                self.raise_("ValueError", "shapes not aligned")
            out = matmul(A, B)
            return self.wrap_result(out, res_dtype(*dts) or infer_dtype(out), tuple(args))
    if name in ("dot", "cross", "cumsum", "cumprod", "inner", "outer", "kron", "transpose", "flip", "roll", "repeat",
                "tile", "squeeze", "expand_dims", "ravel", "diag", "trace", "diff", "take", "append", "moveaxis",
                "broadcast_to", "delete", "insert", "vdot", "rot90", "reshape", "diagonal", "resize"):
        for i in range(min(len(na), 2 if name in ("dot", "cross", "inner", "outer", "kron", "append", "vdot") else 1)):
            na[i] = to_obj(na[i])
    elif name in ("concatenate", "stack", "vstack", "hstack", "column_stack", "dstack"):
        na[0] = [to_obj(x) for x in na[0]]
    if any(has_sym(x) or isinstance(x, Term) for x in na[1:] if not isinstance(x, np.ndarray)):
        raise Unsupported("numpy.%s with symbolic parameters" % name)
    if name == "repeat" and len(na) > 1 and isinstance(na[1], np.ndarray):
        na[1] = na[1].astype(int)
    if name == "cross":
        try:
            return self.wrap_result(cross(na[0], na[1]), res_dtype(*dts), tuple(args))
        except ValueError as e:
            self.raise_("ValueError", str(e))
    want = None
    if self.simp(kwargs.get("dtype")) is not None:
        want = self.to_dtype(self.simp(kwargs["dtype"]))
    elif name in ("cumsum", "cumprod") and dts and dts[0] is not None and dts[0].kind in "iub" and dts[0].itemsize < 8:
        want = np.dtype(np.uint64 if dts[0].kind == "u" else np.int64)
    fn = getattr(np, name if name != "row_stack" else "vstack")
    try:
        r = fn(*na, **nk)
    except (ValueError, IndexError, TypeError) as e:
        self.raise_(type(e).__name__, str(e))
    if isinstance(r, (list, tuple)):
        return self.new_list([self.new_arr(to_obj(x), infer_dtype(to_obj(x))) for x in r])
    r = to_obj(r)
    dt = res_dtype(*dts)
    inf = infer_dtype(r)
    if dt is None or inf.kind == "f" and dt.kind in "iub":
        dt = inf
    if want is not None:
        dt = want
    if r.ndim == 0:
        return r[()]
    if name in ("concatenate", "stack", "vstack", "hstack", "column_stack", "dstack"):
        return self.new_arr(r, dt)
    return self.wrap_result(r, dt, tuple(firsts[:1]))


# functions whose result is a view on their first argument
VIEWS = {"transpose", "flip", "fliplr", "flipud", "moveaxis", "rollaxis", "rot90", "expand_dims", "broadcast_to", "diagonal", "diag",
         "array_split", "split", "hsplit", "vsplit", "dsplit"}


def to_obj(x):
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        def sh(v):
            if isinstance(v, np.ndarray):
                return v.shape
            if isinstance(v, (list, tuple)):
                if not v:
                    return (0,)
                return (len(v),) + sh(v[0])
            return ()
        s = sh(x)
        out = np.empty(s, object)

        def nest(v):
            if isinstance(v, (list, tuple)):
                return tuple(nest(y) for y in v)
            return v
        fill(out, nest(x))
        return out
    out = np.empty((), object)
    out[()] = x
    return out


def cross(a, b):
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        if a.shape[-1] in (2, 3) and b.shape[-1] in (2, 3):
            raise Unsupported("2-d cross product")
        raise ValueError("incompatible dimensions for cross product (dimension must be 2 or 3)")
    shape = np.broadcast_shapes(a.shape, b.shape)
    A, B = np.broadcast_to(a, shape), np.broadcast_to(b, shape)
    out = np.empty(shape, object)
    for i in np.ndindex(shape[:-1]):
        x, y = A[i], B[i]
        for j in range(3):
            p, q = (j + 1) % 3, (j + 2) % 3
            out[i + (j,)] = arith("sub", arith("mul", x[p], y[q]), arith("mul", x[q], y[p]))
    return out


def N_np_matmul(self, a, k):
    return self.arr_matmul(a[0], a[1])


def N_np_sum(self, a, k):
    return self.np_reduce("sum", a, k)


def _red(name):
    def f(self, a, k):
        return self.np_reduce(name, a, k)
    return f


for _n in ("sum", "prod", "min", "max", "mean", "any", "all", "amin", "amax", "ptp", "std", "var"):
    globals()["N_np_" + _n] = _red({"amin": "min", "amax": "max"}.get(_n, _n))


def N_np_average(self, a, k):
    b = dict(zip(("a", "axis", "weights"), a))
    b.update(k)
    if b.get("weights") is not None:
        return self.np_term("average", a, k)
    return self.np_reduce("mean", [b["a"]], {"axis": b.get("axis")})


def N_np_reduce(self, name, args, kwargs):
    v = args[0] if args else kwargs["a"]
    extra = {q: x for q, x in kwargs.items() if q not in ("axis", "keepdims", "a") and x is not None and not (
        q == "initial" and name == "sum" and x == 0)}
    if set(extra) == {"dtype"} and name in ("sum", "prod", "mean") and len(args) < 3:
        v = self.np_call("numpy.asarray", [v], {"dtype": extra["dtype"]})
        extra = {}
    if extra or len(args) > 2:
        raise Unsupported("numpy.%s with %s" % (name, ", ".join(sorted(extra)) or "these arguments"))
    if isinstance(v, Ref) and isinstance(self.rec(v), (GenRec, IterRec)):
        v = self.new_list(self.to_items(v))
    c, dt = self.as_cells(v)
    axis = self.axis(kwargs.get("axis", args[1] if len(args) > 1 else None))
    keep = self.truth(kwargs.get("keepdims", False)) is True
    if axis is None:
        axes = tuple(range(c.ndim))
    else:
        axes = tuple(a % c.ndim if -c.ndim <= a < c.ndim else 99 for a in (axis if isinstance(axis, tuple) else (axis,)))
        if 99 in axes:
            self.raise_("ValueError", "axis %s is out of bounds for array of dimension %d" % (axis, c.ndim))
    rest = tuple(i for i in range(c.ndim) if i not in axes)
    t = c.transpose(rest + axes).reshape(tuple(c.shape[i] for i in rest) + (-1,)) if c.size else \
        np.empty(tuple(c.shape[i] for i in rest) + (int(np.prod([c.shape[i] for i in axes])),), object)
    out = np.empty(t.shape[:-1], object)
    for i in np.ndindex(out.shape):
        row = [self.unpayload(x) for x in t[i]]
        n = len(row)
        if name in ("min", "max"):
            if not n:
                self.raise_("ValueError", "zero-size array to reduction operation %s which has no identity" % name)
            r = row[0]
            for x in row[1:]:
                r = self.minmax(name, r, x)
        elif name in ("any", "all"):
            r = name == "all"
            for x in row:
                r = mk_and(r, self.truth(x)) if name == "all" else mk_or(r, self.truth(x))
        elif name == "prod":
            r = 1
            for x in row:
                r = arith("mul", r, x)
        elif name == "ptp":
            lo = hi = row[0]
            for x in row[1:]:
                lo, hi = self.minmax("min", lo, x), self.minmax("max", hi, x)
            r = arith("sub", hi, lo)
        elif name in ("std", "var"):
            m = 0
            for x in row:
                m = arith("add", m, x)
            m = arith("div", m, n)
            r = 0
            for x in row:
                d = arith("sub", x, m)
                r = arith("add", r, arith("mul", d, d))
            r = arith("div", r, n)
            if name == "std":
                r = unary("sqrt", r)
        else:
            r = 0
            for x in row:
                r = arith("add", r, x)
            if name == "mean":
                r = arith("div", r, n) if n else math.nan
        out[i] = r
    if keep:
        out = out.reshape(tuple(1 if i in axes else c.shape[i] for i in range(c.ndim)))
    if out.ndim == 0:
        return self.out_scalar(out[()], dt if name in ("sum", "min", "max", "prod") else None)
    rdt = dt if name in ("sum", "min", "max", "prod", "ptp") and dt is not None and dt.kind != "b" else infer_dtype(out)
    if name in ("mean", "std", "var") and dt is not None and dt.kind == "f":
        rdt = dt
    return self.wrap_result(out, rdt, (v,))


def N_np_argsort(self, a, k):
    v = a[0]
    c, dt = self.as_cells(v)
    axis = self.axis(k.get("axis", a[1] if len(a) > 1 else -1))
    if c.ndim != 1:
        if not any(isinstance(x, Term) for x in c.ravel()):
            return self.from_native(np.argsort(c.astype(float), axis=axis, kind="stable"))
        return self.np_term("argsort", [v], {"axis": axis, "kind": "stable"})
    if not any(isinstance(x, Term) for x in c):
        return self.from_native(np.argsort(c.astype(dt if dt is not None and dt.kind in "fiu" else float), kind="stable"))
    keys = tuple(c)
    out = np.empty(len(keys), object)
    for i in range(len(keys)):
        out[i] = mk("argsort", keys, i, ty="int")
    return self.new_arr(out, np.dtype(np.int64))


def N_np_sort(self, a, k):
    c, dt = self.as_cells(a[0])
    if not any(isinstance(x, Term) for x in c.ravel()):
        return self.from_native(np.sort(c.astype(dt), axis=self.axis(k.get("axis", a[1] if len(a) > 1 else -1))))
    axis = self.axis(k.get("axis", a[1] if len(a) > 1 else -1))
    if c.ndim != 1:
        return self.np_term("sort", [a[0]], {"axis": axis})
    p = self.np_argsort([a[0]], {})
    return self.arr_getitem(self.to_arr(a[0]), p)


def _arg_extreme(name):
    def f(self, a, k):
        c, dt = self.as_cells(a[0])
        b = dict(zip(("a", "axis"), a))
        b.update(k)
        if set(b) - {"a", "axis", "keepdims"} or self.truth(b.get("keepdims", False)) is not False:
            raise Unsupported("numpy.%s with these arguments" % name)
        ax = self.axis(b.get("axis"))
        if not c.size:
            self.raise_("ValueError", "attempt to get %s of an empty sequence" % name)
        rows = c.reshape(1, -1) if ax is None else np.moveaxis(c, ax, -1)
        out = np.empty(rows.shape[:-1], object)
        for i in np.ndindex(out.shape):
            row = tuple(self.unpayload(x) for x in rows[i])
            out[i] = mk(name, row, ty="int") if any(isinstance(x, Term) for x in row) else int(getattr(np, name)(np.array(
                row, float)))
        return out[0] if ax is None else (out[()] if out.ndim == 0 else self.new_arr(out, np.dtype(np.int64)))
    return f


N_np_argmin = _arg_extreme("argmin")
N_np_argmax = _arg_extreme("argmax")


def N_np_searchsorted(self, a, k):
    c, _ = self.as_cells(a[0])
    v, dt = self.as_cells(a[1])
    side = k.get("side", "left")
    out = np.empty(v.shape, object)
    for i in np.ndindex(v.shape):
        n = 0
        for x in c:
            b = lt(x, v[i]) if side == "left" else le(x, v[i])
            n = arith("add", n, (1 if b else 0) if not isinstance(b, Term) else mk_phi(b, 1, 0))
        out[i] = n
    return out[()] if out.ndim == 0 else self.new_arr(out, np.dtype(int))


def N_np_linspace(self, a, k):
    b = dict(zip(("start", "stop", "num", "endpoint"), a))
    b.update(k)
    n = self.shape_arg(b.get("num", 50))[0]
    end = self.truth(b.get("endpoint", True))
    start, stop = self.unpayload(b["start"]), self.unpayload(b["stop"])
    if self.is_array(start) or self.is_array(stop):
        raise Unsupported("linspace of arrays")
    out = np.empty(n, object)
    div = n - 1 if end else n
    step = arith("sub", stop, start)
    for i in range(n):
        if i == n - 1 and end and n > 1:
            out[i] = unary("tofloat", stop) if isinstance(stop, Term) else float(stop)
        else:
            out[i] = arith("add", start, arith("mul", step, i / div if div else 0.0)) if i else (
                start if isinstance(start, Term) else float(start))
    return self.new_arr(out, np.dtype(float), cast=True)


def N_np_arange(self, a, k):
    a = [py(self.norm_index(x)) for x in a]
    dt = self.to_dtype(k.get("dtype")) if k.get("dtype") is not None else None
    if any(isinstance(x, Term) for x in a):
        raise Unsupported("arange with symbolic bounds")
    return self.from_native(np.arange(*a, dtype=dt))


def N_np_where(self, a, k):
    if len(a) == 1:
        return self.np_nonzero(a, k)
    c, _ = self.as_cells(a[0])
    x, dx = self.arr_in(a[1])
    y, dy = self.arr_in(a[2])
    C, X, Y = np.broadcast_arrays(c, x, y)
    out = np.empty(C.shape, object)
    for i in np.ndindex(C.shape):
        out[i] = mk_phi(self.truth(C[i]), X[i], Y[i]) if isinstance(self.truth(C[i]), Term) else \
            (X[i] if self.truth(C[i]) else Y[i])
    if out.ndim == 0:
        return out[()]
    return self.new_arr(out, res_dtype(*[d for d in (dx, dy) if d is not None]) or infer_dtype(out))


def N_np_clip(self, a, k):
    b = dict(zip(("a", "a_min", "a_max"), a))
    b.update(k)
    lo = b.get("a_min", b.get("min"))
    hi = b.get("a_max", b.get("max"))
    r = b["a"]
    scal = not self.arrayish(r)
    if lo is not None:
        r = self.ufunc2(lambda x, y: self.minmax("max", x, y), r, lo)
    if hi is not None:
        r = self.ufunc2(lambda x, y: self.minmax("min", x, y), r, hi)
    return r


def N_np_linalg_norm(self, a, k):
    c, dt = self.as_cells(a[0])
    axis = self.axis(k.get("axis"))
    if k.get("ord") is not None or len(a) > 1:
        raise Unsupported("norm with ord")
    sq = self.ufunc2(safe_arith("mul"), a[0], a[0])
    s = self.np_reduce("sum", [sq], {"axis": axis, "keepdims": k.get("keepdims", False)})
    return self.np_call("numpy.sqrt", [s], {})


def N_np_copyto(self, a, k):
    b = dict(zip(("dst", "src", "casting", "where"), a))
    b.update(k)
    if self.simp(b.get("where", True)) is not True:
        self.arr_setitem(b["dst"], Ellipsis, self.np_call("numpy.where", [b["where"], b["src"], b["dst"]], {}))
    else:
        self.arr_setitem(b["dst"], Ellipsis, b["src"])


def N_np_putmask(self, a, k):
    c, _ = self.as_cells(a[2])
    if c.ndim and c.size != 1:
        raise Unsupported("putmask of several values")
    self.arr_setitem(a[0], a[1], c.ravel()[0])


def N_np_place(self, a, k):
    return self.np_putmask(a, k)


def N_np_fill_diagonal(self, a, k):
    b = dict(zip(("a", "val", "wrap"), a))
    b.update(k)
    shape = self.cells(b["a"]).shape
    if len(set(shape)) != 1 and len(shape) != 2 or self.simp(b.get("wrap", False)):
        raise Unsupported("fill_diagonal")
    i = self.from_native(np.arange(min(shape)))
    self.arr_setitem(b["a"], (i,) * len(shape), b["val"])


def N_np_nditer(self, a, k):
    if len(a) > 1 or k:
        raise Unsupported("nditer with options")
    return self.alloc(IterRec(self.new_list(tuple(self.cells(self.to_arr(a[0])).ravel())), 0))


def N_np_iterable(self, a, k):
    try_ = self.simp(a[0])
    if self.is_array(try_):
        return self.cells(try_).ndim > 0
    if isinstance(try_, (tuple, str, range, bytes)) or isinstance(try_, Ref) and isinstance(
            self.rec(try_), (ListRec, DictRec, SetRec, GenRec, IterRec)):
        return True
    if is_num(try_) or try_ is None:
        return False
    raise Unsupported("numpy.iterable")


def N_np_ndindex(self, a, k):
    shape = self.shape_arg(a[0]) if len(a) == 1 else tuple(py(self.norm_index(x)) for x in a)
    if has_sym(shape):
        raise Unsupported("symbolic shape")
    return self.alloc(IterRec(self.new_list(tuple(np.ndindex(shape))), 0))


def N_np_ndenumerate(self, a, k):
    c = self.cells(self.to_arr(a[0]))
    return self.alloc(IterRec(self.new_list(tuple((i, c[i]) for i in np.ndindex(c.shape))), 0))


def N_np_linalg_inv(self, a, k):
    c, dt = self.as_cells(a[0])
    if any(isinstance(x, Term) for x in c.ravel()):
        if c.ndim < 2 or c.shape[-1] != c.shape[-2]:
            self.raise_("LinAlgError", "Last 2 dimensions of the array must be square")
        return self.np_term("linalg.inv", [a[0]], {})
    return self.from_native(np.linalg.inv(c.astype(float)))


def N_np_ravel_multi_index(self, a, k):
    b = dict(zip(("multi_index", "dims", "mode"), a))
    b.update(k)
    idx = b["multi_index"]
    items = self.to_items(idx)
    dims = self.shape_arg(b["dims"])
    items = [self.arr_scalar(x) if self.is_array(x) and self.cells(x).size == 1 else x for x in items]
    if any(isinstance(x, Term) for x in items) or any(self.is_array(x) for x in items):
        r = 0
        if len(items) != len(dims):
            self.raise_("ValueError", "parameter multi_index must be a sequence of length %d" % len(dims))
        for x, d in zip(items, dims):
            if self.is_array(x):
                raise Unsupported("ravel_multi_index of arrays")
            r = arith("add", arith("mul", r, d), x)
        return r
    try:
        return int(np.ravel_multi_index(tuple(int(py(x)) for x in items), dims, mode=b.get("mode", "raise")))
    except ValueError as e:
        self.raise_("ValueError", str(e))


def N_np_shape(self, a, k):
    c, _ = self.as_cells(a[0])
    return c.shape


def N_np_ndim(self, a, k):
    c, _ = self.as_cells(a[0])
    return c.ndim


def N_np_size(self, a, k):
    c, _ = self.as_cells(a[0])
    return c.size


def N_np_isscalar(self, a, k):
    v = self.unpayload(a[0])
    return is_num(v) or isinstance(v, (str, bytes)) or isinstance(v, Term)


def _all_eq(self, a, exact):
    ca, _ = self.as_cells(a[0])
    cb, _ = self.as_cells(a[1])
    if ca.shape != cb.shape:
        return False
    r = True
    if exact:
        return eq_bytes(list(ca.ravel()), list(cb.ravel()), lambda x, y: self.truth(self.compare_eq(x, y)))
    for x, y in zip(ca.ravel(), cb.ravel()):
        if not exact and not isinstance(x, Term) and not isinstance(y, Term) and is_num(x) and is_num(y):
            r = mk_and(r, bool(np.allclose(x, y)))
        else:
            r = mk_and(r, self.truth(self.compare_eq(x, y)))
    return r


def N_np_array_equal(self, a, k):
    return _all_eq(self, a, True)


def N_np_allclose(self, a, k):
    return _all_eq(self, a, False)


def N_np_broadcast_arrays(self, a, k):
    cs = [self.as_cells(x) for x in a]
    out = np.broadcast_arrays(*[c for c, _ in cs])
    return self.new_list([self.new_arr(np.array(o, object), d or infer_dtype(o)) for o, (_, d) in zip(out, cs)])


def N_np_meshgrid(self, a, k):
    cs = [self.as_cells(x)[0] for x in a]
    idx = np.meshgrid(*[np.arange(c.size) for c in cs], indexing=k.get("indexing", "xy"))
    return self.new_list([self.new_arr(c.ravel()[i], infer_dtype(c)) for c, i in zip(cs, idx)])


def N_np_errstate(self, a, k):
    return self.alloc(ObjRec(Ext("gspsa.NullCM"), {"v": None}))


def N_np_add_reduce(self, a, k):
    return self.np_reduce("sum", a, dict({"axis": 0}, **k))


def N_np_vectorize(self, a, k):
    fn = a[0]

    def call(it, args, kw):
        cs = [it.as_cells(x)[0] for x in args]
        bs = np.broadcast_arrays(*cs)
        out = np.empty(bs[0].shape, object)
        for i in np.ndindex(out.shape):
            out[i] = it.call(fn, [b[i] for b in bs], kw)
        return out[()] if out.ndim == 0 else it.new_arr(out, infer_dtype(out))
    return Native("vectorized", call)


def _cr(axis):
    def f(it, key):
        items = key if isinstance(key, tuple) else (key,)
        if axis == "c":
            return it.np_object("column_stack", [it.new_list([it.to_arr(x) for x in items])], {})
        if any(isinstance(x, str) for x in items):
            it.unsupported("numpy.r_ with directives")

        def one(x):
            if isinstance(x, slice):
                return it.from_native(np.r_[it.norm_key(x)])
            return it.np_atleast_1d([x], {})
        return it.np_object("concatenate", [it.new_list([one(x) for x in items])], {})
    return f


MODELS["numpy.c_#getitem"] = lambda it, k: _cr("c")(it, k)
MODELS["numpy.r_#getitem"] = lambda it, k: _cr("r")(it, k)
def _grid(which):
    def f(it, key):
        g = getattr(np, which)[it.norm_key(key)]
        return it.new_list([it.from_native(x) for x in g]) if isinstance(g, (list, tuple)) else it.from_native(g)
    return f


for _n in ("mgrid", "ogrid", "s_", "index_exp"):
    if _n in ("mgrid", "ogrid"):
        MODELS["numpy.%s#getitem" % _n] = _grid(_n)
    else:
        MODELS["numpy.%s#getitem" % _n] = (lambda q: lambda it, key: key if q == "s_" or isinstance(key, tuple) else (key,))(_n)
    MODELS["numpy.%s#value" % _n] = (lambda q: lambda it: Ext("numpy." + q))(_n)
MODELS["numpy.c_#value"] = lambda it: Ext("numpy.c_")
MODELS["numpy.r_#value"] = lambda it: Ext("numpy.r_")


# --------------------------------------------------------------------------------- types of results
def _npmodels():
    from .models import model

    def one(it, v):
        v = it.simp(v)
        if it.is_array(v):
            return it.rec(v).payload.dtype
        if isinstance(v, Term) and v.ty in ("float", "int", "bool"):
            return {"float": 0.5, "int": 1, "bool": True}[v.ty]
        if isinstance(v, (bool, int, float, complex)):
            return v
        return it.to_dtype(v)

    @model("numpy.result_type", "numpy.promote_types")
    def _result_type(it, a, k):
        try:
            return np.result_type(*[one(it, x) for x in a])
        except TypeError as e:
            it.raise_("TypeError", str(e))


_npmodels()
