"""C32: vector conversions and typed constructors."""
from ..run import Client

PROPERTY = "C32"
FLOOR = 2000
EXPLANATION = (
    "Each conversion is called on symbolic arrays, lists and views with two, three and four columns and on flat arrays, in five element "
    "types: every element of the result is compared with the element, quotient or padding the convention names, and the kind, element "
    "type, freshness of the result and the source afterwards are decided. Each typed constructor is called with and without a count.")
HEAD = '''
import numpy as np
from gsp_matplotlib import glm
from gsp_matplotlib.glm import vec234, mat234
NAMES = ("vec2", "vec3", "vec4")
PAD = [0.0, 0.0, 0.0, 1.0]
def want(row, n):
    """what a row becomes with n components"""
    m = len(row)
    if m == 4 and n < 4: return [row[j] / row[3] for j in range(n)]
    return [row[j] if j < m else PAD[j] for j in range(n)]
def good(title, V, rows, n, dtype):
    __check__(title + ": kind", type(V).__name__ == "vec%d" % n)
    __check__(title + ": shape", V.shape == (len(rows), n))
    __check__(title + ": element type", V.dtype == dtype)
    __same__(title + ": value", [[V[i, j] for j in range(n)] for i in range(len(rows))], [[np.array(x).astype(dtype)[()] for x in want(r, n)] for r in rows])
'''
TO = '''
f = glm.to_vec%(n)d
for m in (2, 3, 4):
    for t in ("f8", "f4"):
        A = __arr__("A%%d%%s" %% (m, t), (3, m), t, -3.0, 3.0)
        if m == 4:
            A[:, 3] = __arr__("W%%s" %% t, (3,), t, 0.5, 3.0)
        B = A.copy()
        rows = [[A[i, j] for j in range(m)] for i in range(3)]
        V = f(A)
        good("to_vec%(n)d of %%d columns" %% m, V, rows, %(n)d, np.dtype(t))
        __same__("source left alone", A, B)
        __check__("a copy", not __shares__(V, A))
        good("given as lists", f(rows), rows, %(n)d, f(rows).dtype)
        good("given as tuples", f(tuple([tuple(r) for r in rows])), rows, %(n)d, f(rows).dtype)
        for u in (np.float32, np.float64, "f8"):
            good("to another type", f(A, u), rows, %(n)d, np.dtype(u))
            good("to another type", f(A, dtype=u), rows, %(n)d, np.dtype(u))
        good("a view", f(A[::2]), rows[::2], %(n)d, np.dtype(t))
        good("backwards", f(A[::-1]), rows[::-1], %(n)d, np.dtype(t))
        good("one row", f(A[:1]), rows[:1], %(n)d, np.dtype(t))
        good("no row", f(A[:0]), [], %(n)d, np.dtype(t))
        good("a vector array", f(V), [list(V[i]) for i in range(3)], %(n)d, np.dtype(t))
        V[0, 0] = 77.0
        __same__("writing to the copy leaves the source alone", A, B)
    for t in ("i4", "u1"):
        q = [[3 * i + j + 2 for j in range(m)] for i in range(3)]
        if m == 4:
            q = [[w * x for x in r[:3]] + [w] for w, r in zip((1, 2, 4), q)]
        good("integers", f(np.array(q, dtype=t)), q, %(n)d, np.dtype(t))
        good("integers to floats", f(np.array(q, dtype=t), np.float32), q, %(n)d, np.dtype("f4"))
    if m == 4:
        good("integers to floats, not divisible", f(np.array([[1, 3, 5, 2], [7, 0, 1, 4]]), np.float64), [[1, 3, 5, 2], [7, 0, 1, 4]], %(n)d, np.dtype("f8"))
for k in (1, 2, 3):
    for t in ("f8", "f4", "i4"):
        A = __arr__("F%%d%%s" %% (k, t), (k * %(n)d,), t, -9, 9)
        B = A.copy()
        rows = [[A[i * %(n)d + j] for j in range(%(n)d)] for i in range(k)]
        V = f(A)
        good("a flat array", V, rows, %(n)d, np.dtype(t))
        __check__("a copy", not __shares__(V, A))
        __same__("source left alone", A, B)
        good("a flat list", f([A[i] for i in range(k * %(n)d)]), rows, %(n)d, f(list(A)).dtype)
        good("a flat array to another type", f(A, "f8"), rows, %(n)d, np.dtype("f8"))
def refused(x):
    try: f(x)
    except TypeError: return True
    return False
__check__("a flat array of another size is refused", refused(np.arange(%(n)d * 2 + 1.0)))
__check__("more dimensions are refused", refused(np.zeros((2, 2, %(n)d))))
__check__("five columns are refused", refused(np.zeros((2, 5))))
'''
AS = '''
f = glm.as_vec%(n)d
for t in ("f8", "f4", "i4"):
    A = __arr__("A" + t, (2, %(n)d), t, -9, 9)
    rows = [[A[i, j] for j in range(%(n)d)] for i in range(2)]
    for title, X in (("rows", A), ("flat", A.ravel()), ("more dimensions", A.reshape(2, 1, %(n)d))):
        V = f(X)
        __check__(title + ": kind", type(V).__name__ == "vec%(n)d" and V.shape == (2, %(n)d) and V.dtype == np.dtype(t))
        __same__(title + ": values", [list(V[i]) for i in range(2)], rows)
        __check__(title + ": a view", __shares__(V, X))
    for u in (np.float32, np.float64):
        B = A.copy()
        V = f(A, u)
        __check__("another type", type(V).__name__ == "vec%(n)d" and V.shape == (2, %(n)d) and V.dtype == u)
        __same__("another type: values", [list(V[i]) for i in range(2)], rows)
        V[0, 0] = 77
        __same__("another type: source left alone", A, B)
    V = f(rows)
    __check__("lists", type(V).__name__ == "vec%(n)d" and V.shape == (2, %(n)d))
    __same__("lists: values", [list(V[i]) for i in range(2)], rows)
    W = f(A)
    W[1, 0] = 77
    __same__("a view writes through", A[1, 0], 77)
'''
MAKE = '''
TYPES = {"b": np.uint8, "i": np.int32, "u": np.uint32, "h": np.float16, "": np.float32, "d": np.float64}
for p, t in TYPES.items():
    for n in (2, 3, 4):
        for module, kind, size in ((vec234, "vec", (n,)), (mat234, "mat", (n, n))):
            name = "%s%s%d" % (p, kind, n)
            f = getattr(module, name)
            __check__("reachable from the package: " + name, getattr(glm, name) == f)
            for a in (f(), f(None)):
                __check__(name + ": one", type(a).__name__ == "%s%d" % (kind, n) and a.shape == size and a.dtype == t)
            for c in (0, 1, 3, 7):
                a = f(c)
                __check__(name + ": array", type(a).__name__ == "%s%d" % (kind, n) and a.shape == (c,) + size and a.dtype == t)
                __check__(name + ": count by name", f(count=c).shape == (c,) + size)
            a, b = f(2), f(2)
            __check__(name + ": its own storage", not __shares__(a, b))
for name, t in (("byte", np.int8), ("ubyte", np.uint8), ("float", np.float32)):
    f = getattr(vec234, name)
    __check__(name + ": one", type(f()).__name__ == "scalar" and f().shape == () and f().dtype == t)
    __check__(name + ": array", type(f(3)).__name__ == "scalar" and f(3).shape == (3,) and f(3).dtype == t)
'''
TYPED = '''
from gsp_matplotlib.glm import ndarray as nd
for t in (np.uint8, np.int32, np.float32, np.float64, np.dtype("f2")):
    for n, v, m, vt, mt in ((2, nd.vec2, nd.mat2, nd.vec2_t, nd.mat2_t), (3, nd.vec3, nd.mat3, nd.vec3_t, nd.mat3_t), (4, nd.vec4, nd.mat4, nd.vec4_t, nd.mat4_t)):
        __check__("vector type", vt(t) == np.dtype((t, (n,))))
        __check__("matrix type", mt(t) == np.dtype((t, (n, n))))
        __check__("vector", v(dtype=t).shape == (n,) and v(5, t).shape == (5, n) and v(5, t).dtype == t)
        __check__("matrix", m(dtype=t).shape == (n, n) and m(5, t).shape == (5, n, n) and m(5, t).dtype == t)
    __check__("scalar", nd.scalar_t(t) == np.dtype(t) and nd.scalar(4, t).shape == (4,) and nd.scalar(4, t).dtype == t)
__check__("single precision by default", nd.vec2().dtype == np.float32 and nd.mat3(2).dtype == np.float32 and nd.scalar(2).dtype == np.float32)
'''

STORED = '''
from gsp_matplotlib.glm import ndarray as nd
for t in ("f4", "f8"):
    D = np.dtype(t)
    A = __arr__("A" + t, (48,), t)
    k = D.itemsize
    for K, size in ((nd.scalar, ()), (nd.vec2, (2,)), (nd.vec3, (3,)), (nd.vec4, (4,)), (nd.mat2, (2, 2)), (nd.mat3, (3, 3)), (nd.mat4, (4, 4))):
        n = int(np.prod(size)) if size else 1
        def compare(title, v, count, cells):
            __check__(title + ": kind", type(v) is K)
            __same__(title + ": shape", v.shape, ((count,) if count is not None else ()) + size)
            __check__(title + ": element type", v.dtype == D)
            __same__(title + ": values", [x for x in np.asarray(v).ravel()], [A[j] for j in cells])
            __check__(title + ": the storage given", __shares__(v, A))
        for c in (1, 2, 3):
            compare("storage", K(c, D, A), c, range(c * n))
            compare("storage by name", K(count=c, buffer=A, dtype=D), c, range(c * n))
            compare("part of it", K(c, D, A[5:]) if 5 + c * n <= 48 else K(1, D, A[5:]), c if 5 + c * n <= 48 else 1, range(5, 5 + (c if 5 + c * n <= 48 else 1) * n))
            if c < 3:
                compare("from an offset", K(c, D, A, 4 * k), c, range(4, 4 + c * n))
                compare("from an offset by name", K(c, D, buffer=A, offset=7 * k), c, range(7, 7 + c * n))
                step = n + 5
                compare("with strides", K(c, D, A, 3 * k, (step * k,)), c, [3 + i * step + j for i in range(c) for j in range(n)])
                compare("with strides by name", K(c, D, strides=(step * k,), buffer=A), c, [i * step + j for i in range(c) for j in range(n)])
            order = [int(j) for j in np.arange(c * n).reshape((c,) + size, order="F").ravel()]
            compare("in column order", K(c, D, A, 0, None, "F"), c, order)
            compare("in row order", K(c, D, A, order="C"), c, range(c * n))
        compare("one", K(None, D, A), None, range(n))
        compare("one, from an offset", K(dtype=D, buffer=A, offset=6 * k), None, range(6, 6 + n))
        v = K(2, D, A)
        v[1] = 5.0
        __same__("written through", [A[n + j] for j in range(n)], [5.0] * n)
        A[0] = 2.0
        __same__("and back", np.asarray(v).ravel()[0], 2.0)
        try:
            K(49, D, A)
        except TypeError:
            pass
        else:
            __fail__("storage too small must be refused")
'''


def clients(ctx):
    r = []
    for n in (2, 3, 4):
        r.append(Client("to_vec%d" % n, HEAD + TO % dict(n=n), "gsp_matplotlib/glm/vec234.py:to_vec%d" % n))
        r.append(Client("as_vec%d" % n, HEAD + AS % dict(n=n), "gsp_matplotlib/glm/vec234.py:as_vec%d" % n))
    r.append(Client("constructors", HEAD + MAKE, "gsp_matplotlib/glm/vec234.py:vec3"))
    r.append(Client("typed", HEAD + TYPED, "gsp_matplotlib/glm/ndarray/vectors.py:vec3"))
    r.append(Client("stored", HEAD + STORED, "gsp_matplotlib/glm/ndarray/vectors.py:vec3"))
    return r
