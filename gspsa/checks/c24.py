"""C24: projection of positions."""
from ..run import Client
from .drawfrag import DRAW, MAT
from .c22 import ATTRS, FIXED, KIND, SIZE, scene

PROPERTY = "C24"
FLOOR = 200
EXPLANATION = (
    "For each visual and every combination of given matrices (symbolic 4 x 4, not affine): each drawn vertex is the image of "
    "the element's vertex under projection * view * model divided by its weight; two-component positions stand for depth zero; "
    "matrices stay in force until replaced, also on resize; the projected positions exposed as output are those of the "
    "elements in their own order; rendering leaves matrices and positions as they were.")

GOT = '''
def vertices(c, n):
    """drawn vertices, by drawing order"""
    if KIND == "PathCollection":
        o = __xget__(c, "@offsets")
        __check__("one offset per element", len(o) == n)
        return [[o[k]] for k in range(n)]
    o = __xget__(c, "@paths")
    __check__("one shape per element", len(o) == n)
    return [o[k] for k in range(n)]

def compare(title, c, E, T):
    pts = [[image(p, T) for p in e] for e in E]
    order = far_first([centre(e)[2] for e in pts])
    got = vertices(c, len(E))
    for k in range(len(E)):
        __same__(title + ": image of the vertices", got[k], pick([[p[:2] for p in e] for e in pts], order, k))

def outputs(title, v, E, T):
    o = np.asarray(v.get_variable("screen[positions]")).reshape(-1, 3)
    pts = [image(p, T) for e in E for p in e]
    for i in range(len(pts)):
        __same__(title + ": output", o[i, :2], pts[i][:2])
'''


def clients(ctx):
    out = []
    for cls in ATTRS:
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        m, kind = SIZE[cls], KIND[cls]
        head = DRAW + MAT + "KIND = %r\n" % kind + GOT
        n = 3
        el = "list(P)" if cls == "Segments" else "[list(P[i * %d:(i + 1) * %d]) for i in range(%d)]" % (m, m, n)
        pre, args, want = scene(cls, n, "one")
        pre += "M0, V0, J0 = [list(x) for x in M], [list(x) for x in V], [list(x) for x in J]\nP0 = P + 0.0\n"
        for a in ("None", "M"):
            for b in ("None", "V"):
                for c in ("None", "J"):
                    t = "I4"
                    for x in (a, b, c):
                        if x != "None":
                            t = x + "0" if t == "I4" else "product(%s0, %s)" % (x, t)
                    out.append(Client("%s_%s%s%s" % (cls, a[0], b[0], c[0]), head + pre + """
v = visual.%s(P, %s)
E, T = %s, %s
v.render(viewport, model=%s, view=%s, proj=%s)
c, = __ext__(KIND)
compare("given", c, E, T)
outputs("given", v, E, T)
v.render(viewport)
compare("kept", c, E, T)
for f in __callbacks__("resize_event"):
    f(None)
compare("kept on resize", c, E, T)
v.render(viewport2)
compare("kept in another viewport", __ext__(KIND)[1], E, T)
__same__("model kept", M, M0)
__same__("view kept", V, V0)
__same__("projection kept", J, J0)
__same__("positions kept", P, P0)
""" % (cls, args, el, t, a, b, c), where))
        out.append(Client("%s_replaced" % cls, head + pre + """
v = visual.%s(P, %s)
E = %s
M2 = __arr__("M2", (4, 4), None, 0.25, 2.0)
V2 = __arr__("V2", (4, 4), None, 0.25, 2.0)
J2 = __arr__("J2", (4, 4), None, 0.25, 2.0)
v.render(viewport, M, V, J)
c, = __ext__(KIND)
v.render(viewport, model=M2)
compare("model replaced", c, E, product(J, product(V, M2)))
v.render(viewport, None, V2)
compare("view replaced", c, E, product(J, product(V2, M2)))
v.render(viewport, None, None, J2)
compare("projection replaced", c, E, product(J2, product(V2, M2)))
outputs("replaced", v, E, product(J2, product(V2, M2)))
v.render(viewport, M, V, J)
compare("all replaced", c, E, product(J, product(V, M)))
Z3 = np.diag([2.0, 0.5, 3.0, 1.0])
for title, I in (("identity", np.eye(4)), ("integer identity", np.eye(4, dtype=int)), ("single precision identity", np.eye(4, dtype="f4")),
                 ("scaling", Z3), ("negative", -Z3)):
    v.render(viewport, M, V, J)
    v.render(viewport, I, V)
    compare(title + " in place of the model", c, E, product(J, product(V, I)))
    v.render(viewport, M, I, None)
    compare(title + " in place of the view", c, E, product(J, product(I, M)))
    v.render(viewport, M, V, I)
    compare(title + " in place of the projection", c, E, product(I, product(V, M)))
    v.render(viewport, model=I, view=I)
    compare(title + " twice", c, E, product(I, product(I, I)))
    v.render(viewport2)
    compare(title + " kept in another viewport", __ext__(KIND)[1], E, product(I, product(I, I)))
v.render(viewport, M, V, J)
compare("all replaced again", c, E, product(J, product(V, M)))
w = visual.%s(P, %s)
w.render(viewport)
compare("another visual", __ext__(KIND)[2], E, I4)
compare("the first one", c, E, product(J, product(V, M)))
""" % (cls, args, el, cls, args), where))
        # two components
        shape = "(%d, 2, 2)" % n if cls == "Segments" else "(%d, 2)" % (n * m)
        out.append(Client("%s_flat" % cls, head + pre + """
P = __arr__("P2", %s, "f4", -2.0, 2.0)
v = visual.%s(P, %s)
E, T = %s, product(J, product(V, M))
v.render(viewport, M, V, J)
c, = __ext__(KIND)
compare("two components", c, E, T)
outputs("two components", v, E, T)
""" % (shape, cls, args, el), where))
        # a matrix that is not a plain array
        out.append(Client("%s_mat4" % cls, head + pre + """
from gsp_matplotlib import glm
glm.ndarray.tracked.__tracker_class__ = None
t, s = __sym__("t", "float", 0.5, 2.0), __sym__("s", "float", 0.5, 2.0)
Tm, Sm = glm.translate((t, s, 0.5)), glm.scale((s, t, 2.0))
v = visual.%s(P, %s)
E = %s
v.render(viewport, Tm, Sm)
c, = __ext__(KIND)
compare("translated then scaled", c, [[[s * (p[0] + t), t * (p[1] + s), 2.0 * (p[2] + 0.5)] for p in e] for e in E], I4)
""" % (cls, args, el), where))
        if cls in ("Pixels", "Points", "Markers"):
            out.append(Client("%s_transform" % cls, head + pre + """
q = __sym__("q", "float", 0.5, 2.0)
v = visual.%s(P * q, %s)
w = visual.%s(Add(P, q), %s)
v.render(viewport, M, V, J)
w.render(viewport, M, V, J)
T = product(J, product(V, M))
a, b = __ext__(KIND)
compare("scaled", a, [[[x * q for x in p] for p in e] for e in %s], T)
compare("positions given by a transform", b, [[[x + q for x in p] for p in e] for e in %s], T)
""" % (cls, args, cls, args, el, el), where))
    out.append(Client("matrix_objects", """
import numpy as np
from gsp.core import Matrix
A = __arr__("A", (4, 4), "f8", -9.0, 9.0)
rows = [[x for x in r] for r in A]
flat = [x for r in rows for x in r]
for title, data in (("an array", A), ("a flat array", A.ravel()), ("rows", rows), ("tuples", tuple([tuple(r) for r in rows])),
                    ("sixteen numbers", flat), ("a tuple", tuple(flat)), ("single precision", A.astype("f4")), ("a transposed view", A.T)):
    M = np.asarray(Matrix(data))
    want = [[rows[c][r] for c in range(4)] for r in range(4)] if title == "a transposed view" else rows
    __same__("from " + title, [[x for x in r] for r in M], want)
    __check__("4x4 floats from " + title, M.shape == (4, 4) and __dtype__(M) == np.dtype("f4"))
    __check__("a copy of " + title, not __isarr__(data) or not __shares__(M, data))
M = np.asarray(Matrix(list(range(16))))
__same__("from integers", M.tolist(), [[4.0 * r + c for c in range(4)] for r in range(4)])
__check__("floats from integers", __dtype__(M) == np.dtype("f4"))
T = Matrix(A)
A[0, 0] = 0.5
__same__("keeps its values", [[x for x in r] for r in np.asarray(T)], rows)
""", "gsp/core/types.py:Matrix"))
    return out
