"""C31: matrix builders build the transformation they name."""
from ..run import Client

PROPERTY = "C31"
FLOOR = 690
EXPLANATION = (
    "Each builder is called on symbolic parameters and the matrix it returns is applied to symbolic points: translations, scalings, "
    "rotations (orthonormal, determinant one, axis, angle, sense), look-at, frustum, perspective, orthographic and viewport matrices "
    "(corners of the volume, line of sight), alignment. The transpose option, the element type, freshness of the result and the "
    "parameters being left alone are decided for each builder.")
HEAD = '''
import numpy as np
from math import sqrt, pi, cos, sin, tan
from gsp_matplotlib.glm import glm
def s(name, lo, hi): return __sym__(name, "float", lo, hi)
def vec(name, lo=-3.0, hi=3.0): return [s(name + c, lo, hi) for c in "xyz"]
def at(M, p):
    """homogeneous image of a point"""
    h = list(p) + [1.0] * (4 - len(p))
    return [sum([M[i, k] * h[k] for k in range(4)]) for i in range(4)]
def point(M, p):
    h = at(M, p)
    return [h[i] / h[3] for i in range(3)]
def dot(a, b): return sum([a[i] * b[i] for i in range(3)])
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def length(a): return sqrt(dot(a, a))
def rotation(title, M):
    R = [[M[i, j] for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3):
            __same__(title + ": orthonormal", dot(R[i], R[j]), 1.0 if i == j else 0.0)
    __same__(title + ": determinant one", dot(cross(R[0], R[1]), R[2]), 1.0)
    __same__(title + ": no translation or perspective", [M[0, 3], M[1, 3], M[2, 3], M[3, 0], M[3, 1], M[3, 2], M[3, 3]], [0.0] * 6 + [1.0])
p = vec("p")
'''
OPTIONS = '''
f = glm.%(f)s
M = f(%(a)s)
__check__("four by four", M.shape == (4, 4))
__check__("single precision unless asked otherwise", M.dtype == np.float32)
__check__("element type asked for", f(%(a)s, dtype=np.float64).dtype == np.float64)
__same__("element type does not change the matrix", f(%(a)s, dtype=np.float64), M)
T = f(%(a)s, transpose=True)
__check__("transpose has the type", T.dtype == np.float32 and f(%(a)s, dtype=np.float64, transpose=True).dtype == np.float64)
__same__("transpose is the transpose", [[T[j, i] for j in range(4)] for i in range(4)], [[M[i, j] for j in range(4)] for i in range(4)])
__same__("no transpose by default", f(%(a)s, transpose=False), M)
__same__("positional options", f(%(a)s, np.float32, True), T)
M[0, 0] = 99.0
M[3, 3] = 99.0
N = f(%(a)s)
__check__("a new matrix each time", not __shares__(M, N))
__same__("a new matrix each time", [[T[j, i] for j in range(4)] for i in range(4)], [[N[i, j] for j in range(4)] for i in range(4)])
'''
GOPTIONS = OPTIONS.replace('f = glm', 'g = glm').replace(' f(', ' g(').replace('(f(', '(g(')
AFFINE = '__same__("affine", [M[3, i] for i in range(4)], [0.0, 0.0, 0.0, 1.0])\n'
BODY = {
    "translate": '''
t = vec("t")
for v in (t, tuple(t), np.array(t)):
    M = glm.translate(v)
    __same__("moves a point by the vector", point(M, p), [p[i] + t[i] for i in range(3)])
    __same__("leaves directions alone", at(M, p[:3] + [0.0]), p + [0.0])
a = np.array(t)
glm.translate(a)
__same__("parameters left alone", a, t)
''' + AFFINE + OPTIONS % dict(f="translate", a="t"),
    "scale": '''
t = vec("t")
for v in (t, tuple(t), np.array(t)):
    M = glm.scale(v)
    __same__("scales each component by its factor", point(M, p), [p[i] * t[i] for i in range(3)])
''' + AFFINE + OPTIONS % dict(f="scale", a="t"),
    "viewport": '''
x, y, w, h, d = s("x", -9.0, 9.0), s("y", -9.0, 9.0), s("w", 1.0, 9.0), s("h", 1.0, 9.0), s("d", 0.5, 4.0)
M = glm.viewport(x, y, w, h, d)
for i in (-1.0, 1.0):
    for j in (-1.0, 1.0):
        for k in (-1.0, 1.0):
            __same__("corners of the cube", point(M, [i, j, k]), [x + w * (i + 1) / 2, y + h * (j + 1) / 2, d * (k + 1) / 2])
__same__("any point", point(M, p), [x + w * (p[0] + 1) / 2, y + h * (p[1] + 1) / 2, d * (p[2] + 1) / 2])
''' + AFFINE + OPTIONS % dict(f="viewport", a="x, y, w, h, d"),
    "ortho": '''
l, b, n = s("l", -5.0, 1.0), s("b", -5.0, 1.0), s("n", -2.0, 2.0)
r, t, f = l + s("w", 0.5, 4.0), b + s("h", 0.5, 4.0), n + s("d", 0.5, 9.0)
M = glm.ortho(l, r, b, t, n, f)
for i in (0, 1):
    for j in (0, 1):
        for k in (0, 1):
            __same__("corners of the box", point(M, [(l, r)[i], (b, t)[j], -(n, f)[k]]), [2.0 * i - 1, 2.0 * j - 1, 2.0 * k - 1])
__same__("any point", point(M, p), [2 * (p[0] - l) / (r - l) - 1, 2 * (p[1] - b) / (t - b) - 1, 2 * (-p[2] - n) / (f - n) - 1])
# mirrored: the bounds in the other order
l, b, n = s("l2", -1.0, 5.0), s("b2", -1.0, 5.0), s("n2", -2.0, 2.0)
r, t, f = l - s("w2", 0.5, 4.0), b - s("h2", 0.5, 4.0), n + s("d2", 0.5, 9.0)
M = glm.ortho(l, r, b, t, n, f)
for i in (0, 1):
    for j in (0, 1):
        for k in (0, 1):
            z = (n, f)[k]
            c = [(l, r)[i], (b, t)[j], -z]
            __same__("corners, mirrored", point(M, c), [2.0 * i - 1, 2.0 * j - 1, 2.0 * k - 1])
for args in ((0, 2, 0, 1, 0, 1), (-3, 5, -2, 2, 1, 4), (0, 8, 6, 0, 2, 3), (-1, 1, -1, 1, 1, 1000)):
    M = glm.ortho(*args)
    l, r, b, t, n, f = args
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                z = (n, f)[k]
                __same__("corners, whole numbers", point(M, [(l, r)[i], (b, t)[j], -z]), [2.0 * i - 1, 2.0 * j - 1, 2.0 * k - 1])
l, b, n = s("l", -5.0, 1.0), s("b", -5.0, 1.0), s("n", -2.0, 2.0)
r, t, f = l + s("w", 0.5, 4.0), b + s("h", 0.5, 4.0), n + s("d", 0.5, 9.0)
''' + AFFINE + GOPTIONS % dict(f="ortho", a="l, r, b, t, n, f"),
    "frustum": '''
l, b, n = s("l", -5.0, 1.0), s("b", -5.0, 1.0), s("n", 0.1, 2.0)
r, t, f = l + s("w", 0.5, 4.0), b + s("h", 0.5, 4.0), n + s("d", 0.5, 9.0)
M = glm.frustum(l, r, b, t, n, f)
for i in (0, 1):
    for j in (0, 1):
        for k in (0, 1):
            z = (n, f)[k]
            c = [(l, r)[i] * z / n, (b, t)[j] * z / n, -z]
            __same__("corners of the volume", point(M, c), [2.0 * i - 1, 2.0 * j - 1, 2.0 * k - 1])
            __same__("weight is the distance", at(M, c)[3], z)
z = s("z", 0.2, 9.0)
u, v = s("u", -1.0, 1.0), s("v", -1.0, 1.0)
c = [((r + l) / 2 + u * (r - l) / 2) * z / n, ((t + b) / 2 + v * (t - b) / 2) * z / n, -z]
__same__("a line through the eye is seen as a point", point(M, c)[:2], [u, v])
# mirrored: the bounds in the other order
l, b, n = s("l2", -1.0, 5.0), s("b2", -1.0, 5.0), s("n2", 0.1, 2.0)
r, t, f = l - s("w2", 0.5, 4.0), b - s("h2", 0.5, 4.0), n + s("d2", 0.5, 9.0)
M = glm.frustum(l, r, b, t, n, f)
for i in (0, 1):
    for j in (0, 1):
        for k in (0, 1):
            z = (n, f)[k]
            c = [(l, r)[i] * z / n, (b, t)[j] * z / n, -z]
            __same__("corners, mirrored", point(M, c), [2.0 * i - 1, 2.0 * j - 1, 2.0 * k - 1])
for args in ((0, 2, 0, 1, 1, 2), (-3, 5, -2, 2, 1, 4), (0, 8, 6, 0, 2, 3), (-1, 1, -1, 1, 1, 1000)):
    M = glm.frustum(*args)
    l, r, b, t, n, f = args
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                z = (n, f)[k]
                __same__("corners, whole numbers", point(M, [(l, r)[i] * z / n, (b, t)[j] * z / n, -z]), [2.0 * i - 1, 2.0 * j - 1, 2.0 * k - 1])
l, b, n = s("l", -5.0, 1.0), s("b", -5.0, 1.0), s("n", 0.1, 2.0)
r, t, f = l + s("w", 0.5, 4.0), b + s("h", 0.5, 4.0), n + s("d", 0.5, 9.0)
''' + GOPTIONS % dict(f="frustum", a="l, r, b, t, n, f"),
    "perspective": '''
a, q, n = s("a", 2.0, 175.0), s("q", 0.3, 3.0), s("n", 0.1, 2.0)
f = n + s("d", 0.5, 9.0)
M = glm.perspective(a, q, n, f)
for k in (0, 1):
    z = (n, f)[k]
    __same__("near and far planes", point(M, [0.0, 0.0, -z]), [0.0, 0.0, 2.0 * k - 1])
    __same__("half the field of view is seen at the top", point(M, [0.0, z * tan(a * pi / 360), -z])[:2], [0.0, 1.0])
    __same__("and at the bottom", point(M, [0.0, -z * tan(a * pi / 360), -z])[:2], [0.0, -1.0])
    __same__("the aspect is the width of the view by its height", point(M, [q * z * tan(a * pi / 360), 0.0, -z])[:2], [1.0, 0.0])
    __same__("and to the left", point(M, [-q * z * tan(a * pi / 360), 0.0, -z])[:2], [-1.0, 0.0])
h = n * tan(a * pi / 360)
__same__("the frustum of the field of view", M, glm.frustum(-h * q, h * q, -h, h, n, f))
''' + GOPTIONS % dict(f="perspective", a="a, q, n, f"),
    "lookat": '''
eye, center = vec("e"), [2.0 + x for x in vec("c", 3.0, 6.0)]
up = [s("ux", 0.5, 1.0), s("uy", -1.0, 1.0), s("uz", 3.0, 5.0)]
center = [center[0], center[1], eye[2]]
M = glm.lookat(eye, center, up)
d = length([center[i] - eye[i] for i in range(3)])
__same__("the eye is the origin", point(M, eye), [0.0, 0.0, 0.0])
__same__("the center is straight ahead", point(M, center), [0.0, 0.0, -d])
u = at(M, up + [0.0])
__same__("up is neither left nor right", u[0], 0.0)
__check__("up is up", u[1] > 0)
R = [[M[i, j] for j in range(3)] for i in range(3)]
for i in range(3):
    for j in range(3):
        __same__("rigid", dot(R[i], R[j]), 1.0 if i == j else 0.0)
__same__("not mirrored", dot(cross(R[0], R[1]), R[2]), 1.0)
__same__("defaults: seen from above the z axis, looking at the origin", glm.lookat(up=up), glm.lookat((0, 0, 4.5), (0, 0, 0), up))
A = [np.array(eye), np.array(center), np.array(up)]
__same__("arrays", glm.lookat(*A), M)
__same__("parameters left alone", A, [eye, center, up])
''' + AFFINE + OPTIONS % dict(f="lookat", a="eye, center, up"),
    "rotate": '''
a = s("a", -720.0, 720.0)
n = vec("n", 0.5, 3.0)
M = glm.rotate(a, n)
rotation("rotate", M)
__same__("the axis stays", point(M, n), n)
q = cross(n, p)
r = point(M, q)
__same__("turns by the angle", dot(q, r), dot(q, q) * cos(a * pi / 180))
__same__("in the positive sense", dot(cross(q, r), n), dot(q, q) * length(n) * sin(a * pi / 180))
__same__("length of the axis does not matter", glm.rotate(a, [2.5 * x for x in n]), M)
for v in (tuple(n), np.array(n)):
    __same__("axis given otherwise", glm.rotate(a, v), M)
for e, g in (((1, 0, 0), glm.xrotate), ((0, 1, 0), glm.yrotate), ((0, 0, 1), glm.zrotate)):
    __same__("agrees with the rotation about an axis of coordinates", glm.rotate(a, e), g(a))
    __same__("and the opposite one", glm.rotate(a, [-x for x in e]), g(-a))
k = np.array(n)
glm.rotate(a, k)
__same__("parameters left alone", k, n)
''' + AFFINE + OPTIONS % dict(f="rotate", a="a, n"),
    "align": '''
U, V = vec("u", 0.5, 3.0), vec("v", -3.0, 3.0)
M = glm.align(U, V)
rotation("align", M)
w = point(M, U)
__same__("the first vector gets the direction of the second", [x / length(U) for x in w], [x / length(V) for x in V])
q = cross(U, V)
__same__("turns in their plane", point(M, q), q)
__same__("length does not matter", glm.align([2 * x for x in U], [0.5 * x for x in V]), M)
A, B = np.array(U), np.array(V)
__same__("arrays", glm.align(A, B), M)
__same__("parameters left alone", [A, B], [U, V])
''' + AFFINE + OPTIONS % dict(f="align", a="U, V"),
    "align_parallel": '''
for U in ((1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (0.0, 0.0, 3.0), (0.0, 0.0, -1.0), (0.0, 3.0, 4.0), (3.0, 0.0, -4.0), (-4.0, 3.0, 0.0)):
    for f in (1.0, 2.0, -1.0, -0.5):
        M = glm.align(U, [f * x for x in U])
        rotation("align", M)
        e = 1.0 if f > 0 else -1.0
        __same__("the first vector gets the direction of the second", point(M, U), [e * x for x in U])
''',
    "normalize": '''
V = np.array([vec("a"), vec("b"), vec("c")])
W = V.copy()
N = glm.normalize(V)
__same__("left alone", V, W)
for i in range(3):
    __same__("unit length", dot(N[i], N[i]), 1.0)
    __same__("same direction", [x * length(V[i]) for x in N[i]], list(V[i]))
n = glm.normalize(vec("d"))
__same__("one vector", [dot(n, n), n.shape], [1.0, (3,)])
Q = glm.normalize(np.array([[vec("a"), vec("b")], [vec("c"), vec("d")]]))
__same__("more dimensions", [dot(Q[i, j], Q[i, j]) for i in (0, 1) for j in (0, 1)], [1.0] * 4)
__same__("nothing to normalize", glm.normalize(np.array([0.0, 0.0, 0.0])), [0.0, 0.0, 0.0])
''',
    "clamp": '''
V = np.array([vec("a"), vec("b")])
for lo, hi in ((0, 1), (-1.0, 2.5), (s("lo", -2.0, 0.0), s("hi", 0.5, 2.0))):
    C = glm.clamp(V, lo, hi)
    for i in range(2):
        for j in range(3):
            __same__("clamped", C[i, j], lo if V[i, j] < lo else (hi if V[i, j] > hi else V[i, j]))
__same__("between zero and one", glm.clamp(V), glm.clamp(V, 0, 1))
''',
    "frontback": '''
T = np.array([[vec("a"), vec("b"), vec("c")], [vec("d"), vec("e"), vec("f")]])
F, B = glm.frontback(T)
for i in range(2):
    a, b, c = T[i]
    area = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
    __check__("front faces turn counterclockwise", bool(F[i]) == (area > 0))
    __check__("the others are back faces", bool(B[i]) == (not F[i]))
flat = np.array([[[1.0, 1.0, 0.0], [2.0, 2.0, 5.0], [3.0, 3.0, 0.0]]])
F, B = glm.frontback(flat)
__check__("a face seen from the side is on one side only", bool(F[0]) != bool(B[0]))
''',
    "fit": '''
V = np.array([vec("a"), vec("b"), vec("c"), vec("d")])
W = V.copy()
F = glm.fit(V)
__same__("left alone", V, W)
sides = [max(V[:, i]) - min(V[:, i]) for i in range(3)]
k = 2 / max(sides)
for i in range(3):
    __same__("centered", max(F[:, i]) + min(F[:, i]), 0.0)
    for j in range(1, 4):
        __same__("same shape, the largest side is that of the cube", F[j, i] - F[0, i], (V[j, i] - V[0, i]) * k)
''',
    "center": '''
V = np.array([vec("a"), vec("b"), vec("c"), vec("d")])
W = V.copy()
C = glm.center(V)
__same__("left alone", V, W)
for i in range(3):
    __same__("centered", max(C[:, i]) + min(C[:, i]), 0.0)
    for j in range(1, 4):
        __same__("same shape", C[j, i] - C[0, i], V[j, i] - V[0, i])
''',
    "camera": '''
for mode in ("ortho", "perspective"):
    for a, b in ((0, 0), (25, 45), (90, 90)):
        for zoom in (0.5, 1, 2.0):
            M = glm.camera(a, b, zoom, mode)
            P = glm.ortho(-1, 1, -1, 1, 1, 100) if mode == "ortho" else glm.perspective(25, 1, 1, 100)
            W = P @ glm.translate((0, 0, -4.5)) @ glm.scale((zoom, zoom, zoom)) @ glm.xrotate(a) @ glm.yrotate(b)
            __same__("the projection of the view of the scaled, turned model", M, W)
x, y, z = s("x", 0.0, 90.0), s("y", 0.0, 90.0), s("z", 0.1, 5.0)
M = glm.camera(x, y, z, "ortho")
__same__("any angles and zoom", M, glm.ortho(-1, 1, -1, 1, 1, 100) @ glm.translate((0, 0, -4.5)) @ glm.scale((z, z, z)) @ glm.xrotate(x) @ glm.yrotate(y))
__same__("angles and zoom are limited", glm.camera(x + 91, y - 91, z - 6, "ortho"),
         glm.ortho(-1, 1, -1, 1, 1, 100) @ glm.translate((0, 0, -4.5)) @ glm.scale((0.1, 0.1, 0.1)) @ glm.xrotate(90) @ glm.yrotate(0))
__same__("perspective unless told otherwise", glm.camera(x, y, z), glm.camera(x, y, z, "perspective"))
__same__("defaults", glm.camera(), glm.camera(25, 45, 1, "perspective"))
'''}
for _n, _i in (("x", 0), ("y", 1), ("z", 2)):
    BODY[_n + "rotate"] = '''
a = s("a", -720.0, 720.0)
f = glm.%(n)srotate
M = f(a)
rotation("%(n)srotate", M)
e = [1.0 if i == %(i)d else 0.0 for i in range(3)]
__same__("the axis stays", point(M, e), e)
q = cross(e, p)
r = point(M, q)
__same__("turns by the angle", dot(q, r), dot(q, q) * cos(a * pi / 180))
__same__("in the positive sense", dot(cross(q, r), e), dot(q, q) * sin(a * pi / 180))
b = s("b", -360.0, 360.0)
__same__("angles add", f(a) @ f(b), f(a + b))
__same__("nothing by default", f(), f(0))
__same__("no turn", f(0), np.eye(4))
''' % dict(n=_n, i=_i) + AFFINE + OPTIONS % dict(f=_n + "rotate", a="a")


def clients(ctx):
    return [Client(n, HEAD + b, "gsp_matplotlib/glm/glm.py:" + n.split("_")[0]) for n, b in BODY.items()]
