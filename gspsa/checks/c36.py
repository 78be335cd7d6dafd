"""C36: the trackball yields rotations and remembers its angles."""
from ..run import Client

PROPERTY = "C36"
FLOOR = 100
EXPLANATION = (
    "The matrix of a trackball is computed in the analysis as an expression of the angles and of the drags. The expressions are compared "
    "with those of a rotation (orthogonal, determinant 1), with the product of the elementary rotations, with the pose before a drag "
    "and its way back, with the rotation that carries the point seized to the point reached, and with the angles set.")

HEAD = '''
import math
import numpy as np
from gsp_matplotlib import glm
def rows(M):
    return [[M[i, j] for j in range(4)] for i in range(4)]
def mul(A, B):
    return [[sum([A[i][k] * B[k][j] for k in range(4)]) for j in range(4)] for i in range(4)]
def det3(A):
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
            + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))
I4 = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
def rotation(title, t):
    M = rows(t.model)
    T = [[M[j][i] for j in range(4)] for i in range(4)]
    __same__(title + ": orthogonal", mul(M, T), I4)
    __same__(title + ": determinant", det3(M), 1)
    __same__(title + ": no translation", [M[3], T[3]], [[0, 0, 0, 1], [0, 0, 0, 1]])
    __check__(title + ": shape", t.model.shape == (4, 4))
def about_x(a):
    c, s = math.cos(a * math.pi / 180), math.sin(a * math.pi / 180)
    return [[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1]]
def about_z(a):
    c, s = math.cos(a * math.pi / 180), math.sin(a * math.pi / 180)
    return [[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
def posed(t, theta, phi):
    return mul(about_z(phi), about_x(theta))
'''
SYM = {"any": ('__sym__("theta", "float", -175.0, 175.0)', '__sym__("phi", "float", -175.0, 175.0)'),
       "integers": ('__sym__("theta", "int", -179, 180)', '__sym__("phi", "int", -179, 180)'),
       "quarter": ("90", '__sym__("phi", "float", -175.0, 175.0)'), "quarter_z": ('__sym__("theta", "float", -175.0, 175.0)', "-90.0"),
       "null": ("0", "0"), "half": ("180", "90")}


def clients(ctx):
    r = []
    thorough = getattr(ctx, "tier", "quick") == "thorough"
    where = "gsp_matplotlib/glm/trackball.py:Trackball"
    for name, (a, b) in SYM.items():
        r.append(Client("angles_" + name, HEAD + '''
theta, phi = %s, %s
t = glm.Trackball(theta, phi)
rotation("posed", t)
__same__("composition of the two rotations", rows(t.model), posed(t, theta, phi))
__same__("angles are those given", [t.theta, t.phi], [theta, phi])
__same__("reading changes nothing", rows(t.model), posed(t, theta, phi))
k = glm.Trackball(phi=phi, theta=theta)
__same__("by name", rows(k.model), rows(t.model))
u = glm.Trackball(20, 30)
u.theta = theta
__same__("theta set", [u.theta, u.phi, rows(u.model)], [theta, 30, posed(u, theta, 30)])
u.phi = phi
__same__("phi set", [u.theta, u.phi, rows(u.model)], [theta, phi, posed(u, theta, phi)])
u.theta = -10
__same__("theta set again", [u.theta, u.phi, rows(u.model)], [-10, phi, posed(u, -10, phi)])
__same__("trackballs are independent", [t.theta, rows(t.model)], [theta, posed(t, theta, phi)])
v = glm.Trackball()
__same__("default pose", [v.theta, v.phi, rows(v.model)], [0, 0, I4])
v.phi = 360.0 + phi
__same__("a turn more", rows(v.model), posed(v, 0, phi))
''' % (a, b), where))
    # drags: (name, x, y, dx, dy)
    zones = [("inside", 0.0, 0.2, -0.2, 0.2, 0.0), ("centre", None, None, -0.3, 0.3, 0.0), ("outside", 0.7, 1.0, 0.01, 0.3, 0.0),
             ("across", 0.0, 0.3, 0.5, 0.7, 0.0), ("corner", -1.0, -0.7, 0.2, 1.9, 0.0), ("anywhere", -1.0, 1.0, -1.0, 1.0, 0.0)]
    poses = [("", "glm.Trackball()"), ("_posed", 'glm.Trackball(__sym__("theta", "float", -89.0, 89.0), __sym__("phi", "float", -89.0, 89.0))')]
    for zone, lo, hi, dlo, dhi, _ in zones:
        for pname, make in poses:
            def pt(q, i):
                return "0.0" if lo is None else '__sym__("%s%d", "float", %r, %r)' % (q, i, lo, hi)

            def mv(q, i):
                return '__sym__("d%s%d", "float", %r, %r)' % (q, i, dlo, dhi)
            drag = ", ".join([pt("x", 1), pt("y", 1), mv("x", 1), mv("y", 1)])
            r.append(Client("drag_%s%s" % (zone, pname), HEAD + '''
t = %s
before = rows(t.model)
kept = t.model
x, y, dx, dy = %s
t.drag_to(x, y, dx, dy)
rotation("after a drag", t)
after = rows(t.model)
__same__("the matrix read before is left alone", rows(kept), before)
u = glm.Trackball()
u.drag_to(x, y, dx, dy)
__same__("the drag turns the pose", after, mul(before, rows(u.model)))
t.drag_to(x, y, 0, 0)
__same__("a null drag", rows(t.model), after)
t.drag_to(x + dx, y + dy, -dx, -dy)
__same__("and back", rows(t.model), before)
rotation("after three drags", t)
''' % (make, drag), where))
    r.append(Client("carried", HEAD + '''
def lift(x, y):
    return [x, y, math.sqrt(0.64 - x * x - y * y), 1]
t = glm.Trackball()
x, y = __sym__("x", "float", -0.2, 0.2), __sym__("y", "float", -0.2, 0.2)
dx, dy = __sym__("dx", "float", -0.19, 0.19), __sym__("dy", "float", -0.19, 0.19)
t.drag_to(x, y, dx, dy)
M = rows(t.model)
p = lift(x, y)
__same__("the point seized goes to the point reached", [sum([p[i] * M[i][j] for i in range(4)]) for j in range(4)], lift(x + dx, y + dy))
''', where))
    r.append(Client("angles_after_drags", HEAD + '''
t = glm.Trackball(__sym__("theta", "float", -60.0, 60.0), __sym__("phi", "float", -170.0, 170.0))
y, dy = __sym__("y", "float", -0.2, 0.2), __sym__("dy", "float", -0.25, 0.25)
for k in range(3):
    t.drag_to(0, y, 0, dy)
    u = glm.Trackball(t.theta, t.phi)
    __same__("the angles read are those of the pose dragged to", rows(u.model), rows(t.model))
    t.theta = 12.5
    __same__("theta set after a drag", [t.theta, rows(t.model)], [12.5, posed(t, 12.5, u.phi)])
    t.phi = __sym__("phi2", "float", -170.0, 170.0)
    __same__("phi set after a drag", [t.theta, rows(t.model)], [12.5, posed(t, 12.5, __sym__("phi2", "float", -170.0, 170.0))])
    t.drag_to(0, y, 0, -dy)
    __same__("phi kept by a drag up or down", t.phi, __sym__("phi2", "float", -170.0, 170.0))
''', where))
    for zone, lo, hi in (("inside", -0.35, 0.35), ("outside", 0.6, 1.0), ("anywhere", -1.0, 1.0)):
        r.append(Client("turns_" + zone, HEAD + '''
def lift(x, y):
    """on the ball, or on the hyperbolic sheet which continues it"""
    d = math.sqrt(x * x + y * y)
    return math.sqrt(0.64 - d * d) if d < 0.8 * math.sqrt(0.5) else 0.32 / d
lo, hi = %r, %r
x, y = __sym__("x", "float", lo, hi), __sym__("y", "float", lo, hi)
u, v = __sym__("u", "float", lo, hi), __sym__("v", "float", lo, hi)
t = glm.Trackball()
t.drag_to(x, y, u - x, v - y)
M = rows(t.model)
p, q = [x, y, lift(x, y)], [u, v, lift(u, v)]
a = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
__same__("turns about the axis across both points", [sum([a[i] * M[i][j] for i in range(3)]) for j in range(3)], a)
chord = math.sqrt(sum([(p[i] - q[i]) ** 2 for i in range(3)])) / 1.6
__same__("by the angle between them", M[0][0] + M[1][1] + M[2][2], 3 - 4 * min(1.0, chord) ** 2)
''' % (lo, hi), where))
    r.append(Client("opposite", HEAD + '''
d = __sym__("d", "float", 0.01, 0.5)
for a, b in ((0, 1), (1, 0), (1, 1)):
    t, u = glm.Trackball(), glm.Trackball()
    t.drag_to(0, 0, a * d, b * d)
    u.drag_to(0, 0, -a * d, -b * d)
    __same__("opposite drags turn in opposite senses", mul(rows(t.model), rows(u.model)), I4)
t, u = glm.Trackball(), glm.Trackball()
t.drag_to(0, 0, d, 0)
M = t.model
__check__("to the right: the near point goes right", M[2, 0] > 0)
u.drag_to(0, 0, 0, d)
M = u.model
__check__("upwards: the near point goes up", M[2, 1] > 0)
''', where))
    # the quaternion is normalized every 97 drags
    for n in ((96, 97, 98, 99) if not thorough else (50, 96, 97, 98, 99, 150, 197, 198, 300)):
        r.append(Client("many_%d" % n, HEAD + '''
t = glm.Trackball(25, -35)
for i in range(%d):
    t.drag_to(0.1 + 0.001 * i, -0.2, 0.05, 0.01 * (i %% 7))
before = rows(t.model)
t.drag_to(__sym__("x", "float", -0.2, 0.2), __sym__("y", "float", -0.2, 0.2), __sym__("dx", "float", -0.2, 0.2), 0.1)
rotation("after many drags", t)
u = glm.Trackball()
u.drag_to(__sym__("x", "float", -0.2, 0.2), __sym__("y", "float", -0.2, 0.2), __sym__("dx", "float", -0.2, 0.2), 0.1)
__same__("still turns the pose", rows(t.model), mul(before, rows(u.model)))
t.theta = __sym__("theta", "float", -175.0, 175.0)
rotation("theta set after drags", t)
__same__("theta set after drags", t.theta, __sym__("theta", "float", -175.0, 175.0))
''' % n, where))
    return r
