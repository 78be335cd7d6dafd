"""C29: the enumerations of the protocol and what the backend makes of their members."""
from ..run import Client
from .c22 import scene, KIND
from .drawfrag import DRAW

PROPERTY = "C29"
FLOOR = 400
EXPLANATION = (
    "Every member of Marker, LineCap, LineJoin and LineStyle: its number is its own, number and name lead to each other; every "
    "marker has an outline of its own, having the geometric features its name says, drawn by Markers for that type alone whether "
    "the type is given by name, by number, for all elements or for each; every cap, join and style given to a visual has its own "
    "effect on what is drawn, the same by name and by number.")

ENUMS = {"Marker": ["point", "triangle", "square", "minus", "plus", "cross", "star", "club", "heart", "spade", "diamond", "arrow"],
         "LineCap": ["butt", "round", "cap"], "LineJoin": ["miter", "round", "bevel"],
         "LineStyle": ["solid"] + [p + s for s in ("dotted", "dashed", "dashdotted", "dashdotdotted")
                                   for p in ("", "densely_", "loosely_")]}
NAMES = '''
from gsp.core.types import Marker, LineCap, LineJoin, LineStyle
members = list(%(e)s)
names = %(n)r
for name in names:
    __check__("every name documented exists", hasattr(%(e)s, name) and isinstance(getattr(%(e)s, name), %(e)s))
__check__("as many members as names", len(members) == len(names) == len(set(names)))
__check__("every member has its own number", len(set([int(m) for m in members])) == len(members))
for m in members:
    __check__("the number of a member leads to it", %(e)s(int(m)) is m and m == int(m) and m.value == int(m))
    __check__("the name of a member leads to it", %(e)s[m.name] is m and getattr(%(e)s, m.name) is m)
    __check__("one name for a number", [x.name for x in members if x == int(m)] == [m.name])
'''
SHAPES = '''
from gsp.core.types import Marker
from matplotlib.path import Path
def outline(m):
    p = Marker.path(m)
    V = [(float(v[0]), float(v[1])) for v in np.asarray(p.vertices)]
    K = [int(c) for c in p.codes]
    __check__(m.name + ": a code for each vertex", len(V) == len(K) and len(V) > 2)
    __check__(m.name + ": the outline starts somewhere", K[0] == Path.MOVETO)
    __check__(m.name + ": one outline", Path.MOVETO not in K[1:])
    return V, K
def near(a, b):
    return abs(a - b) < 1e-6
def nodes(V):
    R = []
    for v in V:
        if not any([near(v[0], r[0]) and near(v[1], r[1]) for r in R]):
            R.append(v)
    return R
def edges(R):
    return [(R[(i + 1) % len(R)][0] - R[i][0], R[(i + 1) % len(R)][1] - R[i][1]) for i in range(len(R))]
def right(e):
    return near(e[0], 0.0) or near(e[1], 0.0)
O = dict([(m, outline(m)) for m in Marker])
def straight(m):
    return all([c in (Path.MOVETO, Path.LINETO, Path.CLOSEPOLY) for c in O[m][1]])
def box(V):
    X = [v[0] for v in V]
    Y = [v[1] for v in V]
    return min(X), max(X), min(Y), max(Y)
'''
FACTS = {
    "extent": '''
for m in Marker:
    a, b, c, d = box(O[m][0])
    __check__(m.name + ": inside the unit square", a >= -0.5 - 1e-6 and c >= -0.5 - 1e-6 and b <= 0.5 + 1e-6 and d <= 0.5 + 1e-6)
    __check__(m.name + ": as large as the unit square", near(max(b - a, d - c), 1.0) or max(b - a, d - c) > 0.7)
''',
    "distinct": '''
M = list(Marker)
for i in range(len(M)):
    for j in range(i):
        a, b = O[M[i]], O[M[j]]
        __check__("no two markers share a shape", len(a[0]) != len(b[0]) or a[1] != b[1] or not all([near(x[0], y[0]) and near(x[1], y[1]) for x, y in zip(a[0], b[0])]))
''',
    "polygons": '''
for m, n in ((Marker.triangle, 3), (Marker.square, 4), (Marker.minus, 4), (Marker.plus, 12), (Marker.cross, 12), (Marker.star, 10), (Marker.diamond, 4), (Marker.arrow, 9)):
    __check__(m.name + " is made of straight lines", straight(m))
    __check__(m.name + " has %d corners" % n, len(nodes(O[m][0])) == n)
for m in (Marker.point, Marker.club, Marker.heart, Marker.spade):
    __check__(m.name + " has curves", not straight(m))
''',
    "geometry": '''
R = nodes(O[Marker.square][0])
E = edges(R)
__check__("square: right angles", all([right(e) for e in E]))
__check__("square: equal sides", all([near(abs(e[0]) + abs(e[1]), abs(E[0][0]) + abs(E[0][1])) for e in E]))
R = nodes(O[Marker.minus][0])
__check__("minus: right angles", all([right(e) for e in edges(R)]))
a, b, c, d = box(R)
__check__("minus: wider than tall", b - a > 1.5 * (d - c))
for m in (Marker.plus, Marker.cross):
    R = nodes(O[m][0])
    a, b, c, d = box(R)
    x, y = (a + b) / 2, (c + d) / 2
    __check__(m.name + ": unchanged by a quarter turn", all([any([near(x - (r[1] - y), s[0]) and near(y + (r[0] - x), s[1]) for s in R]) for r in R]))
__check__("plus: right angles", all([right(e) for e in edges(nodes(O[Marker.plus][0]))]))
__check__("cross: no horizontal or vertical side", not any([right(e) for e in edges(nodes(O[Marker.cross][0]))]))
R = nodes(O[Marker.diamond][0])
__check__("diamond: no horizontal or vertical side", not any([right(e) for e in edges(R)]))
a, b, c, d = box(R)
__check__("diamond: corners in the middle of the sides", all([near(r[0], (a + b) / 2) or near(r[1], (c + d) / 2) for r in R]))
E = edges(R)
__check__("diamond: equal sides", all([near(e[0] * e[0] + e[1] * e[1], E[0][0] * E[0][0] + E[0][1] * E[0][1]) for e in E]))
for m in (Marker.triangle, Marker.arrow, Marker.spade, Marker.star):
    R = nodes(O[m][0])
    a, b, c, d = box(R)
    top = [r for r in R if near(r[1], d)]
    __check__(m.name + ": points upwards", len(top) == 1 and abs(top[0][0] - (a + b) / 2) < 1e-3)
R = nodes(O[Marker.heart][0])
a, b, c, d = box(R)
low = [r for r in R if near(r[1], c)]
__check__("heart: points downwards", len(low) == 1 and abs(low[0][0] - (a + b) / 2) < 1e-3)
for m in (Marker.triangle, Marker.square, Marker.minus, Marker.plus, Marker.cross, Marker.diamond, Marker.arrow):
    R = nodes(O[m][0])
    a, b, c, d = box(R)
    __check__(m.name + ": symmetric", all([any([abs(a + b - r[0] - s[0]) < 1e-3 and abs(r[1] - s[1]) < 1e-3 for s in R]) for r in R]))
V, K = O[Marker.point]
a, b, c, d = box([v for v, k in zip(V, K)])
__check__("point: as wide as tall", abs((b - a) - (d - c)) < 1e-3)
on = [V[i] for i in range(len(V)) if K[i] != Path.CURVE4 or i + 1 == len(V) or K[i + 1] != Path.CURVE4 or [k for k in K[:i]].count(Path.CURVE4) % 3 == 2]
x, y = (a + b) / 2, (c + d) / 2
__check__("point: round", all([abs(((v[0] - x) ** 2 + (v[1] - y) ** 2) ** 0.5 - (b - a) / 2) < 1e-2 for v in on]))
'''}
DRAWN = '''
I4 = [[1.0 if r == c else 0.0 for c in range(4)] for r in range(4)]
def outline(t):
    s = mpl.markers.MarkerStyle(Marker.path(t))
    return s.get_path().transformed(s.get_transform()).vertices
W = dict([(m, np.asarray(outline(m))) for m in Marker])
def drawn():
    return [np.asarray(p.vertices) for p in __xget__(__ext__("PathCollection")[0], "@paths")]
'''


def clients(ctx):
    out = []
    for e in ENUMS:
        out.append(Client("numbers_" + e, NAMES % dict(e=e, n=ENUMS[e]), "gsp/core/types.py:" + e))
    for f in FACTS:
        out.append(Client("markers_" + f, "import numpy as np\n" + SHAPES + FACTS[f], "gsp/core/types.py:Marker.path"))
    where = "gsp_matplotlib/visual/markers.py:Markers.generate_markers"
    pre, args, want = scene("Markers", 1, "one")
    out.append(Client("drawn_one", DRAW + DRAWN + pre + """
v = visual.Markers(P, %s)
v.render(viewport)
for m in Marker:
    v.set_variable("types", m)
    v.render(viewport)
    d = drawn()
    __check__("one shape", len(d) == 1)
    __same__("drawn with the shape of the marker " + m.name, d[0], W[m])
    v.set_variable("types", int(m))
    v.render(viewport)
    __same__("drawn with the shape of the number", drawn()[0], W[m])
""" % args, where))
    n = len(ENUMS["Marker"])
    for label, t in (("names", "np.array(list(Marker))"), ("numbers", "np.array([int(m) for m in Marker])"),
                     ("bytes", "np.array([int(m) for m in Marker], dtype=np.uint8)")):
        out.append(Client("drawn_each_" + label, DRAW + DRAWN + """
P = np.array([[0.1 * i, 0.0, 0.05 * i] for i in range(%d)], dtype=np.float32)
v = visual.Markers(P, types=%s, sizes=4.0, axis=None, angles=0.0, fill_colors=Color(1.0, 0.0, 0.0, 1.0), line_colors=Color(0.0, 0.0, 0.0, 1.0), line_widths=1.0)
v.render(viewport)
d = drawn()
o = __xget__(__ext__("PathCollection")[0], "@offsets")
__check__("one shape for each", len(d) == len(o) == %d)
for k in range(%d):
    i = int(round(float(o[k][0]) * 10))
    __same__("drawn with the shape of its marker", d[k], W[list(Marker)[i]])
__check__("each drawn", sorted([int(round(float(p[0]) * 10)) for p in o]) == list(range(%d)))
""" % (n, t, n, n, n), where))
    # caps, joins and styles
    for cls in ("Segments", "Paths", "Polygons"):
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        pre, args, want = scene(cls, 2, "one")
        for a, e in (("line_caps", "LineCap"), ("line_joins", "LineJoin"), ("line_styles", "LineStyle")):
            if a + "=" not in args:
                continue
            out.append(Client("%s_%s" % (cls, a[5:]), DRAW + "from gsp.core.types import LineCap, LineJoin, LineStyle\n" + pre + """
v = visual.%s(P, %s)
seen, own = [], []
def look():
    v.render(viewport)
    c = __ext__(%r)[0]
    return [str(__xget__(c, "@" + p)) for p in ("capstyle", "joinstyle", "linestyles", "dashes")]
for m in %s:
    v.set_variable(%r, m)
    k = look()
    own.append(k not in seen)
    seen.append(k)
    v.set_variable(%r, %s.%s)
    look()
    v.set_variable(%r, int(m))
    __check__("%s: the number has the effect of the member", look() == k)
__check__("%s: each member has its own effect", all(own))
""" % (cls, args, KIND[cls], e, a, a, e, ENUMS[e][0], a, a, a), where))
            if e == "LineCap":
                out.append(Client("%s_caps_valid" % cls, DRAW + "from gsp.core.types import LineCap\n" + pre + """
v = visual.%s(P, %s)
for m in LineCap:
    v.set_variable("line_caps", m)
    v.render(viewport)
    __check__("a cap style of matplotlib", __xget__(__ext__(%r)[0], "@capstyle") in ("butt", "round", "projecting"))
""" % (cls, args, KIND[cls]), where))
    return out
