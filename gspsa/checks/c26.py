"""C26: grouping of vertices."""
from ..run import Client
from .drawfrag import DRAW

PROPERTY = "C26"
FLOOR = 150
EXPLANATION = (
    "For paths and polygons and each way of describing the groups (one size, an array or buffer of sizes of any integer type, "
    "a transform, lists of indices as nested lists, arrays, ragged lists or list objects), the drawn shapes are derived for "
    "symbolic vertices: one shape per group, its own vertices in order, drawn by depth of the group; polygons are closed by "
    "the drawing; sizes and indices may be replaced or changed in place and are read again at each render.")

HEAD = '''
from gsp.core import Buffer
from gsp_matplotlib import glm, core
def shapes(title, c, P, groups):
    E = [[list(P[i]) for i in g] for g in groups]
    order = far_first([centre(e)[2] for e in E])
    o = __xget__(c, "@paths")
    __check__(title + ": one shape per group", len(o) == len(groups))
    if len({len(g) for g in groups}) == 1:
        for k in range(len(groups)):
            __same__(title + ": vertices", o[k], pick([[p[:2] for p in e] for e in E], order, k))
        return
    return E, order, o
def buffer(a):
    return core.Buffer(len(a), a.dtype, a.tobytes())
def check(title, c, P, groups):
    """groups of unequal sizes: depths are known numbers, one order"""
    E = [[list(P[i]) for i in g] for g in groups]
    rank = sorted(range(len(E)), key=lambda i: -centre(E[i])[2])
    o = __xget__(c, "@paths")
    __check__(title + ": one shape per group", len(o) == len(groups))
    for k in range(len(groups)):
        __check__(title + ": group size", len(o[k]) == len(groups[rank[k]]))
        __same__(title + ": vertices", o[k], [p[:2] for p in E[rank[k]]])
def sizes(*n):
    out, start = [], 0
    for k in n:
        out.append(list(range(start, start + k)))
        start += k
    return out
def points(n, depth):
    """symbolic in the plane, known depths"""
    P = np.zeros((n, 3))
    P[:, :2] = __arr__("P", (n, 2), None, -2.0, 2.0)
    P[:, 2] = [depth(i) for i in range(n)]
    return P
UP = lambda i: 0.1 * i
DOWN = lambda i: -0.1 * i
MIX = lambda i: ((i * 7) % 5) * 0.1 + 0.01 * i
'''

STYLE = {"Paths": "Color(0.0, 0.0, 0.0, 1.0), 1.0, LineStyle.solid, LineJoin.round, LineCap.round",
         "Polygons": "Color(0.0, 0.0, 0.0, 1.0), Color(0.0, 0.0, 0.0, 1.0), 1.0, LineStyle.solid, LineJoin.round"}

FORMS = [
    ("array", "np.array([3, 2, 4])", "sizes(3, 2, 4)", 9),
    ("uint8", "np.array([3, 2, 4], np.uint8)", "sizes(3, 2, 4)", 9),
    ("int16", "np.array([2, 5], np.int16)", "sizes(2, 5)", 9),
    ("one_group", "np.array([9])", "sizes(9)", 9),
    ("leftover", "np.array([2, 3])", "sizes(2, 3)", 9),
    ("buffer", "buffer(np.array([4, 2, 3]))", "sizes(4, 2, 3)", 9),
    ("buffer8", "buffer(np.array([4, 2, 3], np.uint8))", "sizes(4, 2, 3)", 9),
    ("lists", "[[0, 1, 2], [4, 3], [8, 5, 6, 7]]", "[[0, 1, 2], [4, 3], [8, 5, 6, 7]]", 9),
    ("shared", "[[0, 1], [1, 2], [2, 0, 1], [8, 0]]", "[[0, 1], [1, 2], [2, 0, 1], [8, 0]]", 9),
    ("arrays", "[np.array([0, 5, 2]), np.array([4, 3])]", "[[0, 5, 2], [4, 3]]", 9),
    ("even_lists", "[[0, 1, 2], [4, 3, 5], [8, 6, 7]]", "[[0, 1, 2], [4, 3, 5], [8, 6, 7]]", 9),
    ("pairs", "[[0, 1], [3, 2], [8, 5]]", "[[0, 1], [3, 2], [8, 5]]", 9),
    ("even_arrays", "[np.array([0, 5, 2]), np.array([4, 3, 8])]", "[[0, 5, 2], [4, 3, 8]]", 9),
    ("even_ragged", "glm.vlist([[0, 1, 2], [4, 3, 5], [8, 6, 7]])", "[[0, 1, 2], [4, 3, 5], [8, 6, 7]]", 9),
    ("one_list", "[[2, 0, 1, 5]]", "[[2, 0, 1, 5]]", 9),
    ("ragged", "glm.vlist([[0, 1, 2], [4, 3], [8, 5, 6, 7]])", "[[0, 1, 2], [4, 3], [8, 5, 6, 7]]", 9),
    ("list_size", "core.List(buffer(np.array([0, 1, 2, 5, 4, 3])), 3)", "[[0, 1, 2], [5, 4, 3]]", 9),
    ("list_sizes", "core.List(buffer(np.array([0, 1, 2, 5, 4, 3, 8])), buffer(np.array([3, 2, 2])))",
     "[[0, 1, 2], [5, 4], [3, 8]]", 9),
]


def clients(ctx):
    out = []
    for cls, kind in (("Paths", "LineCollection"), ("Polygons", "PolyCollection")):
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        head = DRAW + HEAD + "KIND = %r\n" % kind
        st = STYLE[cls]
        for size in (1, 2, 3, 5):
            for n in (1, 2, 3):
                out.append(Client("%s_size_%d_%d" % (cls, size, n), head + """
P = __arr__("P", (%d, 3), "f4", -2.0, 2.0)
v = visual.%s(P, %d, %s)
v.render(viewport)
c, = __ext__(KIND)
G = sizes(*([%d] * %d))
shapes("one size", c, P, G)
v.render(viewport)
shapes("again", c, P, G)
for f in __callbacks__("resize_event"):
    f(None)
shapes("resized", c, P, G)
""" % (size * n, cls, size, st, size, n), where))
            # vertices left over make no group of their own
            out.append(Client("%s_size_%d_over" % (cls, size), head + """
P = __arr__("P", (%d, 3), "f4", -2.0, 2.0)
v = visual.%s(P, %d, %s)
v.render(viewport)
c, = __ext__(KIND)
shapes("vertices left over", c, P, sizes(%d, %d))
""" % (3 * size - 1, cls, size, st, size, size), where)) if size > 1 else None
        for name, expr, groups, n in FORMS:
            for depth in ("UP", "DOWN", "MIX"):
                out.append(Client("%s_%s_%s" % (cls, name, depth.lower()), head + """
P = points(%d, %s)
I = %s
v = visual.%s(P, I, %s)
v.render(viewport)
c, = __ext__(KIND)
G = %s
check("groups", c, P, G)
v.render(viewport)
check("again", c, P, G)
v.render(viewport2)
check("another viewport", __ext__(KIND)[1], P, G)
""" % (n, depth, expr, cls, st, groups), where, tier="quick" if depth == "MIX" else "thorough"))
        # many vertices: boundaries do not wrap around in the type of the sizes
        out.append(Client("%s_many" % cls, head + """
P = np.zeros((310, 3))
P[:, 0] = [0.001 * i for i in range(310)]
P[:, 2] = [-0.001 * i for i in range(310)]
I = np.array([150, 100, 60], np.uint8)
v = visual.%s(P, I, %s)
v.render(viewport)
c, = __ext__(KIND)
check("8-bit sizes", c, P, sizes(150, 100, 60))
""" % (cls, st), where))
        # replaced and changed in place
        out.append(Client("%s_changed" % cls, head + """
P = points(9, MIX)
I = np.array([3, 2, 4])
v = visual.%s(P, I, %s)
v.render(viewport)
c, = __ext__(KIND)
I[0], I[1] = 2, 3
v.render(viewport)
check("sizes changed in place", c, P, sizes(2, 3, 4))
v.set_variable("indices", np.array([1, 7, 1]))
v.render(viewport)
check("sizes replaced", c, P, sizes(1, 7, 1))
v.set_variable("indices", [[0, 8], [1, 2, 3], [4, 6]])
v.render(viewport)
check("sizes replaced by indices", c, P, [[0, 8], [1, 2, 3], [4, 6]])
v.set_variable("indices", 3)
v.render(viewport)
check("replaced by one size", c, P, sizes(3, 3, 3))
__same__("sizes kept", I, [2, 3, 4])
""" % (cls, st), where))
        # the points of the groups, seen by what depends on them
        out.append(Client("%s_output" % cls, head + """
P = points(9, MIX)
v = visual.%s(P, np.array([3, 2, 4]), %s)
v.render(viewport)
o = np.asarray(v.get_variable("screen[%s]"))
G = sizes(3, 2, 4)
for i in range(3):
    __same__("centre of the group, by group", o[i], [sum([P[j][c] for j in G[i]]) / len(G[i]) for c in range(3)])
""" % (cls, st, cls.lower()), where))
        # recorded: described by the same groups
        out.append(Client("%s_recorded" % cls, head + """
record(True)
P = points(9, MIX)
for I, G in ((3, sizes(3, 3, 3)), (np.array([3, 2, 4]), sizes(3, 2, 4)), ([[0, 1, 2], [4, 3], [5, 6, 7]], [[0, 1, 2], [4, 3], [5, 6, 7]])):
    v = visual.%s(P, I, %s)
    v.render(viewport)
    check("recorded", __ext__(KIND)[-1], P, G)
""" % (cls, st), where))
        # shapes
        out.append(Client("%s_closing" % cls, head + """
P = points(9, MIX)
v = visual.%s(P, np.array([3, 2, 4]), %s)
v.render(viewport)
c, = __ext__(KIND)
closed = [__xget__(c, "@closed")] + [k.get("closed") for a, k in __extcalls__(c, "set_paths") + __extcalls__(c, "set_verts")]
__check__("closed by the drawing" if %r else "left open", %s)
""" % (cls, st, cls == "Polygons", "not any([x is not None and not x for x in closed])" if cls == "Polygons"
          else "not any([x is not None and x for x in closed])"), where))
    # what a list object yields
    where = "gsp_matplotlib/core/list.py:List"
    for name, size, decl, items in (("fixed", 6, "core.List(buffer(A), 2)", "[A[0:2], A[2:4], A[4:6]]"),
                              ("sizes", 6, "core.List(buffer(A), buffer(np.array([1, 3, 2])))", "[A[0:1], A[1:4], A[4:6]]"),
                              ("sizes8", 6, "core.List(buffer(A), buffer(np.array([4, 0, 2], np.uint8)))", "[A[0:4], A[4:4], A[4:6]]"),
                                    ("many", 270, "core.List(buffer(A), buffer(np.array([200, 60, 10], np.uint8)))",
                                     "[A[0:200], A[200:260], A[260:]]")):
        out.append(Client("items_" + name, DRAW + HEAD + """
A = __arr__("A", (%d,), "f4")
L = %s
want = %s
got = [x for x in L]
__check__("number of items", len(got) == len(want) and len(L) == len(want))
for a, b in zip(got, want):
    __check__("size of the item", len(a) == len(b))
    __same__("item", np.asarray(a), np.asarray(b))
""" % (size, decl, items), where))
    return out
