"""C23: depth order."""
from ..run import Client
from .drawfrag import DRAW, MAT
from .c22 import ATTRS, CHECK, FIXED, KIND, PROP, SIZE, scene, value

PROPERTY = "C23"
FLOOR = 300
EXPLANATION = (
    "For each visual, element count and arbitrary matrices: the collection is in its axes once and holds every element "
    "exactly once; the k-th drawn element is the k-th farthest by the projected depth of its centre, and each property "
    "given per element is read at the same element as the position; also after positions or matrices change, and for "
    "some attributes single and others per element.")

COMPARE = CHECK.replace("def compare(title, c, P, want, paths=True):", "def compare(title, c, P, want, T):") \
    .replace("image(p, I4)", "image(p, T)")

UNEVEN = [
    ("small_far", [[0, 1, 2, 3], [4, 5]], [0.1, 0.2, 0.3, 0.2, 0.25, 0.35]),
    ("large_far", [[0], [1, 2, 3]], [0.3, 0.1, 0.2, 0.75]),
    ("negative", [[0, 1, 2, 3], [4, 5], [6]], [-0.1, -0.2, -0.3, -0.2, -0.25, -0.35, -0.9]),
    ("spread", [[0, 1], [2, 3, 4]], [-0.9, 0.8, 0.0, 0.1, -0.05]),
    ("spread_back", [[0, 1, 2], [3, 4], [5, 6, 7]], [0.2, 0.1, 0.3, 0.9, -0.8, 0.25, 0.2, 0.3]),
]


def clients(ctx):
    out = []
    for cls in ATTRS:
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        m, kind = SIZE[cls], KIND[cls]
        head = DRAW + MAT + "KIND = %r\n" % kind + COMPARE

        def el(n):
            return "list(P)" if cls == "Segments" else "[list(P[i * %d:(i + 1) * %d]) for i in range(%d)]" % (m, m, n)
        for n in (1, 2, 3, 4, 5) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
            pre, args, want = scene(cls, n, "each")
            shape = "(%d, 2, 3)" % n if cls == "Segments" else "(%d, 3)" % (n * m)
            out.append(Client("%s_%d" % (cls, n), head + pre + """
v = visual.%s(P, %s)
v.render(viewport, M, V, J)
c, = __ext__(KIND)
__same__("drawn once", __xget__(c, "#added"), 1)
compare("projected", c, %s, %s, product(J, product(V, M)))
""" % (cls, args, el(n), want), where))
            if n < 3 or n > 4:
                continue
            out.append(Client("%s_%d_again" % (cls, n), head + pre + """
v = visual.%s(P, %s)
v.render(viewport, M)
c, = __ext__(KIND)
compare("model", c, %s, %s, M)
v.render(viewport, None, V)
compare("then view", c, %s, %s, product(V, M))
P = __arr__("P2", %s, "f4", -2.0, 2.0)
v.set_variable("positions", P)
v.render(viewport, np.eye(4), np.eye(4))
compare("then other positions", c, %s, %s, I4)
v.render(viewport2)
c, c2 = __ext__(KIND)
compare("then another viewport", c2, %s, %s, I4)
__same__("each drawn once", [__xget__(c, "#added"), __xget__(c2, "#added")], [1, 1])
""" % (cls, args, el(n), want, el(n), want, shape, el(n), want, el(n), want), where))
        if cls in ("Paths", "Polygons"):
            # groups of different sizes, with known depths: the mean decides, not the sum, the first, the last, the nearest...
            for title, groups, depth in UNEVEN:
                pre, args, want = scene(cls, len(groups), "each")
                ends = [sum(len(g) for g in groups[:i]) for i in range(len(groups) + 1)]
                for form, idx, of in (("sizes", "np.array(%r)" % [len(g) for g in groups],
                                       [list(range(a, b)) for a, b in zip(ends, ends[1:])]), ("indices", repr(groups), groups)):
                    out.append(Client("%s_uneven_%s_%s" % (cls, title, form), head + pre + """
n = %d
P = np.zeros((n, 3))
P[:, :2] = __arr__("Q", (n, 2), None, -2.0, 2.0)
P[:, 2] = %r
groups = %r
v = visual.%s(P, %s)
v.render(viewport)
c, = __ext__(KIND)
E = [[list(P[i]) for i in g] for g in groups]
rank = sorted(range(len(E)), key=lambda i: -centre(E[i])[2])
o = __xget__(c, "@paths")
__check__("one shape per group", len(o) == len(groups))
want = %s
for k in range(len(groups)):
    __check__("size of the group", len(o[k]) == len(groups[rank[k]]))
    __same__("vertices", o[k], [p[:2] for p in E[rank[k]]])
    for prop in want:
        width, values = want[prop]
        __same__(prop, slot(__xget__(c, "@" + prop), k, width), values[rank[k]])
""" % (len(depth), depth, of, cls, args.replace("indices=3", "indices=" + idx), want), where))
        for i, a in enumerate(ATTRS[cls]):
            # one attribute per element, others single; and the reverse
            for x, y in (("each", "one"), ("one", "each"), ("transform", "each"), ("opaque", "one") if "color" in a else ("zero", "each")):
                pre, args, want = scene(cls, 3, {b: x if b == a else y for b in ATTRS[cls]})
                out.append(Client("%s_%s_%s" % (cls, a, x), head + pre + """
v = visual.%s(P, %s)
v.render(viewport, None, None, J)
c, = __ext__(KIND)
compare("%s", c, %s, %s, J)
""" % (cls, args, a, el(3), want), where))
    return out
