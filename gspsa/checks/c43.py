"""C43: a saved scene draws the same when loaded and run."""
from ..run import Client

PROPERTY = "C43"
FLOOR = 4000
EXPLANATION = (
    "Scenes of every visual, with attributes given in every admitted form (arrays of every kind, parts of arrays, lists, single "
    "values, records, transforms, lists of indices), rendered with and without matrices and changed between renders, are recorded, "
    "saved, loaded and run in the analysis. Every property the collections of the replayed scene receive is compared with what the "
    "original scene received, for symbolic content; the same for a replay straight from memory.")

HEAD = '''
import numpy as np
import gsp, gsp_matplotlib
from gsp_matplotlib import glm, core, visual
from gsp import transform
from gsp.transform import *
from gsp.object import Object
from gsp.io import queue, json
from gsp.core import Color, Marker, LineCap, LineStyle, LineJoin, Matrix
KINDS = ("PathCollection", "LineCollection", "PolyCollection")
q = queue("scene")
canvas = core.Canvas(400, 200, 100.0)
viewport = core.Viewport(canvas, 0, 0, 400, 200, Color(1.0, 1.0, 1.0, 1.0))
viewport2 = core.Viewport(canvas, 0, 0, 200, 200, Color(0.5, 1.0, 1.0, 1.0))
black, red = Color(0.0, 0.0, 0.0, 1.0), Color(1.0, __sym__("g", "float", 0.0, 1.0), 0.0, 0.5)
def copied(x):
    if __isarr__(x): return np.array(x)
    if isinstance(x, (list, tuple)): return [copied(y) for y in x]
    if hasattr(x, "vertices"): return [np.array(x.vertices), None if x.codes is None else np.array(x.codes)]
    return x
def state(c):
    a = __xall__(c)
    return {k: copied(a[k]) for k in a}
def view(v):
    p = v._axes.get_position()
    return [p.x0, p.y0, p.width, p.height, v._axes.get_xlim(), v._axes.get_ylim(), v.size]
def compare(title, now, was):
    __check__(title + ": as many collections", len(now) == len(was))
    for a, b in zip(now, was):
        __check__(title + ": same properties are set", sorted(a.keys()) == sorted(b.keys()))
        for k in b:
            if k in a:
                __same__(title + ": " + k, a[k], b[k])
def replay(title="replay", matrices=False):
    """save, load and run the scene; compare with what was drawn"""
    was = [state(c) for c in __ext__(*KINDS)]
    views = [view(viewport), view(viewport2)]
    ids = [viewport.id, viewport2.id]
    n = len(was)
    json.save("scene.json", q)
    Object.objects.clear()
    loaded = queue("loaded")
    json.load("scene.json", loaded)
    loaded.run(gsp_matplotlib)
    compare(title + " of the file", [state(c) for c in __ext__(*KINDS)][n:], was)
    __same__(title + " of the file: viewports", [view(Object.objects[i]) for i in ids], views)
    Object.objects.clear()
    q.run(gsp_matplotlib)
    compare(title + " of the queue", [state(c) for c in __ext__(*KINDS)][2 * n:], was)
'''

# form of positions -> (statements, expression), n elements of 3 coordinates
POS = {
    "vec3": ('A = glm.vec3(%(n)d)\nA[...] = __arr__("A", (%(n)d, 3), "f4", -2.0, 2.0)\n', "A"),
    "array": ('A = __arr__("A", (%(n)d, 3), "f4", -2.0, 2.0)\n', "A"),
    "double": ('A = __arr__("A", (%(n)d, 3), "f8", -2.0, 2.0)\n', "A"),
    "vec2": ('A = glm.vec2(%(n)d)\nA[...] = __arr__("A", (%(n)d, 2), "f4", -2.0, 2.0)\n', "A"),
    "list": ('A = __arr__("A", (%(n)d, 3), "f8", -2.0, 2.0)\n', "A.tolist()"),
    "part": ('A = glm.vec3(%(n)d + 2)\nA[...] = __arr__("A", (%(n)d + 2, 3), "f4", -2.0, 2.0)\n', "A[1:-1]"),
    "every_other": ('A = glm.vec3(2 * %(n)d)\nA[...] = __arr__("A", (2 * %(n)d, 3), "f4", -2.0, 2.0)\n', "A[::2]"),
    "reversed": ('A = __arr__("A", (%(n)d, 3), "f4", -2.0, 2.0)\n', "A[::-1]"),
    "sum": ('A = glm.vec3(%(n)d)\nA[...] = __arr__("A", (%(n)d, 3), "f4", -2.0, 2.0)\n', "A + 1"),
    "buffer": ('A = __arr__("A", (%(n)d, 3), "f4", -2.0, 2.0)\n', "core.Buffer(%(n)d, np.dtype((np.float32, (3,))), A.data)"),
    "bytes": ('A = __arr__("A", (%(n)d, 3), "f4", -2.0, 2.0)\n', "core.Buffer(%(n)d, np.dtype((np.float32, (3,))), A.tobytes())"),
    "segments": ('A = np.zeros((3, 2, 3), np.float32).view(glm.ndarray.tracked)\nA[...] = __arr__("A", (3, 2, 3), "f4", -2.0, 2.0)\n', "A"),
    "units": ('A = __arr__("A", (%(n)d, 3), "f4", -9.0, 9.0)\n', "A * Pixel()"),
}
NOSEG = ("list", "buffer", "bytes", "units", "vec2", "segments")
VISUALS = {
    "Pixels": (3, "visual.Pixels({P}, {C})"),
    "Points": (3, "visual.Points({P}, {W}, {C}, {C2}, {W2})"),
    "Markers": (3, "visual.Markers({P}, Marker.star, {W}, None, 0.0, {C}, {C2}, {W2})"),
    "Segments": (6, "visual.Segments({P}, LineCap.round, {C}, {W})"),
    "Paths": (6, "visual.Paths({P}, {I}, {C}, {W}, LineStyle.dashed, LineJoin.bevel, LineCap.cap)"),
    "Polygons": (6, "visual.Polygons({P}, {I}, {C}, {C2}, {W}, LineStyle.dashed, LineJoin.miter)"),
}
ONE = {"C": "red", "C2": "black", "W": '__sym__("w", "float", 1.0, 9.0)', "W2": "1.0", "I": "3"}


def color(n, name, kind):
    a = '__arr__("%s", (%d, 4), "%s", 0.0, 1.0)' % (name, n, "f8" if kind == "f8" else "f4")
    if kind == "vec4":
        return "%s = glm.vec4(%d)\n%s[...] = %s\n" % (name, n, name, a), name
    return "%s = %s\n" % (name, a), name


def clients(ctx):
    r = []
    for cls, (n, make) in VISUALS.items():
        where = "gsp_matplotlib/visual/%s.py:%s" % (cls.lower(), cls)
        m = 3 if n == 3 else 2

        def scene(pos, **kw):
            pre, expr = POS[pos]
            if cls == "Segments":
                expr = "(%s).reshape(-1, 2, 3)" % expr if pos != "segments" else expr
            return HEAD + pre % {"n": n} + "v = " + make.format(P=expr % {"n": n} if "%" in expr else expr, **dict(ONE, **kw)) + "\n"
        for pos in POS:
            if cls == "Segments" and pos in NOSEG or pos == "segments" and cls != "Segments":
                continue
            r.append(Client("%s_%s" % (cls, pos), scene(pos) + "v.render(viewport)\nreplay()\n", where))

        # attributes
        def attrs(kind):
            pre, kw = "", {}
            for k in ("C", "C2"):
                a, kw[k] = color(m, k + "s", kind)
                pre += a
            for k in ("W", "W2"):
                a = '__arr__("%ss", (%d,), "%s", 1.0, 9.0)' % (k, m, "f8" if kind == "f8" else "f4")
                pre += "%ss = %s\n" % (k, a)
                kw[k] = k + "s"
            return pre, kw
        for kind in ("f4", "f8", "vec4"):
            pre, kw = attrs(kind)
            body = scene("array", **kw)
            r.append(Client("%s_each_%s" % (cls, kind), HEAD + pre + body[len(HEAD):] + "v.render(viewport)\nreplay()\n", where))
        pre, kw = attrs("f4")
        body = scene("vec3", **{k: v + ".tolist()" if k[0] == "W" else v for k, v in kw.items()})
        r.append(Client("%s_each_list" % cls, HEAD + pre + body[len(HEAD):] + "v.render(viewport)\nreplay()\n", where))
        body = scene("array", C="[0.25, 0.5, 0.75, 1.0]", C2="(1.0, 0.5, 0.25, 0.5)")
        r.append(Client("%s_color_list" % cls, body + "v.render(viewport)\nreplay()\n", where))
        # transforms
        D = 'D = __arr__("D", (%d, 3), "f4", 1.0, 9.0)\n' % m
        for name, kw in (
                ("buffer", {"C": 'Colormap("gray", 1.0, 9.0)(Y(D))', "W": "Z(D)", "W2": "X(D) + 1.0", "C2": 'Colormap("hot")(D[:, 0])'}),
                ("accessor", {"W": 'Accessor(None, "y")(D)', "W2": "Y()(D)", "C": 'Colormap("gray")(Accessor(D, "z"))'}),
                ("units", {"W": "5.0 * Point()", "W2": "0.5 * Pixel()"}),
                ("units_each", {"W": "D[:, 1] * Point()", "W2": "0.25 * Millimeter()"}),
                ("arithmetic", {"W": "2.0 * Z(D) - X(D) / 3.0", "W2": "-(Y(D) - 10.0)"}),
                ("out", {"C": 'Colormap("gray", -2.0, 2.0)(Out("screen[%s].z"))' % ("positions" if m == 3 else cls.lower())})):
            if name == "out" and cls in ("Segments",):
                continue
            r.append(Client("%s_transform_%s" % (cls, name), HEAD + D + scene("array", **kw)[len(HEAD):] +
                            "v.render(viewport)\nreplay()\n", where))
        rec = """
R = np.zeros(%d, [("p", np.float32, (3,)), ("w", np.float32)])
R["p"] = __arr__("A", (%d, 3), "f4", -2.0, 2.0)
R["w"] = __arr__("B", (%d,), "f4", 1.0, 9.0)
""" % (n, n, n)
        if cls in ("Pixels", "Points", "Markers"):
            make1 = make.format(**dict(ONE, P='Accessor(None, "p")(R)', W='Accessor(None, "w")(R)'))
            r.append(Client("%s_records" % cls, HEAD + rec + "v = " + make1 + "\nv.render(viewport)\nreplay()\n", where))
        # matrices
        for name, pre, call in (
                ("model", "M = glm.translate((x, y, 0.0)) @ glm.scale((2.0, 0.5, 1.0))\n", "v.render(viewport, M)"),
                ("view", "M = glm.translate((x, y, 0.0))\n", "v.render(viewport, None, M)"),
                ("all", 'M, V, K = [__arr__(k, (4, 4), "f4", 0.5, 2.0) for k in "mvk"]\n', "v.render(viewport, M, V, K)"),
                ("keyword", 'M = __arr__("m", (4, 4), "f4", 0.5, 2.0)\n', "v.render(viewport=viewport, proj=M)"),
                ("tracked", 'M = glm.mat4()\nM[...] = __arr__("m", (4, 4), "f4", 0.5, 2.0)\n', "v.render(viewport, M)"),
                ("object", 'M = Matrix(__arr__("m", (4, 4), "f4", 0.5, 2.0))\n', "v.render(viewport, M)"),
                ("nested", 'M = __arr__("m", (4, 4), "f4", 0.5, 2.0).tolist()\n', "v.render(viewport, M)"),
                ("kept", 'M, N = [__arr__(k, (4, 4), "f4", 0.5, 2.0) for k in "mn"]\n', "v.render(viewport, M)\nv.render(viewport, None, N)\nv.render(viewport)")):
            r.append(Client("%s_matrix_%s" % (cls, name), scene("array") + 'x, y = __sym__("x"), __sym__("y")\n' + pre + call + "\nreplay()\n", where))
        # changes between renders
        pre, kw = attrs("vec4")
        body = HEAD + pre + scene("vec3" if cls != "Segments" else "segments", **kw)[len(HEAD):]
        one, part = ("A[0, 2] = -0.75", 'A[1:].xy = 1.0, __sym__("t")') if cls != "Segments" else \
            ("A[0, 1, 2] = -0.75", 'A[1:, :, 1] = __sym__("t")')
        r.append(Client("%s_changed" % cls, body + """
v.render(viewport)
A[1] = 0.25
%s
v.render(viewport2)
A *= 0.5
%s
v.render(viewport)
A += 1
replay()
""" % (one, part), where))
        r.append(Client("%s_two" % cls, body + """
v.render(viewport)
w = %s
w.render(viewport)
w.render(viewport2)
A[-1] = 3.0
v.render(viewport2)
replay()
""" % make.format(P="A", **ONE), where))
        if "{I}" in make:
            for name, pre, ind, k in (
                    ("int", "", "2", 3), ("counts", "", "np.array([2, 4])", 2), ("counts_uint", "", "np.array([3, 3], np.uint8)", 2),
                    ("lists", "", "[[0, 1, 2], [3, 4, 5, 1]]", 2), ("ragged", "", "glm.vlist([[0, 5, 2], [3, 4]])", 2),
                    ("list", "", "core.List(np.array([5, 3, 1, 0, 2]), np.array([2, 3]))", 2), ("list_regular", "", "core.List(np.array([5, 3, 1, 0, 2, 4]), 3)", 2),
                    ("buffer", "", "core.Buffer(2, np.dtype(np.int32), np.array([3, 3], np.int32).data)", 2)):
                for each in (False, True):
                    p2 = '__arr__("Cs", (%d, 4), "f4", 0.0, 1.0)' % k
                    kw = {"I": ind, "C": p2, "W": '__arr__("Ws", (%d,), "f4", 1.0, 9.0)' % k} if each else {"I": ind}
                    r.append(Client("%s_indices_%s%s" % (cls, name, "_each" if each else ""), scene("array", **kw) + "v.render(viewport)\nreplay()\n", where))
    return r
