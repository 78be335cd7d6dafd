"""C22: what is drawn for each element carries the attributes given for it."""
from ..run import Client
from .drawfrag import DRAW

PROPERTY = "C22"
FLOOR = 300
EXPLANATION = (
    "For each visual and each way of giving its attributes (one value, one entry, one entry per element, a transform), every "
    "drawn element's position, size, colors, widths, caps, styles, joins and shape is the one of the element it stands for; "
    "the same after attributes are replaced or changed in place, in a second viewport, and when the canvas is resized.")

KIND = {"Pixels": "PathCollection", "Points": "PathCollection", "Markers": "PathCollection", "Segments": "LineCollection",
        "Paths": "LineCollection", "Polygons": "PolyCollection"}
SIZE = {"Pixels": 1, "Points": 1, "Markers": 1, "Segments": 2, "Paths": 3, "Polygons": 3}
# attribute -> (property, width)
PROP = {"colors": ("facecolors", 4), "fill_colors": ("facecolors", 4), "line_colors": ("edgecolors", 4),
        "line_widths": ("linewidths", None), "sizes": ("sizes", None)}
ATTRS = {"Pixels": ["colors"], "Points": ["sizes", "fill_colors", "line_colors", "line_widths"],
         "Markers": ["sizes", "fill_colors", "line_colors", "line_widths"], "Segments": ["line_colors", "line_widths"],
         "Paths": ["line_colors", "line_widths"], "Polygons": ["fill_colors", "line_colors", "line_widths"]}
FIXED = {"Markers": {"types": "Marker.star", "axis": "None", "angles": "0.0"}, "Segments": {"line_caps": "LineCap.round"},
         "Paths": {"indices": "3", "line_styles": "LineStyle.solid", "line_joins": "LineJoin.round", "line_caps": "LineCap.round"},
         "Polygons": {"indices": "3", "line_styles": "LineStyle.solid", "line_joins": "LineJoin.round"}}


def value(name, mode, n, tag):
    """(statements, expression of the value, expression of the list of what the elements get)"""
    v = name + "_" + tag
    lo, hi = (0.0, 1.0) if "color" in name else (0.0, 9.0)
    if "color" in name:
        if mode == "one":
            a = ", ".join('__sym__("%s%s", "float", 0.0, 1.0)' % (v, c) for c in "rgba")
            return "%s = [%s]\n" % (v, a), "Color(*%s)" % v, "[%s] * %d" % (v, n)
        if mode == "opaque":
            return '%s = __arr__("%s", (%d, 3), "f4", 0.0, 1.0)\n' % (v, v, n), v, "list(%s)" % v
        if mode == "zero":
            return '%s = np.zeros((%d, 4), "f4")\n' % (v, n), v, "list(%s)" % v
        if mode == "single":
            return '%s = __arr__("%s", (1, 4), "f4", 0.0, 1.0)\n' % (v, v), v, "[%s[0]] * %d" % (v, n)
        if mode == "transform":
            return ('%s = __arr__("%s", (%d, 3), "f4", 0.0, 1.0)\n' % (v, v, n), 'Colormap("gray", 0.0, 1.0)(Y(%s))' % v,
                    'list(Colormap("gray", 0.0, 1.0)(%s[:, 1]).evaluate({}))' % v)
        return '%s = __arr__("%s", (%d, 4), "f4", 0.0, 1.0)\n' % (v, v, n), v, "list(%s)" % v
    if mode == "zero":
        return '%s = np.zeros((%d,), "f4")\n' % (v, n), v, "list(%s)" % v
    if mode == "one":
        return '%s = __sym__("%s", "float", %r, %r)\n' % (v, v, lo, hi), v, "[%s] * %d" % (v, n)
    if mode == "single":
        return '%s = __arr__("%s", (1,), "f4", %r, %r)\n' % (v, v, lo, hi), v, "[%s[0]] * %d" % (v, n)
    if mode == "transform":
        return ('%s = __arr__("%s", (%d, 3), "f4", %r, %r)\n' % (v, v, n, lo, hi), "(Z(%s) + 1.0)" % v,
                "[x[2] + 1.0 for x in %s]" % v)
    return '%s = __arr__("%s", (%d,), "f4", %r, %r)\n' % (v, v, n, lo, hi), v, "list(%s)" % v


CHECK = '''
def compare(title, c, P, want, paths=True):
    """c: a collection; P: elements (lists of points); want: property -> (width, values by element)"""
    n = len(P)
    pts = [[image(p, I4) for p in e] for e in P]
    order = far_first([centre(e)[2] for e in pts])
    if KIND == "PathCollection":
        o = __xget__(c, "@offsets")
        __check__(title + ": one offset per element", len(o) == n)
        for k in range(n):
            __same__(title + ": position", o[k], pick([e[0][:2] for e in pts], order, k))
    else:
        o = __xget__(c, "@paths")
        __check__(title + ": one shape per element", len(o) == n)
        for k in range(n):
            __same__(title + ": vertices", o[k], pick([[p[:2] for p in e] for e in pts], order, k))
    for prop in want:
        width, values = want[prop]
        got = __xget__(c, "@" + prop)
        for k in range(n):
            __same__(title + ": " + prop, slot(got, k, width), pick(values, order, k))
I4 = [[1.0 if r == c else 0.0 for c in range(4)] for r in range(4)]
'''


def scene(cls, n, modes, tag="a"):
    m = SIZE[cls]
    pre, args, want = "", [], []
    for a in ATTRS[cls]:
        s, e, w = value(a, modes if isinstance(modes, str) else modes[a], n, tag)
        pre += s
        args.append("%s=%s" % (a, e))
        want.append("%r: (%r, %s)" % (PROP[a][0], PROP[a][1], w))
    args += ["%s=%s" % x for x in FIXED.get(cls, {}).items()]
    shape = "(%d, 2, 3)" % n if cls == "Segments" else "(%d, 3)" % (n * m)
    pre += 'P = __arr__("P", %s, "f4", -2.0, 2.0)\n' % shape
    return pre, ", ".join(args), "{%s}" % ", ".join(want)


def clients(ctx):
    out = []
    for cls in ATTRS:
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        m, kind = SIZE[cls], KIND[cls]
        head = DRAW + "KIND = %r\n" % kind + CHECK
        elems = "list(P)" if cls == "Segments" else "[list(P[i * %d:(i + 1) * %d]) for i in range(%%d)]" % (m, m)

        def el(n):
            return elems if "%d" not in elems else elems % n
        for mode in ("one", "single", "each", "transform", "opaque", "zero"):
            for n in (1, 3, 4):
                pre, args, want = scene(cls, n, mode)
                out.append(Client("%s_%s_%d" % (cls, mode, n), head + pre + """
v = visual.%s(P, %s)
v.render(viewport)
c = __ext__(KIND)
__check__("one collection", len(c) == 1)
c = c[0]
__check__("in the axes of the viewport", __xget__(c, "axes") is viewport._axes)
compare("rendered", c, %s, %s)
v.render(viewport)
__check__("still one collection", len(__ext__(KIND)) == 1)
compare("rendered again", c, %s, %s)
""" % (cls, args, el(n), want, el(n), want), where))
        # positions in units: of the viewport drawn into, as large as it is now
        pre, args, want = scene(cls, 3, "each")
        out.append(Client("%s_units" % cls, head + pre + """
canvas = gsp_matplotlib.core.Canvas(400, 200, 100.0)
full = gsp_matplotlib.core.Viewport(canvas, 0.0, 0.0, 1.0, 1.0, Color(1.0, 1.0, 1.0, 1.0))
half = gsp_matplotlib.core.Viewport(canvas, 0.0, 0.0, 0.5, 0.5, Color(1.0, 1.0, 1.0, 1.0))
other = gsp_matplotlib.core.Viewport(gsp_matplotlib.core.Canvas(100, 300, 50.0), 0.0, 0.0, 1.0, 1.0, Color(1.0, 1.0, 1.0, 1.0))
def units(s):
    return [[[s * p[0], s * p[1], 0.0] for p in e] for e in %s]
v = visual.%s(Pixel()(P), %s)
v.render(full)
v.render(half)
v.render(other)
a, b, c = __ext__(KIND)
W = %s
compare("pixels of the first viewport", a, units(2.0 / 200), W)
compare("pixels of the second viewport", b, units(2.0 / 100), W)
compare("pixels of another canvas", c, units(2.0 / 100), W)
canvas._figure.set_size_inches(6.0, 4.0)
for f in __callbacks__("resize_event"):
    f(None)
compare("pixels of the first viewport, resized", a, units(2.0 / 400), W)
compare("pixels of the second viewport, resized", b, units(2.0 / 200), W)
compare("pixels of another canvas, not resized", c, units(2.0 / 100), W)
v.set_variable("positions", Inch()(P))
v.render(half)
compare("pixels of the first viewport, not rendered again", a, units(2.0 / 400), W)
compare("inches of the second viewport", b, units(100.0 * 2.0 / 200), W)
v.render(other)
compare("inches of another canvas", c, units(50.0 * 2.0 / 100), W)
""" % (el(3), cls, args, want), where))
        # attributes that follow what is drawn
        el_out = {"Segments": "screen[segments]", "Paths": "screen[paths]", "Polygons": "screen[polygons]"}.get(cls, "screen[positions]")
        pre, args, want = scene(cls, 3, "each")
        args = args.replace("%s=%s_a" % (ATTRS[cls][-1], ATTRS[cls][-1]), "%s=%s" % (ATTRS[cls][-1], (
            'Colormap("gray", -4.0, 4.0)(%s)' if cls == "Pixels" else "(0.5 * %s + 9.0)") % (
                'Out("%s")' % el_out if cls == "Segments" else 'Z(Out("%s"))' % el_out)))
        out.append(Client("%s_follows" % cls, head + pre + """
v = visual.%s(P, %s)
W = %s
def follow():
    R = np.asarray(v.get_variable(%r))
    E = %s
    for i in range(3):
        if R.ndim > 1:
            __same__("the output of the element", R[i, :2], centre(E[i])[:2])
        elif i:
            __same__("the output of the element", (R[i] - R[0]) ** 2, (centre(E[i])[2] - centre(E[0])[2]) ** 2)
    o = [%s for x in R]
    W[%r] = (%r, %s)
    return W
v.render(viewport)
c, = __ext__(KIND)
compare("depth", c, %s, follow())
P = __arr__("P2", P.shape, "f4", -2.0, 2.0)
v.set_variable("positions", P)
v.render(viewport)
compare("depth, other positions", c, %s, follow())
v.render(viewport2)
compare("depth, other viewport", __ext__(KIND)[1], %s, follow())
""" % (cls, args, want, el_out, el(3), "x" if cls == "Segments" else "x[2]", PROP[ATTRS[cls][-1]][0], PROP[ATTRS[cls][-1]][1],
       'list(Colormap("gray", -4.0, 4.0)(np.array(o)).evaluate({}))' if cls == "Pixels" else "[0.5 * x + 9.0 for x in o]",
       el(3), el(3), el(3)), where))
        # replaced one at a time, other modes
        n = 3
        for first, second in (("one", "each"), ("each", "one"), ("each", "each"), ("single", "transform")):
            pre, args, want = scene(cls, n, first)
            src = head + pre + "v = visual.%s(P, %s)\nv.render(viewport)\nv.render(viewport2)\nc, c2 = __ext__(KIND)\nwant = %s\n" % (cls, args, want)
            src += '__check__("one collection for each viewport", __xget__(c, "axes") is viewport._axes and __xget__(c2, "axes") is viewport2._axes)\n'
            src += 'compare("second viewport", c2, %s, want)\n' % el(n)
            for a in ATTRS[cls]:
                s, e, w = value(a, second, n, "b")
                src += s + """
v.set_variable(%r, %s)
v.render(viewport)
old = dict(want)
want[%r] = (%r, %s)
compare("%s replaced", c, %s, want)
compare("%s replaced, viewport not rendered again", c2, %s, old)
for f in __callbacks__("resize_event"):
    f(None)
compare("%s replaced, canvas resized", c2, %s, want)
""" % (a, e, PROP[a][0], PROP[a][1], w, a, el(n), a, el(n), a, el(n))
            shape = "(%d, 2, 3)" % n if cls == "Segments" else "(%d, 3)" % (n * m)
            src += """
P = __arr__("P2", %s, "f4", -2.0, 2.0)
v.set_variable("positions", P)
v.render(viewport2)
compare("positions replaced", c2, %s, want)
__check__("two collections in all", len(__ext__(KIND)) == 2)
""" % (shape, el(n))
            out.append(Client("%s_replaced_%s_%s" % (cls, first, second), src, where))
        # changed in place
        pre, args, want = scene(cls, n, "each")
        src = head + pre + "v = visual.%s(P, %s)\nv.render(viewport)\nc = __ext__(KIND)[0]\n" % (cls, args)
        for a in ATTRS[cls]:
            src += '%s_a[1] = %s_a[1] * 0.5\nv.render(viewport)\ncompare("%s changed in place", c, %s, %s)\n' % (a, a, a, el(n), want)
        src += 'P[1] = P[1] * 0.5\nv.render(viewport)\ncompare("positions changed in place", c, %s, %s)\n' % (el(n), want)
        out.append(Client("%s_changed" % cls, src, where))
    for dpi in (36.0, 50.0, 72.0, 100.0, 144.0, 300.0):
        pre, args, want = scene("Pixels", 2, "each")
        out.append(Client("Pixels_area_%d" % dpi, DRAW + pre + """
canvas = gsp_matplotlib.core.Canvas(400, 200, %r)
viewport = gsp_matplotlib.core.Viewport(canvas, 0, 0, 400, 200, Color(1.0, 1.0, 1.0, 1.0))
v = visual.Pixels(P, %s)
v.render(viewport)
s = np.asarray(__xget__(__ext__("PathCollection")[0], "@sizes")).ravel()[0] * (%r / 72.0) ** 2
__check__("no larger than a pixel of the canvas, and not much smaller", 0.04 <= s <= 1.0)
""" % (dpi, args, dpi), "gsp_matplotlib/visual/pixels.py:Pixels.render"))
    # caps, styles and joins
    for cls in ("Segments", "Paths", "Polygons"):
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        head = DRAW
        pre, args, want = scene(cls, 2, "one")
        make = "v = visual.%s(P, %s)\n" % (cls, args)
        if "line_caps" in FIXED[cls]:
            out.append(Client("%s_caps" % cls, head + pre + make + """
names = {LineCap.butt: "butt", LineCap.round: "round", LineCap.cap: "projecting"}
for cap in (LineCap.round, LineCap.cap, LineCap.butt, LineCap.round):
    v.set_variable("line_caps", cap)
    v.render(viewport)
    __check__("the cap given", __xget__(__ext__("LineCollection")[0], "@capstyle") == names[cap])
w = visual.%s(P, %s)
w.render(viewport2)
__check__("the cap given at creation", __xget__(__ext__("LineCollection")[1], "@capstyle") == "butt")
""" % (cls, args.replace("LineCap.round", "LineCap.butt")), where))
        for a, p, x, y in (("line_styles", "linestyles", "LineStyle.dashed", "LineStyle.solid"),
                           ("line_joins", "joinstyle", "LineJoin.miter", "LineJoin.bevel")):
            if a not in FIXED[cls]:
                continue
            out.append(Client("%s_%s" % (cls, a[5:]), head + pre + make + """
v.set_variable(%r, %s)
v.render(viewport)
a = __xget__(__ext__(%r)[0], "@%s")
v.set_variable(%r, %s)
v.render(viewport)
b = __xget__(__ext__(%r)[0], "@%s")
__check__("%s reach the drawing", a is not None and a != b)
""" % (a, x, KIND[cls], p, a, y, KIND[cls], p, a), where))
    # marker shapes
    where = "gsp_matplotlib/visual/markers.py:Markers.generate_markers"
    for n in (1, 3):
        for label, types, angles, wt, wa in (
                ("one", "Marker.star", "A[0]", "[Marker.star] * %d" % n, "[A[0]] * %d" % n),
                ("each", "np.array([Marker.star, Marker.heart, Marker.diamond][:%d])" % n, "A",
                 "[Marker.star, Marker.heart, Marker.diamond][:%d]" % n, "list(A)")):
            pre, args, want = scene("Markers", n, "one")
            args = args.replace("types=Marker.star", "types=" + types).replace("angles=0.0", "angles=" + angles)
            out.append(Client("Markers_shapes_%s_%d" % (label, n), DRAW + pre + """
A = __arr__("A", (%d,), None, -720.0, 720.0)
I4 = [[1.0 if r == c else 0.0 for c in range(4)] for r in range(4)]
def outline(t, angle):
    s = mpl.markers.MarkerStyle(Marker.path(t))
    p = s.get_path().transformed(s.get_transform())
    return p.transformed(mpl.transforms.Affine2D().rotate_deg(angle)).vertices
def shapes(title, types, angles):
    c = __ext__("PathCollection")[0]
    order = far_first([image(p, I4)[2] for p in P])
    paths = __xget__(c, "@paths")
    __check__(title + ": one shape per element", len(paths) == %d)
    want = [outline(t, a) for t, a in zip(types, angles)]
    for k in range(%d):
        __same__(title + ": outline", np.asarray(paths[k].vertices), pick([list(w) for w in want], order, k))
v = visual.Markers(P, %s)
v.render(viewport)
shapes("rendered", %s, %s)
v.set_variable("types", Marker.cross)
v.render(viewport)
shapes("type replaced", [Marker.cross] * %d, %s)
v.set_variable("angles", 30.0)
v.render(viewport)
shapes("angle replaced", [Marker.cross] * %d, [30.0] * %d)
""" % (n, n, n, args, wt, wa, n, wa, n, n), where))
    return out
