"""C27: area and range of viewports."""
import itertools
from ..run import Client

PROPERTY = "C27"
FLOOR = 200
EXPLANATION = (
    "For symbolic canvas sizes and resolution and each way of giving a position or an extent (fraction, pixels, every unit of "
    "measure, differences of a fraction and a measure, none), the area of the axes is the requested one, from the creation and "
    "again after each resize of the canvas; the coordinate range keeps unit squares square, the shorter side spanning [-1, 1] "
    "times the zoom; other viewports of the canvas are independent.")

HEAD = """
import numpy as np
import gsp, gsp_matplotlib
from gsp.core import Color
from gsp.transform import *
from gsp.io import record
record(%r)
W = __sym__("W", "int", 120, 900)
H = __sym__("H", "int", 120, 900)
W2 = __sym__("W2", "int", 120, 900)
H2 = __sym__("H2", "int", 120, 900)
dpi = __sym__("dpi", "float", 40.0, 400.0)
red = Color(__sym__("r", "float", 0.0, 1.0), 0.0, 0.5, 1.0)
canvas = gsp_matplotlib.core.Canvas(W, H, dpi)

def area(title, v, want, size, zoom=1.0):
    a = v._axes
    p = a.get_position()
    __same__(title + ": area, as fractions of the canvas", [p.x0, p.y0, p.width, p.height], want)
    w, h = want[2] * size[0], want[3] * size[1]
    __same__(title + ": size in pixels", v.size, [w, h])
    short = min(w, h)
    __same__(title + ": horizontal range", a.get_xlim(), [-zoom * w / short, zoom * w / short])
    __same__(title + ": vertical range", a.get_ylim(), [-zoom * h / short, zoom * h / short])
    __same__(title + ": horizontal range of the viewport", v.xlim, [-zoom * w / short, zoom * w / short])
    __same__(title + ": vertical range of the viewport", v.ylim, [-zoom * h / short, zoom * h / short])

def resize(w, h):
    canvas._figure.set_size_inches(w / dpi, h / dpi)
    for f in __callbacks__("resize_event"):
        f(None)
"""

# kind -> (declaration, expression given, fraction it stands for given the canvas size S)
KINDS = {
    "fraction": ('%s = __sym__("%s", "float", 0.1, 0.9)', "%s", "%s"),
    "pixels": ('%s = __sym__("%s", "int", 5, 60)', "%s", "%s / S"),
    "inch": ('%s = __sym__("%s", "float", 0.1, 2.0)', "%s * Inch()", "%s * dpi / S"),
    "margin": ('%s = __sym__("%s", "float", 5.0, 40.0)', "(1.0 - %s * Pixel())", "1.0 - %s / S"),
}
UNITS = {"Pixel": "1.0", "Point": "dpi / 72.0", "Centimeter": "dpi / 2.54", "Millimeter": "dpi / 25.4"}
NAMES = ("x", "y", "w", "h")


def body(kinds):
    decl, given, now, then = [], [], [], []
    for n, k in zip(NAMES, kinds):
        if k is None:
            given.append("None")
            now.append("1.0")
            then.append("1.0")
            continue
        if isinstance(k, tuple):
            d, e, f = k
        else:
            d, e, f = KINDS[k]
        decl.append(d % (n, n))
        given.append(e % n)
        s = "W" if n in "xw" else "H"
        now.append((f % n).replace("S", s))
        then.append((f % n).replace("S", s + "2"))
    return """
%s
v = gsp_matplotlib.core.Viewport(canvas, %s, red)
area("created", v, [%s], (W, H))
resize(W2, H2)
area("resized", v, [%s], (W2, H2))
resize(W, H)
area("resized back", v, [%s], (W, H))
__same__("color", [x for x in __extcalls__(v._axes.patch, "set_color")[-1][0][0]], [x for x in red])
""" % ("\n".join(decl), ", ".join(given), ", ".join(now), ", ".join(then), ", ".join(now))


def clients(ctx):
    out = []
    where = "gsp_matplotlib/core/viewport.py:Viewport._update"
    base = ("fraction", "fraction", "fraction", "fraction")
    seen = set()

    def add(kinds, tag, rec=False, tier="quick"):
        if (kinds, rec) in seen:
            return
        seen.add((kinds, rec))
        out.append(Client(tag + ("_recorded" if rec else ""), HEAD % rec + body(kinds), where, tier=tier))
    for rec in (False, True):
        for k in KINDS:
            add((k,) * 4, "all_" + k, rec)
    for i, n in enumerate(NAMES):
        for k in KINDS:
            for b in ("fraction", "pixels"):
                ks = [b] * 4
                ks[i] = k
                add(tuple(ks), "%s_%s_among_%s" % (n, k, b))
    for k in KINDS:
        add((k, k, None, None), "no_extent_" + k)
        add((k, k, None, k), "no_width_" + k)
        add((k, k, k, None), "no_height_" + k)
    for u, f in UNITS.items():
        t = ('%s = __sym__("%s", "float", 5.0, 40.0)', "%s * " + u + "()", "%s * " + f + " / S")
        out.append(Client("unit_" + u, HEAD % False + body((t, t, t, t)), where))
        t2 = ('%s = __sym__("%s", "float", 2.0, 6.0)', "(1.0 - %s * " + u + "())", "1.0 - %s * " + f + " / S")
        out.append(Client("margin_" + u, HEAD % False + body((t, t, t2, t2)), where))
    # partly or wholly outside of the canvas
    out_of = {"fraction": ('%s = __sym__("%s", "float", -1.5, -0.05)', "%s", "%s"), "pixels": ('%s = __sym__("%s", "int", -90, -1)', "%s", "%s / S"),
              "inch": ('%s = __sym__("%s", "float", -2.0, -0.1)', "%s * Inch()", "%s * dpi / S"),
              "beyond": ('%s = __sym__("%s", "float", 1.0, 3.0)', "%s", "%s"), "beyond_pixels": ('%s = __sym__("%s", "int", 901, 2000)', "%s", "%s / S"),
              "zero": ("%s = 0\n# %s", "%s", "%s"), "zero_float": ("%s = 0.0\n# %s", "%s", "%s"), "one": ("%s = 1.0\n# %s", "%s", "%s"),
              "one_pixel": ("%s = 1\n# %s", "%s", "%s / S"), "exactly": ("%s = W\n# %s", "%s", "%s / S"), "other": ("%s = H\n# %s", "%s", "%s / S")}
    for k, t in out_of.items():
        big = t if k in ("beyond", "beyond_pixels", "one", "one_pixel", "exactly", "other") else "fraction"
        add((t, t, big, big), "outside_" + k)
        add((t, "fraction", "fraction", "pixels"), "outside_x_" + k)
        add(("pixels", t, "pixels", "fraction"), "outside_y_" + k)
    for ks in itertools.product(KINDS, repeat=4):
        add(ks, "combination_" + "_".join(k[0] for k in ks), tier="thorough")
    # a canvas sized by measures
    out.append(Client("canvas_by_measure", HEAD % False + """
a = __sym__("a", "float", 2.0, 9.0)
b = __sym__("b", "float", 2.0, 9.0)
other = gsp_matplotlib.core.Canvas(a * Inch(), b * Inch(), dpi)
v = gsp_matplotlib.core.Viewport(other, 0, 0, None, None, red)
area("whole", v, [0.0, 0.0, 1.0, 1.0], (a * dpi, b * dpi))
""", where))
    # several viewports
    out.append(Client("several", HEAD % False + """
f = __sym__("f", "float", 0.2, 0.8)
n = __sym__("n", "int", 20, 100)
one = gsp_matplotlib.core.Viewport(canvas, 0.0, 0.0, f, f, red)
two = gsp_matplotlib.core.Viewport(canvas, n, 0, n, 2 * n, red)
three = gsp_matplotlib.core.Viewport(canvas, 0.0, f, 1.0 - f, f * 0.5, red)
other = gsp_matplotlib.core.Canvas(H, W, dpi)
four = gsp_matplotlib.core.Viewport(other, n, n, None, None, red)
area("first", one, [0.0, 0.0, f, f], (W, H))
area("second", two, [n / W, 0.0, n / W, 2 * n / H], (W, H))
area("third", three, [0.0, f, 1.0 - f, f * 0.5], (W, H))
area("other canvas", four, [n / H, n / W, 1.0, 1.0], (H, W))
resize(W2, H2)
area("first, resized", one, [0.0, 0.0, f, f], (W2, H2))
area("second, resized", two, [n / W2, 0.0, n / W2, 2 * n / H2], (W2, H2))
area("third, resized", three, [0.0, f, 1.0 - f, f * 0.5], (W2, H2))
area("other canvas, not resized", four, [n / H, n / W, 1.0, 1.0], (H, W))
__check__("each has its own axes", len({id(v._axes) for v in (one, two, three, four)}) == 4)
__check__("in the figure of its canvas", one._axes.figure is canvas._figure and four._axes.figure is other._figure)
""", where))
    # a figure drawn at another resolution than the canvas's own (high density screens)
    out.append(Client("dense_screen", HEAD % False + """
f = __sym__("f", "float", 0.2, 0.8)
n = __sym__("n", "int", 20, 100)
one = gsp_matplotlib.core.Viewport(canvas, 0.0, 0.0, f, f, red)
two = gsp_matplotlib.core.Viewport(canvas, n, 0, n, 2 * n, red)
canvas._figure.set_dpi(2.0 * dpi)
resize(W, H)
area("first", one, [0.0, 0.0, f, f], (W, H))
area("second", two, [n / W, 0.0, n / W, 2 * n / H], (W, H))
__same__("size of the canvas", canvas.size, [W, H])
resize(W2, H2)
area("first, resized", one, [0.0, 0.0, f, f], (W2, H2))
area("second, resized", two, [n / W2, 0.0, n / W2, 2 * n / H2], (W2, H2))
""", where))
    # zoom
    out.append(Client("zoom", HEAD % False + """
f = __sym__("f", "float", 0.2, 0.8)
z = __sym__("z", "float", 0.2, 5.0)
v = gsp_matplotlib.core.Viewport(canvas, 0.0, 0.0, f, 1.0, red)
v._axes.zoom = z
resize(W2, H2)
area("zoomed", v, [0.0, 0.0, f, 1.0], (W2, H2), z)
v._axes.zoom = 1.0
resize(W, H)
area("not any more", v, [0.0, 0.0, f, 1.0], (W, H))
""", where))
    return out
