"""C28: canvas sizes and images."""
from ..run import Client

PROPERTY = "C28"
FLOOR = 60
EXPLANATION = (
    "For every way of giving the size of a canvas (integers, every unit of measure, sums and products of measures) with "
    "symbolic lengths and resolution: the figure has that size in pixels at that resolution; rendering without target returns "
    "the image as an array of height rows by width columns by four channels, also after the figure was resized; rendering to "
    "a target writes the image of that size to that target and nothing else.")

HEAD = """
import io
import numpy as np
import gsp, gsp_matplotlib
from gsp.transform import *
from gsp.io import record
record(%r)
def pixels(x):
    return __term__("pixels", x, "int")
def written(f):
    return [(a, k) for a, k in __extcalls__(f, "savefig")]
"""

BODY = """
canvas = gsp_matplotlib.core.Canvas(%s, %s, dpi)
f, = __ext__("Figure")
__same__("size", canvas.size, [W, H])
__same__("resolution", f.dpi, dpi)
__same__("size of the figure", f.get_size_inches(), [W / dpi, H / dpi])
__check__("nothing is written by the creation", len(written(f)) == 0)
a = canvas.render(None)
__same__("rows", a.shape[0], pixels(H))
__same__("columns", a.shape[1], pixels(W))
__same__("channels", a.shape[2], 4)
__check__("three dimensions", len(a.shape) == 3)
__same__("size after", canvas.size, [W, H])
n = len(written(f))
__check__("no file without target", not any([isinstance((list(a) + list(k.values()))[0], str) for a, k in written(f)]))
canvas.render("output.png")
w = written(f)[n:]
__check__("written once", len(w) == 1)
args, kwargs = w[0]
__check__("written to the target", (args[0] if len(args) else kwargs["fname"]) == "output.png")
__same__("at the resolution", kwargs["dpi"] if kwargs.get("dpi") not in (None, "figure") else f.dpi, dpi)
__check__("entirely", kwargs.get("bbox_inches") is None)
b = canvas.render(None)
__same__("rows again", b.shape[0], pixels(H))
__same__("columns again", b.shape[1], pixels(W))
"""

UNITS = {"Pixel": "1.0", "Inch": "dpi", "Point": "dpi / 72.0", "Centimeter": "dpi / 2.54", "Millimeter": "dpi / 25.4"}


def clients(ctx):
    out = []
    where = "gsp_matplotlib/core/canvas.py:Canvas"
    for rec in (False, True):
        tag = "_recorded" if rec else ""
        head = HEAD % rec
        out.append(Client("integers" + tag, head + """
W = __sym__("W", "int", 20, 900)
H = __sym__("H", "int", 20, 900)
dpi = __sym__("dpi", "float", 40.0, 400.0)
""" + BODY % ("W", "H"), where))
        for w, h in ((3, 7), (29, 57), (512, 512), (1, 1)):
            out.append(Client("fixed_%d_%d%s" % (w, h, tag), head + "W, H, dpi = %d, %d, 100.0\n" % (w, h) +
                              BODY % ("W", "H"), where))
    head = HEAD % False
    for u, f in UNITS.items():
        for u2, f2 in UNITS.items():
            if u2 != u and u2 != "Pixel" and u != "Pixel":
                continue
            out.append(Client("measure_%s_%s" % (u, u2), head + """
w = __sym__("w", "float", 5.0, 90.0)
h = __sym__("h", "float", 5.0, 90.0)
dpi = __sym__("dpi", "float", 40.0, 400.0)
W, H = w * %s, h * %s
""" % (f, f2) + BODY % ("w * %s()" % u, "h * %s()" % u2), where))
        out.append(Client("mixed_" + u, head + """
w = __sym__("w", "float", 5.0, 90.0)
H = __sym__("H", "int", 20, 900)
dpi = __sym__("dpi", "float", 40.0, 400.0)
W = w * %s
""" % f + BODY % ("w * %s()" % u, "H"), where))
        out.append(Client("sum_" + u, head + """
w = __sym__("w", "float", 5.0, 90.0)
h = __sym__("h", "float", 5.0, 90.0)
dpi = __sym__("dpi", "float", 40.0, 400.0)
W, H = w * %s + 10.0, h * %s + h * dpi
""" % (f, f) + BODY % ("(w * %s() + 10.0 * Pixel())" % u, "(h * %s() + h * Inch())" % u), where))
    out.append(Client("resized", head + """
W = __sym__("W", "int", 20, 900)
H = __sym__("H", "int", 20, 900)
x = __sym__("x", "float", 2.0, 9.0)
y = __sym__("y", "float", 2.0, 9.0)
dpi = __sym__("dpi", "float", 40.0, 400.0)
canvas = gsp_matplotlib.core.Canvas(W, H, dpi)
canvas._figure.set_size_inches(x, y)
for f in __callbacks__("resize_event"):
    f(None)
__same__("size", canvas.size, [x * dpi, y * dpi])
a = canvas.render(None)
__same__("shape", a.shape, [pixels(y * dpi), pixels(x * dpi), 4])
""", where))
    out.append(Client("denser_screen", head + """
W = __sym__("W", "int", 20, 900)
H = __sym__("H", "int", 20, 900)
k = __sym__("k", "float", 1.5, 3.0)
dpi = __sym__("dpi", "float", 40.0, 400.0)
canvas = gsp_matplotlib.core.Canvas(W, H, dpi)
f, = __ext__("Figure")
__xset__(f, "dpi", k * dpi)
__same__("size on a screen whose pixels are finer", canvas.size, [W, H])
canvas.render("output.png")
args, kwargs = written(f)[0]
__same__("the file has the requested size", kwargs["dpi"] if kwargs.get("dpi") not in (None, "figure") else k * dpi, dpi)
""", where))
    out.append(Client("two", head + """
W = __sym__("W", "int", 20, 900)
H = __sym__("H", "int", 20, 900)
dpi = __sym__("dpi", "float", 40.0, 400.0)
one = gsp_matplotlib.core.Canvas(W, H, dpi)
two = gsp_matplotlib.core.Canvas(H, 2 * W, 2.0 * dpi)
__same__("size of the first", one.size, [W, H])
__same__("size of the second", two.size, [H, 2 * W])
__same__("image of the first", one.render(None).shape, [H, W, 4])
__same__("image of the second", two.render(None).shape, [2 * W, H, 4])
one.render("one.png")
__check__("written by its own figure", len(written(two._figure)) == 0 or
          not any([isinstance((list(a) + list(k.values()))[0], str) for a, k in written(two._figure)]))
""", where))
    return out
