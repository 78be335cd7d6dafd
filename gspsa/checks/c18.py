"""C18: measures."""
from ..run import Client

PROPERTY = "C18"
FLOOR = 30
EXPLANATION = (
    "For every unit, the term a measure denotes is derived for a symbolic magnitude, dpi, canvas and viewport, and compared "
    "with the unit's physical definition (pixel, inch = dpi pixels, point = 1/72 inch, and the metric units at 2.54 cm "
    "per inch), for scalars, pairs, triples and arrays, in each evaluation context.")

UNITS = {"Pixel": "1.0", "Inch": "dpi", "Point": "dpi / 72.0", "Centimeter": "dpi / 2.54", "Millimeter": "dpi / 25.4",
         "Meter": "100.0 * dpi / 2.54", "Kilometer": "100000.0 * dpi / 2.54"}

PRE = """
import numpy as np
from gsp.transform import *
dpi = __sym__("dpi", "float", 40.0, 400.0)
v = __sym__("v", "float", -20.0, 20.0)
W = __sym__("W", "float", 50.0, 900.0)
H = __sym__("H", "float", 50.0, 900.0)
A = __arr__("A", (4, 3))
B = __arr__("B", (4, 2))
SHAPES = [__arr__("S%d" % i, s) for i, s in enumerate([(2,), (3,), (1, 2), (1, 3), (2, 2), (3, 3), (2, 3), (3, 2), (1, 1, 2), (2, 1, 3), (0, 2)])]
ONES = [__arr__("O%d" % i, s) for i, s in enumerate([(1,), (1, 1), (2, 1), (3, 1), (5, 1), (2, 3, 1)])]
class Canvas_:
    _dpi = dpi
    size = (W, H)
class View_:
    _canvas = Canvas_()
    size = (W, H)
    xlim = (__sym__("x0", "float", -4.0, -1.0), __sym__("x1", "float", 1.0, 3.0))
    ylim = (__sym__("y0", "float", -4.0, -1.0), __sym__("y1", "float", 1.0, 3.0))
view, canvas = View_(), Canvas_()
sx = (view.xlim[1] - view.xlim[0]) / W
sy = (view.ylim[1] - view.ylim[0]) / H
"""

REAL = """
import numpy as np
from gsp.transform import *
from gsp_matplotlib import core
W = __sym__("W", "int", 60, 900)
H = __sym__("H", "int", 60, 900)
dpi = __sym__("dpi", "float", 40.0, 400.0)
v = __sym__("v", "float", -20.0, 20.0)
canvas = core.Canvas(W, H, dpi)
view = core.Viewport(canvas, 0.0, 0.0, 1.0, 1.0, (1.0, 1.0, 1.0, 1.0))
x0, x1 = view.xlim
y0, y1 = view.ylim
sx, sy = (x1 - x0) / W, (y1 - y0) / H
"""


def clients(ctx):
    out = []
    for u, f in UNITS.items():
        where = "gsp/transform/measure.py:%s.evaluate" % u
        out.append(Client("dpi_" + u, PRE + """
f = %s
m = v * %s()
__same__("magnitude times unit, in pixels", m.evaluate({"dpi": dpi}), v * f)
__same__("unit times magnitude", (%s() * v).evaluate({"dpi": dpi}), v * f)
__same__("the bare unit", %s().evaluate({"dpi": dpi}), f)
__same__("integer magnitude", (3 * %s()).evaluate({"dpi": dpi}), 3 * f)
__same__("zero magnitude", (0 * %s()).evaluate({"dpi": dpi}), 0)
__same__("per-element magnitudes", %s()(B).evaluate({"dpi": dpi}), f * B * np.array([1.0, 1.0]))
__same__("arrays bind from either side", (B * %s()).evaluate({"dpi": dpi}), f * B)
__same__("triples: depth is not a length", %s()(A).evaluate({"dpi": dpi}), f * A * np.array([1.0, 1.0, 0.0]))
for S in SHAPES:
    n = S.shape[-1]
    __same__("any number of pairs or triples", %s()(S).evaluate({"dpi": dpi}), f * S * np.array([1.0, 1.0, 0.0])[:n])
for S in ONES:
    __same__("any number of lengths", %s()(S).evaluate({"dpi": dpi}), f * S)
""" % (f, u, u, u, u, u, u, u, u, u, u), where))
        for ctxname in ("stub", "real"):
            pre = PRE if ctxname == "stub" else REAL
            arr = """
__same__("pairs on a viewport scale per axis", %s()(B).evaluate({"viewport": view}), f * B * np.array([sx, sy]))
__same__("triples on a viewport: depth stays 0", %s()(A).evaluate({"viewport": view}), f * A * np.array([sx, sy, 0.0]))
__same__("an explicit size overrides the viewport size", %s()(B).evaluate({"viewport": view, "size": (10.0, 20.0)}),
         f * B * np.array([sx * W / 10.0, sy * H / 20.0]))
__same__("pairs on a canvas", %s()(B).evaluate({"canvas": canvas}), f * B / np.array([W, H]))
for S in SHAPES:
    n = S.shape[-1]
    __same__("any number of pairs or triples, on a viewport", %s()(S).evaluate({"viewport": view}), f * S * np.array([sx, sy, 0.0])[:n])
    __same__("any number of pairs or triples, on a canvas", %s()(S).evaluate({"canvas": canvas}), f * S * np.array([1 / W, 1 / H, 0.0])[:n])
for S in ONES:
    __same__("any number of lengths, on a viewport", %s()(S).evaluate({"viewport": view}), f * S * sx)
    __same__("any number of lengths, on a canvas", %s()(S).evaluate({"canvas": canvas}), f * S / W)
""" % (u, u, u, u, u, u, u, u) if ctxname == "stub" else ""
            out.append(Client("ctx_%s_%s" % (ctxname, u), pre + """
f = %s
m = v * %s()
__same__("fraction of the canvas width", m.evaluate({"canvas": canvas}), v * f / W)
__same__("fraction of a given size", m.evaluate({"canvas": canvas, "size": (H, H)}), v * f / H)
__same__("viewport units along x", m.evaluate({"viewport": view}), v * f * sx)
__same__("viewport units of a pair", %s()((v, 2.0)).evaluate({"viewport": view}), [v * f * sx, 2.0 * f * sy])
__same__("sums convert to a common unit", (m + 3.0 * Pixel()).evaluate({"canvas": canvas}), (v * f + 3.0) / W)
%s
""" % (f, u, u, arr), where))
    out.append(Client("context", PRE + """
for t in (Pixel(), Inch(), Point(), Centimeter(), Millimeter(), Meter(), Kilometer()):
    try:
        t.evaluate({})
    except ValueError:
        pass
    else:
        __fail__("a measure without dpi, canvas or viewport must be refused")
m = 2.0 * Inch()
try:
    m * 3.0
except ValueError:
    pass
else:
    __fail__("a bound measure cannot be bound again")
__check__("the generic unit can be created", Measure() is not None)
""", "gsp/transform/measure.py:Measure.evaluate"))
    return out
