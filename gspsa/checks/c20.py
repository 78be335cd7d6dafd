"""C20: a colormap maps each value by its position between the bounds."""
from ..run import Client
from .common import DATA

PROPERTY = "C20"
FLOOR = 40
EXPLANATION = (
    "A colormap is evaluated on symbolic values for every combination of bounds (given, zero, left out) and of sources; each "
    "resulting color must be the named map's color at (value - min) / (max - min), where a bound left out is the minimum or "
    "maximum of the data; evaluation is repeated and interleaved with other colormaps to show it depends on nothing else.")

BOUNDS = {
    "both": ("-2.5", "7.5"),
    "zero_min": ("np.float64(0)", "7.5"),
    "zero_float_min": ("0.0", "7.5"),
    "zero_max": ("-8.0", "-0.0"),
    "zero_float_max": ("-8.0", "0.0"),
    "sym": ('__sym__("lo", "float", -9.0, -6.0)', '__sym__("hi", "float", 6.0, 9.0)'),
    "inverted": ("5.0", "-5.0"),
    "no_min": ("None", "7.5"),
    "no_max": ("-7.5", "None"),
    "none": ("None", "None"),
    "int": ("1", "4"),
    "inside": ('__sym__("lo", "float", -3.0, -0.5)', '__sym__("hi", "float", 0.5, 3.0)'),
}
SOURCES = {
    "array": ("D", "{}", "D"),
    "matrix": ("D.reshape(3, 1)", "{}", "D.reshape(3, 1)"),
    "accessor": ("Y(P)", "{}", "P[:, 1]"),
    "indexed": ("Y(P)", '{"index": np.array([2, 1])}', "P[np.array([2, 1]), 1]"),
    "output": ('Out("v.z")', '{"v": P}', "P[:, [2]]"),
    "expression": ("(X(P) + 2.0 * Y(Q))", "{}", "P[:, 0] + 2.0 * Q[:, 1]"),
}


def clients(ctx):
    out = []
    where = "gsp/transform/colormap.py:Colormap.evaluate"
    for b, (lo, hi) in BOUNDS.items():
        for s, (src, env, val) in SOURCES.items():
            pos = "(val - lo) / (hi - lo)"
            out.append(Client("%s_%s" % (b, s), DATA + """
import matplotlib.pyplot as plt
D = __arr__("D", (3,), None, -1.0, 1.0) + np.array([0.0, -4.0, 4.0])
from gsp.io import record, queue
P = __arr__("PP", (3, 4), None, -1.0, 1.0) + np.array([[0.0], [10.0], [20.0]])
lo, hi = %s, %s
if isinstance(lo, int):
    record(False)
c = Colormap("magma", lo, hi)(%s)
env = %s
val = %s
if lo is None:
    lo = np.min(val)
if hi is None:
    hi = np.max(val)
expected = plt.get_cmap("magma")((val - lo) / (hi - lo))
got = c.evaluate(env)
__same__("color at the value's position", got, expected)
other = Colormap("gray", -1.0, 1.0)(D + 3.0).evaluate({})
__same__("second evaluation", c.evaluate(env), expected)
__same__("copy", c.copy().evaluate(env), expected)
c2 = Colormap(colormap="magma", vmax=%s, vmin=%s)(%s)
__same__("given by name", c2.evaluate(env), expected)
c2.set_colormap("hot")
expected2 = plt.get_cmap("hot")((val - lo) / (hi - lo))
__same__("map replaced", c2.evaluate(env), expected2)
__same__("map of another transform", c.evaluate(env), expected)
""" % (lo, hi, src, env, val, hi, lo, src), where))
    out.append(Client("data_change", DATA + """
import matplotlib.pyplot as plt
D = __arr__("D", (3,), None, -1.0, 1.0) + np.array([0.0, -4.0, 4.0])
E = __arr__("E", (4,), None, 1.0, 5.0) + np.array([10.0, 20.0, 30.0, 40.0])
free = Colormap("magma")
def want(v):
    return plt.get_cmap("magma")((v - np.min(v)) / (np.max(v) - np.min(v)))
a, b = free(Out("v")), free(E)
__same__("range of the first data", a.evaluate({"v": D}), want(D))
__same__("range of other data, same transform", a.evaluate({"v": E}), want(E))
__same__("range of the data bound", b.evaluate({}), want(E))
__same__("range of the first data again", a.evaluate({"v": D}), want(D))
half = Colormap("magma", vmin=0.0)(Out("v"))
__same__("bound kept, other taken from data", half.evaluate({"v": E}), plt.get_cmap("magma")((E - 0.0) / (np.max(E) - 0.0)))
__same__("bound kept, other taken from new data", half.evaluate({"v": E * 2.0}), plt.get_cmap("magma")((E * 2.0) / (np.max(E * 2.0))))
""", where))
    out.append(Client("inputs_kept", DATA + """
D = __arr__("D", (3,), None, -1.0, 1.0) + np.array([0.0, -4.0, 4.0])
before = D.copy()
c = Colormap("magma", 0.0, 4.0)(D)
c.evaluate({})
c.evaluate({"index": 1})
__same__("data unchanged", D, before)
""", where))
    return out
