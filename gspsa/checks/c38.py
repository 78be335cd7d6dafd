"""C38: backend classes accept what the protocol classes accept."""
from ..run import Client
from .catalogue import SETUP, VIS, splits

PROPERTY = "C38"
FLOOR = 450
EXPLANATION = (
    "For each class present in the protocol and in the backend, and for each method of it that the protocol records, the same call is "
    "made on both: every split of positional, keyword and defaulted arguments, then, for each parameter, a value of every kind the "
    "library knows (numbers, text, bytes, containers, arrays, buffers, transforms, measures, colors, enumerations, element types, "
    "canvases, nothing). Whatever the protocol accepts the backend must accept, recording the same command with the same parameters.")

CLASSES = [
    ("core", "Canvas", [("width", "300", None), ("height", "200", None), ("dpi", "f1", None)]),
    ("core", "Viewport", [("canvas", "canvas", None), ("x", "0.25", None), ("y", "10", None), ("width", "200", None),
                          ("height", "0.5", None), ("color", "c1", None)]),
    ("core", "Buffer", [("count", "i1", None), ("dtype", 'np.dtype("f4")', None), ("data", 'b"abc"', "None")]),
    ("core", "List", [("data", "buf", None), ("itemsizes", "2", None)]),
] + [("visual", k, [(a, b, None) for a, b in v]) for k, v in VIS.items()]
METHODS = [
    ("core", "Buffer", 'gsp%s.core.Buffer(2, np.dtype("f4"), b"abcdefgh")', "set_data",
     [("offset", "4", None), ("data", 'memoryview(b"abcd")', None)]),
] + [("visual", k, "gsp%%s.visual.%s(%s)" % (k, ", ".join(b for _, b in v)), "render",
      [("viewport", "viewport", None), ("model", "m1", "None"), ("view", "m2", "None"),
       ("proj", "m3", "None")]) for k, v in VIS.items()]

COMMON = SETUP + '''
from gsp.io.convert import Converter
scalars = gsp_matplotlib.core.Buffer(2, np.dtype("f4"), b"01234567")
vec4s = gsp_matplotlib.core.Buffer(2, np.dtype(("f4", (4,))), b"0123456789abcdef0123456789abcdef")
counts = gsp_matplotlib.core.Buffer(2, np.dtype("i4"), np.array([1, 1], np.int32).tobytes())
m1, m2, m3 = [np.eye(4, dtype=np.float32) for i in range(3)]
def image(c):
    d = {}
    for k, v in c.parameters.items():
        if k != "id":
            d[k] = ("deferred conversion", v.converter.__name__, v.value) if isinstance(v, Converter) else v
    return [c.classname, c.methodname, d]
def attempt(f, *args, **kwargs):
    """the command recorded by a call, or the error of a call that is refused (a call is recorded before it takes effect)"""
    k = len(q)
    error = "no error"
    try:
        f(*args, **kwargs)
    except Exception as e:
        error = type(e).__name__
    if len(q) == k:
        return ["refused", 0, error]
    return ["accepted", len(q) - k, image(q[k])]
'''
NUMBERS = [("integer", "i1"), ("float", "f1"), ("truth value", "True"), ("numpy integer", "np.int64(3)"), ("numpy float", "np.float32(0.5)")]
SIZES = NUMBERS + [("list", "[f1, f2]"), ("array", "np.array([f1, f2], np.float32)"), ("buffer", "scalars"), ("measure", "t2"),
                   ("measure times number", "3 * t2"), ("accessor", "transform.X(buf)"), ("arithmetic", "transform.X(buf) * f1 + 1.0"),
                   ("chain", "t2(transform.X(buf))"), ("text", '"abc"'), ("nothing", "None"), ("tuple", "(f1, f2)")]
COLORS = [("color", "c1"), ("tuple", "(f1, f2, f3, f4)"), ("list", "[f1, f2, f3, f4]"), ("three numbers", "[f1, f2, f3]"),
          ("list of lists", "[[f1, f2, f3, f4], [f4, f3, f2, f1]]"), ("list of colors", "[c1, c2]"), ("text", '"#ff0000"'),
          ("array", "np.array([[f1, f2, f3, f4], [f4, f3, f2, f1]], np.float32)"), ("buffer", "vec4s"), ("float", "f1"), ("integer", "i1"),
          ("colormap", 'transform.Colormap("gray")(transform.X(buf))'), ("nothing", "None"), ("transform", "t1")]
POSITIONS = [("buffer", "buf"), ("list of lists", "[[f1, f2, f3], [f2, f3, f4]]"), ("array", "np.array([[f1, f2, f3], [f4, f2, f3]])"),
             ("array of two columns", "np.array([[f1, f2], [f4, f2]], np.float32)"), ("text", '"abc"'), ("nothing", "None"), ("float", "f1")]
GROUPS = [("number", "2"), ("numpy integer", "np.int64(2)"), ("array", "np.array([1, 1])"), ("array of bytes", "np.array([1, 1], np.uint8)"),
          ("list of lists", "[[0, 1], [1, 0]]"), ("list", "[1, 1]"), ("buffer", "counts"), ("text", '"abc"'), ("nothing", "None"), ("float", "f1")]


def members(kind, *names):
    return [("member", "%s.%s" % (kind, names[0])), ("number", "int(%s.%s)" % (kind, names[1])), ("text", '"abc"'), ("nothing", "None"),
            ("list of members", "[%s.%s, %s.%s]" % (kind, names[0], kind, names[1])), ("list of numbers", "[1, 2]"), ("buffer", "counts"),
            ("array of numbers", "np.array([1, 2])")]


PALETTES = {
    "positions": POSITIONS, "indices": GROUPS, "types": [x for x in members("Marker", "star", "cross") if x[0] != "nothing"], "line_caps": members("LineCap", "round", "cap"),
    "line_joins": members("LineJoin", "round", "bevel"), "line_styles": members("LineStyle", "solid", "dashed"),
    "sizes": SIZES, "line_widths": SIZES, "colors": COLORS, "fill_colors": COLORS, "line_colors": COLORS,
    "angles": [x for x in NUMBERS] + [("text", '"abc"')], "axis": [("buffer", "buf2"), ("text", '"abc"'), ("float", "f1")],
    "color": COLORS, "x": NUMBERS + SIZES[8:10] + [("text", '"abc"'), ("color", "c1")],
    "canvas": [("canvas", "canvas"), ("protocol canvas", "core.Canvas(10, 10, 100.0)"), ("viewport", "viewport"), ("float", "f1"), ("nothing", "None")],
    "count": NUMBERS[:4] + [("text", '"abc"'), ("nothing", "None"), ("list", "[1, 2]")],
    "dtype": [("element type", 'np.dtype("f4")'), ("text", '"<f4"'), ("class", "np.float32"), ("record", 'np.dtype([("a", "f4"), ("b", "u1", 4)])'),
              ("float", "f1"), ("integer", "3")],
    "data": [("bytes", 'b"abcd"'), ("memory", 'memoryview(b"abcd")'), ("base64", '"YWJjZA=="'), ("nothing", "None"), ("float", "f1"), ("buffer", "buf"),
             ("array", "np.arange(3)")],
    "dpi": NUMBERS + [("text", '"abc"'), ("nothing", "None"), ("color", "c1")],
    "itemsizes": GROUPS[:6] + GROUPS[6:],
}
for _n in ("y", "width", "height"):
    PALETTES[_n] = PALETTES["x"]


def clients(ctx):
    out = []
    for mod, cls, params in CLASSES:
        src = COMMON + "P, M = gsp.%s.%s, gsp_matplotlib.%s.%s\n" % (mod, cls, mod, cls)
        for args, _ in splits(params):
            src += '''
p = attempt(P, %s)
m = attempt(M, %s)
__same__("the protocol accepts the call", p[:2], ["accepted", 1])
__same__("the backend records what the protocol records", m, p)
''' % (args, args)
        # one parameter fewer than declared, one more: the backend may not require fewer or more than the protocol
        pos = [e for _, e, _ in params]
        src += '''
__same__("a superfluous argument is refused", [attempt(P, %s, 1)[1], attempt(M, %s, 1)[1]], [0, 0])
''' % (", ".join(pos), ", ".join(pos))
        if params[-1][2] is None:
            src += '''
__same__("the last parameter has the same default, if any", attempt(M, %s)[0] == "accepted", attempt(P, %s)[0] == "accepted")
''' % (", ".join(pos[:-1]), ", ".join(pos[:-1]))
        out.append(Client("calls_%s" % cls, src, "gsp_matplotlib.%s.%s" % (mod, cls)))
        for i, (n, _, _) in enumerate(params):
            src = COMMON + "P, M = gsp.%s.%s, gsp_matplotlib.%s.%s\n" % (mod, cls, mod, cls)
            for label, e in PALETTES[n]:
                a = ", ".join(pos[:i] + ["v"] + pos[i + 1:])
                src += '''
v = %s
p = attempt(P, %s)
if p[0] == "accepted":
    m = attempt(M, %s)
    __same__(%r, m, p)
''' % (e, a, a, "%s given as %s: accepted and recorded alike" % (n, label))
            out.append(Client("kinds_%s_%s" % (cls, n), src, "gsp_matplotlib.%s.%s" % (mod, cls)))
    for mod, cls, make, meth, params in METHODS:
        src = COMMON + "p_obj, m_obj = %s, %s\n" % (make % "", make % "_matplotlib")
        for args, _ in splits(params):
            src += '''
p = attempt(p_obj.%s, %s)
m = attempt(m_obj.%s, %s)
__same__("the protocol accepts the call", p[:2], ["accepted", 1])
__same__("the backend records what the protocol records", m, p)
''' % (meth, args, meth, args)
        out.append(Client("method_%s_%s" % (cls, meth), src, "gsp_matplotlib.%s.%s.%s" % (mod, cls, meth)))
    out.append(Client("method_Canvas_render", COMMON + '''
from gsp.core import Canvas as P
from gsp_matplotlib.core import Canvas as M
p, m = P(40, 20, 100.0), M(40, 20, 100.0)
for call in (lambda o: o.render("out.png"), lambda o: o.render(target="out.png")):
    __same__("the protocol accepts the call", attempt(call, p)[0], "accepted")
    call(m)
''', "gsp_matplotlib.core.Canvas.render"))
    # every protocol class the backend offers, and everything it takes over unchanged
    out.append(Client("classes", COMMON + '''
from gsp.object import Object
for p, m in ((gsp.core, gsp_matplotlib.core), (gsp.visual, gsp_matplotlib.visual)):
    for name in dir(p):
        a = getattr(p, name)
        if isinstance(a, type) and issubclass(a, Object) and a.__module__.startswith("gsp."):
            b = getattr(m, name, None)
            if b is not None:
                __check__("the backend's " + name + " is one of the protocol's " + name, isinstance(b, type) and issubclass(b, a))
                for attr in dir(a):
                    if not attr.startswith("_"):
                        __check__("the backend's " + name + " has " + attr, hasattr(b, attr))
''', "gsp_matplotlib/__init__.py"))
    return out
