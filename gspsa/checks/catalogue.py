"""the recorded classes and methods of the library, with a value for each declared parameter

Objects are protocol objects (recorded by reference); the other values are symbolic or of the declared type."""

SETUP = '''
import numpy as np
import gsp, gsp_matplotlib
from gsp import core, visual, transform
from gsp.io import queue, record
from gsp.core import Color, Marker, LineCap, LineStyle, LineJoin
q = queue("client")
canvas = gsp_matplotlib.core.Canvas(400, 200, 100.0)
viewport = gsp_matplotlib.core.Viewport(canvas, 0, 0, 400, 200, Color(1.0, 1.0, 1.0, 1.0))
buf = gsp_matplotlib.core.Buffer(2, np.dtype(("f4", (3,))), b"0123456789abcdef01234567")
buf2 = gsp_matplotlib.core.Buffer(2, np.dtype(("f4", (3,))), b"0123456789abcdef01234567")
t1 = transform.X()
t2 = transform.Pixel()
c1 = Color(__sym__("c1r"), __sym__("c1g"), __sym__("c1b"), __sym__("c1a"))
c2 = Color(0.5, 0.25, 0.75, 1.0)
i1, i2 = __sym__("i1", "int", 1, 9), __sym__("i2", "int", 1, 9)
f1, f2, f3, f4 = __sym__("f1"), __sym__("f2"), __sym__("f3"), __sym__("f4")
'''

VIS = {
    "Pixels": [("positions", "buf"), ("colors", "c1")],
    "Points": [("positions", "buf"), ("sizes", "f1"), ("fill_colors", "c1"), ("line_colors", "t1"), ("line_widths", "f2")],
    "Markers": [("positions", "buf"), ("types", "Marker.star"), ("sizes", "f1"), ("axis", "buf2"), ("angles", "f2"),
                ("fill_colors", "t1"), ("line_colors", "c2"), ("line_widths", "f3")],
    "Segments": [("positions", "buf"), ("line_caps", "LineCap.round"), ("line_colors", "c1"), ("line_widths", "t2")],
    "Paths": [("positions", "buf"), ("indices", "2"), ("line_colors", "c1"), ("line_widths", "f1"),
              ("line_styles", "LineStyle.dashed"), ("line_joins", "LineJoin.bevel"), ("line_caps", "LineCap.round")],
    "Polygons": [("positions", "buf"), ("indices", "2"), ("fill_colors", "t1"), ("line_colors", "c1"), ("line_widths", "f1"),
                 ("line_styles", "LineStyle.dashed"), ("line_joins", "LineJoin.bevel")],
}

# (module, class, protocol name, [(parameter, expression, default or None)])
CTORS = []


def _add(mod, cls, name, params):
    CTORS.append((mod, cls, name, params))


for _m in ("gsp", "gsp_matplotlib"):
    _add(_m + ".core", "Canvas", "core.Canvas", [("width", "300", None), ("height", "200", None), ("dpi", "f1", None)])
    _add(_m + ".core", "Viewport", "core.Viewport", [("canvas", "canvas", None), ("x", "0.25", None), ("y", "10", None),
                                                   ("width", "200", None), ("height", "0.5", None), ("color", "c1", None)])
    _add(_m + ".core", "Buffer", "core.Buffer", [("count", "i1", None), ("dtype", 'np.dtype("f4")', None), ("data", 'b"abc"', "None")])
    _add(_m + ".core", "List", "core.List", [("data", "buf", None), ("itemsizes", "2", None)])
    for _k, _v in VIS.items():
        _add(_m + ".visual", _k, "visual." + _k, [(a, b, None) for a, b in _v])
_add("gsp.core", "Data", "core.Data", [("uri", '"file:x"', '""'), ("nbytes", "i1", "0"), ("dtype", '["f4"]', "None")])
for _k in ("X", "Y", "Z", "W", "R", "G", "B", "A"):
    _add("gsp.transform", _k, "transform." + _k, [("buffer", "buf", "None")])
_add("gsp.transform", "Accessor", "transform.Accessor", [("buffer", "t1", "None"), ("key", '"y"', "None")])
for _k in ("Pixel", "Point", "Inch", "Millimeter", "Centimeter", "Meter", "Kilometer", "Measure"):
    _add("gsp.transform", _k, "transform." + _k, [])
for _k in ("Add", "Sub", "Mul", "Div"):
    _add("gsp.transform", _k, "transform." + _k, [("left", "buf", "None"), ("right", "f1", "None")])
_add("gsp.transform", "Operator", "transform.Operator", [("operator", '"+"', None), ("left", "f1", "None"), ("right", "buf2", "None")])
_add("gsp.transform", "Transform", "transform.Transform", [("base", "t1", "None"), ("next", "t2", "None"), ("buffer", "buf", "None")])
_add("gsp.transform", "Colormap", "transform.Colormap", [("colormap", '"gray"', "None"), ("vmin", "f1", "None"), ("vmax", "f2", "None")])
_add("gsp.transform", "Out", "transform.Out", [("name", '"screen[positions].x"', "None")])

# (expression of the receiver, method, recorded name, parameters)
SETTERS = [
    ("transform.Transform()", "set_base", "set_base", [("base", "t1", "None")]),
    ("transform.Pixel()", "set_next", "set_next", [("next", "t2", "None")]),
    ("transform.X()", "set_buffer", "set_buffer", [("buffer", "buf", "None")]),
    ("transform.Pixel()", "set_buffer", "set_buffer", [("buffer", "f1", "None")]),
    ("transform.Add(1.0, 2.0)", "set_left", "set_left", [("left", "t1", None)]),
    ("transform.Sub(1.0, 2.0)", "set_right", "set_right", [("right", "f1", None)]),
    ("transform.Div(1.0, 2.0)", "set_operator", "set_operator", [("operator", '"*"', None)]),
    ('transform.Colormap("gray")', "set_colormap", "set_colormap", [("colormap", '"hot"', None)]),
    ("buf", "set_data", "set_data", [("offset", "4", None), ("data", 'memoryview(b"abcd")', None)]),
    ("buf", "set_data", "set_data", [("offset", "0", None), ("data", 'b"abcdefgh"', None)]),
    ("core.Data()", "set_data", "set_data", [("offset", "i1", None), ("data", 'b"abcd"', None)]),
    ("core.Canvas(10, 10, 100.0)", "render", "render", [("target", '"out.png"', None)]),
    ("visual.Points(buf, 1.0, c1, c2, 1.0)", "render", "render",
     [("viewport", "viewport", None), ("model", "None", "None"), ("view", "None", "None"), ("proj", "None", "None")]),
]
OBJECTS = {"buf", "buf2", "t1", "t2", "canvas", "viewport"}


def expected(params, given):
    """source of the expected parameter dictionary of a call which gives the parameters named in `given`"""
    items = ['"id": obj.id']
    for n, e, d in params:
        if n in given:
            if e in OBJECTS:
                items.append('"%s(id)": %s.id' % (n, e))
            else:
                items.append('"%s": %s' % (n, e))
        else:
            items.append('"%s": %s' % (n, d))
    return "{%s}" % ", ".join(items)


def splits(params):
    """(call arguments, names given): positional prefix then keywords, with and without the defaulted ones"""
    n = len(params)
    out = []
    for p in sorted({0, 1, n // 2, n}):
        if p > n:
            continue
        pos = [e for _, e, _ in params[:p]]
        kw = [(a, e) for a, e, _ in params[p:]]
        for rev in (False, True):
            if rev and len(kw) < 2:
                continue
            ks = list(reversed(kw)) if rev else kw
            out.append((", ".join(pos + ["%s=%s" % x for x in ks]), {a for a, _, _ in params}))
    opt = [a for a, _, d in params if d is not None]
    for drop in opt:
        if params[-1][0] == drop or True:
            keep = [x for x in params if x[0] != drop]
            out.append((", ".join("%s=%s" % (a, e) for a, e, _ in keep), {a for a, _, _ in keep}))
    if opt:
        keep = [x for x in params if x[2] is None]
        out.append((", ".join(e for _, e, _ in keep), {a for a, _, _ in keep}))
    seen, res = set(), []
    for a, g in out:
        if a not in seen:
            seen.add(a)
            res.append((a, g))
    return res
