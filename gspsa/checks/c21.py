"""C21: a visual keeps each attribute it was given, under its own name."""
from ..run import Client
from .catalogue import SETUP, VIS

PROPERTY = "C21"
FLOOR = 200
EXPLANATION = (
    "For every visual of the protocol and of the backend: the value read back under each attribute's name is the very value "
    "given (by position or by keyword), replacing one leaves each other one as it was, names the visual does not have are "
    "refused for reading and writing, a rendering changes no input but the viewport, writing an output never touches an "
    "input, and two visuals share nothing.")

# another value of a suitable kind for every attribute
OTHER = {"positions": "buf2", "colors": "c2", "sizes": "f4", "fill_colors": "c2", "line_colors": "c1", "line_widths": "f4",
         "types": "Marker.heart", "axis": "buf", "angles": "f4", "line_caps": "LineCap.butt", "line_styles": "LineStyle.dotted",
         "line_joins": "LineJoin.miter", "indices": "1", "viewport": "viewport"}
OUTS = {"Pixels": {"screen[positions]"}, "Points": {"screen[positions]"}, "Markers": {"screen[positions]"},
        "Segments": {"screen[positions]", "screen[segments]"}, "Paths": {"screen[positions]", "screen[paths]"},
        "Polygons": {"screen[positions]", "screen[polygons]"}}
REFUSED = '''
def refused(f):
    try:
        f()
    except (ValueError, IndexError, KeyError):
        return True
    return False
'''


def clients(ctx):
    out = []
    for mod in ("gsp", "gsp_matplotlib"):
        for cls, params in VIS.items():
            where = "%s/visual/%s.py:%s" % (mod, cls.lower(), cls)
            names = [n for n, _ in params]
            vals = ", ".join(v for _, v in params)
            src = SETUP + REFUSED + """
names = %r
values = [%s]
v = %s.visual.%s(*values)
w = %s.visual.%s(%s)
for n, x in zip(names, values):
    __ident__("attribute " + n + " is the value given", v.get_variable(n), x)
    __ident__("attribute " + n + " is the value given by keyword", w.get_variable(n), x)
__check__("no viewport before the first render", v.get_variable("viewport") is None)
""" % (names, vals, mod, cls, mod, cls, ", ".join("%s=%s" % (n, e) for n, e in reversed(params)))
            for n, e in params + [("viewport", "viewport")]:
                src += """
nv = %s
v.set_variable(%r, nv)
__ident__("replaced attribute %s reads back", v.get_variable(%r), nv)
for n, x in zip(names, values):
    if n != %r:
        __ident__("attribute " + n + " kept when %s is replaced", v.get_variable(n), x)
    __ident__("attribute " + n + " of another visual kept when %s is replaced", w.get_variable(n), x)
for x in (None, 0, 0.0, False, "", [], (), 1):
    v.set_variable(%r, x)
    __ident__("replaced attribute %s reads back, whatever it is", v.get_variable(%r), x)
v.set_variable(%r, %s)
""" % (OTHER[n], n, n, n, n, n, n, n, n, n, n, e)
            for o in sorted(OUTS[cls]):
                src += """
o = v.get_variable(%r)
o2 = w.get_variable(%r)
before = o2 + 0.0
v.set_variable(%r, 0.5)
__same__("written output %s", v.get_variable(%r), o * 0.0 + 0.5)
__ident__("output %s keeps its storage", v.get_variable(%r), o)
__same__("output %s of another visual", w.get_variable(%r), before)
for n, x in zip(names, values):
    __ident__("attribute " + n + " kept when output %s is written", v.get_variable(n), x)
""" % (o, o, o, o, o, o, o, o, o, o)
            for bad in ("position", "color", "", "Positions", "screen", "screen[colors]", "id", "model", "_in_variables", 0, None):
                src += """
__check__("no attribute %s to read", refused(lambda: v.get_variable(%r)))
__check__("no attribute %s to write", refused(lambda: v.set_variable(%r, 1.0)))
""" % (bad, bad, bad, bad)
            src += """
for n, x in zip(names, values):
    __ident__("attribute " + n + " kept after refused writes", v.get_variable(n), x)
"""
            out.append(Client("%s_%s" % (mod, cls), src, where))
    for cls, params in VIS.items():
        params = [(n, "buf" if n == "positions" else {"t1": "c2", "t2": "f3"}.get(e, e)) for n, e in params]
        names = [n for n, _ in params]
        first = 'gsp_matplotlib.core.Buffer(2, np.dtype(("f4", (2, 3))), b"0123456789abcdef01234567" * 2)' \
            if cls == "Segments" else "buf"
        out.append(Client("render_" + cls, SETUP + REFUSED + """
seg = %s
values = [seg if x is buf else x for x in [%s]]
names = %r
v = gsp_matplotlib.visual.%s(*values)
for i in range(2):
    v.render(viewport)
    for n, x in zip(names, values):
        __ident__("attribute " + n + " kept by a render", v.get_variable(n), x)
    __ident__("viewport rendered into", v.get_variable("viewport"), viewport)
""" % (first, ", ".join(e for _, e in params), names, cls), "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)))
    return out
