"""C44: anything can be printed, and the text says which thing it is."""
from ..run import Client

PROPERTY = "C44"
FLOOR = 250
EXPLANATION = (
    "Commands of every form, queues in each mode, transforms applied to every kind of operand, buffers, lists, ragged lists and the value "
    "types are turned into text (str, repr, format, console dump) by abstract execution, with symbolic values: the text names the number, "
    "class, object, method, operands and parameters of the thing; queues list each command once, in order; commands, queues and objects are "
    "the same before and after, and nothing is recorded.")

BASE = '''
import numpy as np
import gsp, gsp_matplotlib
from gsp import core, visual, transform
from gsp.object import Object, OID
from gsp.io import queue
from gsp.io.command import command, Command, CommandQueue
from gsp.io.convert import Converter
from gsp.core import Color, Marker, LineCap, LineStyle, LineJoin, Vec2, Vec3, Vec4, Matrix
from gsp_matplotlib import glm
class Thing(Object):
    @command("ns.Thing")
    def __init__(self, a=None, b=1.5):
        Object.__init__(self)
    @command()
    def put(self, v, w=2): pass
def snapshot(q): return [[c, c.id, c.classname, c.methodname, dict(c.parameters)] for c in q.commands]
def unchanged(q, before):
    __same__("printing adds and removes no command", len(q.commands), len(before))
    for i in range(len(before)):
        c, cid, cn, mn, p = before[i]
        __ident__("same commands", q.commands[i], c)
        __same__("same command data", [c.id, c.classname, c.methodname], [cid, cn, mn])
        __same__("same parameters", list(c.parameters.keys()), list(p.keys()))
        for k in p:
            __ident__("same parameter " + k, c.parameters[k], p[k])
def between(label, text, *parts):
    """each part occurs, in this order"""
    at = 0
    for p in parts:
        i = text.find(p, at)
        __check__(label + ": " + "the text names it, in order", i >= 0)
        if i < 0: return
        at = i + len(p)
'''

COMMANDS = '''
q = queue("client")
t = Thing()
u = Thing(7, b=2.5)
t.put(17)
u.put(t, w=3)
def double(v): return [v, v]
q.push(Command("Thing", "put", {"id": u.id, "v": Converter(double, 6), "w": "text"}))
for m in (None, "", "a.b.C", "set"):
    q.push(Command("Kind", m, {"id": t.id, "first": 1, "second": "two", "third": None, "fourth": [1.5], "fifth": t}))
n = len(q.commands)
want = [("ns.Thing", t, True, {"a": "NoneType", "b": "float"}), ("ns.Thing", u, True, {"a": "int", "b": "float"}),
        ("put", t, False, {"v": "int", "w": "int"}), ("put", u, False, {"v_ID": "int", "w": "int"}),
        ("put", u, False, {"v": "int", "w": "str"})]
for m in (None, "", "a.b.C", "set"):
    want.append((m, t, m != "set", {"first": "int", "second": "str", "third": "NoneType", "fourth": "list"}))
before = snapshot(q)
'''


def clients(ctx):
    out = []
    out.append(Client("commands", BASE + COMMANDS + '''
for i in range(n):
    c = q.commands[i]
    m, o, creation, params = want[i]
    for s in (str(c), "%s" % c, f"{c}"):
        between("command", s, "#%d: " % c.id, c.classname, "(id=%d)" % o.id)
        __same__("its method, when it is one", s[s.index("(id="):].find("/" + str(m)) > 0, not creation)
        __same__("on one line", s.count("\\n"), 0)
unchanged(q, before)
''', "gsp/io/command.py:Command.__str__"))
    out.append(Client("commands_dumped", BASE + COMMANDS + '''
for i in range(n):
    c = q.commands[i]
    m, o, creation, params = want[i]
    __printed__()
    r = c.dump()
    s = __printed__()
    __same__("nothing returned", r, None)
    rows = s.split("\\n")
    between("command", rows[0], "#%03d: " % c.id, c.classname, "(id=%d)" % o.id)
    __same__("creation or call", [rows[0].startswith("#%03d: Creation of " % c.id), rows[0].endswith("(…)")], [creation, not creation])
    if not creation: between("method", rows[0], c.classname, m)
    __same__("one line for each parameter", len(rows), 1 + len(c.parameters) + 1)
    names = list(c.parameters.keys())
    for k in range(len(names)):
        between("parameter", rows[1 + k], "| %s: " % names[k])
        v = c.parameters[names[k]]
        if isinstance(v, Converter):
            between("conversion", rows[1 + k], ": int (", "double")
        elif names[k] in params:
            __check__("its type", rows[1 + k].endswith(": " + params[names[k]]))
    __same__("dumped again", (c.dump(), __printed__())[1], s)
unchanged(q, before)
''', "gsp/io/command.py:Command.dump"))
    out.append(Client("queues", BASE + '''
a = queue("first")
t = Thing()
b = queue("second")
u = Thing(2)
u.put(1)
u.put(u)
c = queue("third")
bb = snapshot(b)
for ro in (False, True):
    for q, name, active, n in ((a, "first", False, 1), (b, "second", False, 3), (c, "third", True, 0)):
        q.readonly = ro
        for s in (str(q), f"{q}"):
            rows = s.split("\\n")
            between("queue", rows[0], "CommandQueue", '"%s"' % name, "read-only" if ro else "read-write", ": %d command" % n)
            __same__("active or not", ["active" in rows[0], "not active" in rows[0]], [True, not active])
            __same__("each command once", len(rows), 1 + n + 1)
            for i in range(n):
                __same__("each command, in order", rows[1 + i], "  - " + str(q[i]))
        __printed__()
        print(q)
        __same__("printed", __printed__(), s + "\\n")
        q.readonly = False
__ident__("same active queue", CommandQueue.active, c)
unchanged(b, bb)
__same__("nothing recorded", [len(a), len(c)], [1, 0])
''', "gsp/io/command.py:CommandQueue.__str__"))
    operands = [("number", "n1", "str(n1)"), ("float", "0.5", "'0.5'"), ("none", "None", "'None'"),
                ("transform", "inner", "'X (id=', '[base=%d])' % inner.id"), ("buffer", "B", "'Buffer(2, float32)'"),
                ("composed", "comp", "'Y (id=', '[base=%d])(' % comp.id")]
    for op in ("Add", "Sub", "Mul", "Div"):
        for i, (ln, l, lt) in enumerate(operands):
            rn, r, rt = operands[(i * 2 + 1) % len(operands)]
            out.append(Client("operator_%s_%s_%s" % (op, ln, rn), BASE + '''
q = queue("client")
n1 = __sym__("n", "int", 0, 99)
inner = transform.X()
B = gsp_matplotlib.core.Buffer(2, np.dtype("f4"), b"01234567")
comp = transform.Y(transform.X())
o = transform.%s(%s, %s)
before = snapshot(q)
s = repr(o)
between("operator", s, "%s", "id=%%d" %% o.id, "left", %s, "right", %s)
__same__("str", str(o), s)
__same__("format", f"{o}", s)
__same__("again", repr(o), s)
unchanged(q, before)
''' % (op, l, r, op, lt, rt), "gsp/transform/operator.py:Operator.__repr__"))
    for cls in ("X", "Y", "Z", "R", "G", "B", "A", "Inch", "Pixel", "Point", "Colormap"):
        arg = '"magma"' if cls == "Colormap" else ""
        out.append(Client("transform_" + cls, BASE + '''
if not hasattr(transform, "%(c)s"): __fail__("no such transform")
q = queue("client")
B = gsp_matplotlib.core.Buffer(2, np.dtype(("f4", (4,))), bytes(range(32)))
t = transform.%(c)s(%(a)s)
before = snapshot(q)
between("transform", repr(t), "%(c)s", "id=%%d" %% t.id)
__same__("str", str(t), repr(t))
unchanged(q, before)
if not isinstance(t, transform.Out):
    x = transform.X()
    d = t(x)
    before = snapshot(q)
    s = repr(d)
    between("composed", s, "%(c)s", "id=%%d" %% d.id, "(%%d)" %% d._next.id)
    __same__("of what it was made from", ["base=%%d" %% t.id in s, "base" in repr(t)], [True, False])
    __same__("again", repr(d), s)
    unchanged(q, before)
    d2 = t(B)
    values = [(t(b), s) for b, s in ((0.0, "(0.0)"), (0, "(0)"), (2.5, "(2.5)"), (-3, "(-3)"), ((1.0, 2.0, 0.0), "((1.0, 2.0, 0.0))"), ((0.0,), "((0.0,))"))]
    before = snapshot(q)
    between("bound", repr(d2), "%(c)s", "id=%%d" %% d2.id, "(%%d)" %% B.id)
    for d3, text in values:
        between("bound to a value", repr(d3), "%(c)s", "id=%%d" %% d3.id, "[base=%%d]" %% t.id, text)
    between("the composed one, as before", repr(d), "%(c)s", "id=%%d" %% d.id, "(%%d)" %% d._next.id)
    unchanged(q, before)
''' % {"c": cls, "a": arg}, "gsp/transform/transform.py:Transform.__repr__"))
    out.append(Client("values", BASE + '''
q = queue("client")
x, y, z, w = __sym__("x"), __sym__("y"), __sym__("z"), __sym__("w")
for f in (repr, str):
    between("color", f(Color(x, y, z, w)), "Color", "r=", str(x), "g=", str(y), "b=", str(z), "a=", str(w))
    between("vec2", f(Vec2(x, y)), "Vec2", "x=", str(x), "y=", str(y))
    between("vec3", f(Vec3(x, y, z)), "Vec3", "x=", str(x), "y=", str(y), "z=", str(z))
    between("vec4", f(Vec4(x, y, z, w)), "Vec4", "x=", str(x), "y=", str(y), "z=", str(z), "w=", str(w))
for T in (Marker, LineCap, LineStyle, LineJoin):
    for m in T:
        between("entry", repr(m), T.__name__, m.name, str(m.value))
__same__("each value type has its own name", [Color.__name__, Vec2.__name__, Vec3.__name__, Vec4.__name__, Marker.__name__, LineCap.__name__,
         LineStyle.__name__, LineJoin.__name__], ["Color", "Vec2", "Vec3", "Vec4", "Marker", "LineCap", "LineStyle", "LineJoin"])
__same__("nothing recorded", len(q), 0)
''', "gsp/core/types.py"))
    for n, dt, name in ((1, '"f4"', "float32"), (3, '"u1"', "uint8"), (2, '"i4"', "int32"), (0, '"f8"', "float64")):
        out.append(Client("buffer_%s" % name, BASE + '''
q = queue("client")
d = np.dtype(%s)
B = gsp_matplotlib.core.Buffer(%d, d, bytes(%d * d.itemsize))
before = snapshot(q)
for f in (repr, str):
    between("buffer", f(B), "Buffer", "%d", "%s")
unchanged(q, before)
__same__("its data", B.__array__().tobytes(), bytes(%d * d.itemsize))
''' % (dt, n, n, n, name, n), "gsp_matplotlib/core/buffer.py:Buffer.__repr__"))
    for sizes in ((2,), (1, 3), (2, 1, 2)):
        tot = sum(sizes)
        out.append(Client("list_%d" % len(sizes), BASE + '''
q = queue("client")
B = gsp_matplotlib.core.Buffer(%d, np.dtype("i4"), np.arange(%d).astype(np.int32).tobytes())
L = gsp_matplotlib.core.List(B, np.array(%r))
before = snapshot(q)
for f in (repr, str):
    between("list", f(L), "List", "%d", "int32")
unchanged(q, before)
''' % (tot, tot, list(sizes), len(sizes)), "gsp_matplotlib/core/list.py:List.__repr__"))
    for rows in ([[1, 2], [3]], [[4], [5, 6], [7]], [[8, 9]]):
        out.append(Client("ragged_%d" % len(rows), BASE + '''
V = glm.vlist(%r)
s = str(V)
between("ragged", s, *[str(np.array(r)) for r in %r])
__same__("each item once", s.count("["), %d)
__same__("again", str(V), s)
__same__("unchanged", [r.tolist() for r in V], %r)
''' % (rows, rows, len(rows) + 1, rows), "gsp_matplotlib/glm/ndarray/ragged.py:ragged.__str__"))
    out.append(Client("objects", BASE + '''
q = queue("client")
c = core.Canvas(400, 200, 100.0)
v = core.Viewport(c, 0, 0, 400, 200, Color(1.0, 1.0, 1.0, 1.0))
b = core.Buffer(2, np.dtype("f4"), b"01234567")
l = core.List(b, 1)
objs = [c, v, b, l, visual.Pixels(b, Color(1.0, 1.0, 1.0, 1.0)), Thing(3)]
before = snapshot(q)
for o in objs:
    for f in (repr, str):
        __check__("text", isinstance(f(o), str))
        __check__("names its class", type(o).__name__ in f(o))
unchanged(q, before)
''', "gsp/object.py:Object"))
    return out
