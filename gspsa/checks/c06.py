"""C06: executing a command applies exactly the recorded call."""
from ..run import Client
from .catalogue import SETUP, CTORS, SETTERS

PROPERTY = "C06"
FLOOR = 300
EXPLANATION = (
    "Commands are built for a backend declared by the client, whose constructors and methods note what they receive, and for every "
    "recorded constructor of the library against the rendering backend. Executing them is followed on symbolic parameters: the class or method "
    "reached, every argument, the registration of the result and the command afterwards are compared with the recorded call.")

BACK = '''
import numpy as np
import gsp
from gsp.object import Object, OID
from gsp.io.command import Command, CommandQueue, record
from gsp.io.convert import Converter
seen = []
class Thing(Object):
    def __init__(self, a, b=5, **kw):
        Object.__init__(self)
        seen.append(("Thing", a, b, kw))
    def put(self, *args, **kw):
        seen.append(("put", self, args, kw))
        return kw.get("a")
class Sub(Thing):
    def put(self, **kw):
        seen.append(("Sub.put", self, (), kw))
        return "sub"
class Empty(Object):
    def __init__(self):
        Object.__init__(self)
        seen.append(("Empty",))
class ns: pass
class backend: pass
ns.Thing, ns.Sub, ns.Empty = Thing, Sub, Empty
backend.ns = ns
backend.Thing, backend.Sub, backend.Empty = Thing, Sub, Empty
record(False)
n, x, s = __sym__("n", "int", 0, 50), __sym__("x"), __sym__("s", "str", "a", "b")
def same_params(label, c, before, objs):
    __same__(label + ": command not modified", sorted(c.parameters.keys()), sorted(before.keys()))
    for k in before:
        __same__(label + ": command not modified, " + k, c.parameters[k], before[k])
'''


def clients(ctx):
    out = []
    where = "gsp/io/command.py:Command.execute"
    for meth in ("ns.Thing", "__init__"):
        out.append(Client("create_" + meth.replace(".", "_"), BACK + '''
o1, o2 = Empty(), Empty()
lst = [x, n]
calls = []
def conv(v):
    calls.append(v)
    return ("converted", v)
cv = Converter(conv, x)
for oid in (OID(777), 888, OID(1000)):
    for (given, want_a, want_b, want_kw) in [
            ({"a": x}, x, 5, {}), ({"a": x, "b": n}, x, n, {}), ({"b": s, "a": None}, None, s, {}),
            ({"a(id)": o1.id}, o1, 5, {}), ({"a(id)": o1.id, "b(id)": o2.id}, o1, o2, {}), ({"b(id)": o1.id, "a": lst}, lst, o1, {}),
            ({"a(id)": int(o2.id), "b": x}, o2, x, {}), ({"a": OID(o1.id), "b": 3}, o1, 3, {}),
            ({"a": cv, "b": x}, ("converted", x), x, {}), ({"a": o1.id, "b": cv}, o1, ("converted", x), {}),
            ({"a": x, "extra": n, "other(id)": o2.id}, x, 5, {"extra": n, "other": o2}),
            ({"a": x, "grid(id)": o2.id, "i(id)": o1.id, "di": n, "id(": s}, x, 5, {"grid": o2, "i": o1, "di": n, "id(": s}),
            ({"a": {"k": x}, "b": (n, x)}, {"k": x}, (n, x), {}), ({"a": int(o1.id), "b": True}, int(o1.id), True, {})]:
        for rep in range(2):
            p = {"id": oid} | given
            c = Command("Thing", %r, p)
            before = dict(c.parameters)
            del seen[:]
            del calls[:]
            r = c.execute(backend)
            __same__("the constructor runs once", len(seen), 1)
            __same__("with the recorded parameters", seen[0], ("Thing", want_a, want_b, want_kw))
            __check__("the class of that name", type(r) is Thing)
            __same__("the result has the recorded id", r.id, oid)
            __ident__("and is registered under it", Object.objects[oid], r)
            __same__("deferred conversions run once", len(calls), 1 if cv in given.values() else 0)
            same_params("after execution", c, before, None)
            r2 = c.execute(backend)
            __same__("executed again", seen[1], ("Thing", want_a, want_b, want_kw))
            __check__("builds a new object", r2 is not r)
            __ident__("now registered", Object.objects[oid], r2)
            same_params("after a second execution", c, before, None)
            __ident__("other objects keep their registration", Object.objects[o1.id], o1)
            __ident__("other objects keep their registration", Object.objects[o2.id], o2)
c = Command("Empty", %r, {"id": 4321})
del seen[:]
r = c.execute(backend)
__same__("no parameters", seen, [("Empty",)])
__ident__("registered", Object.objects[4321], r)
''' % (meth, "ns.Empty" if meth != "__init__" else meth), where))
    out.append(Client("method", BACK + '''
t, u, o1, o2 = Thing(1), Sub(2), Empty(), Empty()
calls = []
def conv(v):
    calls.append(v)
    return ("converted", v)
cv = Converter(conv, x)
reg = dict(Object.objects)
for (obj, name) in ((t, "put"), (u, "Sub.put")):
    for given, want in [({}, {}), ({"a": x}, {"a": x}), ({"a": n, "b": s}, {"a": n, "b": s}), ({"a(id)": o1.id}, {"a": o1}),
                        ({"a(id)": o2.id, "b": x}, {"a": o2, "b": x}), ({"b": o1.id}, {"b": o1}), ({"a": cv, "b": [x]}, {"a": ("converted", x), "b": [x]}),
                        ({"a(id)": t.id}, {"a": t}), ({"a(id)": u.id, "c": cv}, {"a": u, "c": ("converted", x)}), ({"a": None}, {"a": None}),
                        ({"a": False, "b": 0, "c": ""}, {"a": False, "b": 0, "c": ""})]:
        c = Command(type(obj).__name__, "put", {"id": obj.id} | given)
        before = dict(c.parameters)
        del seen[:]
        del calls[:]
        r = c.execute(backend)
        __same__("the method runs once", len(seen), 1)
        __ident__("on the object registered under the id", seen[0][1], obj)
        __same__("of that object's class, with the recorded parameters", (seen[0][0], seen[0][2], seen[0][3]), (name, (), want))
        __same__("its result is returned", r, want.get("a") if obj is t else "sub")
        __same__("deferred conversions run once", len(calls), 1 if cv in given.values() else 0)
        same_params("after execution", c, before, None)
        c.execute(backend)
        __same__("executed again", (seen[1][0], seen[1][2], seen[1][3]), (name, (), want))
        same_params("after a second execution", c, before, None)
__same__("the registry is unchanged", sorted(Object.objects.keys()), sorted(reg.keys()))
for k in reg:
    __ident__("the registry is unchanged", Object.objects[k], reg[k])
''', where))
    out.append(Client("rebinding", BACK + '''
t = Thing(1)
v = Thing(2)
c = Command("Thing", "put", {"id": t.id, "a(id)": v.id, "b": OID(v.id)})
c.execute(backend)
w = Thing(3)
k = v.id
Object.objects[k] = w
c.execute(backend)
__ident__("references are resolved when executed", seen[-1][3]["a"], w)
__ident__("references are resolved when executed", seen[-1][3]["b"], w)
Object.objects[t.id] = w
c.execute(backend)
__ident__("the receiver is resolved when executed", seen[-1][1], w)
bad = Command("Thing", "put", {"id": t.id, "a(id)": 999999})
try:
    bad.execute(backend)
except KeyError:
    pass
else:
    __fail__("a reference to nothing must be refused")
bad = Command("Nothing", "ns.Nothing", {"id": 5})
n0 = len(Object.objects)
try:
    bad.execute(backend)
except AttributeError:
    pass
else:
    __fail__("an unknown class must be refused")
__same__("nothing registered", len(Object.objects), n0)
try:
    Command("Thing", "put", {"a": 1})
except ValueError:
    pass
else:
    __fail__("a command without id must be refused")
''', where))
    # the library's own commands, executed on the rendering backend
    for mod, cls, name, params in CTORS:
        if mod.startswith("gsp.") and name.split(".")[0] in ("core", "visual", "transform"):
            vals = [(a, e) for a, e, _ in params]
            if cls == "Accessor" or cls == "Transform":
                pass
            src = SETUP + '''
import gsp.transform
from gsp.object import Object
obj = %s.%s(%s)
c = q[len(q) - 1]
before = dict(c.parameters)
k = len(q)
record(False)
r = c.execute(gsp_matplotlib)
record(True)
__same__("executing does not record", len(q), k)
want = gsp_matplotlib
for part in %r.split("."): want = getattr(want, part)
__check__("an object of the backend's class", type(r) is want)
__same__("has the recorded id", r.id, obj.id)
__ident__("is registered under it", Object.objects[c.parameters["id"]], r)
__same__("command not modified", c.parameters, before)
record(False)
twin = want(%s)
def state(o): return {k: v for k, v in vars(o).items() if k not in ("_id", "_figure", "_axes", "_viewports", "paths", "_out_variables")}
a, b = state(r), state(twin)
__same__("same attributes as the direct call", sorted(a.keys()), sorted(b.keys()))
for k in a:
    if isinstance(a[k], (int, float, str, bool, tuple, list, dict, bytes)) or a[k] is None:
        __same__("attribute " + k + " as the direct call", a[k], b[k])
''' % (mod, cls, ", ".join("%s=%s" % v for v in vals), name, ", ".join("%s=%s" % v for v in vals))
            out.append(Client("backend_" + name.replace(".", "_"), src, "gsp_matplotlib." + name))
    for i, (recv, meth, name, params) in enumerate(SETTERS):
        a = ", ".join("%s=%s" % (p, e) for p, e, _ in params)
        out.append(Client("setter_%s_%d" % (meth, i), SETUP + '''
a, b = %s, %s
a.%s(%s)
c = q[len(q) - 1]
c.parameters["id"] = b.id
record(False)
c.execute(gsp_matplotlib)
def state(o): return {k: v for k, v in vars(o).items() if k not in ("_id", "_figure", "_axes", "_viewports", "paths", "_out_variables")}
sa, sb = state(a), state(b)
__same__("attributes", sorted(sa.keys()), sorted(sb.keys()))
for k in sa:
    if isinstance(sa[k], (int, float, str, bool, tuple, list, dict, bytes, gsp.Object)) or sa[k] is None:
        __same__("attribute " + k + " as after the direct call", sb[k], sa[k])
''' % (recv, recv, meth, a), recv + "." + meth))
    return out
