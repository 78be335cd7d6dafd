"""C04: delegating constructors record one command for the most derived class."""
from ..run import Client
from .catalogue import SETUP, CTORS, splits

PROPERTY = "C04"
FLOOR = 200
EXPLANATION = (
    "Every class of the protocol and of the backend is constructed in every split of positional, keyword and defaulted arguments; the "
    "commands appended to all queues are counted on every path and must be exactly one, whose class and method names are those of "
    "the class. Derivations declared by the client (one, two and three levels, with and without a recorded constructor of their own) and "
    "objects created inside another object's constructor are counted as well.")

ENUM = '''
import gsp, gsp_matplotlib
from gsp.object import Object
known = %r
found = []
for mod, m in (("gsp.core", gsp.core), ("gsp.visual", gsp.visual), ("gsp.transform", gsp.transform),
               ("gsp_matplotlib.core", gsp_matplotlib.core), ("gsp_matplotlib.visual", gsp_matplotlib.visual)):
    for name in dir(m):
        k = getattr(m, name)
        if isinstance(k, type) and issubclass(k, Object):
            found.append((mod, name))
'''


def clients(ctx):
    out = []
    for mod, cls, name, params in CTORS:
        src = SETUP + '''
K = %s.%s
from gsp.io.command import CommandQueue
def counts(): return {k: len(v.commands) for k, v in CommandQueue._instances.items()}
''' % (mod, cls)
        forms = splits(params)
        for args, given in forms:
            src += '''
before = counts()
k = len(q)
obj = K(%s)
after = counts()
__same__("exactly one command, in the active queue", after, before | {"client": k + 1})
c = q[len(q) - 1]
__same__("named after the object's own type", [c.classname, c.methodname, c.parameters["id"]], [%r, %r, obj.id])
__check__("the object's own type", type(obj) is K)
''' % (args, cls, name)
        out.append(Client("ctor_%s_%s" % (mod.replace(".", "_"), cls), src, "%s.%s" % (mod, cls)))
    out.append(Client("derived", '''
from gsp.object import Object
from gsp.io.command import command
from gsp.io import queue, record
q = queue("client")
class A(Object):
    @command("m.A")
    def __init__(self, a: int = 1, b: float = 2.0):
        Object.__init__(self)
        self.a, self.b = a, b
class B(A):
    @command("m.B")
    def __init__(self, a: int, c: str = "c"):
        super().__init__(a, __no_command__=True)
        self.c = c
class C(B):
    @command("m.C")
    def __init__(self, d: int = 3):
        B.__init__(self, d, c="inner", __no_command__=True)
        self.d = d
class D(C):
    @command("m.D")
    def __init__(self): super().__init__(d=4, __no_command__=True)
class E(A):
    def __init__(self, a): A.__init__(self, a=a)
class F(A): pass
class Pair(Object):
    @command("m.Pair")
    def __init__(self, x: int):
        Object.__init__(self)
        self.left, self.right = A(x), B(x, "r")
n = __sym__("n", "int")
def one(obj, cls, meth, params):
    __same__(cls + ": one command", len(q) - k, 1)
    c = q[len(q) - 1]
    __same__(cls + ": own name", [c.classname, c.methodname], [cls, meth])
    __same__(cls + ": own parameters", c.parameters, params)
k = len(q); o = A(n); one(o, "A", "m.A", {"id": o.id, "a": n, "b": 2.0})
k = len(q); o = B(n); one(o, "B", "m.B", {"id": o.id, "a": n, "c": "c"})
k = len(q); o = B(c="z", a=n); one(o, "B", "m.B", {"id": o.id, "a": n, "c": "z"})
k = len(q); o = C(n); one(o, "C", "m.C", {"id": o.id, "d": n})
__same__("bases got their arguments", [o.a, o.b, o.c, o.d], [n, 2.0, "inner", n])
k = len(q); o = C(); one(o, "C", "m.C", {"id": o.id, "d": 3})
k = len(q); o = D(); one(o, "D", "m.D", {"id": o.id})
k = len(q); o = E(n); one(o, "E", "m.A", {"id": o.id, "a": n, "b": 2.0})
k = len(q); o = F(n); one(o, "F", "m.A", {"id": o.id, "a": n, "b": 2.0})
k = len(q); o = F(b=0.5); one(o, "F", "m.A", {"id": o.id, "a": 1, "b": 0.5})
k = len(q)
o = Pair(n)
__same__("parts are recorded on their own, before the whole",
         [(c.classname, c.methodname, c.parameters["id"]) for c in q.commands[k:]],
         [("A", "m.A", o.left.id), ("B", "m.B", o.right.id), ("Pair", "m.Pair", o.id)])
''', "gsp/io/command.py:command"))
    out.append(Client("composition", SETUP + '''
from gsp.transform import *
def made(f):
    k = len(q)
    r = f()
    new = [c for c in q.commands[k:] if c.parameters["id"] == r.id and "." in c.methodname]
    __same__("one creation command for the object built", len(new), 1)
    __same__("named after its type", [new[0].classname, new[0].methodname], [type(r).__name__, "transform." + type(r).__name__])
    for c in q.commands[k:]:
        if "." in c.methodname:
            __same__("every creation names its own class", c.methodname, "transform." + c.classname)
            __same__("and happens once per object", len([d for d in q.commands[k:] if d.parameters["id"] == c.parameters["id"] and "." in d.methodname]), 1)
    return r
x, p = X(buf), Pixel()
made(lambda: p(x)); made(lambda: p(X())); made(lambda: p(X())(buf)); made(lambda: Inch()(Y()))
made(lambda: x + 1.0); made(lambda: 1.0 + x); made(lambda: x - p); made(lambda: 2.0 - x); made(lambda: x * f1); made(lambda: f1 * x)
made(lambda: x / 2.0); made(lambda: 2.0 / x); made(lambda: -x); made(lambda: x.copy()); made(lambda: (x + p).copy())
made(lambda: Colormap("gray")(x)); made(lambda: Colormap("gray", f1, f2).copy()); made(lambda: Out("screen[positions].x").copy())
made(lambda: (x + 1.0) * (p - x)); made(lambda: Centimeter()(x) + f1)
''', "gsp/transform/transform.py:Transform.copy"))
    return out
