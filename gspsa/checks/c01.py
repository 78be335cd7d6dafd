"""C01: a recorded call yields one complete command."""
from ..run import Client
from .catalogue import SETUP, CTORS, SETTERS, expected, splits

PROPERTY = "C01"
FLOOR = 400
EXPLANATION = (
    "Every recorded constructor and setter of both packages, and a family of methods declared by the client itself, is called on "
    "symbolic arguments in every split of positional, keyword and defaulted parameters. The abstract queue is compared before "
    "and after: exactly one command more, carrying the receiver's id, class and method names and exactly the declared "
    "parameters with the values of the call, references under their id key.")

GENERIC = '''
from gsp.object import Object
from gsp.io.command import command, CommandQueue
class Base(Object):
    @command("thing.Base")
    def __init__(self, a: int = 1):
        Object.__init__(self)
    @command()
    def m0(self): return 7
    @command("named")
    def m1(self, a: int): return a
    @command()
    def m2(self, a: int | float, b: Object = None): return (a, b)
    @command()
    def m3(self, a: float, b: str = "s", c: list = None): return c
    @command()
    def m4(self, x: Object, y: Object = None, z: float = 2.5, w=None): return self
    @command()
    def local(self, a: int):
        b = a + 1
        c = b * 2
        return c
class Derived(Base):
    def __init__(self, a: int):
        Base.__init__(self, a)
o1, o2 = Object(), Object()
n = __sym__("n", "int")
x, y = __sym__("x"), __sym__("y")
q = CommandQueue("generic")
def one(label, before, cls, meth, want, obj):
    __check__(label + ": one command more", len(q) == before + 1)
    c = q[len(q) - 1]
    __same__(label + ": class and method", [c.classname, c.methodname], [cls, meth])
    __same__(label + ": parameter names", sorted(c.parameters.keys()), sorted(want.keys()))
    for k in want:
        __same__(label + ": parameter " + k, c.parameters[k], want[k])
b = Base(n)
one("constructor", 0, "Base", "thing.Base", {"id": b.id, "a": n}, b)
b = Base()
one("constructor, default", 1, "Base", "thing.Base", {"id": b.id, "a": 1}, b)
d = Derived(n)
one("derived constructor", 2, "Derived", "thing.Base", {"id": d.id, "a": n}, d)
'''

CALLS = [
    ("m0()", "m0", {}, "7"),
    ("m1(n)", "named", {"a": "n"}, "n"), ("m1(a=n)", "named", {"a": "n"}, "n"),
    ("m2(x)", "m2", {"a": "x", "b": "None"}, "(x, None)"), ("m2(x, o1)", "m2", {"a": "x", "b(id)": "o1.id"}, "(x, o1)"),
    ("m2(n, b=o1)", "m2", {"a": "n", "b(id)": "o1.id"}, "(n, o1)"), ("m2(b=o1, a=n)", "m2", {"a": "n", "b(id)": "o1.id"}, "(n, o1)"),
    ("m2(a=x, b=None)", "m2", {"a": "x", "b": "None"}, "(x, None)"),
    ("m3(x)", "m3", {"a": "x", "b": '"s"', "c": "None"}, "None"),
    ('m3(x, "t")', "m3", {"a": "x", "b": '"t"', "c": "None"}, "None"),
    ('m3(x, c=[1, x])', "m3", {"a": "x", "b": '"s"', "c": "[1, x]"}, "[1, x]"),
    ('m3(c=[x], b="u", a=y)', "m3", {"a": "y", "b": '"u"', "c": "[x]"}, "[x]"),
    ("m4(o1)", "m4", {"x(id)": "o1.id", "y": "None", "z": "2.5", "w": "None"}, "b"),
    ("m4(o1, o2, x, y)", "m4", {"x(id)": "o1.id", "y(id)": "o2.id", "z": "x", "w": "y"}, "b"),
    ("m4(x=o2, w=o1)", "m4", {"x(id)": "o2.id", "y": "None", "z": "2.5", "w(id)": "o1.id"}, "b"),
    ("m4(o2, w=n, z=y)", "m4", {"x(id)": "o2.id", "y": "None", "z": "y", "w": "n"}, "b"),
    ("m4(o2, None, w=True, z=y, )", "m4", {"x(id)": "o2.id", "y": "None", "z": "y", "w": "True"}, "b"),
    ("m4(b, y=b)", "m4", {"x(id)": "b.id", "y(id)": "b.id", "z": "2.5", "w": "None"}, "b"),
    ("local(n)", "local", {"a": "n"}, "(n + 1) * 2"),
]

# parameters of every kind of default, given in every way
DEFAULTS = {"none": "None", "zero": "0", "number": "3", "float": "0.5", "false": "False", "true": "True", "text": '"t"', "empty": '""',
            "tuple": "(1, 2)", "list": "[]", "object": "D"}
GIVEN = {"object": "o1", "other_object": "o2", "zero": "0", "number": "n", "float": "x", "none": "None", "false": "False", "text": '"u"'}


def kinds():
    out = []
    for d, e in DEFAULTS.items():
        src = """
from gsp.object import Object
from gsp.io.command import command, CommandQueue
class Leaf(Object):
    pass
D = Leaf()
o1, o2 = Leaf(), Leaf()
n = __sym__("n", "int")
x = __sym__("x")
q = CommandQueue("kinds")
class Pair(Object):
    @command("Pair")
    def __init__(self, left=%s, right=%s):
        Object.__init__(self)
    @command()
    def put(self, first: Leaf | int | float | str | bool | tuple | list = %s, second: Leaf | int | float | str | bool | tuple | list = %s):
        return (first, second)
def ref(k, v):
    return {k + "(id)": v.id} if isinstance(v, Object) else {k: v}
def one(label, meth, want):
    c = q[len(q) - 1]
    __check__(label + ": " + meth, c.methodname == meth)
    __same__(label + ": parameter names", sorted(c.parameters.keys()), sorted(want.keys()))
    for k in want:
        __same__(label + ": parameter " + k, c.parameters[k], want[k])
p = Pair()
one("defaults", "Pair", {"id": p.id, **ref("left", %s), **ref("right", %s)})
k = len(q)
""" % ((e,) * 6)
        for g, v in GIVEN.items():
            for w in GIVEN.values() if g.endswith("object") else ("o1",):
                src += """
p = Pair(left=%(v)s, right=%(w)s)
one("keywords", "Pair", {"id": p.id, **ref("left", %(v)s), **ref("right", %(w)s)})
Pair.__init__(p, %(v)s, right=%(w)s)
p.put(right_ := %(v)s, %(w)s)
one("positions", "put", {"id": p.id, **ref("first", %(v)s), **ref("second", %(w)s)})
p.put(second=%(v)s, first=%(w)s)
one("keywords, reversed", "put", {"id": p.id, **ref("first", %(w)s), **ref("second", %(v)s)})
p.put(%(w)s, second=%(v)s)
one("position and keyword", "put", {"id": p.id, **ref("first", %(w)s), **ref("second", %(v)s)})
p.put(second=%(v)s)
one("one keyword", "put", {"id": p.id, **ref("first", %(d)s), **ref("second", %(v)s)})
p.put(%(v)s)
one("one position", "put", {"id": p.id, **ref("first", %(v)s), **ref("second", %(d)s)})
k += 7
__check__("one command for each call", len(q) == k)
""".replace("Pair.__init__(p, %(v)s, right=%(w)s)\n", "p = Pair(%(v)s, right=%(w)s)\n").replace("right_ := ", "") % dict(v=v, w=w, d=e)
        src = src.replace("k = len(q)\n", "k = len(q)\n", 1)
        out.append(Client("default_" + d, src, "gsp/io/command.py:command"))
    return out


def clients(ctx):
    out = kinds()
    src = GENERIC
    for i, (call, meth, want, ret) in enumerate(CALLS):
        w = "{" + ", ".join(['"id": b.id'] + ['"%s": %s' % kv for kv in want.items()]) + "}"
        src += """
k = len(q)
r = b.%s
one(%r, k, "Base", %r, %s, b)
__same__(%r, r, %s)
""" % (call, call, meth, w, "result of " + call, ret)
    src += """
__check__("queue order is call order", [c.methodname for c in q][3:] == %r)
""" % [m for _, m, _, _ in CALLS]
    out.append(Client("generic", src, "gsp/io/command.py:command"))
    for mod, cls, name, params in CTORS:
        src = SETUP + "K = %s.%s\n" % (mod, cls)
        for args, given in splits(params):
            src += """
k = len(q)
obj = K(%s)
__check__("one command more", len(q) == k + 1)
c = q[len(q) - 1]
want = %s
__same__("class and method names", [c.classname, c.methodname], [%r, %r])
__same__("the declared parameters, once each", sorted(c.parameters.keys()), sorted(want.keys()))
for p in want:
    __same__("value of " + p, c.parameters[p], want[p])
""" % (args, expected(params, given), cls, name)
        out.append(Client("ctor_%s_%s" % (mod.replace(".", "_"), cls), src, "%s.%s" % (mod, cls)))
    for recv, meth, name, params in SETTERS:
        src = SETUP + "obj = %s\n" % recv
        for args, given in splits(params):
            src += """
k = len(q)
obj.%s(%s)
__check__("one command more", len(q) == k + 1)
c = q[len(q) - 1]
want = %s
__same__("class and method names", [c.classname, c.methodname], [type(obj).__name__, %r])
__same__("the declared parameters, once each", sorted(c.parameters.keys()), sorted(want.keys()))
for p in want:
    __same__("value of " + p, c.parameters[p], want[p])
""" % (meth, args, expected(params, given), name)
        out.append(Client("set_%s_%s" % (meth, len(out)), src, recv + "." + meth))
    return out
