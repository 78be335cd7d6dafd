"""C11: the converter registry is exact."""
from ..run import Client

PROPERTY = "C11"
FLOOR = 250
EXPLANATION = (
    "Registrations, lookups, conversions and unregistrations are performed on a family of client types (unrelated, derived at several levels, "
    "with several bases, derived from builtin types) and on the library's own conversions; every lookup is compared with the "
    "table the client itself keeps, in which the exact type takes precedence over bases in resolution order.")

BASE = '''
import numpy as np
import gsp, gsp_matplotlib
from gsp.io.convert import register, unregister, convert, get_converter, converters, is_registered
class A:
    def __init__(self, v=0): self.v = v
class B(A): pass
class C(B): pass
class D(A): pass
class M(C, D): pass
class N: pass
class L(tuple): pass
class I(int): pass
class Dst:
    def __init__(self, by, v): self.by, self.v = by, v
class Dst2(Dst): pass
types = {"A": A, "B": B, "C": C, "D": D, "M": M, "N": N, "L": L, "I": I}
a, b, c, d, m, n, l, i = A(1), B(2), C(3), D(4), M(5), N(), L(), I(6)
values = {"A": a, "B": b, "C": c, "D": d, "M": m, "N": n, "L": l, "I": i}
mro = {"A": ["A"], "B": ["B", "A"], "C": ["C", "B", "A"], "D": ["D", "A"], "M": ["M", "C", "B", "D", "A"], "N": ["N"],
       "L": ["L", "tuple"], "I": ["I", "int"]}
model = {}
def reg(src, dst, tag):
    @register(src, dst)
    def f(v): return Dst(tag, v)
    for s in (src if isinstance(src, (tuple, list)) else [src]):
        model[(s, dst)] = (f, tag)
    return f
base = dict(converters)
def table(s):
    __same__(s + ": registered pairs", sorted([k for k in converters if k not in base]), sorted(model.keys()))
    for k in model:
        __ident__(s + ": its own function", converters[k], model[k][0])
    for k in base:
        __ident__(s + ": the library's conversions are untouched", converters[k], base[k])
def lookups(s, dsts):
    for k in values:
        for dst in dsts:
            want = None
            for t in mro[k]:
                if (t, dst) in model:
                    want = model[(t, dst)]
                    break
            got = get_converter(values[k], dst)
            lab = "%s: %s to %s" % (s, k, dst)
            if want is None:
                __check__(lab + ": no conversion is found", got is None)
                try:
                    r = convert(values[k], dst)
                except ValueError:
                    pass
                else:
                    __fail__(lab + ": converting is refused")
            else:
                __ident__(lab + ": the conversion of the nearest type", got, want[0])
                r = convert(values[k], dst)
                __same__(lab + ": applied to the value", r.by, want[1])
                __ident__(lab + ": applied to the value", r.v, values[k])
            byname = model.get((k, dst), None)
            got = get_converter(types[k], dst)
            if byname is not None:
                __ident__(lab + ": by the type itself", got, byname[0])
def refused(s, src, dst):
    before = dict(converters)
    try:
        @register(src, dst)
        def g(v): return None
    except TypeError:
        pass
    else:
        __fail__(s + ": registering again is refused")
    for k in before:
        __ident__(s + ": the first stays", converters[k], before[k])
def unreg(src, dst):
    unregister(src, dst)
    for s in (src if isinstance(src, (tuple, list)) else [src]):
        model.pop((s, dst), None)
'''

SCRIPTS = {
    "single": '''
reg("A", "Dst", "a")
table("one"); lookups("one", ["Dst", "Dst2", "A"])
reg("C", "Dst", "c")
table("two"); lookups("two", ["Dst"])
reg("B", "Dst", "b"); reg("N", "Dst2", "n2"); reg("N", "Dst", "n")
table("five"); lookups("five", ["Dst", "Dst2"])
''',
    "any": '''
reg("*", "Dst", "any"); reg("A", "Dst", "a"); reg(("N", "L"), "Dst", "nl")
table("any"); refused("any", "*", "Dst")
for k in ("A", "N", "L"):
    __ident__(k + ": its own conversion comes before the one for anything", get_converter(values[k], "Dst"), model[(k, "Dst")][0])
    __ident__(k + ": its own conversion comes before the one for anything", get_converter(types[k], "Dst"), model[(k, "Dst")][0])
for v in (I(3), 1.5, "text", None, [1]):
    __ident__("the conversion for anything", get_converter(v, "Dst"), model[("*", "Dst")][0])
    __same__("applied", convert(v, "Dst").v, v)
    __check__("to that type only", get_converter(v, "Dst2") is None)
unreg("A", "Dst")
__ident__("once unregistered", get_converter(a, "Dst"), model[("*", "Dst")][0])
unreg("*", "Dst")
table("none left"); lookups("none left", ["Dst", "Dst2"])
''',
    "many": '''
reg(("A", "N", "L"), "Dst", "anl")
reg(["D", "I"], "Dst2", "di2")
table("tuples"); lookups("tuples", ["Dst", "Dst2"])
reg(("D", "C"), "Dst", "dc")
table("more"); lookups("more", ["Dst", "Dst2"])
''',
    "twice": '''
reg("A", "Dst", "a")
refused("same pair", "A", "Dst")
refused("in a tuple", ("A",), "Dst")
table("after refusals"); lookups("after refusals", ["Dst", "Dst2"])
reg("A", "Dst2", "a2")
reg("B", "Dst", "b")
refused("derived", "B", "Dst")
refused("library", "list", "Color")
refused("library", "ndarray", "Buffer")
table("end"); lookups("end", ["Dst", "Dst2"])
''',
    "unregister": '''
reg(("A", "B", "N"), "Dst", "abn"); reg(("A", "C"), "Dst2", "ac2"); reg("I", "Dst", "i")
unreg("B", "Dst")
table("one less"); lookups("one less", ["Dst", "Dst2"])
unreg("B", "Dst"); unreg("Nothing", "Dst"); unreg("A", "Nothing")
table("unregistering what is not registered"); lookups("no-op", ["Dst", "Dst2"])
unreg(("A", "N"), "Dst")
table("tuple"); lookups("tuple", ["Dst", "Dst2"])
unreg(["C", "Q"], "Dst2")
table("list"); lookups("list", ["Dst", "Dst2"])
reg(("C", "N"), "Dst2", "cn2")
unreg(("Q", "C"), "Dst2")
table("tuple, first one not registered"); lookups("tuple", ["Dst", "Dst2"])
unreg(["Q", "N", "Q", "R", "N"], "Dst2")
table("list, most not registered"); lookups("list", ["Dst", "Dst2"])
unreg((), "Dst"); unreg([], "Dst2")
table("nothing"); lookups("nothing", ["Dst", "Dst2"])
reg("A", "Dst", "again")
table("again"); lookups("again", ["Dst", "Dst2"])
unreg("A", "Dst"); unreg("A", "Dst2"); unreg("I", "Dst")
table("all"); lookups("all", ["Dst", "Dst2"])
''',
    "builtin_bases": '''
reg("tuple", "Dst", "tuple"); reg("int", "Dst", "int")
table("builtin"); lookups("builtin", ["Dst"])
__same__("exact", [convert((1,), "Dst").by, convert(3, "Dst").by, convert(True, "Dst").by], ["tuple", "int", "int"])
reg("L", "Dst", "L")
reg("bool", "Dst", "bool")
lookups("own", ["Dst"])
__same__("exact before base", [convert(True, "Dst").by, convert(4, "Dst").by, convert((2,), "Dst").by], ["bool", "int", "tuple"])
''',
    "failing": '''
@register("A", "Dst")
def bad(v): raise KeyError(v)
@register("N", "Dst")
def none(v): return None
try:
    convert(a, "Dst")
except ValueError:
    pass
else:
    __fail__("a conversion that fails is refused with a ValueError")
__check__("a conversion may yield None", convert(n, "Dst") is None)
for v in (3.5, "text", None, (), {}, a, n, np.float32(2)):
    try:
        convert(v, "Nowhere")
    except ValueError:
        pass
    else:
        __fail__("nothing registered: refused")
''',
    "destination_types": '''
reg("A", "Dst", "a"); reg("N", "Dst2", "n2")
__ident__("a type is as good as its name", get_converter(a, Dst), model[("A", "Dst")][0])
__ident__("a type is as good as its name", get_converter(b, Dst), model[("A", "Dst")][0])
__check__("another type is not", get_converter(a, Dst2) is None)
__ident__("its own", get_converter(n, Dst2), model[("N", "Dst2")][0])
for bad in (3, None, 2.5):
    try:
        get_converter(a, bad)
    except ValueError:
        pass
    else:
        __fail__("a destination must be a type or a name")
__same__("decorating returns the function", convert(b, Dst).by, "a")
''',
    "library": '''
from gsp.core import Color, Marker
x = __sym__("x")
lst = [x, 0.5, 0.25, 1.0]
__same__("list to color", convert(lst, "Color"), Color(x, 0.5, 0.25, 1.0))
__check__("list to color", isinstance(convert(lst, "Color"), Color))
__same__("tuple to color", convert(tuple(lst), Color), Color(x, 0.5, 0.25, 1.0))
__same__("color to list", convert(Color(x, 0.5, 0.25, 1.0), list), lst)
__check__("color to list", type(convert(Color(x, 0.5, 0.25, 1.0), list)) is list)
__same__("color to tuple", convert(Color(x, 0.5, 0.25, 1.0), "tuple"), tuple(lst))
__same__("list to tuple", convert(lst, "tuple"), tuple(lst))
__same__("tuple to list", convert(tuple(lst), "list"), lst)
__same__("int to marker", convert(7, "Marker"), Marker.star)
__same__("text to memory", bytes(convert("YWJjZA==", "memoryview")), b"abcd")
__same__("dtype to text", convert(np.dtype("f4"), "str"), "<f4::1")
__same__("text to dtype", convert("<f4::1", "dtype"), np.dtype("f4"))
o = gsp.Object()
__ident__("int to canvas", convert(int(o.id), "Canvas"), o)
for bad in (dict(), 3.5, lst):
    try:
        convert(bad, "memoryview")
    except ValueError:
        pass
    else:
        __fail__("nothing registered: refused")
''',
}


def clients(ctx):
    return [Client(k, BASE + s, "gsp/io/convert.py:get_converter") for k, s in SCRIPTS.items()]
