"""C03: argument types are admitted, converted or refused."""
from ..run import Client

PROPERTY = "C03"
FLOOR = 400
EXPLANATION = (
    "Methods declared with every kind of annotation (single types, unions in both orders, protocol types, array types) are called with "
    "values of every kind, positionally and by keyword. The oracle is the declared annotation and the registered conversions: an "
    "instance of an alternative must be in the command itself, a convertible value must be carried by a deferred conversion whose "
    "result is the conversion of that value and which execution applies, anything else must raise a ValueError naming the parameter.")

SETUP = '''
import numpy as np
import gsp, gsp_matplotlib
from gsp.object import Object
from gsp.core import Color, Marker, Matrix, Buffer, List, Vec3
from gsp.transform import Transform
from gsp.io.command import command, Command
from gsp.io.convert import register, Converter, converters
from gsp.io import queue
q = queue("client")
class A: pass
class B(A): pass
class C(B): pass
class T:
    def __init__(self, v): self.v = v
class U:
    def __init__(self, v): self.v = v
class W: pass
@register("A", "T")
def A_to_T(v): return T(v)
@register(("X", "W"), "T")
def W_to_T(v): return T(v)
@register("W", "U")
def W_to_U(v): return U(v)
@register("str", "T")
def str_to_T(v): return T(v)
n, x = __sym__("n", "int", 1, 9), __sym__("x", "float")
a, b, c, t, u, w = A(), B(), C(), T(0), U(0), W()
arr = __arr__("arr", (2, 3), "f4")
lst = [x, 1.0, 0.5, 0.25]
tup = (x, 1.0, 0.5, 0.25)
col = Color(x, 1.0, 0.5, 0.25)
mem = memoryview(b"abcd")
dt = np.dtype("f4")
'''

# annotation -> {value: None (itself) | (conversion functions allowed) | "refuse"}
TABLE = {
    "int": {"n": None, "3": None, "True": None, "None": None, "Marker.star": None, "x": "refuse", "'s'": "refuse", "lst": "refuse",
            "a": "refuse", "arr": "refuse", "col": "refuse"},
    "float": {"x": None, "2.5": None, "None": None, "n": "refuse", "'s'": "refuse", "tup": "refuse", "arr": "refuse"},
    "int | float": {"n": None, "x": None, "None": None, "'s'": "refuse", "w": "refuse"},
    "float | int": {"n": None, "x": None, "True": None, "None": None, "lst": "refuse"},
    "str": {"'s'": None, "dt": ("numpy_dtype_to_str",), "n": "refuse", "b'xy'": "refuse"},
    "np.dtype": {"dt": None, "'<f4::1'": ("numpy_str_to_dtype",), "n": "refuse", "None": None},
    "A": {"a": None, "b": None, "c": None, "t": "refuse", "w": "refuse", "None": None},
    "B": {"b": None, "c": None, "a": "refuse"},
    "T": {"t": None, "a": ("A_to_T",), "b": ("A_to_T",), "c": ("A_to_T",), "w": ("W_to_T",), "'s'": ("str_to_T",), "u": "refuse",
          "n": "refuse", "None": None},
    "T | A": {"t": None, "a": None, "b": None, "c": None, "w": ("W_to_T",), "u": "refuse"},
    "A | T": {"t": None, "a": None, "b": None, "c": None, "w": ("W_to_T",), "u": "refuse"},
    "T | U": {"t": None, "u": None, "w": ("W_to_T", "W_to_U"), "a": ("A_to_T",), "c": ("A_to_T",), "x": "refuse"},
    "U | T": {"t": None, "u": None, "w": ("W_to_T", "W_to_U"), "a": ("A_to_T",), "x": "refuse"},
    "U | W | T": {"w": None, "a": ("A_to_T",), "'s'": ("str_to_T",), "n": "refuse"},
    "T | U | W": {"w": None, "a": ("A_to_T",), "u": None, "n": "refuse"},
    "int | T | str": {"'s'": None, "n": None, "a": ("A_to_T",), "w": ("W_to_T",), "x": "refuse"},
    "str | U": {"'s'": None, "w": ("W_to_U",), "a": "refuse", "dt": ("numpy_dtype_to_str",)},
    "A | None": {"a": None, "b": None, "None": None, "n": "refuse", "w": "refuse"},
    "Color": {"col": None, "lst": ("list_to_Color",), "tup": ("tuple_to_Color",), "None": None, "x": "refuse", "'red'": "refuse"},
    "list": {"lst": None, "col": ("Color_to_list", "tuple_to_list"), "tup": ("tuple_to_list",), "n": "refuse"},
    "tuple": {"tup": None, "col": None, "lst": ("list_to_tuple",), "x": "refuse"},
    "list | tuple": {"tup": None, "col": None, "lst": None, "x": "refuse"},
    "tuple | list": {"tup": None, "col": None, "lst": None, "x": "refuse"},
    "list | Color": {"col": None, "lst": None, "x": "refuse"},
    "Marker": {"Marker.star": None, "7": ("int_to_Marker",), "x": "refuse"},
    "Marker | int": {"Marker.star": None, "7": None, "x": "refuse"},
    "int | Marker": {"Marker.star": None, "7": None, "x": "refuse"},
    "memoryview | bytes": {"mem": None, "b'xy'": None, "n": "refuse"},
    "bytes | memoryview": {"mem": None, "b'xy'": None, "x": "refuse"},
    "np.ndarray": {"arr": None, "lst": "refuse"},
    "Buffer | float": {"x": None, "arr": ("ndarray_to_Buffer",), "'s'": "refuse"},
    "Transform | Buffer | float": {"x": None, "arr": ("ndarray_to_Buffer",), "lst": ("list_to_Buffer",), "'s'": "refuse", "None": None},
    "Transform | Buffer | Color": {"col": None, "arr": ("ndarray_to_Buffer",), "tup": ("tuple_to_Color",),
                                   "lst": ("list_to_Buffer", "list_to_Color"), "n": "refuse"},
    "Transform | List | Buffer | list": {"lst": None, "arr": ("ndarray_to_Buffer",), "n": "refuse"},
    "Matrix": {"arr": ("ndarray_to_Matrix",), "None": None, "x": "refuse"},
    "Matrix | np.ndarray": {"arr": None, "x": "refuse"},
}
# conversions whose result is compared by value (the others create objects: only the function and the value they carry are)
VALUE = {"A_to_T", "W_to_T", "W_to_U", "str_to_T", "list_to_Color", "tuple_to_Color", "Color_to_list", "tuple_to_list", "list_to_tuple",
         "int_to_Marker", "numpy_dtype_to_str", "numpy_str_to_dtype"}


def clients(ctx):
    out = []
    for i, (ann, vals) in enumerate(TABLE.items()):
        src = SETUP + '''
class R(Object):
    @command("backend.R")
    def __init__(self):
        Object.__init__(self)
        self.seen = None
    @command()
    def only(self, arg: %s): self.seen = arg
    @command()
    def many(self, first: int, arg: %s, last: float = 1.5): self.seen = (first, arg, last)
    @command()
    def free(self, other, arg: %s = None): self.seen = (other, arg)
r = R()
''' % (ann, ann, ann)
        for v, want in vals.items():
            for call, name in (("r.only(V)", "only"), ("r.only(arg=V)", "only"), ("r.many(n, V)", "many"), ("r.many(last=x, arg=V, first=1)", "many"),
                               ("r.free(lst, V)", "free"), ("r.free(arg=V, other='z')", "free")):
                call = call.replace("V", v)
                lab = "%s given %s" % (call, ann)
                if want == "refuse":
                    src += '''
k = len(q)
try:
    %s
except ValueError as e:
    __check__(%r, "'arg'" in str(e))
else:
    __fail__(%r)
__same__(%r, len(q), k)
''' % (call, lab + ": the error names the parameter", lab + ": must be refused", lab + ": nothing recorded when refused")
                    continue
                src += '''
k = len(q)
%s
__same__(%r, len(q), k + 1)
cmd = q[len(q) - 1]
p = cmd.parameters["arg"]
''' % (call, lab + ": one command")
                if want is None:
                    src += '''
__check__(%r, not isinstance(p, Converter))
__same__(%r, p, %s)
''' % (lab + ": admitted as it is", lab + ": the value itself", v)
                    if v not in ("n", "x", "3", "2.5", "True", "None", "'s'", "7", "b'xy'"):
                        src += "__ident__(%r, p, %s)\n" % (lab + ": the very object", v)
                else:
                    src += '''
__check__(%r, isinstance(p, Converter))
__same__(%r, p.value, %s)
__check__(%r, p.converter.__name__ in %r)
''' % (lab + ": deferred conversion", lab + ": of the value given", v, lab + ": registered for its type", want)
                    if all(f in VALUE for f in want):
                        f = ["converters[k] for k in converters if converters[k].__name__ == p.converter.__name__"]
                        src += '''
conv = [%s][0](%s)
done = p()
if hasattr(conv, "v"):
    __same__(%r, [type(done), done.v], [type(conv), conv.v])
else:
    __same__(%r, done, conv)
r.seen = None
n0 = len(q)
cmd.execute(None)
s = r.seen if not isinstance(r.seen, tuple) or %r == "only" else r.seen[1]
if hasattr(conv, "v"):
    __same__(%r, [type(s), s.v], [type(conv), conv.v])
else:
    __same__(%r, s, conv)
''' % (f[0], v, lab + ": its result", lab + ": its result", name, lab + ": execution sees the converted value",
                            lab + ": execution sees the converted value")
        out.append(Client("ann_%d_%s" % (i, "".join(ch if ch.isalnum() else "_" for ch in ann)), src, "gsp/io/command.py:command"))
    return out
