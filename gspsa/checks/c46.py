"""C46: data given in another form than the declared one keep their content."""
from ..run import Client

PROPERTY = "C46"
FLOOR = 300
EXPLANATION = (
    "Arrays of every element type, shape and memory layout, parts and views of arrays, tracked arrays at every stage, typed vectors, lists, "
    "ragged lists and matrices are converted to buffers, lists of buffers and matrices, directly and by giving them to a recorded call; "
    "on symbolic contents the result has the number of items, the element type and shape, and the values of the source. Parts of a "
    "buffer are then replaced and every byte is compared.")

BASE = '''
import numpy as np
import gsp, gsp_matplotlib
from gsp.io.convert import convert
from gsp_matplotlib import glm, core, Buffer, List
from gsp.core.types import Matrix
from gsp.object import Object
def check(label, a, b=None):
    src = np.asarray(a)
    if b is None: b = convert(a, "Buffer")
    __check__(label + ": a buffer of the backend", type(b) is core.Buffer)
    __same__(label + ": as many items", len(b), len(src))
    r = np.asarray(b)
    __same__(label + ": element type", r.dtype, src.dtype)
    __same__(label + ": shape", r.shape, src.shape)
    __same__(label + ": values", r, src)
    __same__(label + ": when read again", np.asarray(b), src)
    return b
def bytes_of(a): return [v for v in np.asarray(a).reshape(-1).view(np.ubyte)]
'''

DTYPES = ["?", "u1", "i1", "u2", "i2", ">i2", "i4", "u4", "i8", ">u4", "f2", "f4", ">f4", "f8"]
SHAPES = ["(1,)", "(3,)", "(2, 1)", "(3, 2)", "(1, 4)", "(2, 2, 3)", "(2, 1, 2, 2)", "(4, 3, 1)"]
LAYOUTS = {
    "whole": "A", "transposed": "A.T", "step": "A[::2]", "reversed": "A[::-1]", "column": "A[:, 1]", "inner": "A[1:, 1:3]", "row": "A[2]",
    "columns": "A[:, ::2]", "reversed_columns": "A[:, ::-1]", "picked": "A[[2, 0, 2]]", "masked": "A[np.array([True, False, True, True])]",
    "copy": "A.copy()", "fortran": "np.asfortranarray(A)", "new_axis": "A[:, None]", "reshaped": "A.reshape(6, 2)", "flat": "A.ravel()",
    "broadcast": "np.broadcast_to(A[0], (4, 3))", "sum": "A + A", "one": "A[1:2]", "last": "A[-1:]", "stacked": "np.vstack([A, A[:1]])",
    "cast": "A.astype(np.float64)", "read_only": "np.frombuffer(A.tobytes(), np.float32).reshape(4, 3)", "swapped": "np.swapaxes(A.reshape(2, 2, 3), 0, 2)",
}


def clients(ctx):
    out = []
    where = "gsp_matplotlib/__init__.py:ndarray_to_Buffer"
    for dt in DTYPES:
        src = BASE
        for i, sh in enumerate(SHAPES):
            lo, hi = ("0", "1") if dt == "?" else ("0", "200") if "u" in dt else ("-100", "100")
            if "f" in dt:
                lo, hi = lo + ".0", hi + ".0"
            arr = '__arr__("A%d", %s, %r, %s, %s)' % (i, sh, dt, lo, hi) if dt != "?" else \
                "(np.arange(int(np.prod(%s))) %% 3 == 1).reshape(%s)" % (sh, sh)
            src += 'check("%s %s", %s)\n' % (dt, sh, arr)
        out.append(Client("element_type_" + dt.replace(">", "big_").replace("?", "bool"), src, where))
    for name, e in LAYOUTS.items():
        out.append(Client("layout_" + name, BASE + """
A = __arr__("A", (4, 3), "f4", -5.0, 5.0)
V = %s
check("part", V)
T = A.view(glm.ndarray.tracked)
check("whole", T)
A = T
V = %s
check("part of a tracked array", V)
check("tracked part", np.asarray(V).view(glm.ndarray.tracked))
t = convert(T, "Buffer")
check("the tracked array itself, still", T, t)
""" % (e, e), where))
    out.append(Client("records", BASE + """
for dt in ([("a", "f4"), ("b", "f4", 4)], [("x", "f8")], [("p", "i2", (2, 2)), ("q", "i2"), ("r", "i2")]):
    for n in (1, 3):
        a = np.zeros(n, np.dtype(dt))
        b = convert(a, "Buffer")
        __same__("as many items", len(b), n)
        __same__("element type", np.asarray(b).dtype, a.dtype)
        __same__("shape", np.asarray(b).shape, a.shape)
        __same__("bytes", np.asarray(b).tobytes(), a.tobytes())
R = np.zeros(3, [("a", "f4"), ("b", "f4", 4)])
R["a"] = __arr__("R", (3,), "f4")
R["b"] = np.arange(12).reshape(3, 4)
b = convert(R, "Buffer")
__same__("fields", np.asarray(b)["a"], R["a"])
__same__("fields", np.asarray(b)["b"], R["b"])
check("a field", R["a"])
check("a field of several values", R["b"])
""", where))
    out.append(Client("tracked_stages", BASE + """
A = __arr__("A", (4, 3), "f4", -5.0, 5.0).view(glm.ndarray.tracked)
b = check("fresh", A)
__ident__("the buffer of a tracked array is the same each time", convert(A, "Buffer"), b) if A._tracker is not None else None
A[1] = 2.0
check("after a write", A, convert(A, "Buffer"))
A *= 0.5
check("after an operation", A, convert(A, "Buffer"))
A[::2, 1] = __sym__("w")
check("after a strided write", A, convert(A, "Buffer"))
B = A.copy()
b = check("a copy", B)
A[...] = 7.0
check("the copy keeps its values", B, b)
check("the array has its own", A)
for V in (A[1:], A[:, :2], A[0], A[::-1], A.T, A + 1.0, A.reshape(2, 6)):
    check("part", V)
V = A[1:3]
b = check("part", V)
V[0] = 3.0
check("part, after a write to it", V)
check("and the array", A)
""", "gsp_matplotlib/__init__.py:tracked_to_Buffer"))
    out.append(Client("glm", BASE + """
x, y = __sym__("x"), __sym__("y")
for n in (1, 3):
    for kind, k in ((glm.vec2, 2), (glm.vec3, 3), (glm.vec4, 4)):
        v = kind(n)
        v[...] = __arr__("v", (n, k), "f4")
        check("vectors", v)
        v.x = 2.0
        check("vectors, after a write", v)
        check("a component", v.x)
        check("components", v.xy)
        check("components reversed", v.yx)
m = glm.mat4()
m[...] = __arr__("m", (4, 4), "f4") if m.shape == (4, 4) else 1.0
check("matrix", m)
m = glm.mat3(2)
check("matrices", m)
""", where))
    for name, e, ref in (
            ("integers", "[1, 2, n]", "np.array([1, 2, n])"), ("floats", "[x, 0.5, -1.0]", "np.array([x, 0.5, -1.0])"), ("mixed", "[1, 0.5]", "np.array([1.0, 0.5])"),
            ("rows", "[[x, 1.0], [2.0, y]]", "np.array([[x, 1.0], [2.0, y]])"), ("one", "[x]", "np.array([x])"), ("one_row", "[[x, y, 0.0]]", "np.array([[x, y, 0.0]])"),
            ("deep", "[[[x, 1.0]], [[2.0, y]]]", "np.array([[[x, 1.0]], [[2.0, y]]])"), ("tuples", "[(x, 1.0), (2.0, y)]", "np.array([[x, 1.0], [2.0, y]])"),
            ("booleans", "[True, False]", "np.array([True, False])"), ("arrays", "[np.array([x, 1.0]), np.array([y, 2.0])]", "np.array([[x, 1.0], [y, 2.0]])"),
            ("empty", "[]", "np.zeros(0)"), ("same", "[0, 0, 0]", "np.zeros(3, np.int64)")):
        out.append(Client("list_" + name, BASE + """
x, y, n = __sym__("x"), __sym__("y"), __sym__("n", "int", -9, 9)
src = %s
b = check("list", %s, convert(src, "Buffer"))
again = convert(src, "Buffer")
__check__("a buffer each time", again is not b)
check("list", %s, again)
""" % (e, ref, ref), "gsp_matplotlib/__init__.py:list_to_Buffer"))
    # lists of lists
    GROUPS = ["[[0, 1], [2]]", "[[0, 1], [], [2]]", "[[], [1]]", "[[0], []]", "[[5, 4, 3], [2, 1], [0]]", "[[n], [n, 3], [n, n, n]]", "[[1]]", "[[], [], [3, 4], []]",
              "[[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]]", "[[i] for i in range(9)]", "[[3, 3], [3, 3]]", "[[x, y], [0.5]]", "[[i for i in range(300)], [300, 301]]"]
    for i, g in enumerate(GROUPS):
        out.append(Client("groups_%d" % i, BASE + """
x, y, n = __sym__("x"), __sym__("y"), __sym__("n", "int", 0, 90)
want = %s
forms = [("lists", want), ("tuples", [tuple(g) for g in want]), ("arrays", [np.array(g) for g in want])]
if %d not in (7,): forms.append(("ragged", glm.vlist(want)))
for label, src in forms:
    L = convert(src, "List")
    __check__(label + ": a list of the backend", type(L) is core.List)
    __same__(label + ": as many groups", len(L), len(want))
    got = [g for g in L]
    __same__(label + ": as many when read", len(got), len(want))
    for g, w in zip(got, want):
        __same__(label + ": as many in the group", len(g), len(w))
        for a, b in zip(g, w):
            __same__(label + ": in the same order", a, b)
    __same__(label + ": all of them, flat", [v for v in np.asarray(L)], [v for w in want for v in w])
    __same__(label + ": when read again", [len(g) for g in L], [len(w) for w in want])
""" % (g, i), "gsp_matplotlib/__init__.py:list_to_List"))
    out.append(Client("groups_of_vectors", BASE + """
A = __arr__("A", (6, 3), "f4")
for src, want in (([A[:2], A[2:5], A[5:]], [A[:2], A[2:5], A[5:]]), ([[A[0], A[3]], [A[1]]], [A[[0, 3]], A[1:2]])):
    L = convert(src, "List")
    got = [g for g in L]
    __same__("as many groups", [len(L), len(got)], [len(want), len(want)])
    for g, w in zip(got, want):
        __same__("shape", g.shape, w.shape)
        __same__("values", g, w)
for sizes, data in ((np.array([2, 0, 4]), A), (np.array([1, 5], np.uint8), A), (2, A), (3, A), (6, A), (1, A)):
    L = List(convert(data, "Buffer"), sizes if isinstance(sizes, int) else convert(sizes, "Buffer"))
    ks = [sizes] * (6 // sizes) if isinstance(sizes, int) else [int(k) for k in sizes]
    __same__("as many groups", len(L), len(ks))
    at = 0
    for g, k in zip(L, ks):
        __same__("group", g, A[at:at + k])
        at = at + k
    __same__("nothing is left", at, 6)
""", "gsp_matplotlib/core/list.py:List"))
    for name, e, ref in (
            ("array", "__arr__('M', (4, 4), 'f8')", "S"), ("array_f4", "__arr__('M', (4, 4), 'f4')", "S"), ("transposed", "__arr__('M', (4, 4), 'f4').T", "S"),
            ("integers", "np.arange(16).reshape(4, 4)", "S"), ("lists", "[[x, 0, 0, 1], [0, y, 0, 2], [0, 0, 1, 3], [0, 0, 0, 1]]", "np.array(S)"),
            ("identity", "np.eye(4)", "S"), ("part", "__arr__('M', (6, 8), 'f4')[1:5, ::2]", "S"), ("tracked", "__arr__('M', (4, 4), 'f4').view(glm.ndarray.tracked)", "S"),
            ("mat4", "glm.mat4()", "S")):
        out.append(Client("matrix_" + name, BASE + """
x, y = __sym__("x"), __sym__("y")
S = %s
m = convert(S, "Matrix")
__check__("a matrix", isinstance(m, Matrix))
__same__("of 4 rows and columns", np.asarray(m).shape, (4, 4))
want = np.asarray(%s).astype(np.float32)
__same__("values", np.asarray(m).astype(np.float32), want)
p = np.array([1.0, 2.0, 3.0, 1.0], np.float32)
__same__("as a product", np.dot(np.asarray(m).astype(np.float32), p), np.dot(want, p))
""" % (e, ref), "gsp_matplotlib/__init__.py:ndarray_to_Matrix"))
    # replacing parts of a buffer
    for name, dt, count in (("bytes", '"u1"', 12), ("floats", '"f4"', 3), ("vectors", '("f4", (3,))', 2), ("wide", '("f8", (2,))', 2),
                            ("shorts", '">i2"', 6), ("matrices", '("f4", (2, 2))', 2)):
        out.append(Client("replace_" + name, BASE + """
dt = np.dtype(%s)
count = %d
total = count * dt.itemsize
first = bytes([(7 * i + 3) %% 251 for i in range(total)])
for form in ("bytes", "memory", "text"):
    import base64
    data = first if form == "bytes" else memoryview(first) if form == "memory" else base64.b64encode(first).decode()
    for start, stop in ((0, total), (0, 4), (4, 8), (total - 4, total), (1, 3), (5, 6), (0, 0), (total, total), (2, total)):
        b = Buffer(count, dt, data)
        __same__("as given", bytes_of(b), list(first))
        new = bytes([(11 * i + 5) %% 253 for i in range(stop - start)])
        given = base64.b64encode(new).decode() if form == "text" else memoryview(new) if form == "memory" else new
        b.set_data(start, given)
        want = list(first[:start]) + list(new) + list(first[stop:])
        __same__("the bytes given are there, and nowhere else", bytes_of(b), want)
        __same__("as many items", [len(b), np.asarray(b).nbytes], [count, total])
        __same__("of the same type", np.asarray(b).dtype.itemsize * np.asarray(b).size, total)
        b.set_data(start, given)
        __same__("again", bytes_of(b), want)
        b.set_data(0, first)
        __same__("and back", bytes_of(b), list(first))
        __same__("what was given is left alone", list(bytes(data)) if form != "text" else list(first), list(first))
e = Buffer(count, dt)
__same__("a buffer without data", [len(e), np.asarray(e).nbytes], [count, total])
e.set_data(0, first)
__same__("filled later", bytes_of(e), list(first))
e.set_data(1, b"xyz")
__same__("and changed", bytes_of(e), list(first[:1]) + list(b"xyz") + list(first[4:]))
""" % (dt, count), "gsp_matplotlib/core/buffer.py:Buffer.set_data"))
    out.append(Client("replace_shared", BASE + """
A = __arr__("A", (4, 3), "f4")
B = A.copy()
b, c = convert(A, "Buffer"), convert(A, "Buffer")
b.set_data(0, np.full(3, 2.5, np.float32).tobytes())
__same__("the replaced items", np.asarray(b)[0], [2.5, 2.5, 2.5])
__same__("the others", np.asarray(b)[1:], B[1:])
__same__("another buffer of the same array", np.asarray(c), B)
__same__("the array itself", A, B)
d = convert(A[::2], "Buffer")
d.set_data(12, np.full(3, 1.5, np.float32).tobytes())
__same__("the replaced items", np.asarray(d)[1], [1.5, 1.5, 1.5])
__same__("the others", np.asarray(d)[0], B[0])
__same__("the array itself", A, B)
""", "gsp_matplotlib/core/buffer.py:Buffer.set_data"))
    # given to a recorded call: what the command carries, and what the visual gets
    out.append(Client("recorded", BASE + """
from gsp.io import queue
from gsp.io.command import command
q = queue("client")
x = __sym__("x")
class Thing(Object):
    @command("thing.Thing")
    def __init__(self): Object.__init__(self)
    @command()
    def buf(self, a: Buffer): pass
    @command()
    def lst(self, a: List): pass
    @command()
    def either(self, a: Buffer | int): pass
t = Thing()
A = __arr__("A", (4, 3), "f4")
for a in (A, A[::2], A[:, 1], A.view(glm.ndarray.tracked), [[x, 1.0], [2.0, x]], [x, 0.5], glm.vec3(2), A.T):
    for m in (t.buf, t.either):
        m(a)
        c = q[len(q) - 1]
        v = c.parameters["a"]
        r = v() if not isinstance(v, Object) else v
        check("recorded", np.asarray(a), r)
for a, want in (([[0, 1], [2]], [[0, 1], [2]]), ([[], [5]], [[], [5]]), (glm.vlist([[3, 4], [1, 2, 0]]), [[3, 4], [1, 2, 0]])):
    t.lst(a)
    r = q[len(q) - 1].parameters["a"]()
    __same__("recorded", [[int(k) for k in g] for g in r], want)
""", "gsp/io/command.py:command"))
    return out
