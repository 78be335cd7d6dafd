"""C33: writes to tracked arrays are notified with the bytes written."""
from ..run import Client

PROPERTY = "C33"
FLOOR = 24000
EXPLANATION = (
    "Arrays of every vector and matrix kind, arrays turned into tracked ones (also strided or in column order) and views of views of "
    "them are written at every kind of index and with every in-place operator, on symbolic content. The range each notification "
    "declares is compared with the bytes of the elements written (same index on a twin array of element numbers) and the bytes it "
    "carries with the bytes then stored. Reading, writing to copies and writing when tracking is disabled must notify nothing.")
HEAD = '''
import numpy as np
from gsp_matplotlib.glm import ndarray as nd
log = []
class Tracker:
    def __init__(self, array):
        self.array = array
        self.calls = []
    def set_data(self, offset, data):
        self.calls.append((offset, data))
        log.append(self)
nd.tracked.__tracker_class__ = Tracker
def logical(a):
    """the bytes of an array, in order of its elements"""
    return np.array(np.asarray(a)).reshape(-1).view(np.ubyte)
def fill(a, name):
    a[...] = __arr__(name, a.shape, a.dtype, -50, 100)
    return a
def verify(title, a, calls, written):
    """calls cover the elements written (numbers in order) and carry the bytes stored"""
    n = a.dtype.itemsize
    todo = {}
    for o, d in calls:
        __check__(title + ": bytes of the array", o >= 0 and len(d) > 0 and o + len(d) <= a.size * n)
        if o >= 0 and o + len(d) <= a.size * n:
            __same__(title + ": the bytes stored there", d, logical(a)[int(o):int(o) + len(d)].tobytes())
    missed = [w for w in written if not any([o <= w * n and w * n + n <= o + len(d) for o, d in calls])]
    __check__(title + ": every element written is notified", missed == [])
def wrote(title, a, numbers, action):
    before = len(a._tracker.calls)
    action()
    calls = a._tracker.calls[before:]
    verify(title, a, calls, [int(x) for x in np.asarray(numbers).ravel()])
    __check__(title + ": nothing left to notify", a.dirty is None or calls == [])
'''
VIEWS = '''
VIEWS = [("itself", lambda v: v), ("end", lambda v: v[1:]), ("every other", lambda v: v[::2]), ("reversed", lambda v: v[::-1]),
         ("part of a part", lambda v: v[1:][1:]), ("reversed part", lambda v: v[1:3][::-1]), ("part of reversed", lambda v: v[::-1][1:3]),
         ("transposed", lambda v: v.T), ("flat", lambda v: v.reshape(-1)), ("flat part", lambda v: v[1:3].reshape(-1)),
         ("one row", lambda v: v[2]), ("last row", lambda v: v[-1]), ("column", lambda v: v[..., 1]), ("columns", lambda v: v[..., :2]),
         ("columns reversed", lambda v: v[..., ::-1]), ("both reversed", lambda v: v[::-1, ::-1]), ("ravel", lambda v: v.ravel()),
         ("new axis", lambda v: v[:, None]), ("swapped", lambda v: v.swapaxes(0, 1)), ("transposed part", lambda v: v[2:].T),
         ("column of a part", lambda v: v[2:][..., 0]), ("squeezed", lambda v: v[1:2].squeeze())]
def keys(shape):
    """(key, supported)"""
    k = [Ellipsis, slice(None), slice(0, 1), slice(None, None, -1), slice(1, None, 2), 0, -1, np.int64(0), slice(0, 0)]
    if len(shape) == 2:
        k = k + [(0, 0), (-1, -1), (slice(None), 1), (Ellipsis, 1), (Ellipsis, slice(0, 2)), (slice(None, None, -1), slice(None, None, -1)),
                 (0, slice(None)), (slice(1, None), slice(None, 1)), (0, Ellipsis, 1), (None, 0), (np.int32(-1), 0)]
    return k
'''
WRITES = VIEWS + '''
a = fill(%(make)s, "A")
I = np.arange(a.size).reshape(a.shape)
def all_writes(k):
    if k >= len(VIEWS): return
    name, f = VIEWS[k]
    w, J = f(a), f(I)
    if not np.shares_memory(w, a): return all_writes(k + 1)
    __same__(name + ": elements of the view", list(np.asarray(w).ravel()), [np.asarray(a).ravel()[i] for i in J.ravel()])
    x = %(value)s
    for key in keys(w.shape):
        def act(): w[key] = x
        wrote(name + " " + str(key), a, J[key], act)
        __same__(name + " " + str(key) + ": written", np.asarray(w[key]).ravel().tolist(), [np.array(x).astype(a.dtype)[()]] * int(np.asarray(J[key]).size))
    all_writes(k + 1)
all_writes(0)
__check__("tracked by one tracker only", all([t is a._tracker for t in log]))
'''
FANCY = '''
a = fill(%(make)s, "A")
I = np.arange(a.size).reshape(a.shape)
x = %(value)s
for name, f in (("itself", lambda v: v), ("part", lambda v: v[1:]), ("reversed", lambda v: v[::-1]), ("flat", lambda v: v.reshape(-1))):
    w, J = f(a), f(I)
    if not np.shares_memory(w, a): continue
    n = len(J)
    mask = np.array([i %% 2 == 1 for i in range(n)])
    full = (J %% 3 == 1)
    for kind, key in (("index array", np.array([1, 0])), ("index array, from the end", np.array([-1])), ("mask", mask), ("full mask", full), ("list", [0, 1]),
                      ("list in a tuple", ([0, 1],)), ("array in a tuple", (np.array([1]),)), ("empty index array", np.array([], dtype=int)), ("mask of nothing", mask & False)):
        before = len(a._tracker.calls)
        old = np.array(np.asarray(a))
        refused = False
        try: w[key] = x
        except NotImplementedError: refused = True
        if refused:
            __same__(name + ", " + kind + ": refused, nothing changed", np.asarray(a).tolist(), old.tolist())
            __check__(name + ", " + kind + ": refused, nothing notified", len(a._tracker.calls) == before)
        else:
            verify(name + ", " + kind, a, a._tracker.calls[before:], [int(i) for i in J[key].ravel()])
'''
INPLACE = VIEWS + '''
import operator
OPS = [("add", operator.iadd), ("subtract", operator.isub), ("multiply", operator.imul)%(more)s]
a = fill(%(make)s, "A")
I = np.arange(a.size).reshape(a.shape)
for name, f in VIEWS[:-1]:
    for op, g in OPS:
        w, J = f(a), f(I)
        if not np.shares_memory(w, a): continue
        r = []
        twin = np.array(np.asarray(w))
        twin = g(twin, %(value)s)
        def act(): r.append(g(w, %(value)s))
        wrote(name + " " + op, a, J, act)
        __same__(name + " " + op + ": the result", np.asarray(w).ravel().tolist(), twin.ravel().tolist())
        __check__(name + " " + op + ": in place", r[0] is w)
b = fill(%(make)s, "B")
for name, f in VIEWS[:6]:
    w, J = f(b), f(I)
    x = %(value)s
    def act(): w[0:2] += x
    wrote(name + ": part augmented", b, J[0:2], act)
    def act(): w[...] *= x
    wrote(name + ": whole augmented", b, J, act)
    def act(): w[0, 1] -= x
    wrote(name + ": element augmented", b, J[0, 1], act)
'''
SEQUENCE = '''
a = fill(nd.vec3(4), "A")
mirror = list(logical(a))
def replay(n):
    for o, d in a._tracker.calls[n:]:
        mirror[int(o):int(o) + len(d)] = list(np.frombuffer(d, np.ubyte))
    return len(a._tracker.calls)
x, y, z = __sym__("x", "float", -9, 9), __sym__("y", "float", -9, 9), __sym__("z", "float", -9, 9)
n = len(a._tracker.calls)
v = a[1:]
w = v[::-1]
def s1(): a[0] = x
def s2(): v[0, 1] = y
def s3(): w[0] = z
def s4(): a.T[1, 2] = x
def s5(): w[1:, 2] = [x, y]
def s6(): a[...] = a[::-1]
def s7(): a.x = y
def s8(): v.zx = (x, z)
def s9(): a[2].yz = (z, y)
def s10():
    global v
    v += 1
def s11():
    global a
    a *= 2
def s12(): a[3, 2] = z
for s in (s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12, s3, s1, s6):
    s()
    n = replay(n)
    __same__("a copy kept up to date by the notifications is the array", mirror, list(logical(a)))
'''
READING = VIEWS + '''
a = fill(%(make)s, "A")
n = len(a._tracker.calls)
m = len(log)
for name, f in VIEWS[:-1]:
    w = f(a)
    w[0]; w[...]; w[1:]; w[::-1]; w.T; w + 1; w * w; -w; w.sum(); w.max(); w.copy(); w.reshape(-1); w.astype("f8"); w.tolist(); w.tobytes()
    w == w; w < 3; len(w); w.shape; w.dtype; w.size; np.array(w); np.asarray(w); w @ w if w.ndim == 1 else w; np.sqrt(abs(w)); list(w); w.view(np.ndarray)
    w.dirty; np.zeros_like(w); np.concatenate([w, w]); np.where(w > 2, w, 0)
    __check__(name + ": reading notifies nothing", len(a._tracker.calls) == n and len(log) == m)
'''
COPIES = '''
a = fill(%(make)s, "A")
n = len(a._tracker.calls)
old = np.array(np.asarray(a))
COPIES = [("sum", lambda v: v + 1), ("product", lambda v: v * v), ("negation", lambda v: -v), ("copy", lambda v: v.copy()), ("converted", lambda v: v.astype("f8")),
          ("part of a sum", lambda v: (v + 1)[1:]), ("sum of a part", lambda v: v[2:] + 1), ("rows", lambda v: v[[0, 1]]), ("comparison", lambda v: v > 2),
          ("root", lambda v: np.sqrt(v)), ("zeros", lambda v: np.zeros_like(v)), ("columns", lambda v: v[..., [0, 1]]), ("flattened", lambda v: v.flatten()),
          ("total", lambda v: v.sum(axis=0)), ("array", lambda v: np.array(v))]
for name, f in COPIES:
    b = f(a)
    b[0] = 1
    b[...] = 0
    b[-1:] = 1
    if name != "comparison" and name != "array": b += 1
    __check__(name + ": writing to it notifies nothing of the array", len(a._tracker.calls) == n)
    __same__(name + ": the array is left alone", np.asarray(a).tolist(), old.tolist())
__same__("nobody is told", len([t for t in log if t is a._tracker]), n)
'''
DISABLED = VIEWS + '''
nd.tracked.__tracker_class__ = None
a = fill(%(make)s, "A")
I = np.arange(a.size).reshape(a.shape)
__check__("no tracker", a._tracker is None)
def all_writes(k):
    if k >= len(VIEWS): return
    name, f = VIEWS[k]
    w, J = f(a), f(I)
    for key in keys(w.shape):
        a.clear()
        __check__(name + ": cleared", a.dirty is None)
        w[key] = %(value)s
        D = [int(i) for i in np.asarray(J[key]).ravel()]
        d = a.dirty
        s = a.dtype.itemsize
        __check__(name + " " + str(key) + ": the dirty region covers what was written", D == [] or d is not None and d[0] <= min(D) * s and max(D) * s + s <= d[1])
        __check__(name + ": the view has the region of the array", w.dirty == d or name == "squeezed")
    all_writes(k + 1)
all_writes(0)
for name, f in (("itself", lambda v: v), ("part", lambda v: v[1:]), ("reversed", lambda v: v[::-1]), ("every other", lambda v: v[1::2])):
    w, J = f(a), f(I)
    n, s = len(J), a.dtype.itemsize
    for key in (np.array([n - 1]), np.array([0]), np.array([-1, 0]), np.array([i == n - 1 for i in range(n)]), np.array([i == 0 for i in range(n)])):
        a.clear()
        w[key] = %(value)s
        D = [int(i) for i in np.asarray(J[key]).ravel()]
        __check__(name + ": the dirty region covers what was written by indices", a.dirty is not None and a.dirty[0] <= min(D) * s and max(D) * s + s <= a.dirty[1])
for k1 in (0, -1, (1, 1), slice(1, 3)):
    for k2 in (-1, 0, (2, 0), slice(0, 2)):
        a.clear()
        a[k1] = %(value)s
        a[k2] = %(value)s
        D = [int(i) for i in np.asarray(I[k1]).ravel()] + [int(i) for i in np.asarray(I[k2]).ravel()]
        s = a.dtype.itemsize
        __check__("the dirty region covers two writes", a.dirty[0] <= min(D) * s and max(D) * s + s <= a.dirty[1])
a.clear()
v = a[1:2]
v[0, 0] = %(value)s
a[3, 1] = %(value)s
s = a.dtype.itemsize
__check__("regions add up", a.dirty[0] <= a.shape[-1] * s and a.dirty[1] >= (3 * a.shape[-1] + 2) * s)
v.clear()
__check__("cleared through a view", a.dirty is None)
a += %(value)s
__check__("in-place operators count", a.dirty == (0, a.size * s))
nd.tracked.__tracker_class__ = Tracker
v = a[1:]
v[0] = %(value)s
v *= 2
a[0] = %(value)s
__check__("an array created while tracking is disabled is never tracked", log == [])
'''
KINDS = [("vec3", "nd.vec3(4)", "f"), ("vec2", "nd.vec2(5, np.float64)", "f"), ("vec4", "nd.vec4(4, np.uint8)", "i"),
         ("array", "np.zeros((4, 3), np.float32).view(nd.tracked)", "f"), ("kind", "np.zeros((4, 3), np.float32).view(nd.vec3)", "f"),
         ("part", "np.zeros((9, 3), np.float32)[3:7].view(nd.vec3)", "f"), ("strided", "np.zeros((8, 3), np.float32)[::2].view(nd.vec3)", "f"),
         ("fortran", "np.zeros((3, 4), np.float32).T.view(nd.vec3)", "f"), ("columns", "np.zeros((4, 6), np.int32)[:, ::2].view(nd.tracked)", "i")]
FLATVIEWS = '''
VIEWS = [("itself", lambda v: v), ("end", lambda v: v[1:]), ("reversed", lambda v: v[::-1]), ("every other", lambda v: v[1::2]), ("part of reversed", lambda v: v[::-1][1:4]),
         ("rows", lambda v: v.reshape(3, 2)), ("columns", lambda v: v.reshape(3, 2).T), ("one", lambda v: v[2:3])]
def keys(shape): return [Ellipsis, slice(None), slice(0, 1), 0, -1, slice(None, None, -1)]
'''
CHAIN = '''
a = fill(nd.vec3(6), "A")
I = np.arange(18).reshape(6, 3)
VIEWS = [("tracked part", lambda v: v[2:].view(nd.tracked)), ("part of a tracked part", lambda v: v[2:].view(nd.tracked)[1:]),
         ("kind changed twice", lambda v: v[1:].view(nd.tracked)[1:].view(nd.vec3)[1:]), ("pairs", lambda v: v[1:3].view(nd.tracked).reshape(-1, 2).view(nd.vec2)[1:]),
         ("reversed kinds", lambda v: v[::-1].view(nd.tracked)[1:3].view(nd.vec4)[:1])]
PLAIN = [lambda v: v[2:], lambda v: v[3:], lambda v: v[3:], lambda v: v[1:3].reshape(-1, 2)[1:], lambda v: v[::-1][1:2]]
for (name, f), g in zip(VIEWS, PLAIN):
    w, J = f(a), g(I)
    __same__(name + ": elements", list(np.asarray(w).ravel()), [np.asarray(a).ravel()[i] for i in J.ravel()])
    for key in (Ellipsis, 0, -1, (0, 1), slice(0, 1), (slice(None), 0)):
        x = __sym__("x", "float", -9, 9)
        def act(): w[key] = x
        wrote(name + " " + str(key), a, J[key], act)
    def act():
        global w
        w += 1
    wrote(name + " +=", a, J, act)
'''


def clients(ctx):
    r = []
    at = "gsp_matplotlib/glm/ndarray/tracked.py:tracked"
    for n, make, ty in KINDS:
        d = dict(make=make, value='__sym__("x", "int", -9, 9)' if ty == "i" else '__sym__("x", "float", -9, 9)', more="" if ty == "i" else
                 ', ("divide", operator.itruediv), ("power", operator.ipow), ("floor", operator.ifloordiv), ("modulo", operator.imod)')
        r.append(Client("write_" + n, HEAD + WRITES % d, at))
        r.append(Client("fancy_" + n, HEAD + FANCY % d, at))
        r.append(Client("inplace_" + n, HEAD + INPLACE % d, at))
        r.append(Client("reading_" + n, HEAD + READING % d, at))
        r.append(Client("copies_" + n, HEAD + COPIES % d, at))
        if n not in ("strided", "fortran", "columns"):
            r.append(Client("disabled_" + n, HEAD + DISABLED % d, at))
    for n, make in (("scalar", "nd.scalar(6)"), ("mat2", "nd.mat2(3)")):
        d = dict(make=make, value='__sym__("x", "float", -9, 9)')
        v = FLATVIEWS if n == "scalar" else FLATVIEWS.replace("reshape(3, 2)", "reshape(6, 2)").replace("v[2:3]", "v[1:2, 0]")
        r.append(Client("write_" + n, HEAD + WRITES.replace(VIEWS, v) % d, at))
    for n, make, ops, values in (
            ("float", "nd.vec3(4)", "iadd isub imul itruediv ifloordiv imod ipow", "(2, 1, 0.5, 3.0, -2, np.float32(2), [1, 2, 3], np.array([2.0, 1.0, 4.0]))"),
            ("int", "np.zeros((4, 3), np.int32).view(nd.vec3)", "iadd isub imul ifloordiv imod ilshift irshift iand ior ixor", "(2, 1, 3, [1, 2, 3], np.array([2, 1, 4]))"),
            ("unsigned", "nd.vec3(4, np.uint8)", "iadd isub imul ilshift irshift iand ior ixor", "(2, 1, 3)")):
        r.append(Client("operators_" + n, HEAD + '''
import operator
for op in %r.split():
    for x in %s:
        for name, f in (("itself", lambda v: v), ("part", lambda v: v[1:3]), ("reversed", lambda v: v[::-1])):
            a = %s
            a[...] = [[3, 1, 2], [7, 5, 11], [1, 2, 4], [9, 8, 6]]
            w, J = f(a), f(np.arange(12).reshape(4, 3))
            twin = np.array([[3, 1, 2], [7, 5, 11], [1, 2, 4], [9, 8, 6]], a.dtype)
            part = f(twin)
            part = getattr(operator, op)(part, x)
            got = []
            def act(): got.append(getattr(operator, op)(w, x))
            wrote(op + " " + name, a, J, act)
            __check__(op + " " + name + ": in place", got[0] is w)
            __same__(op + " " + name + ": the array after", np.asarray(a).tolist(), twin.tolist())
''' % (ops, values, make), at))
    r.append(Client("sequence", HEAD + SEQUENCE, at))
    r.append(Client("chain", HEAD + CHAIN, at))
    return r
