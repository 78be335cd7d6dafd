"""C19: accessors and output references select exactly the components they name."""
from ..run import Client
from .common import DATA

PROPERTY = "C19"
FLOOR = 100
EXPLANATION = (
    "Every accessor, on every kind of source (plain array of any rank, record array, buffer, transform) is evaluated on "
    "symbolic data, with and without a current index, and the resulting cells are compared one by one with the cells of the "
    "source; every output reference over both spellings of components, in any order and with repetitions, likewise. Names "
    "that designate nothing must be refused on every path.")

INDEXES = {
    "all": (None, "..."),
    "one": ("1", "1"),
    "first": ("0", "0"),
    "list": ("np.array([2, 0])", "np.array([2, 0])"),
    "slice": ("slice(1, 3)", "slice(1, 3)"),
    "mask": ("np.array([True, False, True])", "np.array([True, False, True])"),
}
REFUSED = '''
def refused(f):
    try:
        f()
    except (ValueError, IndexError, KeyError):
        return True
    return False
'''


def clients(ctx):
    out = []
    where = "gsp/transform/accessor.py:Accessor.evaluate"
    for fam, names in (("xyzw", "XYZW"), ("rgba", "RGBA")):
        for i, (k, cls) in enumerate(zip(fam, names)):
            for ind, (setup, sel) in INDEXES.items():
                env = "{}" if setup is None else '{"index": %s}' % setup
                out.append(Client("%s_%s" % (cls, ind), DATA + REFUSED + """
env = %s
A2 = __arr__("A2", (2, 3, 4))
V = __arr__("V", (4,))
I = __arr__("I", (3, 4), np.int32, 0, 9)
__same__("component of a plain array", %s(P).evaluate(env), P[:, %d][%s])
__same__("component of an integer array", Accessor(I, "%s").evaluate(env), I[:, %d][%s])
__same__("component in the last axis", %s(A2).evaluate({}), A2[..., %d])
t = %s()
t.set_buffer(Q)
__same__("component of an array bound later", t.evaluate(env), Q[:, %d][%s])
__same__("component of the chained value", %s(X(P) if False else Out("v")).evaluate(dict(env, v=P)), P[:, %d][%s])
__same__("copied accessor", %s(P).copy().evaluate(env), P[:, %d][%s])
__same__("evaluated twice", %s(P).evaluate(env), %s(P).evaluate(env))
__same__("binding by call", %s()(Q).evaluate(env), Q[:, %d][%s])
""" % (env, cls, i, sel, k, i, sel, cls, i, cls, i, sel, cls, i, sel, cls, i, sel, cls, cls, cls, i, sel), where))
            # short vectors: the component exists up to the width, and is refused beyond
            for width in (1, 2, 3, 4):
                if i < width:
                    body = '__same__("component of %d-vectors", %s(Z0).evaluate({}), Z0[:, %d])' % (width, cls, i)
                else:
                    body = '__check__("component %s of %d-vectors is refused", refused(lambda: %s(Z0).evaluate({})))' % (k, width, cls)
                out.append(Client("%s_width%d" % (cls, width), DATA + REFUSED + '''
Z0 = __arr__("Z0", (3, %d))
%s
''' % (width, body), where))
    # records
    for fields in ("xyz", "xyzw", "rgba", "bgra", "zyx", "wx", "ar"):
        src = DATA + REFUSED + '''
from gsp_matplotlib.core import Buffer
raw = __arr__("raw", (3, %d), np.float32)
dt = np.dtype([(c, np.float32) for c in %r])
R0 = raw.copy().view(dt)[:, 0] if False else np.zeros(3, dt)
for j, c in enumerate(%r):
    R0[c] = raw[:, j]
''' % (len(fields), fields, fields)
        for c in "xyzwrgba":
            if c in fields:
                src += '__same__("field %s of records", Accessor(R0, %r).evaluate({}), raw[:, %d])\n' % (c, c, fields.index(c))
                src += '__same__("field %s of records, by class", %s(R0).evaluate({"index": np.array([1, 0])}), raw[:, %d][np.array([1, 0])])\n' % (c, c.upper(), fields.index(c))
            else:
                src += '__check__("field %s of records without it is refused", refused(lambda: Accessor(R0, %r).evaluate({})))\n' % (c, c)
        out.append(Client("records_" + fields, src, where))
    out.append(Client("buffer", DATA + REFUSED + '''
from gsp_matplotlib.core import Buffer
vals = [0.5, 1.5, -2.0, 3.25, 4.5, 8.0]
b = Buffer(2, np.dtype(("f4", (3,))), np.array(vals, np.float32).tobytes())
for i, T in enumerate((X, Y, Z)):
    __same__("component of a buffer", T(b).evaluate({}), np.array(vals, np.float32).reshape(2, 3)[:, i])
    __same__("component of a buffer, at an index", T(b).evaluate({"index": 1}), np.array(vals, np.float32).reshape(2, 3)[1, i])
''', where))
    for bad in ("q", "xy", "rg", "", "X", "xyzw", "zw", "1"):
        out.append(Client("bad_key_%s" % (bad or "empty"), DATA + REFUSED + '''
__check__("no component of that name", refused(lambda: Accessor(P, %r).evaluate({})))
__check__("no component of that name, indexed", refused(lambda: Accessor(P, %r).evaluate({"index": 1})))
''' % (bad, bad), where))
    for cls in "XYZWRGBA":
        out.append(Client("unbound_" + cls, DATA + REFUSED + '''
__check__("an unbound accessor is refused", refused(lambda: %s().evaluate({})))
__check__("an unbound accessor is refused, indexed", refused(lambda: %s().evaluate({"index": 1})))
''' % (cls, cls), where))
    # output references
    where = "gsp/transform/out.py:Out.evaluate"
    import itertools
    for fam in ("xyzw", "rgba"):
        for n in (1, 2, 3, 4):
            words = ["".join(w) for w in itertools.product(fam, repeat=n)]
            if ctx.tier == "quick" and n > 2:
                step = 7 if n == 3 else 31
                words = words[::step]
            for chunk in range(0, len(words), 32):
                src = DATA + REFUSED + 'V = __arr__("V", (4,))\nenv = {"a": P, "b": V, "screen[positions]": Q}\n'
                for w in words[chunk:chunk + 32]:
                    idx = [fam.index(c) for c in w]
                    src += '__same__("components %s", Out("a.%s").evaluate(env), P[:, %r])\n' % (w, w, idx)
                    src += '__same__("components %s of a single vector", Out("b.%s").evaluate(env), V[%r])\n' % (w, w, idx)
                    src += '__same__("components %s of an output", Out("screen[positions].%s").evaluate(env), Q[:, %r])\n' % (w, w, idx)
                out.append(Client("out_%s_%d_%d" % (fam, n, chunk), src, where))
    out.append(Client("out_whole", DATA + REFUSED + '''
V = __arr__("V", (4,))
env = {"a": P, "b": V, "screen[positions]": Q, "k": k, "s": 3}
for n in env:
    __same__("the value of that name", Out(n).evaluate(env), env[n])
    __same__("copied reference", Out(n).copy().evaluate(env), env[n])
o = Out("a.y")
o.name = "b.zx"
__same__("renamed reference", o.evaluate(env), V[[2, 0]])
''', where))
    for bad in ("a.q", "a.xr", "a.xyq", "a.rx", "a.X", "a.gy", "missing", "missing.x", "A", "A.x", "a ", "screen[position]"):
        out.append(Client("out_bad_%d" % len(out), DATA + REFUSED + '''
env = {"a": P, "screen[positions]": Q}
__check__("%s designates nothing", refused(lambda: Out(%r).evaluate(env)))
o = Out("a")
o.name = %r
__check__("%s designates nothing, renamed", refused(lambda: o.evaluate(env)))
''' % (bad, bad, bad, bad), where))
    return out
