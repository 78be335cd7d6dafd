"""C17: chaining and binding."""
from ..run import Client
from .common import DATA as BASE

# positions are (n,1,4): what an accessor selects is then (n,1), i.e. one measure per row
DATA = BASE.replace("(3, 4)", "(4, 1, 4)")

PROPERTY = "C17"
FLOOR = 25
EXPLANATION = (
    "Chains of transforms are built on symbolic data through the call syntax, in every grouping; the term a chain denotes is "
    "compared with the outermost-last composition of its links, binding goes to the innermost link, rebinding a bound "
    "chain is refused and an unbound chain refuses evaluation.")

LINKS = {  # name -> (expr, function of inner value v)
    "pixel": ("Pixel()", "v"),
    "inch": ("Inch()", "v * dpi"),
    "pt": ("Point()", "v * dpi / 72.0"),
    "cm": ("Centimeter()", "v * dpi / 2.54"),
}


def clients(ctx):
    out = []
    where = "gsp/transform/transform.py:Transform.__call__"
    names = list(LINKS)
    for a in names:
        out.append(Client("bind_" + a, DATA + """
t = %s(X())
u = t(P)
v = P[..., 0]
__same__("a chain applied to data", u.evaluate(env), %s)
__check__("a chain applied to data is bound", u.bound)
w = %s(X(P))
__same__("a chain ending in a bound transform", w.evaluate(env), %s)
__check__("such a chain is bound", w.bound)
try:
    w(Q)
except ValueError:
    pass
else:
    __fail__("binding a bound chain must be refused")
try:
    X().evaluate(env)
except Exception:
    pass
else:
    __fail__("evaluating an unbound accessor must be refused")
""" % (LINKS[a][0], LINKS[a][1], LINKS[a][0], LINKS[a][1]), where))
        for b in names:
            va = LINKS[a][1]
            vb = LINKS[b][1]
            out.append(Client("chain_%s_%s" % (a, b), DATA + """
def inner(v): return %s
def outer(v): return %s
left = %s(%s)(X())(P)
right = %s(%s(X()))(P)
late = %s(%s(X(P)))
v = P[..., 0]
__same__("a(b(c)) applied to data", right.evaluate(env), outer(inner(v)))
__same__("a(b(c)) with c bound", late.evaluate(env), outer(inner(v)))
__same__("a(b)(c) keeps every link", left.evaluate(env), outer(inner(v)))
""" % (vb, va, LINKS[a][0], LINKS[b][0], LINKS[a][0], LINKS[b][0], LINKS[a][0], LINKS[b][0]), where))
    out.append(Client("arith_inside", DATA + """
t = Pixel()(X(P) + Y(Q) * 2.0)
__same__("an expression inside a chain", t.evaluate(env), P[..., 0] + Q[..., 1] * 2.0)
u = Inch()(k * Pixel())
__same__("a measure of a measure", u.evaluate(env), k * dpi)
__check__("an expression of bound transforms is bound", (X(P) + Y(Q)).bound)
__check__("an expression with an unbound transform is not bound", not (X(P) + Y()).bound)
__check__("an expression with a number is bound as its transform is", (X(P) + 2.0).bound and not (2.0 - X()).bound)
""", where))
    out.append(Client("cmap", DATA + """
c = Colormap("magma", -3.0, 5.0)
t = c(X())
a = t(P)
b = c(X(P))
d = c(P[..., 0])
__same__("colormap of an accessor, bound late or early", a.evaluate(env), b.evaluate(env))
__same__("colormap of an accessor and of the data it selects", a.evaluate(env), d.evaluate(env))
""", where))
    out.append(Client("binds", DATA + """
for data in (3.0, 4, (1.0, 2.0, 3.0), P[..., 0]):
    t = Pixel()(data)
    __check__("bound to a number, tuple or array", t.bound)
__same__("number", Pixel()(3.0).evaluate(env), 3.0)
__same__("integer", Pixel()(4).evaluate(env), 4)
__same__("tuple", Pixel()((1.0, 2.0)).evaluate(env), [1.0, 2.0])
t = Pixel()
for bad in ("text", None, [1, 2]):
    try:
        t(bad)
    except ValueError:
        pass
    else:
        __fail__("binding something that is not data must be refused")
__check__("zero is data", Pixel()(0).bound and Pixel()(0.0).bound)
__same__("zero evaluates to zero", Pixel()(0).evaluate(env), 0)
""", where))
    for depth in (3, 4, 5, 6, 7, 8):
        seq = [("Inch()", "* dpi"), ("Pixel()", ""), ("Point()", "* dpi / 72.0"), ("Centimeter()", "* dpi / 2.54"), ("Millimeter()", "* dpi / 25.4"),
               ("Inch()", "* dpi"), ("Pixel()", "")][:depth - 1]
        right = "X()"
        for e, _ in reversed(seq):
            right = "%s(%s)" % (e, right)
        left = "".join(e if i == 0 else "(%s)" % e for i, (e, _) in enumerate(seq)) + "(X())"
        half = len(seq) // 2
        a = seq[:half] or seq[:1]
        b = seq[len(a):] or None
        la = "".join(e if i == 0 else "(%s)" % e for i, (e, _) in enumerate(a))
        lb = ("".join(e if i == 0 else "(%s)" % e for i, (e, _) in enumerate(b)) + "(X())") if b else "X()"
        out.append(Client("depth_%d" % depth, DATA + """
want = P[..., 0]
for f in %s:
    want = f(want)
for name, t in (("right", %s), ("left", %s), ("halves", %s(%s))):
    n, links = t, 0
    while n is not None:
        links = links + 1
        last, n = n, n.next
    __same__("every link is there: " + name, links, %d)
    __ident__("the last is the innermost: " + name, t.last, last)
    __check__("not bound: " + name, not t.bound)
    u = t(P)
    __check__("bound: " + name, u.bound)
    __check__("the chain is not: " + name, not t.bound)
    __same__("value: " + name, u.evaluate(env), want)
    try:
        u(Q)
    except ValueError:
        pass
    else:
        __fail__("binding a bound chain must be refused")
""" % ("[%s]" % ", ".join("(lambda v: v %s)" % w for _, w in reversed(seq)), right, left, la, lb, depth), where))
    out.append(Client("links", DATA + """
a, b, c = Pixel(), Inch(), X()
t = a(b(c))
__check__("the last link of a chain", type(t.last) is X)
__check__("next links", type(t.next) is Inch and type(t.next.next) is X and t.next.next.next is None)
__check__("a chain remembers what it was copied from", t.base is a)
u = t(P)
__check__("a bound chain remembers its origin", u.base is a)
__ident__("the data is at the innermost link", u.last.buffer, P)
__check__("outer links hold no data", u.buffer is None and u.next.buffer is None)
""", where))
    return out
