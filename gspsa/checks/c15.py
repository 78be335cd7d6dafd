"""C15: copies are faithful and independent."""
from ..run import Client
from .common import DATA, OPERANDS

PROPERTY = "C15"
FLOOR = 30
EXPLANATION = (
    "For every kind of transform (and nested combinations) an analysis client copies it, then compares the abstract values "
    "the original and the copy denote under evaluation, their class and binding, and shows that a later change of either "
    "(every public setter) does not reach the other.")

KINDS = dict(OPERANDS)
KINDS = {n: e for n, (e, _) in KINDS.items()}
KINDS.update({
    "z": "Z(P)", "w": "W(P)", "r": "R(P)", "g": "G(P)", "b": "B(P)", "a": "A(P)",
    "cmap": 'Colormap("magma", k, k + 2.0)(X(P))', "cmap_auto": 'Colormap("gray")(Y(P))',
    "cmap_zero": 'Colormap("magma", 0.0, k)(X(P))',
    "chain": "Pixel()(X(P))", "mm": "(k * Millimeter())", "pt": "(k * Point())", "m": "(k * Meter())",
    "km": "(k * Kilometer())", "cm": "(k * Centimeter())",
    "sum_const": "(X(P) + 2.5)", "const_sub": "(2.5 - X(P))", "const_const": "Add(k, 2.5)", "div": "(X(P) / Y(Q))",
    "neg": "(-X(P))", "deep": "((1.0 - (X(P) * 2.0)) / (Y(Q) + (3.0 - Z(Q))))", "div_const": "(X(P) / 4.0)",
    "out_plain": 'Out("screen[positions]")', "cmap_out": 'Colormap("magma")(Out("screen[positions].z"))',
    "mul_pixel": "((k * Pixel()) + (2.0 * Inch()) - 1.5)",
})


def clients(ctx):
    out = []
    for n, e in KINDS.items():
        out.append(Client("copy_" + n, DATA + """
t = %s
v = t.evaluate(env)
c = t.copy()
__check__("the copy is another object", c is not t)
__check__("the copy has the class of the original", type(c) is type(t))
__same__("the copy denotes the same value", c.evaluate(env), v)
__same__("the copy of the copy denotes the same value", c.copy().evaluate(env), v)
__check__("copies have their own identity", c.id != t.id)
__same__("the original is unchanged by copying", t.evaluate(env), v)
t.set_buffer(5.0)
t.set_next(None)
__same__("the copy does not see later changes of the original", c.evaluate(env), v)
""" % e, "gsp/transform (copy)"))
    FREE = {"X": "()", "Pixel": "()", "Meter": "()", "Out": '("name.xy")', "Accessor": '(key="z")'}
    for i, (lo, hi) in enumerate((("None", "None"), ("0.0", "None"), ("None", "0.0"), ("0.0", "0.0 + k"), ("-k", "0.0"), ("0.0", "5.0"), ("k", "k + 1.0"))):
        FREE["Colormap_%d" % i] = '("magma", %s, %s)' % (lo, hi)
    for n, e in FREE.items():
        kind = n.split("_")[0]
        out.append(Client("parameters_" + n, DATA + """
t = %s%s
names = [a for a in vars(t) if a not in ("_id", "_base", "_next", "_buffer")]
c = t.copy()
__same__("same class", type(c) is type(t), True)
for a in names:
    __same__("same parameters", getattr(c, a), getattr(t, a))
__same__("no other", [a for a in vars(c) if a not in ("_id", "_base", "_next", "_buffer")], names)
__ident__("refers to the original", c.base, t)
__ident__("also when copied again", c.copy().base, t)
for b in (P, 0.0, 0, 2.5, (1.0, 2.0)):
    if %r == "Out": break
    u = %s%s
    u.set_buffer(b)
    d = u.copy()
    __same__("same data", d.buffer, b)
    __same__("bound", [d.bound, u.bound], [True, True])
    d.set_buffer(3.0)
    __same__("the data of the original stay", u.buffer, b)
    w = %s%s
    w.set_next(u)
    d = w.copy()
    __same__("same data at the end of the chain", [d.last.buffer, d.bound], [b, True])
    for a in names:
        __same__("same parameters along the chain", getattr(d.next, a), getattr(u, a))
""" % (kind, e, kind, kind, e, kind, e), "gsp/transform (copy)"))
    for l, r in (("0.0", "k"), ("k", "0"), ("0", "0.0"), ("None", "k"), ("k", "None"), ("X()", "0"), ("0.0", "(X()*2)"), ("P", "0.0"),
                 ("X(P)", "Y(Q)"), ("Pixel()(X(P))", "(X(P)+Y(Q))"), ("(X(P)+2.0)", "(Z(P)*k)")):
        for op in ("Add", "Sub", "Mul", "Div"):
            out.append(Client("operands_%s_%s_%s" % (op, "".join(c for c in l if c.isalnum()), "".join(c for c in r if c.isalnum())), DATA + """
t = %s(%s, %s)
c = t.copy()
__same__("same class", type(c) is type(t), True)
__same__("same operator", c.operator, t.operator)
for a, b in ((t.left, c.left), (t.right, c.right)):
    if isinstance(a, Transform):
        __same__("operands of the same kind", [type(b) is type(a), isinstance(b, Transform)], [True, True])
        __check__("not shared", a is not b)
    else:
        __same__("same operands", b, a)
__ident__("refers to the original", c.base, t)
""" % (op, l, r), "gsp/transform/operator.py:Operator.copy"))
    for n, e in (("sum", "X(P) + Y(Q)"), ("mixed", "X(P) - 2.0"), ("nested", "(X(P) + k) * (2.0 - Y(Q))")):
        out.append(Client("setters_" + n, DATA + """
t = %s
v = t.evaluate(env)
c = t.copy()
c.set_left(11.0)
c.set_right(13.0)
__same__("replacing the operands of a copy leaves the original alone", t.evaluate(env), v)
d = t.copy()
t.set_right(13.0)
t.set_left(11.0)
__same__("replacing the operands of the original leaves a copy alone", d.evaluate(env), v)
__same__("the operator survives copying", d.operator, t.operator)
""" % e, "gsp/transform/operator.py:Operator.copy"))
    return out
