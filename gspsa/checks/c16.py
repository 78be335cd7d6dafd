"""C16: an arithmetic expression over transforms denotes the arithmetic of what its operands denote."""
from ..run import Client
from .common import DATA, OPERANDS, OPS

PROPERTY = "C16"
FLOOR = 60
EXPLANATION = (
    "Every arithmetic operator, with every kind of operand on either side (bound accessor, output reference, measure, "
    "number, nested expression), is analysed on symbolic data; the term obtained by evaluating the expression is compared "
    "with the term obtained by applying the operator to the evaluated operands.")


def clients(ctx):
    out = []
    where = "gsp/transform/operator.py"
    names = list(OPERANDS)
    for op, sign in OPS.items():
        for i, a in enumerate(names):
            for j in range(len(names)):
                b = names[j]
                if (i + j) % 3 and ctx.tier == "quick":
                    continue
                if op == "mul" and False:
                    continue
                out.append(Client("%s_%s_%s" % (op, a, b), DATA + """
a, b = %s, %s
__same__("value of a %s b", (a %s b).evaluate(env), np.asarray(%s) %s np.asarray(%s))
""" % (OPERANDS[a][0], OPERANDS[b][0], sign, sign, OPERANDS[a][1], sign, OPERANDS[b][1]), where))
        for a in names:
            for lit, val in (("2.5", 2.5), ("3", 3), ("k", "k")):
                if a in ("pixel", "inch") and op == "mul":
                    continue
                out.append(Client("%s_%s_const_%s" % (op, a, lit.replace(".", "_")), DATA + """
a = %s
va = np.asarray(%s)
__same__("value of a %s %s", (a %s %s).evaluate(env), va %s %s)
__same__("value of %s %s a", (%s %s a).evaluate(env), %s %s va)
""" % (OPERANDS[a][0], OPERANDS[a][1], sign, lit, sign, lit, sign, lit, lit, sign, lit, sign, lit, sign), where))
    for a in names:
        out.append(Client("neg_" + a, DATA + """
a = %s
n = -a if %r not in ("pixel", "inch") else -(a + 0.0)
__same__("value of -a", n.evaluate(env), -np.asarray(%s))
""" % (OPERANDS[a][0], a, OPERANDS[a][1]), where))
    # operands of one element and of column shape: shapes follow the usual rules of array arithmetic
    for op, sign in OPS.items():
        for name, cls in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div")):
            if cls != op:
                continue
            out.append(Client("shapes_" + op, DATA + """
from gsp_matplotlib.core import Buffer as B_
one = B_(1, np.dtype("f4"), np.asarray([2.5], "f4").tobytes())
two = B_(3, np.dtype("f4"), np.asarray([2.5, 0.5, 4.0], "f4").tobytes())
col = B_(3, np.dtype(("f4", (1,))), np.asarray([1.5, 0.5, 4.0], "f4").tobytes())
vec = B_(3, np.dtype(("f4", (4,))), np.arange(1, 13).astype("f4").tobytes())
first = B_(1, np.dtype(("f4", (4,))), np.asarray([1.0, 2.0, 3.0, 4.0], "f4").tobytes())
n = 0
for a in (one, two, col, vec, first, 2.0, 3):
    for b in (one, two, col, vec, first, 2.0, 3):
        if (a is two and b is vec) or (a is vec and b is two) or (a is two and b is first) or (b is two and a is first): continue
        va = np.asarray(a) if isinstance(a, B_) else a
        vb = np.asarray(b) if isinstance(b, B_) else b
        t = %s(a, b)
        r = t.evaluate(env)
        want = va %s vb
        __same__("shape", np.asarray(r).shape, np.asarray(want).shape)
        __same__("value", r, want)
        __same__("value of a copy", t.copy().evaluate(env), want)
        __same__("inside an expression", (t + 1.0).evaluate(env), want + 1.0)
for p in (P[:1], P[:1, :1], P[:, :1], P):
    for q in (Q[:1], Q[:1, :1], Q[:, :1], Q):
        __same__("accessors", (X(p) %s X(q)).evaluate(env), p[..., 0] %s q[..., 0])
""" % (name, sign, sign, sign), where))
    for n, e, v in (
            ("explicit_add", "Add(X(P), 2.0)", "P[...,0] + 2.0"), ("explicit_sub", "Sub(2.0, X(P))", "2.0 - P[...,0]"),
            ("explicit_mul", "Mul(Y(Q), X(P))", "Q[...,1] * P[...,0]"), ("explicit_div", "Div(k, Y(Q))", "k / Q[...,1]"),
            ("assoc", "X(P) - (Y(Q) - Z(P))", "P[...,0] - (Q[...,1] - P[...,2])"),
            ("prec", "X(P) + Y(Q) * Z(P) / k", "P[...,0] + Q[...,1] * P[...,2] / k"),
            ("deep", "((1.0 - X(P)) * 2.0 - (Y(Q) / (k + Z(Q)))) / (Y(Q) * 4.0)",
             "((1.0 - P[...,0]) * 2.0 - (Q[...,1] / (k + Q[...,2]))) / (Q[...,1] * 4.0)"),
            ("self", "(lambda t: t + t * t)(X(P))", "P[...,0] + P[...,0] * P[...,0]"),
            ("measure_mix", "(k * Inch()) + (2.0 * Pixel()) * 1.0 if False else (k * Inch()) - (2.0 * Pixel())",
             "k * dpi - 2.0")):
        out.append(Client(n, DATA + """
t = %s
__same__("value of the expression", t.evaluate(env), %s)
__same__("evaluation is repeatable", t.evaluate(env), %s)
""" % (e, v, v), where))
    return out
