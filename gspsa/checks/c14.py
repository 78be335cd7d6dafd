"""C14: building an expression never changes its operands."""
from ..run import Client
from .common import DATA, OPERANDS, OPS

PROPERTY = "C14"
FLOOR = 60
EXPLANATION = (
    "For every operator and every kind of operand, an analysis client builds the composition from symbolic data and the "
    "abstract state of the operands is compared before and after: the value they denote under evaluation, whether they "
    "are bound, their structural links, and aliasing of nodes between result and operands; later mutation of either side "
    "must not show on the other.")

SNAP = '''
def snap(t, env):
    try:
        v = t.evaluate(env)
    except Exception as e:
        v = type(e).__name__
    try:
        b = t.bound
    except Exception as e:
        b = type(e).__name__
    return [v, b, t.next is None, t.buffer is None, t.base is t, t.last is t]
'''

SNAP += '''
def poke(t):
    if isinstance(t, Operator):
        for o in (t.left, t.right):
            if isinstance(o, Transform): poke(o)
    elif t.next is not None: poke(t.next)
    else: t.set_buffer(7.0)
'''

UNBOUND = {"X": "X()", "Y": "Y()", "W": "W()", "Colormap": 'Colormap("gray", 0.25, k)', "Pixel": "Pixel()", "Inch": "Inch()"}


def clients(ctx):
    out = []
    where = "gsp/transform (arithmetic operators)"
    names = list(OPERANDS)
    for op, sign in OPS.items():
        for i, a in enumerate(names):
            b = names[(i + 2) % len(names)]
            out.append(Client("%s_%s_%s" % (op, a, b), DATA + SNAP + """
a = %s
b = %s
sa, sb = snap(a, env), snap(b, env)
c = a %s b
__same__("left operand unchanged by %s", snap(a, env), sa)
__same__("right operand unchanged by %s", snap(b, env), sb)
v = c.evaluate(env)
__same__("left operand unchanged by evaluation", snap(a, env), sa)
__same__("right operand unchanged by evaluation", snap(b, env), sb)
a.set_buffer(7.0)
b.set_buffer(7.0)
__same__("composition independent of later changes of its operands", c.evaluate(env), v)
""" % (OPERANDS[a][0], OPERANDS[b][0], sign, op, op), where))
        for a in names:
            for lit in ("2.0", "3"):
                if op == "div":
                    exprs = ["a %s %s" % (sign, lit)]
                else:
                    exprs = ["a %s %s" % (sign, lit), "%s %s a" % (lit, sign)]
                for e in exprs:
                    if a in ("pixel", "inch") and op == "mul":
                        continue
                    out.append(Client("const_%s_%s_%s" % (op, a, lit.replace(".", "") + ("r" if e[0] != "a" else "")), DATA + SNAP + """
a = %s
sa = snap(a, env)
c = %s
__same__("operand of %s unchanged", snap(a, env), sa)
v = c.evaluate(env)
a.set_buffer(9.0)
__same__("composition independent of its operand", c.evaluate(env), v)
""" % (OPERANDS[a][0], e, e), where))
    # nodes of the operands, of the composition and of compositions of it are changed one after the other
    for n, e in (("sum", "X(P) + Y(Q)"), ("nested", "(X(P) * Y(Q)) - (Z(P) / X(Q))"), ("chain", "Pixel()(X(P)) + Inch()(Y(Q))"),
                 ("explicit", "Div(X(P), Sub(Y(P), X(Q)))")):
        out.append(Client("deep_" + n, DATA + SNAP + """
t = %s
others = [("negation", -t), ("sum", t + 2.0), ("difference", 1.0 - t), ("product", t * (k * Pixel())), ("quotient", (2.0 * Inch()) / (t + 3.0)), ("chain", Pixel()(t)),
          ("copy", t.copy())]
st = snap(t, env)
for name, c in others:
    v = c.evaluate(env)
    poke(c)
    __check__("changed", True)
    __same__("changes inside a " + name + " do not reach its operand", snap(t, env), st)
others = [("negation", -t), ("sum", t + 2.0), ("difference", 1.0 - t), ("product", t * (k * Pixel())), ("quotient", (2.0 * Inch()) / (t + 3.0)), ("chain", Pixel()(t)),
          ("copy", t.copy())]
vs = [c.evaluate(env) for name, c in others]
poke(t)
for i in range(len(others)):
    __same__("changes inside the operand do not reach the " + others[i][0], others[i][1].evaluate(env), vs[i])
""" % e, where))
    for n, t in UNBOUND.items():
        for m, u in UNBOUND.items():
            out.append(Client("chain_%s_%s" % (n, m), DATA + SNAP + """
a = %s
b = %s
sa, sb = snap(a, env), snap(b, env)
c = a(b)
__same__("outer transform unchanged by chaining", snap(a, env), sa)
__same__("inner transform unchanged by chaining", snap(b, env), sb)
__check__("chaining builds a new transform", c is not a and c is not b)
__check__("no node of the chain is shared with the inner operand", c.next is not b)
d = c(P)
__same__("binding a chain leaves the outer transform unbound", snap(a, env), sa)
__same__("binding a chain leaves the inner transform unbound", snap(b, env), sb)
__check__("binding a chain leaves the chain itself unbound", not c.bound)
__check__("the bound chain is bound", d.bound)
b.set_buffer(Q)
a.set_buffer(Q)
__check__("later binding of an operand does not bind the chain", not c.bound)
""" % (t, u), "gsp/transform/transform.py:Transform.__call__"))
        out.append(Client("bind_%s" % n, DATA + SNAP + """
a = %s
sa = snap(a, env)
c = a(P)
__same__("transform unchanged by binding a copy", snap(a, env), sa)
__check__("binding builds a new transform", c is not a)
__check__("binding binds the new transform", c.bound)
n = -a
__same__("transform unchanged by negation", snap(a, env), sa)
""" % t, "gsp/transform/transform.py:Transform.__call__"))
    return out
