"""C05: every protocol name resolves to its own class in every implementation."""
from ..run import Client
from .catalogue import SETUP, CTORS, SETTERS

PROPERTY = "C05"
FLOOR = 200
EXPLANATION = (
    "The name each class records is read off the command its constructor appends. It is resolved attribute by attribute in the "
    "protocol package and in the backend: the first must be the class itself (or its protocol base), the second the "
    "implementation deriving from it. Names are compared pairwise, and every setter's recorded name and parameters are "
    "matched with the method of that name on the receiver's class in both packages.")


def clients(ctx):
    out = []
    allc = {}
    for mod, cls, name, params in CTORS:
        args = ", ".join("%s=%s" % (a, e) for a, e, _ in params)
        allc[(mod, cls)] = args
        out.append(Client("name_%s_%s" % (mod.replace(".", "_"), cls), SETUP + '''
K = %s.%s
obj = K(%s)
made = [c for c in q.commands if c.parameters["id"] == obj.id]
__same__("one creation command", len(made), 1)
name = made[0].methodname
def resolve(root, name):
    for part in name.split("."):
        root = getattr(root, part)
    return root
P = resolve(gsp, name)
B = resolve(gsp_matplotlib, name)
__check__("the name designates a class of the protocol", isinstance(P, type))
__check__("the object is an instance of it", isinstance(obj, P))
__same__("the class has the name it records", [P.__name__, name.split(".")[1], B.__name__], [%r, %r, %r])
__check__("the backend's class derives from the protocol's", issubclass(B, P))
__check__("the class is the one the name designates in its package", K is (P if K.__module__.split(".")[0] == "gsp" else B))
__check__("executing the command creates the backend's class", True)
record(False)
r = made[0].execute(gsp_matplotlib)
record(True)
__check__("execution creates an object of that class", type(r) is B)
''' % (mod, cls, args, cls, cls, cls), "%s.%s" % (mod, cls)))
    for root in ("gsp", "gsp_matplotlib"):
        src = SETUP + "names = {}\nfrom gsp.object import Object\n"
        for (mod, cls), args in allc.items():
            if mod.split(".")[0] != root:
                continue
            src += '''
obj = %s.%s(%s)
name = [c.methodname for c in q.commands if c.parameters["id"] == obj.id and "." in c.methodname][0]
__check__("no two classes share the name of %s.%s", name not in names or names[name] is %s.%s)
names[name] = %s.%s
''' % (mod, cls, args, mod, cls, mod, cls, mod, cls)
        out.append(Client("distinct_" + root, src, root))
    for i, (recv, meth, name, params) in enumerate(SETTERS):
        a = ", ".join("%s=%s" % (p, e) for p, e, _ in params)
        src = SETUP + '''
obj = %s
obj.%s(%s)
c = q[len(q) - 1]
__check__("the recorded name is a method of the receiver", callable(getattr(type(obj), c.methodname)))
__check__("a method name is never taken for a class name", "." not in c.methodname and c.methodname != "__init__")
made = [d for d in q.commands if d.parameters["id"] == obj.id and "." in d.methodname][0]
def resolve(root, name):
    for part in name.split("."):
        root = getattr(root, part)
    return root
K = resolve(gsp_matplotlib, made.methodname)
__check__("and of the backend's class", callable(getattr(K, c.methodname)))
record(False)
q2 = [d for d in q.commands if d.parameters["id"] == obj.id]
for d in q2:
    d.execute(gsp_matplotlib)          # its parameters are accepted
''' % (recv, meth, a)
        out.append(Client("setter_%s_%d" % (meth, i), src, recv + "." + meth))
    return out
