"""C02: nothing is recorded when recording is off, read-only or suppressed."""
from ..run import Client
from .catalogue import SETUP, CTORS, SETTERS

PROPERTY = "C02"
FLOOR = 500
EXPLANATION = (
    "Every recorded constructor and setter of both packages, and a family of client methods, is called with recording off, with the "
    "active queue read-only, with recording suppressed for the call, and in every combination of two of these. On every path no queue "
    "grows, the attributes of the object and the result are those of the recorded call, and the next call after switching back "
    "adds exactly one command.")

MODES = {
    "off": ("record(False)", "", "record(True)"),
    "readonly": ("q.readonly = True", "", "q.readonly = False"),
    "suppressed": ("pass", "__no_command__=True", "pass"),
    "off_readonly": ("record(False); q.readonly = True", "", "record(True); q.readonly = False"),
    "off_suppressed": ("record(False)", "__no_command__=True", "record(True)"),
    "readonly_suppressed": ("q.readonly = True", "__no_command__=True", "q.readonly = False"),
}

TOOLS = '''
other = queue("other")
latest = queue("latest")
def sizes(): return [len(queue("client")), len(other), len(latest), len(queue("default"))]
sizes()
q = queue("last")
def state(o):
    return {k: v for k, v in vars(o).items() if k not in ("_id", "_figure", "_axes", "_viewports", "paths", "_out_variables")}
def comparable(v):
    return isinstance(v, (int, float, str, bool, tuple, list, dict)) or v is None or isinstance(v, gsp.Object)
def same(label, a, b):
    sa, sb = state(a), state(b)
    __same__(label + ": attributes", sorted(sa.keys()), sorted(sb.keys()))
    for k in sa:
        if comparable(sa[k]):
            __same__(label + ": attribute " + k, sa[k], sb[k])
'''


def _args(params):
    return ", ".join("%s=%s" % (a, e) for a, e, _ in params)


def clients(ctx):
    out = []
    # the family of client methods, one client per mode
    for m, (on, kw, off) in MODES.items():
        out.append(Client("methods_" + m, '''
from gsp.object import Object
from gsp.io.command import command
import gsp
from gsp.io import queue, record
queue("client")
''' + TOOLS + '''
class Thing(Object):
    @command("thing.Thing")
    def __init__(self, a: int = 1):
        Object.__init__(self)
        self.a = a
    @command()
    def put(self, a: int, b: float = 2.0):
        self.a = a
        self.b = b
        return (self.a, self.b)
    @command("other")
    def ask(self): return self.a
class Sub(Thing):
    @command("thing.Sub")
    def __init__(self, a: int, c: str = "s"):
        super().__init__(a, __no_command__=True)
        self.c = c
n, x = __sym__("n", "int"), __sym__("x")
u = Thing(0)
for i in range(2):
    k, ku = sizes(), len(q)
    %s
    t = Thing(n%s)
    r = t.put(n, b=x%s)
    s = t.ask(%s)
    v = u.put(b=n * 1.0, a=n%s)
    w = Sub(n%s)
    __same__("nothing recorded", sizes(), k)
    __check__("nothing recorded in the active queue", len(q) == ku)
    %s
    __same__("results", [r, s, v], [(n, x), n, (n, n * 1.0)])
    __same__("effects", [t.a, t.b, u.a, u.b, w.a, w.c], [n, x, n, n * 1.0, n, "s"])
    __check__("objects stay registered", Object.objects[t.id] is t)
    u.put(n)
    __check__("the next call is recorded", len(q) == ku + 1)
    __same__("as itself", [q[ku].classname, q[ku].methodname, q[ku].parameters], ["Thing", "put", {"id": u.id, "a": n, "b": 2.0}])
    z = Sub(n)
    __check__("and the one after it", len(q) == ku + 2)
    __same__("once", [q[ku + 1].classname, q[ku + 1].methodname, q[ku + 1].parameters["id"]], ["Sub", "thing.Sub", z.id])
    __same__("nothing in the other queues", sizes(), k)
''' % (on, kw and ", " + kw, kw and ", " + kw, kw, kw and ", " + kw, kw and ", " + kw, off),
                          "gsp/io/command.py:command"))
    out.append(Client("refused_calls", '''
from gsp.object import Object
from gsp.io.command import command
import gsp
from gsp.io import queue, record
q = queue("client")
class Thing(Object):
    @command("thing.Thing")
    def __init__(self): Object.__init__(self)
    @command()
    def fail(self, a: int): raise KeyError(a)
t = Thing()
for i in range(3):
    k = len(q)
    if i == 1: record(False)
    if i == 2: q.readonly = True
    try:
        t.fail(3)
    except KeyError:
        pass
    else:
        __fail__("the method's own exception must come through")
    __check__("a call that fails records nothing", len(q) == k)
    record(True)
    q.readonly = False
''', "gsp/io/command.py:command"))
    out.append(Client("switching", '''
from gsp.object import Object
from gsp.io.command import command
from gsp.io import queue, record
a = queue("a")
b = queue("b")
class Thing(Object):
    @command()
    def m(self, a: int = 0): return a
t = Thing()
def total(): return (len(a), len(b))
t.m()
__same__("the active queue records", total(), (0, 1))
a.readonly = True
t.m()
__same__("only the active queue's mode matters", total(), (0, 2))
b.readonly = True
t.m()
a.readonly = False
t.m()
__same__("a read-only active queue is never bypassed", total(), (0, 2))
b.readonly = False
record(False)
t.m(); t.m()
__same__("off", total(), (0, 2))
record(False)
record(True)
t.m()
__same__("on again", total(), (0, 3))
__check__("commands of a read-only queue can be read", [c.methodname for c in b] == ["m", "m", "m"])
b.readonly = True
__check__("pushing on a read-only queue is refused", b.push(a) is False)
__same__("and has no effect", total(), (0, 3))
__check__("pushing on the other queue is accepted", a.push(b[0]) is True)
__same__("and adds it there", [total(), a[0] is b[0]], [(1, 3), True])
a.readonly = True
b.readonly = False
__check__("pushing on a read-only queue that is not active is refused", a.push(b[1]) is False)
__same__("and has no effect there or elsewhere", total(), (1, 3))
__check__("pushing on the active queue is accepted", b.push(a[0]) is True)
__same__("and adds it there only", [total(), b[3] is a[0]], [(1, 4), True])
a.readonly = False
a.empty()
b.commands.pop()
__same__("back", total(), (0, 3))
e = queue("empty")
e.readonly = True
t.m()
__check__("pushing on an empty read-only queue is refused", e.push(b[0]) is False)
__same__("an empty read-only queue stays empty", [len(e), total()], [0, (0, 3)])
e.readonly = False
t.m()
__same__("read-write again", [len(e), total()], [1, (0, 3)])
e.empty()
e.readonly = True
t.m()
__same__("emptied, then read-only", [len(e), total()], [0, (0, 3)])
e.readonly = False
c = queue("c")
t.m()
__same__("a new queue is active and writable", [total(), len(c)], [(0, 3), 1])
record()
t.m()
__same__("record() means off", [total(), len(c)], [(0, 3), 1])
''', "gsp/io/command.py:CommandQueue.push"))
    out.append(Client("running", '''
from gsp.object import Object
from gsp.io.command import command, Command
from gsp.io import queue, record
class Thing(Object):
    @command("ns.Thing")
    def __init__(self, a: int = 0):
        Object.__init__(self)
        self.a = a
    @command()
    def put(self, a: int): self.a = a
    @command()
    def make(self, a: int): return Thing(a)
    @command()
    def fail(self): raise KeyError("fail")
class ns: pass
class backend: pass
ns.Thing = Thing
backend.ns = ns
n = __sym__("n", "int")
q = queue("scene")
t = Thing(n)
t.put(3)
t.make(4)
k = len(q)
for ro in (True, False, True):
    for rec in (True, False):
        q.readonly = ro
        record(rec)
        for i in range(2):
            q.run(backend)
            __same__("running records nothing", len(q), k)
            __same__("and leaves the mode", q.readonly, ro)
        t.put(5)
        __same__("a later call is recorded if the queue is writable and recording on", len(q), k + (0 if ro or not rec else 1))
        if len(q) > k: q.commands.pop()
record(True)
q.readonly = False
q.push(Command("Thing", "fail", {"id": t.id}))
for ro in (True, False):
    q.readonly = ro
    try:
        q.run(backend)
    except KeyError: pass
    __same__("a run that fails leaves the mode", q.readonly, ro)
    __same__("and records nothing", len(q), k + 1 if ro else k + 1)
    t.put(5)
    __same__("a later call", len(q), k + 1 if ro else k + 2)
''', "gsp/io/command.py:CommandQueue.run"))
    for m, (on, kw, off) in MODES.items():
        tier = "quick" if m in ("off", "readonly", "suppressed") else "thorough"
        for mod, cls, name, params in CTORS:
            if kw and mod == "gsp_matplotlib.core" and cls in ("Canvas", "Viewport"):
                continue         # not recorded themselves: they have nothing to suppress
            a = _args(params)
            out.append(Client("ctor_%s_%s_%s" % (m, mod.replace(".", "_"), cls), SETUP + TOOLS + """
K = %s.%s
ref = K(%s)
k, kq = sizes(), len(q)
%s
obj = K(%s)
__same__("no queue grows", sizes(), k)
__check__("the active queue does not grow", len(q) == kq)
%s
same("as when recorded", obj, ref)
ref = K(%s)
__check__("recording resumes", len(q) == kq + 1)
__same__("in the active queue only", sizes(), k)
""" % (mod, cls, a, on, ", ".join(x for x in (a, kw) if x), off, a), "%s.%s" % (mod, cls), tier))
        for i, (recv, meth, name, params) in enumerate(SETTERS):
            a = _args(params)
            out.append(Client("set_%s_%s_%d" % (m, meth, i), SETUP + TOOLS + """
ref = %s
rr = ref.%s(%s)
obj = %s
k, kq = sizes(), len(q)
%s
r = obj.%s(%s)
__same__("no queue grows", sizes(), k)
__check__("the active queue does not grow", len(q) == kq)
%s
same("as when recorded", obj, ref)
if comparable(rr): __same__("same result", r, rr)
obj.%s(%s)
__check__("recording resumes", len(q) == kq + 1)
__same__("in the active queue only", sizes(), k)
""" % (recv, meth, a, recv, on, meth, ", ".join(x for x in (a, kw) if x), off, meth, a), recv + "." + meth, tier))
    return out
