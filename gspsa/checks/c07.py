"""C07: replaying a queue runs each command once, in order, and records nothing."""
from ..run import Client
from .catalogue import SETUP

PROPERTY = "C07"
FLOOR = 100
EXPLANATION = (
    "Queues of client commands, of client classes whose methods are themselves recorded, and of scenes of the library are run in the "
    "analysis: the sequence of executions is compared with the queue, and queue content, mode and the active queue are compared "
    "before and after on every path, including the paths on which a command raises at any position.")

BACK = '''
import gsp
from gsp.object import Object
from gsp.io.command import command, Command, CommandQueue, record
from gsp.io import queue
log = []
class Thing(Object):
    @command("ns.Thing")
    def __init__(self, a: int = 0):
        Object.__init__(self)
        self.a = a
        log.append(("new", a))
    @command()
    def put(self, a: int):
        self.a = a
        log.append(("put", self.id, a))
    @command()
    def nest(self, a: int):
        log.append(("nest", self.id, a))
        self.put(a + 1)
        self.put(a + 2)
    @command()
    def make(self):
        log.append(("make", self.id))
        Thing(5)
    @command()
    def boom(self, a: int):
        if a > 0:
            raise KeyError("boom")
        log.append(("boom", self.id, a))
class ns: pass
class backend: pass
ns.Thing = Thing
backend.ns = ns
n, m = __sym__("n", "int", 1, 9), __sym__("m", "int", 1, 9)
q = queue("client")
def snap(): return list(q.commands)
def same_queue(label, before):
    __same__(label + ": same length", len(q.commands), len(before))
    for i in range(len(before)):
        __ident__(label + ": same commands", q.commands[i], before[i])
'''


def clients(ctx):
    out = []
    where = "gsp/io/command.py:CommandQueue.run"
    for ro in (False, True):
        out.append(Client("order_%s" % ("ro" if ro else "rw"), BACK + '''
t = Thing(n)
u = Thing(m)
t.put(m)
u.put(n)
t.put(7)
t.put(7)
tid, uid = t.id, u.id
q.readonly = %r
before = snap()
for rep in range(3):
    del log[:]
    q.run(backend)
    __same__("each command once, in order", log, [("new", n), ("new", m), ("put", tid, m), ("put", uid, n), ("put", tid, 7), ("put", tid, 7)])
    same_queue("after run", before)
    __check__("mode as before", q.readonly is %r)
    __check__("the active queue is the same", CommandQueue.active is q)
    __same__("ids designate the replayed objects", [Object.objects[tid].a, Object.objects[uid].a], [7, n])
    __check__("new objects are built", Object.objects[tid] is not t and Object.objects[uid] is not u)
''' % (ro, ro), where))
        out.append(Client("reentrant_%s" % ("ro" if ro else "rw"), BACK + '''
t = Thing(n)
record(False)
c = [Command("Thing", "nest", {"id": t.id, "a": m}), Command("Thing", "make", {"id": t.id}), Command("Thing", "put", {"id": t.id, "a": n})]
record(True)
for x in c: q.push(x)
q.readonly = %r
before = snap()
tid = t.id
del log[:]
q.run(backend)
__same__("each command once, in order", log, [("new", n), ("nest", tid, m), ("put", tid, m + 1), ("put", tid, m + 2), ("make", tid), ("new", 5), ("put", tid, n)])
same_queue("calls made by commands are not recorded", before)
__check__("mode as before", q.readonly is %r)
del log[:]
q.run(backend)
__same__("again", len(log), 7)
same_queue("calls made by commands are not recorded", before)
''' % (ro, ro), where))
        for pos in range(3):
            out.append(Client("failing_%d_%s" % (pos, "ro" if ro else "rw"), BACK + '''
t = Thing(n)
t.put(1)
t.put(2)
bad = Command("Thing", "boom", {"id": t.id, "a": m})
q.commands.insert(%d + 1, bad)
q.readonly = %r
before = snap()
tid = t.id
for rep in range(2):
    del log[:]
    try:
        q.run(backend)
    except KeyError:
        pass
    else:
        __fail__("the exception of a command comes through")
    __same__("the commands before it ran, once", log, [("new", n), ("put", tid, 1), ("put", tid, 2)][:%d + 1])
    same_queue("a failing run leaves the queue", before)
    __check__("mode as before, even when a command fails", q.readonly is %r)
q.readonly = False
t.put(3)
__same__("and recording goes on", len(q.commands), len(before) + 1)
''' % (pos, ro, pos, ro), where))
    out.append(Client("undetermined_failure", BACK + '''
t = Thing(1)
s = __sym__("s", "int", -5, 5)
q.push(Command("Thing", "boom", {"id": t.id, "a": s}))
t.put(9)
before = snap()
tid = t.id
del log[:]
failed = False
try:
    q.run(backend)
except KeyError:
    failed = True
__check__("mode as before on every path", q.readonly is False)
same_queue("same queue on every path", before)
if failed:
    __same__("stopped at the failing command", log, [("new", 1)])
else:
    __same__("all ran", log, [("new", 1), ("boom", tid, s), ("put", tid, 9)])
''', where))
    out.append(Client("other_queues", BACK + '''
a = queue("a")
t = Thing(n)
t.put(m)
b = queue("b")
b2 = list(b.commands)
tid = t.id
del log[:]
b.readonly = True
a.run(backend)
__same__("each command once, in order", log, [("new", n), ("put", tid, m)])
__same__("the queue itself is unchanged", [len(a), a.readonly], [2, False])
__same__("the active queue too", [len(b), b.readonly], [0, True])
b.readonly = False
e = queue("e")
e.run(backend)
__same__("an empty queue runs nothing", [len(log), len(e), e.readonly], [2, 0, False])
''', where))
    out.append(Client("scene", SETUP + '''
from gsp.object import Object
from gsp.transform import *
record(False)
qq = queue("scene")
record(True)
c = core.Canvas(300, 200, 100.0)
v = core.Viewport(c, 0, 0, 300, 200, c2)
b = core.Buffer(6, np.dtype("f4"), b"0123456789abcdef01234567")
x = X(b)
p = Pixel()
y = p(x) + f1
pts = visual.Points(b, 2.0, c1, c2, 1.0)
seg = visual.Segments(b, LineCap.round, c1, 1.0)
n0 = len(qq.commands)
before = list(qq.commands)
qq.run(gsp_matplotlib)
__same__("nothing recorded", len(qq.commands), n0)
for i in range(n0):
    __ident__("same commands", qq.commands[i], before[i])
__check__("mode as before", qq.readonly is False)
for o, k in ((c, gsp_matplotlib.core.Canvas), (v, gsp_matplotlib.core.Viewport), (b, gsp_matplotlib.core.Buffer),
             (x, X), (p, Pixel), (y, Add), (pts, gsp_matplotlib.visual.Points), (seg, gsp_matplotlib.visual.Segments)):
    __check__("every object rebuilt by the backend", type(Object.objects[o.id]) is k)
    __check__("as a new object", Object.objects[o.id] is not o)
    __same__("under its id", Object.objects[o.id].id, o.id)
__ident__("references resolved among the replayed objects", Object.objects[v.id]._canvas, Object.objects[c.id])
__ident__("references resolved among the replayed objects", Object.objects[pts.id].get_variable("positions"), Object.objects[b.id])
''', where))
    return out
