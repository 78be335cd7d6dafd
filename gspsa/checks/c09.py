"""C09: a queue name always designates the same queue."""
from ..run import Client

PROPERTY = "C09"
FLOOR = 100
EXPLANATION = (
    "Sequences of queue requests (by name, by default, as the active one, by the constructor) interleaved with recording, emptying, "
    "running, loading and mode changes are followed on the abstract heap; identity of the queues returned, their content and the "
    "active queue are compared after each step.")

BASE = '''
import gsp
from gsp.object import Object
from gsp.io.command import command, Command, CommandQueue, record
from gsp.io import queue
class Thing(Object):
    @command("ns.Thing")
    def __init__(self): Object.__init__(self)
    @command()
    def put(self, a: int = 0): self.a = a
class ns: pass
class backend: pass
ns.Thing = Thing
backend.ns = ns
n = __sym__("n", "int")
'''


def clients(ctx):
    where = "gsp/io/command.py:NamedSingleton.__call__"
    out = [Client("names", BASE + '''
names = ["a", "b", "default", "c d", "Active", "", "A", "queue"]
qs = []
for i in range(len(names)):
    x = queue(names[i])
    __ident__("the queue just created is active", CommandQueue.active, x)
    __ident__("asked as the active one", queue("active"), x)
    __ident__("asked as None", queue(None), x)
    __same__("it has its name", x.name, names[i])
    __same__("it is empty and read-write", [len(x), x.readonly], [0, False])
    t = Thing()
    t.put(i)
    qs.append(x)
    for j in range(len(qs)):
        __ident__("asked again", queue(names[j]), qs[j])
        __ident__("asked again by the constructor", CommandQueue(names[j]), qs[j])
        __same__("with its content", len(qs[j]), 2)
        __ident__("asking does not change the active queue", CommandQueue.active, x)
        for k in range(j):
            __check__("two names never share a queue", qs[k] is not qs[j])
            __check__("nor its commands", qs[k].commands is not qs[j].commands)
for j in range(len(qs)):
    __same__("each recorded its own", [c.parameters.get("a", None) for c in qs[j]], [None, j])
''', where)]
    out.append(Client("default_by_recording", BASE + '''
__check__("no queue yet", CommandQueue.active is None)
t = Thing()
a = queue("active")
__same__("the call was recorded", len(a), 1)
__ident__("in the default queue", queue("default"), a)
__ident__("in the default queue", queue(), a)
__ident__("in the default queue", CommandQueue(), a)
__same__("named so", a.name, "default")
t.put(n)
__same__("and goes on", len(a), 2)
b = queue("other")
t.put(n)
__same__("another queue takes over", [len(a), len(b)], [2, 1])
__ident__("the default name still designates the first", queue(), a)
__same__("with its content", [c.methodname for c in queue("default")], ["ns.Thing", "put"])
__ident__("asking for it does not activate it", CommandQueue.active, b)
''', where))
    out.append(Client("default_by_name", BASE + '''
a = queue()
__ident__("active", queue("active"), a)
t = Thing()
__same__("recorded there", len(a), 1)
__ident__("same by name", queue("default"), a)
''', where))
    out.append(Client("active_first", BASE + '''
a = queue("active")
__check__("a queue", isinstance(a, CommandQueue))
__ident__("the default one", queue("default"), a)
__ident__("again", queue("active"), a)
t = Thing()
__same__("recorded there", len(a), 1)
''', where))
    out.append(Client("operations", BASE + '''
a = queue("a")
t = Thing()
t.put(1)
b = queue("b")
t.put(2)
def check(s, na, nb):
    __ident__(s + ": a", queue("a"), a)
    __ident__(s + ": b", queue("b"), b)
    __ident__(s + ": active", CommandQueue.active, b)
    __ident__(s + ": active by name", queue("active"), b)
    __same__(s + ": contents", [len(a), len(b)], [na, nb])
check("recorded", 2, 1)
r = a.empty()
__ident__("empty returns the queue", r, a)
check("emptied", 0, 1)
b.readonly = True
t.put(3)
check("read-only", 0, 1)
b.readonly = False
record(False)
t.put(3)
record(True)
check("off", 0, 1)
t.put(4)
check("on", 0, 2)
a.push(b[0])
check("pushed", 1, 2)
record(False)
a.run(backend)
record(True)
check("run", 1, 2)
b.run(backend)
check("run", 1, 2)
s = str(a) + str(b)
check("described", 1, 2)
__check__("the description tells the active queue", "not active" in str(a) and "not active" not in str(b))
b.empty()
check("emptied", 1, 0)
t.put(5)
check("recording goes on", 1, 1)
c = queue("c")
__ident__("a new queue becomes active", CommandQueue.active, c)
t.put(6)
__same__("and records", [len(a), len(b), len(c)], [1, 1, 1])
''', where))
    out.append(Client("emptying", BASE + '''
a = queue("a")
t = Thing()
kept = a.commands
t.put(n)
b = queue("b")
t.put(n)
held = [x for x in b.commands]
b.empty()
__same__("emptying one queue leaves the other", [len(a), len(b)], [2, 0])
t.put(n)
__same__("commands of the emptied queue are gone", [c.methodname for c in b], ["put"])
__check__("the new one is not the old one", b[0] is not held[0])
__same__("others kept", [c.methodname for c in a], ["ns.Thing", "put"])
''', "gsp/io/command.py:CommandQueue.empty"))
    return out
