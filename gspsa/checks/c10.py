"""C10: object ids are unique and designate the live object."""
from ..run import Client
from .catalogue import SETUP, CTORS

PROPERTY = "C10"
FLOOR = 150
EXPLANATION = (
    "Histories of object creations, id changes to free ids and executions of creation commands (with ids below, at and above the "
    "counter) are followed on the abstract heap: after each step ids are pairwise distinct and the registry maps each id to its object and "
    "nothing else.")

BASE = '''
import gsp
from gsp.object import Object, OID
from gsp.io.command import command, Command, CommandQueue, record
from gsp.io import queue
class Thing(Object):
    @command("ns.Thing")
    def __init__(self, a: int = 0):
        Object.__init__(self)
        self.a = a
class ns: pass
class backend: pass
ns.Thing = Thing
backend.ns = ns
record(False)
n = __sym__("n", "int")
live = []
def check(s):
    for i in range(len(live)):
        __check__(s + ": the id designates the object", live[i].id in Object.objects)
        __ident__(s + ": the id designates the object", Object.objects[live[i].id], live[i])
        for j in range(i):
            __check__(s + ": ids are unique", int(live[i].id) != int(live[j].id))
    __same__(s + ": nothing else is registered", len(Object.objects), len(live))
def new():
    o = Thing(n)
    live.append(o)
    check("new")
    return o
def run(oid):
    o = Command("Thing", "ns.Thing", {"id": oid, "a": 1}).execute(backend)
    __same__("the replayed object has the recorded id", int(o.id), int(oid))
    for i in range(len(live)):
        if live[i].id == oid:
            live.pop(i)
            break
    live.append(o)
    check("executed %d" % oid)
    return o
def move(o, oid):
    old = o.id
    o.id = oid
    __same__("the id is the one given", int(o.id), int(oid))
    __check__("the old id is free", old not in Object.objects)
    check("moved to %d" % oid)
'''

HISTORIES = {
    "creations": "for i in range(12): new()",
    "move_ahead": "for i in range(4): new()\nmove(live[0], 6)\nfor i in range(5): new()",
    "move_next": "new(); new()\nmove(live[1], 3)\nnew(); new(); new()",
    "move_chain": "for i in range(3): new()\nmove(live[2], 10)\nmove(live[1], 3)\nmove(live[0], 2)\nfor i in range(10): new()",
    "swap": "a = new(); b = new()\nia, ib = int(a.id), int(b.id)\nmove(a, 100)\nmove(b, ia)\nmove(a, ib)\nnew(); new()",
    "back_and_forth": "a = new(); b = new()\nold = a.id\nmove(a, 50)\nmove(a, old)\nmove(a, OID(51))\nmove(a, int(old))\nnew()",
    "own_id": "a = new(); b = new()\nfor o in (a, b):\n    o.id = o.id\n    check('its own id')\n    o.id = OID(o.id)\n    check('its own id')\n    o.id = int(o.id)\n    check('its own id')\nmove(a, 9)\na.id = 9\ncheck('again')\nnew()",
    "replay_ahead": "new()\nrun(3)\nrun(4)\nrun(7)\nfor i in range(8): new()",
    "replay_next": "new(); new()\nrun(4)\nrun(3)\nnew(); new()",
    "replay_over": "for i in range(4): new()\nfor i in range(4): run(i + 1)\nnew()\nrun(2)\nnew()",
    "replay_fresh": "run(1)\nrun(2)\nrun(3)\nnew(); new(); run(4); run(9); new(); new(); new(); new(); new()",
    "replay_far": "run(1000)\nfor i in range(5): new()\nrun(999)\nrun(3)\nnew()",
    "replay_twice": "run(5)\nrun(5)\nnew(); run(5); new(); new(); new(); new()",
    "interleaved": "a = new()\nrun(3)\nmove(a, 4)\nnew(); new(); run(2); new(); move(live[0], 20); new(); run(20); new()",
    "replayed_moved": "o = run(2)\nmove(o, 5)\nnew(); new(); new(); new(); run(2) if 2 not in Object.objects else None; new()",
}


def clients(ctx):
    out = []
    for k, h in HISTORIES.items():
        out.append(Client(k, BASE + h + "\n", "gsp/object.py:Object.id"))
    out.append(Client("queue_replay", BASE + '''
record(True)
q = queue("client")
a, b, c = Thing(1), Thing(2), Thing(3)
record(False)
ids = [int(a.id), int(b.id), int(c.id)]
for rep in range(3):
    q.run(backend)
    __same__("same ids", [int(Object.objects[i].id) for i in ids], ids)
    __same__("own content", [Object.objects[i].a for i in ids], [1, 2, 3])
d = Thing(4)
__check__("a later object has another id", int(d.id) not in ids)
__ident__("and is designated by it", Object.objects[d.id], d)
Object.objects = {}
q.run(backend)
__same__("after a reset", sorted([int(k) for k in Object.objects]), ids)
for i in range(6):
    o = Thing(5)
    __check__("a later object has another id", int(o.id) not in ids)
    ids.append(int(o.id))
__same__("all are registered", sorted([int(k) for k in Object.objects]), sorted(ids))
''', "gsp/io/command.py:Command.execute"))
    out.append(Client("symbolic_id", BASE + '''
a, b = Thing(1), Thing(2)
k = __sym__("k", "int", 50, 90)
a.id = k
__same__("the id given", a.id, k)
__ident__("designates the object", Object.objects[k], a)
__check__("the old id is free", 1 not in Object.objects)
__ident__("the other object keeps its own", Object.objects[b.id], b)
__same__("two objects are registered", len(Object.objects), 2)
''', "gsp/object.py:Object.id"))
    out.append(Client("unregistered", BASE + '''
a, b = Thing(1), Thing(2)
before = [int(k) for k in Object.objects]
Object.record = False
c = Thing(3)
Object.record = True
__same__("an object created without registration is not registered", [int(k) for k in Object.objects], before)
__check__("and has an id of its own", int(c.id) not in before)
for new in (40, 41, 40):
    c.id = new
    __same__("its id can be changed", int(c.id), new)
for i in range(len(before)):
    __ident__("the others stay registered", Object.objects[before[i]], [a, b][i])
d = Thing(4)
__check__("later objects have other ids", int(d.id) not in before and int(d.id) != int(c.id))
__ident__("and are registered", Object.objects[d.id], d)
''', "gsp/object.py:Object.id"))
    out.append(Client("oid", '''
from gsp.object import Object, OID
a, b = OID(), OID()
__check__("distinct", int(a) != int(b))
__check__("an id is an integer", isinstance(a, int) and isinstance(a, OID))
__same__("an explicit id", int(OID(17)), 17)
__check__("of the same type", isinstance(OID(17), OID))
c = OID()
__check__("distinct", int(c) != int(a) and int(c) != int(b))
o = Object()
__check__("an object's id is new", int(o.id) not in (int(a), int(b), int(c)))
__same__("a hash is the id", hash(o), int(o.id))
''', "gsp/object.py:OID"))
    src = SETUP + "from gsp.object import Object\nrecord(False)\nids = [int(k) for k in Object.objects]\n"
    for mod, cls, name, params in CTORS:
        args = ", ".join("%s=%s" % (a, e) for a, e, _ in params)
        src += '''
o = %s.%s(%s)
__check__("the id of a new %s is new", int(o.id) not in ids)
__ident__("the id of a new %s designates it", Object.objects[o.id], o)
ids = [int(k) for k in Object.objects]
''' % (mod, cls, args, cls, cls)
    out.append(Client("classes", src, "gsp/object.py:Object.__init__"))
    return out
