"""C08: a scene saved as JSON loads back as the same commands."""
from ..run import Client
from .iofrag import BASE, VALUES, CONV

PROPERTY = "C08"
FLOOR = 200
EXPLANATION = (
    "Queues holding commands of every parameter kind are saved and loaded through an abstract file system: the loaded commands are "
    "compared one by one with the saved ones (class, method, object id, parameter names, JSON image of each value); queues "
    "other than the one given, the registry of objects and the file after a second save are compared as well.")

TOOLS = '''
def normal(c):
    """(class, method) a loaded command stands for"""
    return (c.classname, c.methodname)
def designates(c):
    """what executing it designates: a dotted constructor, or a class and one of its methods"""
    if c.methodname == "__init__" and "." in c.classname: return ("create", c.classname)
    if "." in (c.methodname or ""): return ("create", c.methodname)
    return (c.classname, c.methodname)
def compare(loaded, saved, want):
    __same__("as many commands", len(loaded.commands), len(saved))
    for i in range(len(saved)):
        a, b = loaded.commands[i], saved[i]
        __check__("a command", isinstance(a, Command))
        __same__("what it calls", designates(a), designates(b))
        __same__("object id", a.parameters["id"], b.parameters["id"])
        __same__("parameter names", sorted(a.parameters.keys()), sorted(want[i].keys()))
        for k in want[i]:
            __same__("parameter " + k, a.parameters[k], want[i][k])
'''


def clients(ctx):
    out = []
    where = "gsp/io/json.py:load"
    fill = '''
q = queue("client")
t = Thing()
u = Thing(x)
want = [{"id": t.id, "a": None, "b": 1.5}, {"id": u.id, "a": x, "b": 1.5}]
'''
    for v, img in VALUES:
        fill += "t.put(%s)\nwant.append({'id': t.id, 'v': %s})\n" % (v, img)
    for i, (v, body, img) in enumerate(CONV):
        fill += '''
def conv%d(v):
    %s
q.push(Command("Thing", "put", {"id": u.id, "v": Converter(conv%d, %s)}))
want.append({"id": u.id, "v": %s})
''' % (i, body, i, v, img)
    fill += '''
u.put2(t, x); want.append({"id": u.id, "v(id)": t.id, "w": x})
u.put2(); want.append({"id": u.id, "v": None, "w": 0.5})
u.put(u); want.append({"id": u.id, "v(id)": u.id})
saved = list(q.commands)
reg = dict(Object.objects)
'''
    for form, save, load in (("given", 'json.save("f.json", q)', 'r = json.load("f.json", other)'),
                             ("dump", 'json.dump(q, "f.json")', 'r = json.load(filename="f.json", queue=other)'),
                             ("keyword", 'json.save(filename="f.json", queue=q)', 'r = json.load("f.json", queue=other)')):
        out.append(Client("roundtrip_" + form, BASE + TOOLS + fill + save + '''
bystander = queue("bystander")
t.put(8)
other = queue("other")
t.put(9)
keep = queue("keep")
''' + load + '''
__ident__("the queue given is returned", r, other)
compare(other, saved, want)
__same__("the saved queue is unchanged", [len(q.commands), q.readonly], [len(saved), False])
for i in range(len(saved)):
    __ident__("the saved queue is unchanged", q.commands[i], saved[i])
__same__("other queues are left alone", [len(bystander), len(keep)], [1, 0])
__ident__("the active queue too", CommandQueue.active, keep)
__same__("nothing is run", sorted(Object.objects.keys()), sorted(reg.keys()))
for k in reg:
    __ident__("nothing is run", Object.objects[k], reg[k])
json.save("g.json", other)
again = queue("again")
json.load("g.json", again)
compare(again, saved, want)
json.load("f.json", other)
compare(other, saved, want)
''', where))
    out.append(Client("default_queue", BASE + TOOLS + fill + '''
json.save("f.json")
t.put(9)
r = json.load("f.json")
__ident__("by default the active queue is saved and loaded", r, q)
compare(q, saved, want)
e = queue("empty")
json.save("e.json", e)
json.save("e2.json", q)
r = json.load("e.json", q)
__same__("loading an empty scene empties the queue", [len(r), len(q), len(e)], [0, 0, 0])
r = json.load("e2.json", e)
__ident__("an empty queue given is the one filled", r, e)
compare(e, saved, want)
__same__("and no other", len(q), 0)
''', where))
    out.append(Client("package", BASE + TOOLS + fill + '''
gsp.save("f.json")
t.put(9)
r = gsp.load("f.json")
__ident__("the active queue is loaded", queue("active"), q)
__ident__("and returned", r, q)
compare(q, saved, want)
__same__("nothing is run", len(Object.objects), 0)
gsp.save("g", "json")
r = gsp.load("g", "json")
compare(q, saved, want)
for bad in ("x.txt", "x"):
    try:
        gsp.save(bad)
    except ValueError:
        pass
    else:
        __fail__("an unknown format is refused")
''', "gsp/__init__.py:load"))
    out.append(Client("readable_names", BASE + TOOLS + '''
q = queue("client")
t = Thing()
o = [Command("Thing", "put", {"id": t.id, "v": x}), Command("Thing", "ns.Thing", {"id": 50, "a": x, "b": y}),
     Command("Thing", "set", {"id": t.id, "v(id)": 50, "w": n}), Command("Thing", "render", {"id": t.id})]
for c in o: q.push(c)
saved = list(q.commands)
want = [dict(c.parameters) for c in saved]
json.save("f.json", q)
l = queue("l")
json.load("f.json", l)
compare(l, saved, want)
class ns: pass
class backend: pass
seen = []
class T2(Object):
    def __init__(self, a=None, b=None):
        Object.__init__(self)
        seen.append(("new", a, b))
    def put(self, v): seen.append(("put", int(self.id), v))
    def set(self, v, w): seen.append(("set", int(self.id), int(v.id), w))
    def render(self): seen.append(("render", int(self.id)))
ns.Thing = T2
backend.ns = ns
l.run(backend)
k = int(t.id)
__same__("the loaded commands run as the saved ones", seen, [("new", None, 1.5), ("put", k, x), ("new", x, y), ("set", k, 50, n), ("render", k)])
first = list(seen)
del seen[:]
q.run(backend)
__same__("the loaded commands run as the saved ones", seen, first)
''', where))
    return out
