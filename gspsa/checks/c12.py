"""C12: an export lists every command once, in order, with its own data."""
from ..run import Client
from .iofrag import BASE, VALUES, CONV
from .catalogue import SETUP, CTORS, SETTERS, OBJECTS

PROPERTY = "C12"
FLOOR = 300
EXPLANATION = (
    "Queues holding commands of every parameter kind (numbers, text, containers, colors, enumerations, binary data, element types, references, "
    "deferred conversions to values and to objects) are exported; the abstract export is compared entry by entry with the queue, and "
    "queue, commands and deferred conversions are compared before and after.")

EXPORT = '''
def snapshot(q): return [(c, c.id, c.classname, c.methodname, c.timestamp, dict(c.parameters)) for c in q.commands]
def unchanged(q, before):
    __same__("exporting adds and removes no command", len(q.commands), len(before))
    for i in range(len(before)):
        c, cid, cn, mn, ts, p = before[i]
        __ident__("same commands", q.commands[i], c)
        __same__("same command data", [c.id, c.classname, c.methodname, c.timestamp], [cid, cn, mn, ts])
        __same__("same parameter names", list(c.parameters.keys()), list(p.keys()))
        for k in p:
            __ident__("same parameter " + k, c.parameters[k], p[k])
def name(c):
    if c.methodname is None or c.methodname == "": return c.classname
    return c.methodname if "." in c.methodname else c.classname + "/" + c.methodname
def export(q):
    before = snapshot(q)
    import json as J
    data = J.loads(json.dump(q))
    unchanged(q, before)
    __same__("the document", sorted(data.keys()), ["commands", "gsp_version"])
    return data["commands"]
def entry(e, c, params):
    __same__("an entry's fields", sorted(e.keys()), ["id", "method", "parameters", "timestamp"])
    __same__("method", e["method"], name(c))
    __same__("command id", e["id"], c.id)
    __same__("time stamp", e["timestamp"], c.timestamp)
    __same__("parameter names", sorted(e["parameters"].keys()), sorted(params.keys()))
    for k in params:
        __same__("parameter " + k, e["parameters"][k], params[k])
'''


def clients(ctx):
    where = "gsp/io/json.py:dump"
    out = []
    src = BASE + EXPORT + '''
q = queue("client")
t = Thing()
u = Thing(x)
want = [{"id": t.id, "a": None, "b": 1.5}, {"id": u.id, "a": x, "b": 1.5}]
'''
    for v, img in VALUES:
        src += "t.put(%s)\nwant.append({'id': t.id, 'v': %s})\n" % (v, img)
    src += '''
u.put2(t, x); want.append({"id": u.id, "v(id)": t.id, "w": x})
u.put2(); want.append({"id": u.id, "v": None, "w": 0.5})
u.put(u); want.append({"id": u.id, "v(id)": u.id})
es = export(q)
__same__("one entry per command", len(es), len(want))
for i in range(len(want)):
    entry(es[i], q.commands[i], want[i])
again = export(q)
__same__("exporting again gives the same", again, es)
'''
    out.append(Client("values", src, where))
    for i, (v, body, img) in enumerate(CONV):
        out.append(Client("conversion_%d" % i, BASE + EXPORT + '''
q = queue("client")
calls = []
def conv(v):
    calls.append(v)
    %s
cv = Converter(conv, %s)
t = Thing()
t.put(1)
q.push(Command("Thing", "put", {"id": t.id, "v": cv, "w": x}))
t.put(2)
es = export(q)
__same__("one entry per command", len(es), 4)
entry(es[2], q.commands[2], {"id": t.id, "v": %s, "w": x})
entry(es[3], q.commands[3], {"id": t.id, "v": 2})
__same__("converted once per export", len(calls), 1)
__same__("on the value given", calls, [%s])
export(q)
__same__("and again for the next one", len(calls), 2)
''' % (body, v, img, v), where))
    out.append(Client("conversion_to_objects", BASE + EXPORT + '''
q = queue("client")
made = []
def conv(v):
    o = Thing(v)
    o.put2(None, v)
    made.append(o)
    return o
old = Thing()
def ref(v): return old
t = Thing()
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, x), "w": n}))
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(ref, x), "w": Converter(conv, y)}))
t.put(3)
es = export(q)
own = [e for e in es if e["id"] in [c.id for c in q.commands]]
__same__("one entry per command, in order", [e["id"] for e in own], [c.id for c in q.commands])
entry(own[2], q.commands[2], {"id": t.id, "v(id)": made[0].id, "w": n})
entry(own[3], q.commands[3], {"id": t.id, "v(id)": old.id, "w(id)": made[1].id})
entry(own[4], q.commands[4], {"id": t.id, "v": 3})
defined = []
for e in es:
    for k in e["parameters"]:
        if k.endswith("(id)"):
            __check__("objects are created before they are used", e["parameters"][k] in defined)
    if e["method"] == "ns.Thing":
        defined.append(e["parameters"]["id"])
''', where))
    for mod in ("ansi", "text"):
        out.append(Client("conversions_in_" + mod, BASE + EXPORT + """
q = queue("client")
made = []
def conv(v):
    o = Thing(v)
    o.put2(None, v)
    made.append(o)
    return o
t = Thing()
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, x), "w": n}))
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, y)}))
t.put(3)
other = queue("other")
for active in ("other", "client"):
    CommandQueue.active = queue(active)
    for ro in (False, True):
        q.readonly = ro
        for rec in (True, False):
            record(rec)
            before, so = snapshot(q), snapshot(other)
            k = len(made)
            r = %s.dump(q)
            unchanged(q, before)
            unchanged(other, so)
            __check__("converted", len(made) >= k + 2)
            __same__("the mode of the queues", [q.readonly, other.readonly], [ro, False])
            __check__("the active queue", CommandQueue("active") is queue(active))
""" % mod, "gsp/io/%s.py:dump" % mod))
    out.append(Client("queues", BASE + EXPORT + '''
a = queue("a")
t = Thing(x)
t.put(n)
b = queue("b")
t.put(y)
es = export(a)
__same__("the queue given is the one exported", [e["id"] for e in es], [c.id for c in a.commands])
es = export(b)
__same__("the queue given is the one exported", [e["id"] for e in es], [c.id for c in b.commands])
import json as J
__same__("by default the active one", J.loads(json.dump()), J.loads(json.dump(b)))
c = queue("c")
__same__("an empty queue", export(c), [])
b.readonly = True
es = export(b)
__same__("a read-only queue", [e["id"] for e in es], [c.id for c in b.commands])
__check__("stays so", b.readonly)
record(False)
__same__("when recording is off", export(a), export(a))
__same__("when recording is off", len(export(a)), 2)
record(True)
''', where))
    out.append(Client("files", BASE + EXPORT + '''
import json as J
q = queue("client")
t = Thing(x)
for i in range(5): t.put(arr.data)
a = J.loads(json.dump(q))
json.save("f.json", q)
with open("f.json") as f: __same__("the file holds the export", J.load(f), a)
q.empty()
t.put(n)
b = J.loads(json.dump(q))
json.dump(q, "f.json")
with open("f.json") as f: __same__("the file holds the last export only", J.load(f), b)
json.save("g.json", q)
with open("g.json") as f: __same__("another file", J.load(f), b)
for m in (ansi, text):
    m.save(q, "t.txt")
    m.save(q, "t.txt")
    with open("t.txt") as f: __same__("the file holds the last export only", f.read(), m.dump(q))
''', where))
    out.append(Client("names", BASE + EXPORT + '''
q = queue("client")
t = Thing()
for m in ("put", "set", None, "", "ns.Thing", "a.b.C", "render"):
    q.push(Command("Thing", m, {"id": t.id, "v": x}))
es = export(q)
__same__("methods", [e["method"] for e in es], ["ns.Thing", "Thing/put", "Thing/set", "Thing", "Thing", "ns.Thing", "a.b.C", "Thing/render"])
for i in range(len(es)):
    one = json.dump_command(q.commands[i], stream=None)
    __same__("one command alone", [one["method"], one["id"], one["timestamp"], one["parameters"]],
             [es[i]["method"], q.commands[i].id, q.commands[i].timestamp, q.commands[i].parameters])
''', "gsp/io/json.py:dump_command"))
    src = SETUP + EXPORT.replace("json.dump(", "gsp.io.json.dump(") + "import gsp.io.json\nwant = []\nq = queue('scene')\nrecord(True)\n"
    for mod, cls, name, params in CTORS:
        if mod.split(".")[0] != "gsp" or any("memoryview" in e for _, e, _ in params):
            continue
        src += "o = %s.%s(%s)\nwant.append((%r, {%s}))\n" % (
            mod, cls, ", ".join("%s=%s" % (a, e) for a, e, _ in params), name,
            ", ".join(['"id": o.id'] + ['"%s%s": %s' % (a, "(id)" if e in OBJECTS else "", _image(e)) for a, e, _ in params]))
    src += '''
es = export(q)
__same__("one entry per command", len(es), len(want))
for i in range(len(want)):
    __same__("method", es[i]["method"], want[i][0])
    __same__("parameter names of " + want[i][0], sorted(es[i]["parameters"].keys()), sorted(want[i][1].keys()))
    for k in want[i][1]:
        __same__("parameter " + k + " of " + want[i][0], es[i]["parameters"][k], want[i][1][k])
'''
    out.append(Client("scene", src, where))
    return out


def _image(e):
    if e in OBJECTS:
        return e + ".id"
    if e.startswith("np.dtype"):
        return "'float32'"
    if e.startswith('b"'):
        return "'YWJj'"
    if e in ("c1", "c2"):
        return "list(%s)" % e
    return "int(%s)" % e if e.split(".")[0] in ("Marker", "LineCap", "LineStyle", "LineJoin") else e
