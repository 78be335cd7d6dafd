"""C39: text dumps show every command and parameter."""
from ..run import Client
from .iofrag import BASE
from .catalogue import SETUP, CTORS, OBJECTS

PROPERTY = "C39"
FLOOR = 300
EXPLANATION = (
    "Queues with commands of every parameter kind, recorded or loaded from a file, are dumped in both formats: the abstract text is cut "
    "at the commands and each part compared with its command (number, method, every parameter with its value on its own line, references as "
    "ids); queue, commands, registry of queues and modes are compared before and after.")

TOOLS = '''
def plain(s):
    for code in ("\\033[1m", "\\033[2m", "\\033[0m"):
        s = s.replace(code, "")
    return s
def name(c):
    if c.methodname is None or c.methodname == "": return c.classname
    return c.methodname if "." in c.methodname else c.classname + "/" + c.methodname
def snapshot(q): return [(c, c.id, c.classname, c.methodname, c.timestamp, dict(c.parameters)) for c in q.commands]
def unchanged(q, before, ro):
    __same__("dumping adds and removes no command", len(q.commands), len(before))
    for i in range(len(before)):
        c, cid, cn, mn, ts, p = before[i]
        __ident__("same commands", q.commands[i], c)
        __same__("same command data", [c.id, c.classname, c.methodname, c.timestamp], [cid, cn, mn, ts])
        __same__("same parameters", list(c.parameters.keys()), list(p.keys()))
        for k in p:
            __ident__("same parameter " + k, c.parameters[k], p[k])
    __same__("mode as before", q.readonly, ro)
def shown(v):
    return "%s" % (v,)
def line_with(part, key, value, label):
    rows = [r for r in part.split("\\n") if (key.upper() + ": ") in r]
    __check__(label + ": the parameter is shown once", len(rows) == 1)
    if len(rows) == 1:
        __check__(label + ": with its value", (": " + value) in rows[0])
def verify(txt, cmds, want):
    parts = plain(txt).split("COMMAND\\n")
    __same__("each command once", len(parts), len(cmds) + 1)
    for i in range(len(cmds)):
        c = cmds[i]
        __check__("its number, in order", parts[i].split("\\n")[-1] == "%d. " % c.id)
        part = parts[i + 1]
        rows = [r for r in part.split("\\n") if "METHOD: " in r]
        __check__("its method", len(rows) == 1 and ('"' + name(c) + '"') in rows[0])
        __check__("its number among its data", ("COMMAND_ID: %d" % c.id) in part)
        line_with(part, "OBJECT_ID", "%d" % c.parameters["id"], "object")
        for k in want[i]:
            line_with(part, "- " + k, want[i][k], name(c) + "/" + k)
        n = len([r for r in part[part.index("PARAMETERS"):].split("\\n") if r.startswith("     - ")])
        __same__("no other parameter", n, len(want[i]) + 1)
def freeze(q):
    t = 1000.0
    for c in q.commands:
        c.timestamp = t
        t = t + 60.0
'''

FILL = '''
q = queue("client")
t = Thing()
u = Thing(4)
want = [{"a": "None", "b": "1.5"}, {"a": "4", "b": "1.5"}]
for v in (17, 2.5, True, False, None, "text", "", [1, 2.5], (3, 4), {"k": 5}, Color(0.25, 0.5, 0.75, 1.0), b"raw", 0, 0.0, "abcdefghij" * 30, [k * 1.5 for k in range(90)],
          {"key%d" % k: k for k in range(40)}):
    t.put(v)
    want.append({"v": shown(v)})
t.put(u); want.append({"v_ID": "%d" % u.id})
u.put2(t, 0.25); want.append({"v_ID": "%d" % t.id, "w": "0.25"})
u.put2(); want.append({"v": "None", "w": "0.5"})
calls = []
def conv(v):
    calls.append(v)
    return [v, v]
def none(v): return None
def obj(v): return Thing(v)
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, 6), "w": 1})); want.append({"v": "[6, 6]", "w": "1"})
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(none, 6)})); want.append({"v": "None"})
for v in ("abcdefghij" * 30, 1.5, (1, 2, 3) * 40, b"0123456789" * 20):
    q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, v), "w": 1})); want.append({"v": shown([v, v]), "w": "1"})
for m in ("set", None, "", "a.b.C"):
    q.push(Command("Thing", m, {"id": u.id, "first": 1, "second": "two", "third(id)": t.id}))
    want.append({"first": "1", "second": "two", "third_ID": "%d" % t.id})
freeze(q)
'''


def clients(ctx):
    out = []
    for fmt in ("ansi", "text"):
        where = "gsp/io/%s.py:dump_command" % fmt
        out.append(Client(fmt + "_values", BASE + TOOLS + FILL + '''
before = snapshot(q)
txt = %s.dump(q)
verify(txt, q.commands, want)
unchanged(q, before, False)
__same__("dumping again gives the same", %s.dump(q), txt)
q.readonly = True
__same__("a read-only queue can be dumped", %s.dump(queue=q), txt)
unchanged(q, before, True)
q.readonly = False
for i in range(len(q.commands)):
    verify(%s.dump_command(q.commands[i], stream=None), [q.commands[i]], [want[i]])
unchanged(q, before, False)
t.put(1)
__same__("recording goes on", len(q.commands), len(before) + 1)
''' % (fmt, fmt, fmt, fmt), where))
        out.append(Client(fmt + "_queues", BASE + TOOLS + '''
a = queue("a")
t = Thing(1)
t.put(11)
b = queue("b")
t.put(22)
freeze(a); freeze(b)
sa, sb = snapshot(a), snapshot(b)
verify(%(f)s.dump(a), a.commands, [{"a": "1", "b": "1.5"}, {"v": "11"}])
verify(%(f)s.dump(b), b.commands, [{"v": "22"}])
__same__("by default the active queue", %(f)s.dump(), %(f)s.dump(b))
c = queue("c")
__same__("an empty queue", %(f)s.dump(c), "")
__same__("an empty queue", %(f)s.dump(), "")
unchanged(a, sa, False)
unchanged(b, sb, False)
__same__("nothing recorded", len(c), 0)
''' % {"f": fmt}, "gsp/io/%s.py:dump" % fmt))
        out.append(Client(fmt + "_objects", BASE + TOOLS + '''
q = queue("client")
made = []
def conv(v):
    o = Thing(v)
    o.put(3)
    made.append(o)
    return o
t = Thing(1)
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, 5), "w": 7}))
t.put(8)
freeze(q)
before = snapshot(q)
txt = %s.dump(q)
unchanged(q, before, False)
verify(txt, q.commands, [{"a": "1", "b": "1.5"}, {"v": "%%d" %% made[0].id, "w": "7"}, {"v": "8"}])
''' % fmt, "gsp/io/%s.py:dump" % fmt))
        out.append(Client(fmt + "_failing", BASE + TOOLS + '''
q = queue("client")
def conv(v): raise KeyError(v)
t = Thing(1)
q.push(Command("Thing", "put", {"id": t.id, "v": Converter(conv, 5), "w": 7}))
freeze(q)
for ro in (False, True):
    q.readonly = ro
    before = snapshot(q)
    try:
        %s.dump(q)
    except KeyError:
        pass
    unchanged(q, before, ro)
''' % fmt, "gsp/io/%s.py:dump" % fmt))
        out.append(Client(fmt + "_loaded", BASE + TOOLS + '''
q = queue("client")
t = Thing(1)
t.put(12)
t.put2(t, 0.25)
json.save("f.json", q)
l = queue("loaded")
json.load("f.json", l)
freeze(l)
before = snapshot(l)
txt = %s.dump(l)
unchanged(l, before, False)
parts = plain(txt).split("COMMAND\\n")
__same__("each command once", len(parts), 4)
for i, (nm, want) in enumerate([("ns.Thing", {"a": "1", "b": "1.5"}), ("Thing/put", {"v": "12"}), ("Thing/set", {"v_ID": "%%d" %% t.id, "w": "0.25"})]):
    part = parts[i + 1]
    __check__("its method", nm in part)
    __check__("its number", ("COMMAND_ID: %%d" %% l.commands[i].id) in part)
    line_with(part, "OBJECT_ID", "%%d" %% t.id, "object")
    for k in want:
        line_with(part, "- " + k, want[k], k)
''' % fmt, "gsp/io/%s.py:dump_command" % fmt))
        out.append(Client(fmt + "_file", BASE + TOOLS + FILL + '''
before = snapshot(q)
txt = %s.dump(q)
r = %s.dump(q, "f.txt")
unchanged(q, before, False)
with open("f.txt") as f:
    got = f.read()
__same__("the file holds the dump", got, txt)
%s.save(q, "g.txt")
with open("g.txt") as f:
    got = f.read()
__same__("saving writes the dump", got, txt)
unchanged(q, before, False)
''' % (fmt, fmt, fmt), "gsp/io/%s.py:dump" % fmt))
        src = SETUP + TOOLS + "from gsp.io import %s\nwant = []\nq = queue('scene')\n" % fmt
        for mod, cls, name, params in CTORS:
            if mod.split(".")[0] != "gsp" or any("memoryview" in e or e in ("f1", "f2", "f3", "f4", "i1", "i2", "c1") for _, e, _ in params):
                ps = [(a, {"f1": "1.5", "f2": "2.5", "f3": "3.5", "f4": "4.5", "i1": "5", "i2": "6", "c1": "c2"}.get(e, e), d) for a, e, d in params]
            else:
                ps = params
            if mod.split(".")[0] != "gsp":
                continue
            src += "o = %s.%s(%s)\nwant.append({%s})\n" % (
                mod, cls, ", ".join("%s=%s" % (a, e) for a, e, _ in ps),
                ", ".join('"%s%s": %s' % (a, "_ID" if e in OBJECTS else "", "'%d' % " + e + ".id" if e in OBJECTS else "shown(%s)" % e) for a, e, _ in ps))
        src += '''
freeze(q)
before = snapshot(q)
txt = %s.dump(q)
verify(txt, q.commands, want)
unchanged(q, before, False)
''' % fmt
        out.append(Client(fmt + "_scene", src, where))
    return out
