"""C30: SVG path data is read as the SVG grammar says."""
from ..run import Client

PROPERTY = "C30"
FLOOR = 400
EXPLANATION = (
    "Path descriptions made of every command after every other one (absolute and relative, implicit repetitions, several "
    "sub-paths, closings followed by any command) with symbolic coordinates are read by svg_to_path; the codes and vertices of the "
    "outcome are those of an independent reading of the SVG grammar, scaled to the unit square. Arcs: end points, radii, side and "
    "extent, as the conditions of the specification say, with symbolic coordinates and radii.")
WHERE = "gsp/core/svg.py:svg_to_path"
REF = '''
from gsp.core.svg import svg_to_path
ARITY = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "Z": 0}
def read(cmds, cur=(0.0, 0.0)):
    """cmds: list of (letter, numbers) -> list of (kind, points): kind in move, line, quad, cubic, close"""
    out = []
    start = cur
    last, ctrl = "", None
    for letter, v in cmds:
        up = letter.upper()
        n = ARITY[up]
        first = True
        k = 0
        while first or k < len(v):
            w = v[k:k + n]
            k += n
            ox, oy = (0.0, 0.0) if letter == up else cur
            op = up if first or up != "M" else "L"
            P = [(ox + w[2 * i], oy + w[2 * i + 1]) for i in range(n // 2)]
            if op == "M":
                out.append(("move", P))
                start = P[0]
            elif op == "L":
                out.append(("line", P))
            elif op == "H":
                P = [(ox + w[0], cur[1])]
                out.append(("line", P))
            elif op == "V":
                P = [(cur[0], oy + w[0])]
                out.append(("line", P))
            elif op == "C":
                out.append(("cubic", P))
                ctrl = P[1]
            elif op == "S":
                a = (2 * cur[0] - ctrl[0], 2 * cur[1] - ctrl[1]) if last in ("C", "S") else cur
                ctrl = P[0]
                P = [a] + P
                out.append(("cubic", P))
            elif op == "Q":
                out.append(("quad", P))
                ctrl = P[0]
            elif op == "T":
                a = (2 * cur[0] - ctrl[0], 2 * cur[1] - ctrl[1]) if last in ("Q", "T") else cur
                ctrl = a
                P = [a] + P
                out.append(("quad", P))
            else:
                P = [start]
                out.append(("close", P))
            cur = P[-1]
            last = op
            first = False
    return out
CODE = {"move": 1, "line": 2, "quad": 3, "cubic": 4}
def fits(title, text, items):
    p = svg_to_path(text)
    K = [int(c) for c in p.codes]
    V = [(v[0], v[1]) for v in p.vertices]
    __check__(title + ": a code for each vertex", len(K) == len(V))
    walk(title, K, V, items, 0, [], None, False)
def walk(title, K, V, items, j, R, start, closed):
    """match the codes with the items from code j on; R: the vertices expected so far"""
    if not items:
        __check__(title + ": nothing else is drawn", j == len(K))
        low = min([min(p[0], p[1]) for p in R])
        high = max([max(p[0], p[1]) for p in R])
        for k in range(len(R)):
            __same__(title + ": vertices", [V[k][0] * (high - low), V[k][1] * (high - low)],
                     [R[k][0] - low - 0.5 * (high - low), 0.5 * (high - low) - (R[k][1] - low)])
        return
    kind, P = items[0]
    if kind == "close":
        if K[j:j + 2] == [2, 79]:              # the closing line may be drawn as such
            walk(title, K, V, items[1:], j + 2, R + [start, start], start, True)
        else:
            __check__(title + ": closed", K[j:j + 1] == [79])
            walk(title, K, V, items[1:], j + 1, R + [start], start, True)
        return
    if kind == "move":
        start = P[0]
    elif closed and K[j:j + 1] == [1]:         # a sub-path may start where the previous one did
        walk(title, K, V, items, j + 1, R + [start], start, False)
        return
    __check__(title + ": codes", K[j:j + len(P)] == [CODE[kind]] * len(P))
    walk(title, K, V, items[1:], j + len(P), R + P, start, False)
def text(cmds, sep=" "):
    return sep.join([c + sep + sep.join([str(x) for x in v]) for c, v in cmds])
count = 0
def numbers(n):
    global count
    out = []
    for i in range(n):
        count += 1
        out.append(__sym__("x%d" % count, "float", -20.0, 20.0))
    return out
def check(*letters):
    """letters: a command letter, with a number of repetitions if not 1"""
    cmds = []
    for l in letters:
        k = 1
        if len(l) > 1:
            l, k = l[0], int(l[1:])
        cmds.append((l, numbers(ARITY[l.upper()] * k)))
    fits(" ".join(letters), text(cmds), read(cmds))
'''
ARC = '''
from math import sqrt, cos, sin, acos, pi
def arc(title, text, start, end, radii, turn, large, sweep, at=0, total=None):
    """the outline of the text from vertex `at` on is an arc of the ellipse that the specification defines"""
    p = svg_to_path(text)
    K = [int(c) for c in p.codes]
    Z = [complex(v[0], -v[1]) for v in p.vertices]
    S, E = complex(*start), complex(*end)
    back = (E - S) / (Z[-1] - Z[0])
    P = [S + (z - Z[0]) * back for z in Z]
    rx, ry = abs(radii[0]), abs(radii[1])
    c, s = cos(turn * pi / 180), sin(turn * pi / 180)
    def straight(z, rx, ry):
        return complex((c * z.real + s * z.imag) / rx, (c * z.imag - s * z.real) / ry)
    half = straight((S - E) / 2, rx, ry)
    scale = sqrt(max(1.0, half.real * half.real + half.imag * half.imag))
    U = [straight(z, rx * scale, ry * scale) for z in P]
    A, B = U[0], U[-1]
    d = B - A
    l = sqrt(d.real * d.real + d.imag * d.imag)
    h = sqrt(max(0.0, 1.0 - l * l / 4))
    side = 1.0 if large != sweep else -1.0
    C = (A + B) / 2 + complex(-d.imag, d.real) / l * h * side
    for n in (1, 2, 4, 8, 16):
        if len(U) == 3 * n + 2:
            __check__(title + ": codes", K == [1, 2] + [4] * (3 * n))
            T = [u - C for u in U[1:]]
            __same__(title + ": starts where the path was", [T[0].real, T[0].imag], [(A - C).real, (A - C).imag])
            step = T[0].real * T[3].real + T[0].imag * T[3].imag
            for k in range(0, 3 * n, 3):
                a, f, g, b = T[k:k + 4]
                __same__(title + ": on the ellipse", b.real * b.real + b.imag * b.imag, 1.0)
                __same__(title + ": even steps", a.real * b.real + a.imag * b.imag, step)
                __check__(title + ": turns to the side the sweep says", (a.real * b.imag - a.imag * b.real > 0) == (sweep == 1))
                m = (a + 3 * f + 3 * g + b) / 8
                __check__(title + ": round", abs(m.real * m.real + m.imag * m.imag - 1.0) < 2e-3)
                __same__(title + ": tangent", [a.real * (f - a).real + a.imag * (f - a).imag, b.real * (g - b).real + b.imag * (g - b).imag], [0.0, 0.0])
            whole = n * acos(max(-1.0, min(1.0, step)))
            __check__(title + ": as long as the large flag says", whole >= pi * (1 - 1e-6) if large else whole <= pi * (1 + 1e-6))
'''
LETTERS = "LlHhVvCcSsQqTt"


def clients(ctx):
    out = []

    def add(name, body, **kw):
        out.append(Client(name, REF + body, WHERE, **kw))
    for c in LETTERS:
        add("after_" + ("abs_" if c.isupper() else "rel_") + c.upper(),
            'check("M", "L", %r)\n' % c + "".join('check("M", %r, %r)\n' % (c, d) for d in LETTERS))
        add("repeated_" + ("abs_" if c.isupper() else "rel_") + c.upper(),
            'check("M", "l", "%s3")\ncheck("M", "C", "%s2")\ncheck("M", "q", "%s2")\ncheck("m", "%s2", "M", "%s2")\n' % ((c,) * 5))
        add("closed_" + ("abs_" if c.isupper() else "rel_") + c.upper(),
            "".join('check(%s)\n' % ", ".join(repr(x) for x in q) for q in (
                ("M", "L", c, "Z"), ("M", "L", c, "z", "m", "l"), ("M", "L", "Z", c), ("M", "l", "z", c, "T", "Z", c),
                ("m", c, "z", c, "s", "Z"), ("M", "L", "m", "l", c, "z", c, "Z", "M", c, "z"), ("M4", c, "m4", c))))
        add("three_" + ("abs_" if c.isupper() else "rel_") + c.upper(),
            "".join('check("M", %r, %r, %r)\n' % (c, d, e) for d in LETTERS for e in "TSqc" if d in "CcQqSsTtlh"))
    # closing when the current point is the start already
    add("closed_at_start", """
x, y, a, b, c, d = numbers(6)
for letter in "lhvcsqt":
    P = {"l": [-a, -b], "h": [-a], "v": [-b], "c": [c, d, c, d, -a, -b], "s": [c, d, -a, -b], "q": [c, d, -a, -b], "t": [-a, -b]}[letter]
    f = {"h": [a, 0.0], "v": [0.0, b]}.get(letter, [a, b])
    cmds = [("m", [x, y]), ("l", f), (letter, P), ("z", []), ("l", [c, d]), ("z", [])]
    fits("closed where it started by " + letter, text(cmds), read(cmds))
""")
    add("closed_where_it_started", """
for z in ("Z", "z"):
    cmds = [("M", [1.0, 2.0]), ("L", [4.0, 2.0]), ("L", [4.0, 7.0]), ("L", [1.0, 2.0]), (z, []), ("l", [2.0, 3.0, 1.0, 1.0]), (z, []),
            ("M", [8.0, 8.0]), ("h", [3.0]), ("v", [3.0]), ("h", [-3.0]), ("v", [-3.0]), (z, []), ("t", [3.0, 3.0])]
    fits("closed", text(cmds), read(cmds))
""")
    # ways of writing
    add("separators", """
x, y, z, w = [__sym__(n, "float", 0.5, 20.0) for n in "xyzw"]
cmds = [("M", [x, y]), ("L", [z, w]), ("l", [w, x, y, z]), ("z", [])]
for t in ("M {0} {1} L {2} {3} l {3} {0} {1} {2} z", "M{0},{1}L{2},{3}l{3},{0},{1},{2}z", "M{0} {1}L{2} {3}l{3} {0} {1} {2}z",
          "  M {0} , {1}\\n\\tL {2} ,{3}\\n l {3},{0} {1},{2}\\r\\nZ\\n", "M{0},{1},L{2},{3}l{3} {0},{1} {2}Z", "M+{0}+{1}L+{2}+{3}l+{3}+{0}+{1}+{2}z"):
    fits("separators", t.format(x, y, z, w), read(cmds))
neg = [("M", [-x, -y]), ("L", [z, -w]), ("l", [-w, x, y, -z]), ("z", [])]
for t in ("M-{0}-{1}L{2}-{3}l-{3} {0} {1}-{2}z", "M -{0} -{1} L {2} -{3} l -{3},{0},{1},-{2} z"):
    fits("signs", t.format(x, y, z, w), read(neg))
""".replace("M{0},{1},L", "M{0},{1} L"))
    add("numbers", """
cmds = [("M", [0.5, -0.25]), ("L", [10.0, 0.75, 0.5, 0.5]), ("h", [-3.0]), ("c", [1.0, 2.0, 3.0, 4.0, 5.5, 0.5]), ("v", [120.0]), ("z", [])]
for t in ("M.5-.25L10 .75.5.5h-3c1 2 3 4 5.5.5v120z", "M 5e-1 -25E-2 L 1e1,75e-2 .5 .5 h-3. c1,2,3,4,5.5,.5 v1.2e2 z", "M+.5,-.25L+10.0+.75+.5+.5h-3.0c1.0 2.0 3.0 4.0 5.5 0.5v12e+1z",
          "M0.5-0.25 10 .75 .5 .5 h-3C 7.5-2.5E-2" if False else "M.5-.25 10 .75 .5.5h-3c1 2 3 4 5.5 5e-1v120Z"):
    fits("numbers", t, read(cmds))
""")
    add("from_a_point", """
x, y, a, b = numbers(4)
p = svg_to_path(text([("m", [x, y]), ("l", [a, b]), ("h", [b])]), complex(1.0, 2.0))
q = svg_to_path(text([("M", [x + 1.0, y + 2.0]), ("l", [a, b]), ("h", [b])]))
__same__("a relative start is relative to the point given", p.vertices, q.vertices)
__check__("same codes", [int(c) for c in p.codes] == [int(c) for c in q.codes])
""")
    add("arc_forms", """
def alike(title, *texts):
    a = svg_to_path(texts[0])
    for t in texts[1:]:
        b = svg_to_path(t)
        __check__(title + ": codes", [int(c) for c in a.codes] == [int(c) for c in b.codes])
        if len(a.codes) == len(b.codes):
            __same__(title + ": vertices", a.vertices, b.vertices)
alike("flags", "M 0 0 A 5 3 30 0 1 4 4 L 10 0", "M0 0A5 3 30 014 4L10 0", "M0,0A5,3,30,0,1,4,4L10,0", "M0 0a5 3 30 0 14 4l6-4", "M0 0a5 3 30 01 4 4l6-4")
alike("flags", "M 0 0 A 5 3 30 1 0 0.4 -4 L 10 0", "M0 0A5 3 30 10.4-4L10 0", "M0 0a5 3 30 1 0.4-4L10 0", "m0 0a5 3 30 10 .4-4L10 0")
alike("repeated", "M 0 0 A 5 3 30 0 1 4 4 A 6 7 0 1 0 9 -2 Z", "M 0 0 A 5 3 30 0 1 4 4 6 7 0 1 0 9 -2 Z", "M0 0A5 3 30 014 4 6 7 0 109-2Z",
      "M0 0a5 3 30 014 4 6 7 0 105-6z")
alike("radii are positive", "M 0 0 A 5 3 30 0 1 4 4 L 10 0", "M 0 0 A -5 3 30 0 1 4 4 L 10 0", "M 0 0 A 5 -3 30 0 1 4 4 L 10 0")
alike("a full turn more", "M 0 0 A 5 3 30 0 1 4 4 L 10 0 Z", "M 0 0 A 5 3 -150 0 1 4 4 L 10 0 Z")
x, y, a, b, c, d = [__sym__(n, "float", lo, lo + 3.0) for n, lo in (("x", 1.0), ("y", 6.0), ("a", 11.0), ("b", 16.0), ("c", 21.0), ("d", 26.0))]
head = text([("M", [x, y])])
for z in ("0,5", "5,0", "0,0", "0 0"):
    fits("an arc without radius is a line", head + " A" + z + " 0 0 1 " + str(a) + "," + str(b) + text([("l", [c, d])]), read([("M", [x, y]), ("L", [a, b]), ("l", [c, d])]))
    fits("an arc without radius is a line", head + " a" + z + " 0 0 1 " + str(a) + "," + str(b) + text([("l", [c, d])]), read([("M", [x, y]), ("l", [a, b]), ("l", [c, d])]))
fits("an arc to where it starts is nothing", "M 1 2 A 3 4 0 1 1 1 2" + text([("l", [c, d])]), read([("M", [1.0, 2.0]), ("l", [c, d])]))
fits("an arc to where it starts is nothing", "M 1 2 a 3 4 0 1 1 0 0 3 4 0 1 1 0 0" + text([("l", [c, d])]), read([("M", [1.0, 2.0]), ("l", [c, d])]))
fits("an arc to where it starts is nothing", "M 1 2" + text([("c", [a, b, c, d, 1.0, 1.0])]) + "a 3 4 0 1 1 0 0" + text([("s", [c, d, a, b])]),
     read([("M", [1.0, 2.0]), ("c", [a, b, c, d, 1.0, 1.0]), ("c", [0.0, 0.0, c, d, a, b])]))
alike("no curve to continue smoothly", "M 0 0 A 5 3 30 0 1 4 4 s" + text([("", [a, b, c, d])]), "M 0 0 A 5 3 30 0 1 4 4 C 4 4 " + text([("", [a + 4, b + 4, c + 4, d + 4])]))
alike("no curve to continue smoothly", "M 0 0 A 5 3 30 0 1 4 4 t" + text([("", [a, b])]), "M 0 0 A 5 3 30 0 1 4 4 Q 4 4 " + text([("", [a + 4, b + 4])]))
alike("no curve to continue smoothly", "M 0 0 q 1 2 3 4 a 5 3 30 0 1 4 4 t" + text([("", [a, b])]), "M 0 0 Q 1 2 3 4 a 5 3 30 0 1 4 4 q 0 0 " + text([("", [a, b])]))
alike("goes on from the end", "M 0 0 A 5 3 30 0 1 4 4 l 1 2", "M 0 0 A 5 3 30 0 1 4 4 L 5 6", "M 0 0 A 5 3 30 0 1 4 4 h 1 v 2"[:32] + "L 5 6" if False else "M 0 0 A 5 3 30 0 1 4 4 L 5 6")
for radii in ("5 5", "2.5,2.5", "5,1"):
    for sweep in (0, 1):
        for large in (0, 1):
            v = svg_to_path("M 0 0 A %s 0 %d %d 10 0 L 10 20 L 0 20" % (radii, large, sweep)).vertices
            mid = (len(v) - 3) // 2 + 1
            z = [(w[0] - v[-1][0]) / (v[-2][0] - v[-1][0]) * 10 for w in v], [20 - (w[1] - v[-1][1]) / (v[-2][0] - v[-1][0]) * 10 for w in v]
            __check__("half an ellipse", abs(z[0][mid] - 5) < 1e-5 and abs(z[1][mid] - (-1 if sweep else 1) * (1 if radii == "5,1" else 5)) < 1e-5)
alike("closed", "M 0 0 A 5 3 30 0 1 4 4 L 10 0 z", "M 0 0 A 5 3 30 0 1 4 4 l 6 -4 Z")
alike("after a closing", "M 1 1 L 3 0 z a 5 3 30 0 1 4 4", "M 1 1 L 3 0 Z A 5 3 30 0 1 5 5")
""".replace(', "M 0 0 A 5 3 30 0 1 4 4 h 1 v 2"[:32] + "L 5 6" if False else "M 0 0 A 5 3 30 0 1 4 4 L 5 6"', ""))
    for large in (0, 1):
        for sweep in (0, 1):
            for kind, radii in (("wide", "6.0, 9.0"), ("narrow", "0.3, 0.9"), ("flat", "600.0, 900.0")):
                for rel in (0, 1) if kind != "flat" else (0,):
                    e = "x + dx, y + dy"
                    out.append(Client("arc_%d%d_%s_%s" % (large, sweep, kind, "rel" if rel else "abs"), REF + ARC + """
x, y, = __sym__("x", "float", -2.0, 2.0), __sym__("y", "float", -2.0, 2.0)
dx, dy = __sym__("dx", "float", 1.0, 3.0), __sym__("dy", "float", -3.0, 3.0)
rx, ry = __sym__("rx", "float", %s), __sym__("ry", "float", %s)
turn = __sym__("turn", "float", -80.0, 80.0)
arc("arc", "M %%s %%s %s %%s,%%s %%s %d %d %%s,%%s" %% (x, y, rx, ry, turn, %s), (x, y), (x + dx, y + dy), (rx, ry), turn, %d, %d)
""" % (radii, radii, "a" if rel else "A", large, sweep, "dx, dy" if rel else e, large, sweep), WHERE))
    for a in LETTERS:
        for b in LETTERS:
            add("deep_%s_%s_%s%s" % (a.upper(), b.upper(), "a" if a.isupper() else "r", "a" if b.isupper() else "r"),
                "for c in %r:\n    for d in %r:\n        check('M', %r, %r, c, d, 'z')\n        check('m', %r + '2', c, 'Z', d, %r)\n" % (
                    "lhCsQt", "sT", a, b, a, b), tier="thorough")
    return out
