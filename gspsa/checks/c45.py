"""C45: built-in shapes and loaded meshes are well formed."""
from ..run import Client

PROPERTY = "C45"
FLOOR = 150
EXPLANATION = (
    "The tables and formulas of the built-in shapes are evaluated over abstract arrays: counts of vertices, edges and faces, closed surface "
    "(each edge between exactly two faces, coincident vertices merged), planar faces, vertices on a sphere about the origin (of the given symbolic "
    "radius for the sphere), equal edges for the regular solids. Wavefront files with every form of face (plain, with texture coordinates, normals, "
    "both) are read back: same faces, vertices up to the common centring and scaling, nothing else taken for a vertex or a face.")

BASE = '''
import numpy as np
from gsp_matplotlib import glm
from gsp_matplotlib.glm import shapes
def edges(faces):
    count = {}
    for f in faces:
        for k in range(len(f)):
            a, b = f[k], f[(k + 1) % len(f)]
            e = (a, b) if a < b else (b, a)
            count[e] = count.get(e, 0) + 1
    return count
def d2(a, b): return sum([(a[k] - b[k]) ** 2 for k in range(3)])
def near(label, a, b): __check__(label, abs(a - b) < 1e-5)
def table(verts, faces, nv, nf):
    __same__("vertices", [verts.shape, verts.dtype.kind], [(nv, 3), "f"])
    __same__("faces", [faces.shape[0], faces.dtype.kind in "iu"], [nf, True])
    F = [[int(i) for i in f] for f in faces]
    V = [[float(x) for x in v] for v in verts]
    for f in F:
        __check__("faces refer to vertices", min(f) >= 0 and max(f) < nv)
        __same__("a face has distinct corners", len(set(f)), len(f))
    __same__("each face once", len(set([tuple(sorted(f)) for f in F])), nf)
    __same__("each vertex is used", sorted(set([i for f in F for i in f])), list(range(nv)))
    for i in range(nv):
        for j in range(i):
            __check__("vertices are distinct", d2(V[i], V[j]) > 1e-3)
    return V, F
def closed(F, ne):
    E = edges(F)
    __same__("closed: each edge joins two faces", sorted(set(E.values())), [2])
    __same__("edges", len(E), ne)
    return E
'''


def clients(ctx):
    out = []
    solids = [("cube", 8, 6, 12, True), ("octahedron", 6, 8, 12, True), ("icosahedron", 12, 20, 30, True), ("tetrahedron", 4, 4, 6, False)]
    for name, nv, nf, ne, regular in solids:
        out.append(Client(name, BASE + '''
verts, faces = shapes.%s()
V, F = table(verts, faces, %d, %d)
E = closed(F, %d)
O = [0.0, 0.0, 0.0]
%s
for f in F:
    if len(f) == 4:
        a, b, c, d = [V[i] for i in f]
        for k in range(3): near("the corners of a face follow each other around it", a[k] + c[k], b[k] + d[k])
a, b = shapes.%s()
b[0, 0] += 1
a[0, 0] += 1
verts2, faces2 = shapes.%s()
__same__("each call gives new arrays", [verts2.tolist(), faces2.tolist()], [verts.tolist(), faces.tolist()])
''' % (name, nv, nf, ne, '''
for v in V: near("vertices are on a sphere about the origin", d2(v, O), d2(V[0], O))
L = [d2(V[a], V[b]) for a, b in E]
for l in L: near("edges have one length", l, L[0])''' if regular else '''
det = np.linalg.det(np.array([[V[i][k] - V[0][k] for k in range(3)] for i in (1, 2, 3)]))
__check__("a solid, not a flat figure", abs(det) > 0.1)''', name, name), "gsp_matplotlib/glm/shapes.py:" + name))
    out.append(Client("dodecahedron", BASE + '''
verts, faces = shapes.dodecahedron()
V, F = table(verts, faces, 20, 36)
E = closed(F, 54)
O = [0.0, 0.0, 0.0]
for v in V: near("vertices are on a sphere about the origin", d2(v, O), d2(V[0], O))
shortest = min([d2(V[a], V[b]) for a, b in E])
sides = [e for e in E if d2(V[e[0]], V[e[1]]) < shortest * 1.01]
__same__("regular: edges of the solid", len(sides), 30)
for i in range(20):
    __same__("three at each vertex", len([1 for e in sides if i in e]), 3)
''', "gsp_matplotlib/glm/shapes.py:dodecahedron"))
    for sl, st in ((3, 2), (4, 3), (5, 4), (6, 2), (3, 5)):
        out.append(Client("sphere_%d_%d" % (sl, st), BASE + '''
r = __sym__("r", "float", 0.1, 9.0)
verts, faces = glm.sphere(r, %(sl)d, %(st)d)
nv = (%(sl)d + 1) * (%(st)d + 1)
__same__("sizes", [verts.shape, faces.shape], [(nv, 3), (%(sl)d * %(st)d * 2, 3)])
for v in verts:
    __same__("vertices are at the radius", v[0] ** 2 + v[1] ** 2 + v[2] ** 2, r ** 2)
F = [[int(i) for i in f] for f in faces]
for f in F: __check__("faces refer to vertices", min(f) >= 0 and max(f) < nv)
__same__("each vertex is used", sorted(set([i for f in F for i in f])), list(range(nv)))
unit, again = glm.sphere(1.0, %(sl)d, %(st)d)
U = [[float(x) for x in v] for v in unit]
# coincident vertices (poles, seam) are one point of the surface
rep = []
for i in range(nv):
    k = i
    for j in range(i):
        if d2(U[i], U[j]) < 1e-9:
            k = j
            break
    rep.append(k)
M = [[rep[i] for i in f] for f in F]
M = [f for f in M if len(set(f)) == 3]
points = len(set(rep))
__same__("points of the surface", points, %(sl)d * (%(st)d - 1) + 2)
E = edges(M)
__same__("closed: each edge joins two faces", sorted(set(E.values())), [2])
__same__("one sphere (Euler)", points - len(E) + len(M), 2)
poles = [max([u[2] for u in U]), min([u[2] for u in U])]
near("both poles", poles[0], 1.0)
near("both poles", poles[1], -1.0)
signs = set()
for f in M:
    a, b, c = [U[i] for i in f]
    u = [b[k] - a[k] for k in range(3)]
    w = [c[k] - a[k] for k in range(3)]
    n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    s = n[0] * a[0] + n[1] * a[1] + n[2] * a[2]
    if abs(s) > 1e-9: signs.add(s > 0)
__same__("all faces are turned the same way", len(signs), 1)
''' % {"sl": sl, "st": st}, "gsp_matplotlib/glm/shapes.py:sphere"))
    out.append(Client("sphere_default", BASE + '''
verts, faces = glm.sphere()
__same__("unit sphere", [verts.shape, faces.shape], [(33 * 33, 3), (2048, 3)])
for i in (0, 7, 40, 500, 1088):
    v = verts[i]
    near("at radius one", float(v[0] ** 2 + v[1] ** 2 + v[2] ** 2), 1.0)
''', "gsp_matplotlib/glm/shapes.py:sphere"))
    for i, F in enumerate(([(2, 3, 4), (2, 4, 5)], [(5, 4, 3)], [(1, 5, 3)], [(2, 3, 4, 5)], [(5, 5, 5), (4, 4, 4)])):
        out.append(Client("mesh_faces_%d" % i, BASE + '''
P = [(1.0, 2.0, 3.0), (5.0, -2.0, 3.5), (-1.0, 0.25, 9.0), (2.0, 2.0, -3.0), (0.5, 0.0, 1.0)]
faces = %r
text = ""
for p in P: text += "v %%s %%s %%s\\n" %% p
for f in faces: text += "f " + " ".join([str(k) for k in f]) + "\\n"
with open("thing.obj", "w") as fh: fh.write(text)
V, F = glm.mesh("thing.obj")
__same__("sizes", [V.shape, F.shape], [(5, 3), (%d, %d)])
__same__("faces, counted from zero", F.tolist(), [[i - 1 for i in f] for f in faces])
''' % (F, len(F), len(F[0])), "gsp_matplotlib/glm/glm.py:mesh"))
    for form, sep, end, tail in (("tabs", "\t", "\n", ""), ("spaces", "   ", "\n", "  "), ("dos", " ", "\r\n", ""), ("unended", " ", "\n", None),
                                 ("weights", " ", "\n", " 1.0"), ("remarks", " ", "\n", " # corner")):
        out.append(Client("mesh_text_" + form, BASE + '''
P = [(1.0, 2.0, 3.0), (5.0, -2.0, 3.5), (-1.0, 0.25, 9.0), (2.0, 2.0, -3.0), (0.5, 0.0, 1e1)]
faces = [(1, 2, 3), (1, 3, 4), (5, 2, 1), (4, 5, 2)]
sep, end, tail = %r, %r, %r
rows = ["# v 9 9 9", "", "   ", "o thing"]
for p in P: rows.append(sep.join(["v", str(p[0]), str(p[1]), str(p[2])]) + (tail or ""))
for f in faces: rows.append(sep.join(["f"] + [str(k) for k in f]))
text = end.join(rows)
if tail is not None: text += end
with open("thing.obj", "w") as fh: fh.write(text)
V, F = glm.mesh("thing.obj")
__same__("sizes", [V.shape, F.shape], [(5, 3), (4, 3)])
__same__("faces, counted from zero", F.tolist(), [[i - 1 for i in f] for f in faces])
for i in range(1, 5):
    for k in range(3):
        near("vertices in order, same proportions", (V[i][k] - V[0][k]) * (P[1][0] - P[0][0]), (P[i][k] - P[0][k]) * (V[1][0] - V[0][0]))
''' % (sep, end, tail), "gsp_matplotlib/glm/glm.py:mesh"))
    for form, corner in (("plain", "{v}"), ("texture", "{v}/{t}"), ("normal", "{v}//{n}"), ("all", "{v}/{t}/{n}")):
        out.append(Client("mesh_" + form, BASE + '''
P = [(1.0, 2.0, 3.0), (5.0, -2.0, 3.5), (-1.0, 0.25, 9.0), (2.0, 2.0, -3.0), (0.5, 0.0, 1.0)]
faces = [(1, 2, 3), (1, 3, 4), (5, 2, 1), (4, 5, 2)]
text = "# a comment with v 9 9 9\\n\\nmtllib thing.mtl\\no thing\\n"
for p in P: text += "v %%s %%s %%s\\n" %% p
text += "vt 0.5 0.25\\nvt 0.0 1.0\\nvn 0.0 0.0 1.0\\nvn 1.0 0.0 0.0\\n\\ng part\\nusemtl red\\ns off\\n"
for f in faces:
    row = "f"
    for k in range(len(f)): row += " " + %r.format(v=f[k], t=1 + k %% 2, n=2 - k %% 2)
    text += row + "\\n"
with open("thing.obj", "w") as fh: fh.write(text)
V, F = glm.mesh("thing.obj")
__same__("sizes", [V.shape, F.shape], [(5, 3), (4, 3)])
__same__("faces, counted from zero", F.tolist(), [[i - 1 for i in f] for f in faces])
# the same shape, centred and scaled
L = [d2(P[i], P[0]) for i in range(1, 5)]
for i in range(1, 5):
    for k in range(3):
        near("vertices in order, same proportions", (V[i][k] - V[0][k]) * (P[1][0] - P[0][0]), (P[i][k] - P[0][k]) * (V[1][0] - V[0][0]))
for k in range(3):
    c = [float(v[k]) for v in V]
    near("centred", max(c) + min(c), 0.0)
near("fitted", max([float(abs(x)) for v in V for x in v]), 1.0)
''' % corner, "gsp_matplotlib/glm/glm.py:mesh"))
    return out
