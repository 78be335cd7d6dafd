"""C34: swizzles read and write the named components."""
import itertools
import re
from ..run import Client

PROPERTY = "C34"
FLOOR = 8000
EXPLANATION = (
    "For vectors of 2, 3 and 4 components and for matrices, alone, in arrays of every small length and through parts, every name of "
    "one component and a family of names of several (reordered, repeated, in both alphabets) is read and written in the analysis with "
    "symbolic contents: single numbers, a number per component, an array per component, an array with a row per vector, rows as lists, a column, a "
    "row, a number per vector, another swizzle and a view on the same array. Every element is compared with the element the name "
    "designates; the others must keep their value, and what was read must be a copy.")

HEAD = '''
import numpy as np
from gsp_matplotlib import glm
def new(kind, n):
    Z = getattr(glm, kind)(n) if n is not None else getattr(glm, kind)()
    Z[...] = __arr__("Z", Z.shape, "f4", -9.0, 9.0)
    return Z
def cells(Z):
    """the vectors of Z as lists"""
    return [[x for x in v] for v in np.array(Z).reshape(-1, Z.shape[-1])]
def wrote(Z, was, index, value):
    """expected content: the component index[j] of vector i is value(i, j), the last one written wins"""
    out = [[x for x in v] for v in was]
    for i in range(len(out)):
        for j in range(len(index)):
            out[i][index[j]] = value(i, j)
    return out
'''


def groups(sets, n=4):
    """the names, by n"""
    ks = names(sets)
    return [(g, ks[i:i + n]) for g, i in enumerate(range(0, len(ks), n))]


def names(sets):
    """swizzle names to try and their indices"""
    out = []
    for s in sets:
        n = len(s)
        ks = list(s)
        ks += ["".join(p) for p in itertools.permutations(s, 2)] + [s[0] * 2]
        if n > 2:
            ks += [s[:3], s[2::-1], s[1] + s[2] + s[0], s[2] + s[2] + s[0], s[n - 1] + s[0] + s[n - 2]]
        if n > 3:
            ks += [s, s[::-1], s[2:] + s[:2], s[0] + s[0] + s[3] + s[1]]
        out += [(k, [s.index(c) for c in k]) for k in dict.fromkeys(ks)]
    return out


SETS = {"vec2": ("xy", "ra"), "vec3": ("xyz", "rgb"), "vec4": ("xyzw", "rgba")}


def clients(ctx):
    r = []
    where = "gsp_matplotlib/glm/ndarray/swizzle.py:swizzle"
    thorough = getattr(ctx, "tier", "quick") == "thorough"
    for kind, sets in SETS.items():
        for n in (None, 1, 2, 3, 4, 5) + ((7, 16) if thorough else ()):
            body = ""
            m = 1 if n is None else n
            for g, (key, index) in ((g, x) for g, ks in groups(sets) for x in ks + [(None, None)]):
                if key is None:
                    r.append(Client("%s_%s_%d" % (kind, n, g), HEAD + body, where))
                    body = ""
                    continue
                k = len(key)
                t = "%s %s[%s].%s" % ("%s", kind, n, key)
                body += "\nZ = new(%r, %r)\nwas = cells(Z)\n" % (kind, n)
                # reading
                body += "R = Z.%s\n" % key
                body += "__same__(%r, np.array(R).reshape(-1, %d).tolist(), [[v[i] for i in %r] for v in was])\n" % (t % "read", k, index)
                body += "__check__(%r, R.shape == Z.shape[:-1] + (%d,) and R.dtype == Z.dtype)\n" % (t % "shape and type of", k)
                body += "R[...] = 0.5\n__same__(%r, cells(Z), was)\n" % (t % "a copy is read from")

                def write(title, value, expected):
                    return ("\nZ = new(%r, %r)\nwas = cells(Z)\nZ.%s = %s\n__same__(%r, cells(Z), wrote(Z, was, %r, lambda i, j: %s))\n" %
                            (kind, n, key, value, t % title, index, expected))
                body += write("one number to", '__sym__("a")', '__sym__("a")')
                body += 'V = [__sym__("v%%d" %% i) for i in range(%d)]\n' % k
                body += write("a number per component to", "tuple(V)", "V[j]")
                if key[0] in sets[0]:
                    body += write("a list of components to", "V", "V[j]")
                body += write("an array of components to", "np.array(V)", "V[j]")
                body += 'W = __arr__("W", (%d, %d), "f8", -9.0, 9.0)\n' % (m, k)
                if key[0] not in sets[0] and not thorough:
                    continue    # the same components by other letters
                if n is not None:
                    body += write("an array per component to", "tuple([W[:, j] for j in range(%d)])" % k, "W[i, j]")
                    body += write("a row per vector to", "W", "W[i, j]")
                    body += write("a column to", "W[:, :1]", "W[i, 0]")
                    body += write("a row to", "W[:1]", "W[0, j]")
                    if k == 1 or n != k:
                        body += write("a number per vector to", "W[:, 0]", "W[i, 0]")
                    body += write("a swizzle to", "Z.%s" % key[::-1], "was[i][%r[-1 - j]]" % index)
                    body += write("a view on itself to", "Z[:, ::-1][:, :%d]" % k, "was[i][%d - j]" % (int(kind[3]) - 1))
                else:
                    body += write("a swizzle to", "Z.%s" % key[::-1], "was[i][%r[-1 - j]]" % index)
        # parts of arrays
        for part, rows in (("Z[1:]", [1, 2, 3, 4, 5]), ("Z[::2]", [0, 2, 4]), ("Z[::-1]", [5, 4, 3, 2, 1, 0]), ("Z[1:3]", [1, 2]), ("Z[3]", [3]),
                           ("Z[-1]", [5]), ("Z[2:5][::-1]", [4, 3, 2]), ("Z[1:][1:3]", [2, 3])):
            body = HEAD
            for key, index in names(sets):
                k = len(key)
                t = "%s of %s.%s" % (kind, part, key)
                body += "\nZ = new(%r, 6)\nwas = cells(Z)\n" % kind
                body += '__same__("read " + %r, np.array(%s.%s).reshape(-1, %d).tolist(), [[was[q][i] for i in %r] for q in %r])\n' % (
                    t, part, key, k, index, rows)
                body += 'V = [__sym__("v%%d" %% i) for i in range(%d)]\n%s.%s = %s\n' % (k, part, key, "tuple(V)" if k > 1 else "V[0]")
                body += '''exp = [[x for x in v] for v in was]
for q in %r:
    for j in range(%d):
        exp[q][%r[j]] = V[j]
__same__("write " + %r, cells(Z), exp)
''' % (rows, k, index, t)
            r.append(Client("%s_part_%s" % (kind, re.sub(r"\W+", "_", part)), body, where))
    for kind, sets in (("mat2", SETS["vec2"]), ("mat3", SETS["vec3"]), ("mat4", SETS["vec4"])):
        for n in (None, 1, 2, 3):
            d = int(kind[3])
            m = d * (n or 1)
            body = ""
            for g, (key, index) in ((g, x) for g, ks in groups(sets) for x in ks + [(None, None)]):
                if key is None:
                    r.append(Client("%s_%s_%d" % (kind, n, g), HEAD + body, where))
                    body = ""
                    continue
                k = len(key)
                t = "%s %s[%s].%s" % ("%s", kind, n, key)
                body += "\nZ = new(%r, %r)\nwas = cells(Z)\n" % (kind, n)
                body += "R = Z.%s\n__same__(%r, np.array(R).reshape(-1, %d).tolist(), [[v[i] for i in %r] for v in was])\n" % (key, t % "read", k, index)
                body += "__check__(%r, R.shape == Z.shape[:-1] + (%d,))\n" % (t % "shape of", k)
                for title, value, exp in (("one number to", '__sym__("a")', '__sym__("a")'), ("a number per component to", "tuple(V)", "V[j]"),
                                          ("a row per vector to", "W", "W.reshape(-1, %d)[i, j]" % k),
                                          ("a swizzle to", "Z.%s" % key[::-1], "was[i][%r[-1 - j]]" % index)):
                    body += ("\nZ = new(%r, %r)\nwas = cells(Z)\nV = [__sym__('v%%d' %% i) for i in range(%d)]\n"
                             "W = __arr__('W', Z.shape[:-1] + (%d,), 'f8', -9.0, 9.0)\nZ.%s = %s\n"
                             "__same__(%r, cells(Z), wrote(Z, was, %r, lambda i, j: %s))\n" % (kind, n, k, k, key, value, t % title, index, exp))
    # rows of vectors as nested sequences
    for kind, sets in SETS.items():
        for n in (1, 2, 3, 4, 5):
            body = HEAD
            for key, index in names(sets[:1]):
                k = len(key)
                if k in (1, n):
                    continue    # a sequence of as many entries as components gives the components
                for title, value in (("a list of rows to", "[[x for x in w] for w in W]"), ("a tuple of rows to", "tuple([tuple(w) for w in W])"),
                                     ("a list of arrays to", "[w for w in W]")):
                    body += ("\nZ = new(%r, %d)\nwas = cells(Z)\nW = __arr__('W', (%d, %d), 'f8', -9.0, 9.0)\nZ.%s = %s\n"
                             "__same__(%r, cells(Z), wrote(Z, was, %r, lambda i, j: W[i, j]))\n" % (
                                 kind, n, n, k, key, value, "%s %s[%d].%s" % (title, kind, n, key), index))
            r.append(Client("%s_rows_%d" % (kind, n), body, where))
    # names which are not swizzles
    r.append(Client("other_names", HEAD + '''
for kind in ("vec2", "vec3", "vec4"):
    Z = new(kind, 4)
    was = cells(Z)
    for name in ("xr", "foo", "xyq", "u", "b" if kind == "vec2" else "s"):
        __check__(kind + ": no component " + name, not hasattr(Z, name))
    __check__(kind + ": attributes of arrays remain", Z.T.shape == (int(kind[3]), 4) and Z.size == 4 * int(kind[3]) and Z.ndim == 2)
    Z.other = 3
    __same__(kind + ": attributes can be set", [Z.other, cells(Z)], [3, was])
''', where))
    return r
