"""C35: ragged lists behave as lists of arrays."""
from ..run import Client

PROPERTY = "C35"
FLOOR = 1500
EXPLANATION = (
    "Ragged lists made in every documented way (sequences of lists or arrays, data with one size, data with individual sizes of any "
    "integer type) are read and written in the analysis with symbolic contents, for many partitions including empty items, through "
    "every integer, slice (negative bounds and steps included), list and array of indices, and compared element per element with a "
    "list of lists to which the same was done.")

HEAD = '''
import numpy as np
from gsp_matplotlib import glm
def flat(items):
    return [x for item in items for x in item]
def refused(f, kind):
    try:
        f()
    except kind:
        return True
    return False
def pick(items, key):
    """the values designated by a key"""
    if isinstance(key, slice): return flat(items[key])
    if isinstance(key, (list, tuple)): return flat([items[k] for k in key])
    return items[key]
def items_of(V):
    return [np.array(x).tolist() for x in V]
'''

PARTS = ([3], [1, 2, 3], [2, 2], [4, 1], [1, 1, 1, 1, 1], [0, 2, 1], [2, 0, 3, 0], [5, 1, 2, 1])
LISTS = ([0], [-1], [0, -1], [-1, 0], [0, 0])
WIDE = "[%s]"


def keys(n):
    """source of the keys for a list of n items"""
    out = [str(i) for i in range(-n, n)]
    bounds = ["", "0", "1", "2", "-1", "-2", str(n), str(n + 3)]
    for a in bounds:
        for b in bounds:
            out.append("slice(%s, %s)" % (a or None, b or None))
    for st in ("2", "-1", "-2", "3"):
        for a in ("None", "0", "1", "-1", str(n)):
            out.append("slice(%s, None, %s)" % (a, st))
        out.append("slice(None, -1, %s)" % st)
        out.append("slice(-1, None, %s)" % st)
    out += [str(x) for x in LISTS] + ["(0, -1)"]
    if n > 2:
        out += ["[2, 0]", "[1, 2, 0]", "[-2, 1, 1]"]
    return list(dict.fromkeys(out))


def clients(ctx):
    r = []
    where = "gsp_matplotlib/glm/ndarray/ragged.py:ragged"
    for sizes in PARTS:
        name = "_".join(map(str, sizes))
        n, total = len(sizes), sum(sizes)
        for wide in (0, 2):
            shape = "(%d, %d)" % (total, wide) if wide else "(%d,)" % total
            make = ('D = __arr__("D", %s, "f4", -9.0, 9.0)\nitems, at = [], 0\nfor s in %r:\n    items.append(D[at:at + s].tolist())\n    at += s\n'
                    % (shape, sizes))
            src = HEAD + make
            ways = [("individual", "glm.vlist(np.array(D), np.array(%r))" % sizes), ("list", "glm.vlist(np.array(D), %r)" % sizes),
                    ("tuple", "glm.vlist(np.array(D), %r)" % (tuple(sizes),)), ("keyword", "glm.vlist(data=np.array(D), itemsize=%r)" % sizes),
                    ("int8", "glm.vlist(np.array(D), np.array(%r, np.int8))" % sizes),
                    ("uint8", "glm.vlist(np.array(D), np.array(%r, np.uint8))" % sizes),
                    ("uint32", "glm.vlist(np.array(D), np.array(%r, np.uint32))" % sizes)]
            if sizes[0] and not wide and 0 not in sizes:
                ways += [("lists", "glm.vlist(items)"), ("tuples", "glm.vlist(tuple([tuple(x) for x in items]))")]
            if 0 not in sizes:
                ways += [("arrays", "glm.vlist([np.array(x) for x in items])")]
            if len(set(sizes)) == 1 and sizes[0]:
                ways += [("common", "glm.vlist(np.array(D), %d)" % sizes[0])]
            if n == 1:
                ways += [("whole", "glm.vlist(np.array(D))")]
            for w, e in ways:
                src += "V = %s\n" % e
                src += '__same__("%s: items", [np.array(V[i]).tolist() for i in range(%d)], items)\n' % (w, n)
                src += '__same__("%s: iteration", items_of(V), items)\n' % w
                src += '__same__("%s: array", np.asarray(V).tolist(), D.tolist())\n' % w
                src += '__same__("%s: data", np.array(V.data).tolist(), D.tolist())\n' % w
                src += '__check__("%s: length", len(V) == %d and V.size == %d and V.shape == %s)\n' % (w, n, total, shape)
                src += '__same__("%s: sizes", np.array(V.itemsize).tolist(), %r)\n' % (w, sizes)
            r.append(Client("made_%s%s" % (name, "_wide" if wide else ""), src, where))
            # indexing
            src = HEAD + make + "V = glm.vlist(np.array(D), %r)\n" % sizes
            for k in keys(n):
                src += '__same__("V[%s]", np.array(V[%s]).reshape(-1).tolist(), np.array(pick(items, %s)).reshape(-1).tolist())\n' % (k, k, k)
            src += '__same__("unchanged by reading", items_of(V), items)\n'
            for k in (n, n + 2, -n - 1):
                src += '__check__("V[%d] is out of range", refused(lambda: V[%d], IndexError))\n' % (k, k)
            if n > 1:
                src += '__same__("V[array]", np.array(V[np.array([1, 0])]).reshape(-1).tolist(), np.array(pick(items, [1, 0])).reshape(-1).tolist())\n'
            r.append(Client("read_%s%s" % (name, "_wide" if wide else ""), src, where))
            # writing
            src = HEAD + make + '''
def expected(key, value):
    out = [[x for x in item] for item in items]
    picked = out[key] if isinstance(key, slice) else [out[k] for k in key] if isinstance(key, (list, tuple)) else [out[key]]
    at = 0
    for item in picked:
        for i in range(len(item)):
            item[i] = value(at)
            at += 1
    return out
a = __sym__("a")
'''
            for k in keys(n):
                one = "[a, a]" if wide else "a"
                src += 'V = glm.vlist(np.array(D), %r)\nV[%s] = a\n__same__("V[%s] = number", items_of(V), expected(%s, lambda i: %s))\n' % (sizes, k, k, k, one)
                if k not in ("[0, 0]", "[-2, 1, 1]") and "0, -1" not in k and "-1, 0" not in k:
                    src += ('V = glm.vlist(np.array(D), %r)\nW = __arr__("W", (len(pick(items, %s)),) + D.shape[1:], "f4", -9.0, 9.0)\nV[%s] = W\n'
                            '__same__("V[%s] = values", items_of(V), expected(%s, lambda i: W[i].tolist() if D.ndim > 1 else W[i]))\n'
                            % (sizes, k, k, k, k))
            r.append(Client("write_%s%s" % (name, "_wide" if wide else ""), src, where))
    # items are views on the data, changes in sequence
    r.append(Client("sequence", HEAD + '''
D = __arr__("D", (7,), "f8", -9.0, 9.0)
V = glm.vlist(D, [2, 1, 4])
items = [D[:2].tolist(), D[2:3].tolist(), D[3:].tolist()]
a, b = __sym__("a"), __sym__("b")
V[1] = a
items[1] = [a]
V[0][1] = b
items[0][1] = b
__same__("an item is a view", items_of(V), items)
V[2] = V[2] * 2
items[2] = [2 * x for x in items[2]]
__same__("updated", items_of(V), items)
V[-1][::2] = 0
items[2][0] = items[2][2] = 0
__same__("partly updated", items_of(V), items)
V[:2] = [1, 2, 3]
items[0], items[1] = [1, 2], [3]
__same__("two items at once", items_of(V), items)
D[0] = b
items[0][0] = b
__same__("data given are used", items_of(V), items)
__same__("and seen", np.array(D).tolist(), items[0] + items[1] + items[2])
''', where))
    r.append(Client("whole", HEAD + '''
for sizes in ([4], [4, 0], [0, 4], [1, 3], [2, 2]):
    n = len(sizes)
    for key in [slice(None), slice(0, n), slice(-n, None), Ellipsis][:3] + ([0, -1] if sizes[0] == 4 and n == 1 else [0] if sizes[0] == 4 else [1] if sizes[0] == 0 else []):
        D = __arr__("D", (4,), "f8", -9.0, 9.0)
        V = glm.vlist(D, sizes)
        x = V[key]
        x[1] = __sym__("a")
        __same__("the whole is a view on the data", [D[1], np.array(V.data)[1]], [__sym__("a")] * 2)
D = __arr__("D", (4,), "f8", -9.0, 9.0)
V = glm.vlist(D, [1, 3])
np.asarray(V)[2] = __sym__("b")
__same__("so is the list taken as an array", [D[2], V[1][1]], [__sym__("b")] * 2)
''', where))
    r.append(Client("large", HEAD + '''
for size, n in ((150, 2), (300, 1), (70, 4)):
    V = glm.vlist(np.arange(size * n), size)
    __same__("items of one size", [len(V), [len(V[i]) for i in range(n)], [V[i][0] for i in range(n)], [V[i][-1] for i in range(n)]],
             [n, [size] * n, [size * i for i in range(n)], [size * i + size - 1 for i in range(n)]])
    __same__("their sizes", np.array(V.itemsize).tolist(), [size] * n)
for t in (np.int8, np.uint8, np.int16, int):
    V = glm.vlist(np.arange(500), np.array([120, 100, 80, 110, 90], t))
    __same__("items of different sizes", [[V[i][0], V[i][-1]] for i in range(5)], [[0, 119], [120, 219], [220, 299], [300, 409], [410, 499]])
    __same__("their sizes", np.array(V.itemsize).tolist(), [120, 100, 80, 110, 90])
''', where))
    for name, e in (("common size", "glm.vlist(np.zeros(7), 2)"), ("common size too large", "glm.vlist(np.zeros(3), 4)"),
                    ("sum too small", "glm.vlist(np.zeros(7), [2, 3])"), ("sum too large", "glm.vlist(np.zeros(7), np.array([4, 4]))"),
                    ("rows", "glm.vlist(np.zeros((5, 2)), [5, 5])"), ("no size", "glm.vlist(np.zeros(2), [])")):
        r.append(Client("refused_" + name.replace(" ", "_"), HEAD + '__check__("%s: refused", refused(lambda: %s, ValueError))\n' % (name, e), where))
    # typed data
    r.append(Client("typed", HEAD + '''
for dt in ("f4", "f8", "i4", "u1"):
    A = np.array([1, 2, 3, 4, 5], dt)
    V = glm.vlist(A, [2, 3])
    __check__(dt + ": type", V.dtype == np.dtype(dt) and V[0].dtype == np.dtype(dt))
A = glm.vec3(4)
A[...] = __arr__("A", (4, 3), "f4", -9.0, 9.0)
V = glm.vlist(A, [1, 3])
__same__("vectors", [np.array(V[0]).tolist(), np.array(V[1].y).tolist()], [A[:1].tolist(), [[A[1, 1]], [A[2, 1]], [A[3, 1]]]])
V = glm.vlist([A[:1], A[1:]])
__same__("list of vectors", [np.array(V[0]).tolist(), np.array(V[1].y).tolist()], [A[:1].tolist(), [[A[1, 1]], [A[2, 1]], [A[3, 1]]]])
''', where))
    return r
