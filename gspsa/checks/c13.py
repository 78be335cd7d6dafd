"""C13: array types survive their textual form."""
from ..run import Client

PROPERTY = "C13"
FLOOR = 300
EXPLANATION = (
    "The two conversions are evaluated by the analysis (constant propagation through the current source, numpy types being constants) on "
    "every combination of scalar kind, size and byte order with every sub-array shape of up to five axes from a fixed set, and on records of one to "
    "four fields mixing them; the result must equal the source in base, names, order and shape.")

SCALARS = ["?", "i1", "<i2", ">i2", "<i4", ">i4", "<i8", ">i8", "u1", "<u2", ">u2", "<u4", ">u4", "<u8", ">u8", "<f2", "<f4", ">f4", "<f8", ">f8",
           "<c8", ">c8", "<c16", "S1", "S7", "S12", "<U3", ">U3", "<U11", "V1", "V6", "<M8[ns]", "<m8[s]", ">M8[D]", "O"]
SHAPES = [(), (2,), (3,), (4,), (10,), (12,), (2, 3), (3, 2), (4, 4), (1, 3), (3, 1), (2, 1, 2), (1, 1), (12, 3), (2, 3, 4), (2, 1, 3, 2), (1, 2, 1, 3, 2)]
NAMES = ["a", "x1", "position", "color_rgba", "Z", "é", "two words", "1", "f4", "x"]


def clients(ctx):
    thorough = ctx.tier == "thorough"
    where = "gsp/io/convert.py:numpy_dtype_to_str"
    pre = '''
import numpy as np
import gsp
from gsp.io.convert import convert
def check(dt):
    text = convert(dt, "str")
    __check__("the text of %s is text" % dt, isinstance(text, str))
    back = convert(text, "dtype")
    __check__("%s: same element type" % dt, back == dt)
    __check__("%s: same names, in order" % dt, back.names == dt.names)
    __check__("%s: same shape" % dt, back.shape == dt.shape)
    __check__("%s: same base" % dt, back.base == dt.base)
    if dt.names is not None:
        for n in dt.names:
            __check__("%s: field %s has the same shape" % (dt, n), back[n].shape == dt[n].shape)
            __check__("%s: field %s has the same base" % (dt, n), back[n].base == dt[n].base)
            __check__("%s: field %s has the same bytes" % (dt, n), back[n].base.str == dt[n].base.str)
    __check__("%s: the text is stable" % dt, convert(back, "str") == text)
'''
    out = []
    out.append(Client("scalars", pre + "for s in %r: check(np.dtype(s))\n" % SCALARS, where))
    out.append(Client("subarrays", pre + "for s in %r:\n    for h in %r: check(np.dtype((s, h)))\n" % (
        SCALARS if thorough else SCALARS[1:24:3], SHAPES[1:]), where))
    out.append(Client("length_one", pre + '''
for dt in (np.dtype(("f4", (1,))), np.dtype([("a", "f4", (1,))])):
    __check__("a sub-array of one element", convert(convert(dt, "str"), "dtype") == dt)
''', where))
    recs = []
    k = 0
    for nf in (1, 2, 3, 4) if not thorough else (1, 2, 3, 4, 5, 7):
        for rep in range(14 if not thorough else 80):
            fs = []
            for j in range(nf):
                k += 7
                fs.append((NAMES[(k + 3 * j) % len(NAMES)] + (str(j) if j else ""), SCALARS[(k * 5 + j) % len(SCALARS)], SHAPES[(k + j * j) % len(SHAPES)]))
            recs.append(fs)
    for i in range(0, len(recs), 14):
        out.append(Client("records_%d" % (i // 14), pre + "for f in %r: check(np.dtype(f))\n" % recs[i:i + 14], where))
    out.append(Client("examples", pre + '''
check(np.dtype([("position", np.float32, 3), ("color", np.float32, 4), ("size", np.float32)]))
check(np.dtype([("r", np.ubyte), ("g", np.ubyte), ("b", np.ubyte), ("a", np.ubyte)]))
check(np.zeros((4, 3), np.float32).dtype)
check(np.zeros(3).dtype)
__check__("different types have different texts", len({convert(np.dtype(s), "str") for s in %r}) == %d)
''' % ([s for s in SCALARS], len(SCALARS)), where))
    return out
