"""C25: change tracking and renders."""
from ..run import Client
from .drawfrag import DRAW, MAT
from .c22 import ATTRS, FIXED, SIZE, scene

PROPERTY = "C25"
FLOOR = 150
EXPLANATION = (
    "For each visual, rendered with arrays tracked by an observing tracker: a render creates no tracker, sends no notification, "
    "leaves the trackers of its arrays alone and leaves tracking as it found it (on or off), on every way out: normal end, a "
    "value that cannot be evaluated, a refused attribute, and any failure of the drawing library. Writes after the render "
    "are notified again.")

TRACK = '''
from gsp_matplotlib import glm
class T:
    log = []
    made = []
    def __init__(self, a):
        T.made.append(1)
        self.mark = len(T.made)
    def set_data(self, offset, data):
        T.log.append((offset, data))
glm.ndarray.tracked.__tracker_class__ = T
def tracked(a):
    return a.view(glm.ndarray.tracked)
def state():
    return [len(T.log), len(T.made)]
'''


def clients(ctx):
    out = []
    for cls in ATTRS:
        where = "gsp_matplotlib/visual/%s.py:%s.render" % (cls.lower(), cls)
        pre, args, want = scene(cls, 3, "each")
        names = ["P"] + [a + "_a" for a in ATTRS[cls]]
        arrays = "".join("%s = tracked(%s)\n" % (a, a) for a in names)
        head = DRAW + MAT + TRACK + pre + arrays + "arrays = [%s]\n" % ", ".join(names)
        head += """
trackers = [a._tracker for a in arrays]
values = [a + 0.0 for a in arrays]
def compare(title, on):
    __ident__(title + ": tracking as before", glm.ndarray.tracked.__tracker_class__, on)
    __same__(title + ": no notification, no new tracker", state(), before)
    for a, t, x in zip(arrays, trackers, values):
        __ident__(title + ": tracker of an array", a._tracker, t)
        __same__(title + ": array as before", a, x)
"""
        make = "v = visual.%s(P, %s)\n" % (cls, args)
        out.append(Client("%s_render" % cls, head + make + """
before = state()
v.render(viewport)
compare("rendered", T)
v.render(viewport, M, V, J)
compare("rendered again", T)
v.render(viewport2)
compare("rendered elsewhere", T)
for f in __callbacks__("resize_event"):
    f(None)
compare("resized", T)
glm.ndarray.tracked.__tracker_class__ = None
v.render(viewport)
compare("rendered while tracking is off", None)
glm.ndarray.tracked.__tracker_class__ = T
%s
__same__("later writes are notified", len(T.log), before[0] + %d)
""" % ("\n".join("%s[0] = 0.5" % a for a in names), len(names)), where))
        # failures of the drawing library
        for pats in (("Axes.", "Figure"), ("Collection.",)):
            out.append(Client("%s_fails_%s" % (cls, pats[0].strip(".")), head + make + """
before = state()
__mayraise__(%s)
try:
    v.render(viewport, M)
except Exception:
    pass
__mayraise__()
compare("a failed render", T)
__mayraise__(%s)
try:
    v.render(viewport2)
except Exception:
    pass
__mayraise__()
compare("a second failed render", T)
""" % (", ".join(map(repr, pats)), ", ".join(map(repr, pats))), where))
        # values that cannot be evaluated
        for a in ATTRS[cls] + ["positions"] + (["indices"] if "indices" in FIXED.get(cls, {}) else []):
            for bad in ('Out("nothing")', '"text"', "Transform()"):
                out.append(Client("%s_bad_%s_%s" % (cls, a, bad[:3].strip('"')), head + make + """
before = state()
v.set_variable(%r, %s)
k = len(T.made)
try:
    v.render(viewport)
except Exception:
    pass
compare("a refused %s", T)
""" % (a, bad, a), where))
    return out
