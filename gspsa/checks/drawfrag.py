"""fragments shared by the clients about drawing

DRAW: oracle functions of the drawing clients, written from the definitions (homogeneous image, depth order,
matplotlib's rule that the k-th drawn element takes the k-th entry of a property, cycling)."""

DRAW = '''
import numpy as np
import matplotlib as mpl
import gsp, gsp_matplotlib
from gsp.io import record
from gsp.core import Color, Marker, LineCap, LineStyle, LineJoin
from gsp.transform import *
from gsp_matplotlib import visual
record(False)
canvas = gsp_matplotlib.core.Canvas(400, 200, 100.0)
viewport = gsp_matplotlib.core.Viewport(canvas, 0, 0, 400, 200, Color(1.0, 1.0, 1.0, 1.0))
viewport2 = gsp_matplotlib.core.Viewport(canvas, 0, 0, 200, 200, Color(1.0, 1.0, 1.0, 1.0))

def image(p, T):
    """image of a point under a 4x4 matrix, divided by its weight"""
    p = [x for x in p] + [0.0] * (3 - len(p)) + [1.0]
    c = [sum([T[r][k] * p[k] for k in range(4)]) for r in range(4)]
    return [c[0] / c[3], c[1] / c[3], c[2] / c[3]]

def product(A, B):
    return [[sum([A[r][k] * B[k][c] for k in range(4)]) for c in range(4)] for r in range(4)]

def centre(points):
    return [sum([p[c] for p in points]) / len(points) for c in range(3)]

def far_first(depths):
    """elements in drawing order: the larger the depth, the earlier"""
    return np.argsort(np.array([-d for d in depths]))

def slot(v, k, width=None):
    """k-th entry of a property of a collection; a single entry stands for all"""
    if v is None:
        return None
    if not (__isarr__(v) or isinstance(v, (list, tuple, np.ndarray))):
        return v
    v = np.asarray(v)
    if v.ndim == 0:
        return v[()]
    if width is not None and v.ndim == 1:
        return v
    v = v[k % len(v)]
    if width is None and __isarr__(v):
        v = v.ravel()[0]
    return v

def drawn(prop, kind):
    return [__xget__(c, "@" + prop) for c in __ext__(kind)]

def pick(items, order, k):
    """what belongs to the element drawn as k-th"""
    return np.array(items)[order[k]]
'''

MAT = '''
M = __arr__("M", (4, 4), None, 0.25, 2.0)
V = __arr__("V", (4, 4), None, 0.25, 2.0)
J = __arr__("J", (4, 4), None, 0.25, 2.0)
I4 = [[1.0 if r == c else 0.0 for c in range(4)] for r in range(4)]
'''
