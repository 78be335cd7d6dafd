"""fragments shared by the analysis clients"""

# abstract data every transform client starts from: positions (n x 4), an environment for evaluation
DATA = '''
import numpy as np
from gsp.transform import *
P = __arr__("P", (3, 4))
Q = __arr__("Q", (3, 4), None, 0.25, 4.0)
k = __sym__("k", "float", 0.25, 3.0)
dpi = __sym__("dpi", "float", 50.0, 300.0)
env = {"dpi": dpi, "screen[positions]": P}
'''

# name -> (expression building a transform, value it denotes under env)
OPERANDS = {
    "x": ("X(P)", "P[..., 0]"),
    "y": ("Y(Q)", "Q[..., 1]"),
    "out": ('Out("screen[positions].z")', "P[..., [2]]"),
    "pixel": ("(k * Pixel())", "k"),
    "inch": ("(k * Inch())", "k * dpi"),
    "sum": ("(X(P) + Z(Q))", "(P[..., 0] + Q[..., 2])"),
    "nest": ("((X(P) - 2.0) * (Y(Q) + k))", "((P[..., 0] - 2.0) * (Q[..., 1] + k))"),
}
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
