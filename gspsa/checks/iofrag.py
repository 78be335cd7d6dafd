"""queues with commands of every parameter kind, and the JSON image each value must have"""

BASE = '''
import base64
import numpy as np
import gsp, gsp_matplotlib
from gsp import core, visual, transform
from gsp.object import Object, OID
from gsp.io import queue, record, json, ansi, text
from gsp.io.command import command, Command, CommandQueue
from gsp.io.convert import Converter, register
from gsp.core import Color, Marker, LineCap, LineStyle, LineJoin
class Thing(Object):
    @command("ns.Thing")
    def __init__(self, a=None, b=1.5):
        Object.__init__(self)
    @command()
    def put(self, v): pass
    @command("set")
    def put2(self, v: Object = None, w: float = 0.5): pass
n, x, y = __sym__("n", "int", -9, 9), __sym__("x"), __sym__("y")
s = __sym__("s", "str")
raw = bytes(range(20))
arr = __arr__("arr", (3, 2), "f4")
'''

# expression -> expression of its JSON image
VALUES = [
    ("n", "n"), ("x", "x"), ("0", "0"), ("0.0", "0.0"), ("True", "True"), ("False", "False"), ("None", "None"), ("s", "s"), ('""', '""'),
    ('"text with \\"quotes\\", é and /"', '"text with \\"quotes\\", é and /"'), ("[]", "[]"), ("[n, x, [y]]", "[n, x, [y]]"),
    ("(n, x)", "[n, x]"), ("{'k': x, 'l': [n]}", "{'k': x, 'l': [n]}"), ("Color(x, y, 0.5, 1.0)", "[x, y, 0.5, 1.0]"),
    ("core.Vec3(x, y, 1.0)", "[x, y, 1.0]"), ("Marker.star", "7"), ("LineCap.round", "int(LineCap.round)"),
    ("raw", "base64.b64encode(raw).decode()"), ("memoryview(raw)", "base64.b64encode(raw).decode()"), ("b''", "''"),
    ("np.dtype('f4')", "'float32'"), ("np.dtype('>i2')", "'>i2'"), ("np.dtype('u1')", "'uint8'"),
    ("memoryview(arr)", "base64.b64encode(bytes(arr)).decode()"), ("arr[::2].data", "base64.b64encode(bytes(arr[::2])).decode()"),
    ("np.asfortranarray(arr).data", "base64.b64encode(bytes(arr)).decode()"), ("arr.T.data", "base64.b64encode(bytes(arr.T)).decode()"),
    ("arr", "base64.b64encode(bytes(arr)).decode()"), ("arr.T", "base64.b64encode(bytes(arr.T)).decode()"),
    ("arr[1:, :1]", "base64.b64encode(bytes(arr[1:, :1])).decode()"),
    ("np.dtype(('f4', (3,)))", "'<f4::3'"), ("np.dtype(('<i2', (4, 4)))", "'<i2::4x4'"), ("np.dtype([('a', '<f4', (3,)), ('b', 'u1')])", "'<f4:a:3,|u1:b:1'"),
    ("[Color(x, 0.0, 0.0, 1.0), raw]", "[[x, 0.0, 0.0, 1.0], base64.b64encode(raw).decode()]"),
]
'''values given by conversions: (source value, function body, image)'''
CONV = [("x", "return [v, v]", "[x, x]"), ("n", "return Color(v * 1.0, 0.0, 0.5, 1.0)", "[n * 1.0, 0.0, 0.5, 1.0]"),
        ("s", "return raw", "base64.b64encode(raw).decode()"), ("x", "return None", "None"), ("x", "return 0", "0"), ("s", "return ''", "''")]
