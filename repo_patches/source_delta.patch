From 235db099d81e6db0c8a01787a82dbc851c2604f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 01/91] fix: copying an operator keeps a right operand that is
 not a transform

---
 gsp/transform/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 81c1a8d..9a61786 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -115,7 +115,7 @@ class Operator(Transform):
         if isinstance(self._right, Transform):
             transform.set_right(self._right.copy())
         else:
-            transform.set_left(self._left)
+            transform.set_right(self._right)
 
         return transform
 
-- 
2.43.0


From 5c36319bce91be3727b7da55101081b586eca00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 02/91] fix: a value can be divided by a transform

---
 gsp/transform/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2bac37a..e986a0a 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -193,6 +193,9 @@ class Transform(Object):
         from gsp.transform import Div
         return Div(self, other)
 
+    def __rtruediv__(self, other):
+        from gsp.transform import Div
+        return Div(other, self)
 
     def __repr__(self):
 
-- 
2.43.0


From 2ade0a9dc4b4a57c60657ec74ce045a1d8796fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 03/91] fix: chaining onto a chain keeps all the links of the
 chain

---
 gsp/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index e986a0a..476c716 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -151,8 +151,8 @@ class Transform(Object):
 
         transform = self.copy()
         if isinstance(other, Transform):
-            transform.set_next(other.copy())
-            transform.set_buffer(None)
+            transform.last.set_buffer(None)
+            transform.last.set_next(other.copy())
         elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
             if self.bound:
                 raise ValueError("Transform is already bound")
-- 
2.43.0


From eb5cfab216c81854818b5c4139ba45de57e72ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 04/91] fix: a transform can be bound to a tuple

---
 gsp/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 476c716..111845d 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -66,7 +66,7 @@ class Transform(Object):
         self._next = next
 
     @command()
-    def set_buffer(self, buffer : Transform | Buffer | float | int = None):
+    def set_buffer(self, buffer : Transform | Buffer | float | int | tuple = None):
         """Bind the transform to the given buffer.
 
         Parameters
-- 
2.43.0


From 1b649ef21cc3bd2a4033ff19018419313efbe51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 05/91] fix: bound can be read on an operator having a constant
 operand

---
 gsp/transform/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 9a61786..23196e5 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -46,7 +46,8 @@ class Operator(Transform):
         Indicate if this transform is bound
         """
 
-        return self.left.bound and self.right.bound
+        return all(operand.bound for operand in (self.left, self.right)
+                   if isinstance(operand, Transform))
 
     @property
     def operator(self):
-- 
2.43.0


From 20e1c6447c34616eaf64ddfc572f895ef5d1c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 06/91] fix: a transform bound to an array or a number can be
 represented

---
 gsp/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 111845d..8b8e457 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -206,6 +206,6 @@ class Transform(Object):
 
         if self._next:
             s += "(%s)" % repr(self._next.id)
-        elif self._buffer:
-            s += "(%s)" % repr(self._buffer.id)
+        elif self._buffer is not None:
+            s += "(%s)" % repr(getattr(self._buffer, "id", self._buffer))
         return s
-- 
2.43.0


From 16f4beef5eecebf6dd9b730305528cab0b55bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 07/91] fix: a meter is one hundred centimeters

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 4975fd7..27aad07 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -214,7 +214,7 @@ class Meter(Measure):
         """Evaluate the transform"""
 
         measure = Measure.evaluate(self, variables)
-        return 10e2*self.dpi(variables)/2.54 * measure
+        return 1e2*self.dpi(variables)/2.54 * measure
 
 class Kilometer(Measure):
     """
-- 
2.43.0


From e824ee485dcb6775116b18daa38d4baffaef5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 08/91] fix: a generic measure can be created

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 27aad07..e842670 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -45,7 +45,7 @@ class Measure(Transform):
 
     @command("transform.Measure")
     def __init__(self):
-        super.__init__(__no_command__ = True)
+        super().__init__(__no_command__ = True)
 
 
     def evaluate(self, variables):
-- 
2.43.0


From 01c528f22d26adb4bb744736c0439c6abf4caf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 09/91] fix: a colormap bound of zero is used

---
 gsp/transform/colormap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 7bae427..ed6e8c3 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -79,6 +79,7 @@ class Colormap(Transform):
         else:
             value = self._buffer
         cmap = plt.get_cmap(self._colormap)
-        norm = mpl.colors.Normalize(vmin=self._vmin or value.min(),
-                                    vmax=self._vmax or value.max())
+        vmin = value.min() if self._vmin is None else self._vmin
+        vmax = value.max() if self._vmax is None else self._vmax
+        norm = mpl.colors.Normalize(vmin=vmin, vmax=vmax)
         return cmap(norm(value))
-- 
2.43.0


From 67c8be715a074806f156f5967eea9ec08c3f44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 10/91] fix: the colormap of a colormap transform can be
 changed

---
 gsp/transform/colormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index ed6e8c3..e37708e 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -52,7 +52,7 @@ class Colormap(Transform):
         colormap:
             Name of the colormap
         """
-        pass
+        self._colormap = colormap
 
     def copy(self):
         """
-- 
2.43.0


From 963d5c889d0d88a230663fbb9771401c5b1ad3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 11/91] fix: an unknown key of an out variable is reported

---
 gsp/transform/out.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 4df39a1..0ac535a 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -60,6 +60,8 @@ class Out(Transform):
                 if set(key).issubset(set(swizzle)):
                     index = [swizzle.index(c) for c in key]
                     break
+            else:
+                raise ValueError(f"Unknown key {key}")
         else:
             name = self.name
             index = None
-- 
2.43.0


From f9310e29427a5310f9046451e1738c7d88483eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 12/91] fix: a parameter given an object is not recorded a
 second time with its default

---
 gsp/io/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4502ae4..e955958 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -233,14 +233,14 @@ def command(name=None):
 
             # Named parameters
             for key,value in zip(kwargs.keys(), kwargs.values()):
-                if key not in parameters.keys():
+                if not {key, key + "(id)"} & parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
 
             # Default parameters
             for key,value in defaults.items():
-                if key not in parameters.keys():
+                if not {key, key + "(id)"} & parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
-- 
2.43.0


From d1435be3acc30895a1968e358dd08a954df48f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 13/91] fix: a value of one of the annotated types is recorded
 unconverted

---
 gsp/io/command.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index e955958..0e32cc7 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -268,6 +268,7 @@ def command(name=None):
                             isinstance(parameter_type,annotated_type) or
                             issubclass(parameter_type,annotated_type)):
                             check = True
+                            parameters[key] = value
                             break
                         elif parameter_type == types.NoneType:
                             check = True
-- 
2.43.0


From a144a17529087bbc8ab5529f6772d16c95c1a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 14/91] fix: the queue created by recording is the default
 queue

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 0e32cc7..4b2d885 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -62,7 +62,7 @@ class NamedSingleton(type):
     def __call__(cls, name="default", *args, **kwargs):
         if name == "active" or name is None:
             if CommandQueue.active is None:
-                CommandQueue.active = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
+                cls._instances["default"] = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
             return CommandQueue.active
         if name not in cls._instances.keys():
             cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
-- 
2.43.0


From e89073c702dbf7d25a7e237a5d6f265980871e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 15/91] fix: a queue whose run fails is left as it was

---
 gsp/io/command.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4b2d885..2af83d2 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -149,9 +149,11 @@ class CommandQueue(metaclass = NamedSingleton):
 
         readonly = self.readonly
         self.readonly = True
-        for command in self.commands:
-            command.execute(backend_module)
-        self.readonly = readonly
+        try:
+            for command in self.commands:
+                command.execute(backend_module)
+        finally:
+            self.readonly = readonly
 
 
     def push(self, command):
-- 
2.43.0


From 4c2e43c7805f5356d2a62ba512852181961ba5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 16/91] fix: a parameter given by identity is passed when a
 command is executed

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 2af83d2..1a26577 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -422,7 +422,7 @@ class Command:
             if key.endswith("(id)"):
                 _parameters[key[:-4]] = Object.objects[value]
             elif isinstance(value, OID):
-                parameters[key] = Object.objects[value]
+                _parameters[key] = Object.objects[value]
             elif isinstance(value, Converter):
                 _parameters[key] = value()
             else:
-- 
2.43.0


From 516fb8913829bedd05ddccc77639e4520e2a0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 17/91] fix: a recorded queue can be run without being saved
 and loaded

---
 gsp/io/command.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 1a26577..501bc96 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -436,11 +436,9 @@ class Command:
         #         parameters[key] = value()
 
         if "." in self.methodname:
-            module, name = self.methodname.split(".")
-            if len(module) > 0:
-                func = getattr(globals[module], name)
-            else:
-                func = eval(name, globals, locals)
+            func = backend_module
+            for name in self.methodname.split("."):
+                func = getattr(func, name)
             object = func(**parameters)
             object.id = oid
             Object.objects[oid] = object
-- 
2.43.0


From 620f4f870284359a5267a5d5352afd12bd4a8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 18/91] fix: a new object never takes the id of a registered
 object

---
 gsp/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp/object.py b/gsp/object.py
index 50ada14..fcacffa 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -29,6 +29,8 @@ class OID(int):
 
         if oid is None:
             oid = 1 + next(OID.counter)
+            while oid in Object.objects:
+                oid = 1 + next(OID.counter)
         else:
             oid = int(oid)
         return super(OID, cls).__new__(cls, oid)
-- 
2.43.0


From 93f616bdbca00e5af4ffda51e3513e6801389a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 19/91] fix: a converter is found for any base type of a value

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index d4f63d0..6d72b5d 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -119,7 +119,7 @@ def get_converter(value : object,
         return converter
 
     # Get converter from bases
-    for base in value.__class__.__bases__:
+    for base in value.__class__.__mro__[1:]:
         src_type = base.__name__
         converter = is_registered(src_type, dst_type)
         if converter:
-- 
2.43.0


From ce36f0f4ddad2ece388ef9d018f6872c9ef8e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 20/91] fix: the shape of multi-dimensional sub-arrays survives
 the conversion of a dtype

---
 gsp/io/convert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 6d72b5d..a41b551 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -147,12 +147,12 @@ def numpy_dtype_to_str(dt):
     if dt.names:
         elements = []
         for name in dt.names:
-            size = int(np.prod(dt[name].shape))
+            size = "x".join(str(n) for n in dt[name].shape) or 1
             type = dt[name].base.str
             elements.append (f"{type}:{name}:{size}")
         return ",".join(elements)
     else:
-        size = int(np.prod(dt.shape))
+        size = "x".join(str(n) for n in dt.shape) or 1
         type = dt.base.str
         return f"{type}::{size}"
 
@@ -162,14 +162,15 @@ def numpy_str_to_dtype(desc):
     elements = desc.split(",")
     for element in elements:
         type,name,size = element.split(":")
+        shape = tuple(int(n) for n in size.split("x")) if size else ()
         if name :
-            if size and int(size) > 1:
-                dt.append((name, type, int(size)))
+            if shape and shape != (1,):
+                dt.append((name, type, shape))
             else:
                 dt.append((name, type))
         else:
-            if size and int(size) > 1:
-                dt.append((type, int(size)))
+            if shape and shape != (1,):
+                dt.append((type, shape))
             else:
                 dt.append(type)
     if len(dt) == 1 and not len(name):
-- 
2.43.0


From a11a04d7b3eaae7a0cb9d60f991e6b56f2e32e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 21/91] fix: an empty queue given to dump, save or load is used

---
 gsp/io/ansi.py | 2 +-
 gsp/io/json.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 204dacd..f4b8d5d 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -76,7 +76,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
     for command in queue.commands:
         commands += dump_command(command, stream=None)
diff --git a/gsp/io/json.py b/gsp/io/json.py
index adc4aaf..182fdac 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -60,7 +60,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
         commands.append(dump_command(command, stream=None))
@@ -76,7 +76,7 @@ def dump(queue=None, filename=None):
 def save(filename, queue = None ):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     dump(queue, filename)
 
 
@@ -87,7 +87,7 @@ def load(filename, queue = None):
         commands = json.load(stream)["commands"]
 
     # Get default command queue
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     queue.empty()
 
     for command in commands:
-- 
2.43.0


From 21e6440473e595b57cef66283987a5b3047aff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 22/91] fix: objects created when exporting a queue are defined
 before use and not recorded

---
 gsp/io/json.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 182fdac..0b2d53e 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -61,9 +61,17 @@ def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
     queue = CommandQueue("active") if queue is None else queue
+    active = CommandQueue("active")
     commands = []
-    for command in queue.commands:
-        commands.append(dump_command(command, stream=None))
+    for command in list(queue.commands):
+        # Just in time conversions may create new objects: these need to be
+        # defined before the command and do not belong to the queue.
+        count = len(active.commands)
+        payload = dump_command(command, stream=None)
+        created = active.commands[count:]
+        del active.commands[count:]
+        commands.extend(dump_command(c, stream=None) for c in created)
+        commands.append(payload)
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From 3d01ad0bcace3cbe8276d3182bdeb42105392518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 23/91] fix: a queue can be dumped as text

---
 gsp/io/text.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gsp/io/text.py b/gsp/io/text.py
index 3e2312a..9b88c2d 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -40,12 +40,22 @@ def dump_command(command, stream=sys.stdout):
 
         # Immediate conversion for lisibility in the documentation
         if isinstance(value, Converter):
-            value = str(value()) + " (converted)"
+            value = value()
+            if isinstance(value, Object):
+                value = value.id
+            else:
+                value = str(value) + " (converted)"
 
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
-            vtype = command.annotations[key]
+            if key.endswith("(id)"):
+                key = key[:-4]
+                vtype = command.annotations[key]
+                key += "_ID"
+            else:
+                vtype = command.annotations[key]
+
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
             else:
@@ -61,9 +71,9 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue.get_default()
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
-    for command in queue._commands:
+    for command in queue.commands:
         commands += dump_command(command, stream=None)
         commands += "\n"
 
-- 
2.43.0


From 8ef755ab3c5c6fba3acf06bc184c2db7e38b330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 24/91] fix: commands loaded from a file can be dumped

---
 gsp/io/ansi.py | 5 +++--
 gsp/io/text.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index f4b8d5d..c8e3526 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -38,6 +38,7 @@ def dump_command(command, stream=sys.stdout):
     s += "     - COMMAND_ID: %s" % command.id + dim(" (int)\n")
     s += "     - TIMESTAMP: %s" % date.strftime("%Y-%m-%dT%H:%M:%S.%f") + dim(" (datetime)\n")
     s += dim("   PARAMETERS\n")
+    annotations = command.annotations or {}
     for key,value in command.parameters.items():
 
         # Immediate conversion for lisibility in the documentation
@@ -53,10 +54,10 @@ def dump_command(command, stream=sys.stdout):
         else:
             if key.endswith("(id)"):
                 key = key[:-4]
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, type(value))
                 key += "_ID"
             else:
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, type(value))
 
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
diff --git a/gsp/io/text.py b/gsp/io/text.py
index 9b88c2d..1fd44cf 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -36,6 +36,7 @@ def dump_command(command, stream=sys.stdout):
     s += "     - COMMAND_ID: %s" % command.id + dim(" (int)\n")
     s += "     - TIMESTAMP: %s" % date.strftime("%Y-%m-%dT%H:%M:%S.%f") + dim(" (datetime)\n")
     s += dim("   PARAMETERS\n")
+    annotations = command.annotations or {}
     for key,value in command.parameters.items():
 
         # Immediate conversion for lisibility in the documentation
@@ -51,10 +52,10 @@ def dump_command(command, stream=sys.stdout):
         else:
             if key.endswith("(id)"):
                 key = key[:-4]
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, type(value))
                 key += "_ID"
             else:
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, type(value))
 
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
-- 
2.43.0


From a842db670c564e4a65056c6fc3a8228a164c31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 25/91] fix: dumping a queue does not add commands to it

---
 gsp/io/ansi.py | 12 +++++++++---
 gsp/io/text.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index c8e3526..0e207ad 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -79,9 +79,15 @@ def dump(queue=None, filename=None):
 
     queue = CommandQueue("active") if queue is None else queue
     commands = ""
-    for command in queue.commands:
-        commands += dump_command(command, stream=None)
-        commands += "\n"
+    # Conversions may create new objects: these must not be recorded
+    active = CommandQueue("active")
+    readonly, active.readonly = active.readonly, True
+    try:
+        for command in queue.commands:
+            commands += dump_command(command, stream=None)
+            commands += "\n"
+    finally:
+        active.readonly = readonly
 
     if filename is None:
         return commands
diff --git a/gsp/io/text.py b/gsp/io/text.py
index 1fd44cf..0a25691 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -74,9 +74,15 @@ def dump(queue=None, filename=None):
 
     queue = CommandQueue("active") if queue is None else queue
     commands = ""
-    for command in queue.commands:
-        commands += dump_command(command, stream=None)
-        commands += "\n"
+    # Conversions may create new objects: these must not be recorded
+    active = CommandQueue("active")
+    readonly, active.readonly = active.readonly, True
+    try:
+        for command in queue.commands:
+            commands += dump_command(command, stream=None)
+            commands += "\n"
+    finally:
+        active.readonly = readonly
 
     if filename is None:
         return commands
-- 
2.43.0


From 7a03bfc3d925bfe5ea011d9ac0aaba439eaca6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 26/91] fix: unimplemented methods raise NotImplementedError

---
 gsp/io/ansi.py                  | 2 +-
 gsp/io/text.py                  | 2 +-
 gsp_matplotlib/core/viewport.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 0e207ad..0970e4d 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -104,4 +104,4 @@ def save(queue, filename):
 def load(filename):
     """ Load commands from JSON file into the default command queue """
 
-    raise NotImplemented
+    raise NotImplementedError
diff --git a/gsp/io/text.py b/gsp/io/text.py
index 0a25691..be7439c 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -99,4 +99,4 @@ def save(queue, filename):
 def load(filename):
     """ Load commands from JSON file into the default command queue """
 
-    raise NotImplemented
+    raise NotImplementedError
diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 55b224b..5905854 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -47,7 +47,7 @@ class Viewport(core.Viewport):
 
 
     def render(self, target : str):
-        raise NotImplemented
+        raise NotImplementedError
 
 
     def _update(self):
-- 
2.43.0


From ad3f6fd340693372d2dbffd993511635b262d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 27/91] fix: a string (base64) can be converted to a memoryview

---
 gsp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 3e62dcb..ff7dc31 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -18,7 +18,8 @@ if sys.version_info < (3, 11):
 
 @io.register("str", "memoryview")
 def str_to_memoryview(obj):
-    return memoryview(bytes(obj))
+    import base64
+    return memoryview(base64.b64decode(obj))
 
 @io.register("list", "Color")
 def list_to_Color(obj):
-- 
2.43.0


From 86d3000929b545bbce8901626dcb40c5844f8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 28/91] fix: a color can be converted to a list or a tuple

---
 gsp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index ff7dc31..5df3a38 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -31,11 +31,11 @@ def tuple_to_Color(obj):
 
 @io.register("Color", "list")
 def Color_to_list(obj):
-    return obj._color.tolist()
+    return list(obj)
 
 @io.register("Color", "tuple")
 def Color_to_tuple(obj):
-    return tuple(obj._color.tolist())
+    return tuple(obj)
 
 @io.register("list", "tuple")
 def list_to_tuple(obj):
-- 
2.43.0


From 00ef85cc5c53d24d168ce98e91951d3d74fff0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 29/91] fix: arrays and lists can be converted to matrices,
 buffers and lists

---
 gsp_matplotlib/__init__.py  | 9 +++++----
 gsp_matplotlib/core/list.py | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index be10153..5dcd6de 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,7 +5,8 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
-from gsp.core.types import Marker
+from .core.list import List
+from gsp.core.types import Marker, Matrix
 
 from . import core
 from . import visual
@@ -34,16 +35,16 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
+    Z = np.array(obj).view(glm.ndarray.tracked)
     return Z._tracker.gsp_buffer
 
 @register("list", "List")
 def list_to_List(obj):
     count = [len(sublist) for sublist in obj]
-    count = glm.ndarray.tracked(count)
+    count = np.array(count).view(glm.ndarray.tracked)
     items = [item for sublist in obj for item in sublist]
     # items = glm.ndarray.tracked(items)
-    items = items.view(glm.ndarray.tracked)
+    items = np.array(items).view(glm.ndarray.tracked)
     return List(items, count)
 
 @register("int", "Marker")
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 37a57f0..a4e0373 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp.io.command import command, register
 
 from gsp import core
+from .buffer import Buffer
 
 class List(core.List):
 
-- 
2.43.0


From 08fc0c4ccd949a993e3191bbc9d0b1d6d4bb6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 30/91] fix: the length of a list of fixed-size items

---
 gsp/core/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/core/list.py b/gsp/core/list.py
index ddca82f..61301c6 100644
--- a/gsp/core/list.py
+++ b/gsp/core/list.py
@@ -41,7 +41,7 @@ class List(Object):
         """ Return the number of items in the list """
         
         if isinstance(self._itemsizes, (int)):
-            return len(data) / self._itemsizes
+            return len(self._data) // self._itemsizes
         else:
             return len(self._itemsizes)
         
-- 
2.43.0


From 0854d47f666b7c9d2a4ed4181c294b9474f5c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 31/91] fix: segments are recorded as segments

---
 gsp_matplotlib/visual/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 3ad7918..95949b7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -16,7 +16,7 @@ class Segments(visual.Segments):
 
     __doc__ = visual.Segments.__doc__
 
-    @command("visual.Points")
+    @command("visual.Segments")
     def __init__(self, positions   : Transform | Buffer,
                        line_caps   : Transform | Buffer | LineCap,
                        line_colors : Transform | Buffer | Color,
-- 
2.43.0


From dbec1bd64e645504445dd2e7d0400cb317060c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 32/91] fix: recorded data and transforms can be replayed by
 the matplotlib backend

---
 gsp_matplotlib/__init__.py      | 1 +
 gsp_matplotlib/core/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 5dcd6de..77ba1a0 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -10,6 +10,7 @@ from gsp.core.types import Marker, Matrix
 
 from . import core
 from . import visual
+from gsp import transform
 
 
 # This part ensures tracked array have an accompanying
diff --git a/gsp_matplotlib/core/__init__.py b/gsp_matplotlib/core/__init__.py
index 0b30ae8..af6bdcc 100644
--- a/gsp_matplotlib/core/__init__.py
+++ b/gsp_matplotlib/core/__init__.py
@@ -7,5 +7,5 @@ from . list import List
 from . buffer import Buffer
 from . canvas import Canvas
 from . viewport import Viewport
-from gsp.core import Color, Marker, Measure
+from gsp.core import Color, Data, Marker, Measure
 #from . types import LineCap, LineStyle, LineJoin
-- 
2.43.0


From c954238ed3b98fef3ae21bb2aa944ee4f1688cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 33/91] fix: the representation of a list made from arrays

---
 gsp_matplotlib/core/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index a4e0373..28b740c 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -21,4 +21,4 @@ class List(core.List):
         return self._data.__array__()
 
     def __repr__(self):
-        return f"List({len(self)}, {self._data._dtype})"
+        return f"List({len(self)}, {np.asanyarray(self._data).dtype})"
-- 
2.43.0


From 38b9338381e0a3840f6a0d163a7f580ab8bcad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 34/91] fix: markers having an axis can be created from a
 buffer

---
 gsp_matplotlib/visual/markers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 20550f7..31ec6a9 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -37,6 +37,9 @@ class Markers(visual.Markers):
         angles = self.eval_variable("angles")
         self.paths = []
 
+        if axis is not None:
+            positions = np.asanyarray(positions).reshape(-1,3)
+
         for i in range(len(positions)):
             try:
                 mtype = types[i]
-- 
2.43.0


From 06bf95544590755f0acd18197a9a65ea5f69ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 35/91] fix: transforms bound to a buffer can be evaluated

---
 gsp/transform/accessor.py | 2 +-
 gsp/transform/colormap.py | 5 ++++-
 gsp/transform/operator.py | 5 +++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 7d2ea13..779aeb8 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -37,7 +37,7 @@ class Accessor(Transform):
         if self._next:
             buffer = self._next.evaluate(buffers)
         elif self._buffer is not None:
-            buffer = self._buffer
+            buffer = np.asanyarray(self._buffer)
         else:
             raise ValueError("Transform is not bound")
 
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index e37708e..95e9200 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from gsp.io.command import command
 from gsp.transform import Transform
@@ -76,8 +77,10 @@ class Colormap(Transform):
 
         if self._next:
             value = self._next.evaluate(buffers)
+        elif self._buffer is not None:
+            value = np.asanyarray(self._buffer)
         else:
-            value = self._buffer
+            raise ValueError("Transform is not bound")
         cmap = plt.get_cmap(self._colormap)
         vmin = value.min() if self._vmin is None else self._vmin
         vmax = value.max() if self._vmax is None else self._vmax
diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 23196e5..324cd93 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
@@ -124,11 +125,15 @@ class Operator(Transform):
 
         if isinstance(self._left, Transform):
             left = self._left.evaluate(variables)
+        elif isinstance(self._left, Buffer):
+            left = np.asanyarray(self._left)
         else:
             left = self._left
 
         if isinstance(self._right, Transform):
             right = self._right.evaluate(variables)
+        elif isinstance(self._right, Buffer):
+            right = np.asanyarray(self._right)
         else:
             right = self._right
 
-- 
2.43.0


From c14e0390370fcdaf1e39b801b1d05fdaf75fdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 36/91] fix: an accessor key of several letters is refused

---
 gsp/transform/accessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 779aeb8..60948dd 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -43,9 +43,9 @@ class Accessor(Transform):
 
         if buffer.dtype.names:
             buffer = buffer[self._key]
-        elif self._key in "xyzw":
+        elif self._key in tuple("xyzw"):
             buffer = buffer[..., "xyzw".index(self._key)]
-        elif self._key in "rgba":
+        elif self._key in tuple("rgba"):
             buffer = buffer[..., "rgba".index(self._key)]
         else:
             raise IndexError(f"Unknown key {self._key}")
-- 
2.43.0


From 8cdc4e4ac14f322d17847864d26d0620cc9551b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 37/91] fix: a transform given as the buffer of a transform is
 evaluated

---
 gsp/transform/accessor.py | 2 ++
 gsp/transform/colormap.py | 2 ++
 gsp/transform/measure.py  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 60948dd..be497dc 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -36,6 +36,8 @@ class Accessor(Transform):
     def evaluate(self, buffers=None):
         if self._next:
             buffer = self._next.evaluate(buffers)
+        elif isinstance(self._buffer, Transform):
+            buffer = self._buffer.evaluate(buffers)
         elif self._buffer is not None:
             buffer = np.asanyarray(self._buffer)
         else:
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 95e9200..6cef364 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -77,6 +77,8 @@ class Colormap(Transform):
 
         if self._next:
             value = self._next.evaluate(buffers)
+        elif isinstance(self._buffer, Transform):
+            value = self._buffer.evaluate(buffers)
         elif self._buffer is not None:
             value = np.asanyarray(self._buffer)
         else:
diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index e842670..28a9bc1 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -76,6 +76,8 @@ class Measure(Transform):
 
         if self._next:
             value = self._next.evaluate(variables)
+        elif isinstance(self._buffer, Transform):
+            value = self._buffer.evaluate(variables)
         elif self._buffer is not None:
             value = self._buffer
         else:
-- 
2.43.0


From b34051993ae4cae2afb7d1598aba558a1e76b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 38/91] fix: positions having two components

---
 gsp_matplotlib/visual/markers.py  | 6 ++++--
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/points.py   | 2 +-
 gsp_matplotlib/visual/polygons.py | 2 +-
 gsp_matplotlib/visual/segments.py | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 31ec6a9..4ac40b7 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -38,7 +38,9 @@ class Markers(visual.Markers):
         self.paths = []
 
         if axis is not None:
-            positions = np.asanyarray(positions).reshape(-1,3)
+            positions = np.asanyarray(positions)
+            positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
+            positions = glm.to_vec3(positions)
 
         for i in range(len(positions)):
             try:
@@ -104,7 +106,7 @@ class Markers(visual.Markers):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
 
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b1df20d..b6abb0c 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -75,7 +75,7 @@ class Paths(visual.Paths):
         # Project positions onto screen
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 57e9ac8..6956793 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -61,7 +61,7 @@ class Points(visual.Points):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Invert depth buffer values before sorting
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index e0d737b..c4d24e6 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -71,7 +71,7 @@ class Polygons(visual.Polygons):
         # Project positions onto screen
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 95949b7..c7cdb5d 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -60,7 +60,7 @@ class Segments(visual.Segments):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
         positions = positions.reshape(-1,2,3)
 
-- 
2.43.0


From e6b1b4acdeea2d720c82479cda7640679152a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 39/91] fix: pixels, points and markers accept a transform as
 positions

---
 gsp/visual/markers.py            | 2 ++
 gsp/visual/pixels.py             | 2 ++
 gsp/visual/points.py             | 2 ++
 gsp_matplotlib/visual/markers.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/gsp/visual/markers.py b/gsp/visual/markers.py
index 5c463fa..8f70a6d 100644
--- a/gsp/visual/markers.py
+++ b/gsp/visual/markers.py
@@ -98,6 +98,8 @@ class Markers(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/pixels.py b/gsp/visual/pixels.py
index 005a9cd..a40ca80 100644
--- a/gsp/visual/pixels.py
+++ b/gsp/visual/pixels.py
@@ -66,6 +66,8 @@ class Pixels(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/points.py b/gsp/visual/points.py
index 3ab38ce..1f38a04 100644
--- a/gsp/visual/points.py
+++ b/gsp/visual/points.py
@@ -82,6 +82,8 @@ class Points(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 4ac40b7..0ceab5c 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -27,6 +27,8 @@ class Markers(visual.Markers):
         super().__init__(positions, types, sizes, axis, angles,
                          fill_colors, line_colors, line_widths,
                          __no_command__ = True)
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         self.generate_markers(positions)
 
     def generate_markers(self, positions):
-- 
2.43.0


From 0245ffc3b4919fa0308dbdcddd2f7141f1a957e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 40/91] fix: farther pixels are drawn before nearer ones

---
 gsp_matplotlib/visual/pixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index fab47b4..5ca9808 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -69,7 +69,7 @@ class Pixels(visual.Pixels):
         positions = self.eval_variable("positions")
         # positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-        sort_indices = np.argsort(positions[:,2])
+        sort_indices = np.argsort(-positions[:,2])
         collection.set_offsets(positions[sort_indices,:2])
 
         self.set_variable("screen[positions]", positions)
-- 
2.43.0


From 99d701c8a905e0b7fbe41ae0076a50faf9105ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 41/91] fix: a color given for four elements applies to each of
 them

---
 gsp_matplotlib/visual/markers.py  | 4 ++--
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/pixels.py   | 2 +-
 gsp_matplotlib/visual/points.py   | 4 ++--
 gsp_matplotlib/visual/polygons.py | 4 ++--
 gsp_matplotlib/visual/segments.py | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 0ceab5c..cd91e8f 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -136,13 +136,13 @@ class Markers(visual.Markers):
         collection.set_offsets(positions[sort_indices,:2])
 
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray) and (len(fill_colors) == len(positions)):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1 and (len(fill_colors) == len(positions)):
             collection.set_facecolors(fill_colors[sort_indices])
         else:
             collection.set_facecolors(fill_colors)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1 and (len(line_colors) == len(positions)):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b6abb0c..a855e20 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -115,7 +115,7 @@ class Paths(visual.Paths):
 
         # Line colors
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
             # Number of color == number of paths
             if len(line_colors) == len(paths):
                 collection.set_edgecolors(line_colors[sort_indices])
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 5ca9808..c7a916d 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -76,7 +76,7 @@ class Pixels(visual.Pixels):
 
         colors = self.eval_variable("colors")
         if colors is not None:
-            if isinstance(colors, np.ndarray) and len(colors) == len(positions):
+            if isinstance(colors, np.ndarray) and colors.ndim > 1 and len(colors) == len(positions):
                 collection.set_facecolors(colors[sort_indices])
             else:
                 collection.set_facecolors(colors)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 6956793..80094fc 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -73,13 +73,13 @@ class Points(visual.Points):
 
 
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray) and (len(fill_colors) == len(positions)):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1 and (len(fill_colors) == len(positions)):
             collection.set_facecolors(fill_colors[sort_indices])
         else:
             collection.set_facecolors(fill_colors)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1 and (len(line_colors) == len(positions)):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index c4d24e6..3d587cf 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -111,7 +111,7 @@ class Polygons(visual.Polygons):
 
         # Fil colors
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1:
             # Number of color == number of polygons
             if len(fill_colors) == len(polygons):
                 collection.set_facecolors(fill_colors[sort_indices])
@@ -126,7 +126,7 @@ class Polygons(visual.Polygons):
 
         # Line colors
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
             # Number of color == number of polygons
             if len(line_colors) == len(polygons):
                 collection.set_edgecolors(line_colors[sort_indices])
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index c7cdb5d..7ea51f4 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -74,7 +74,7 @@ class Segments(visual.Segments):
         self.set_variable("screen[segments]", depth)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1 and (len(line_colors) == len(positions)):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
-- 
2.43.0


From f240da2300ea2048805bd23a0a2a4fc3da35de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 42/91] fix: a size given by a transform or an array applies to
 all elements

---
 gsp_matplotlib/visual/markers.py | 4 ++--
 gsp_matplotlib/visual/points.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index cd91e8f..3fdcf94 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -155,9 +155,9 @@ class Markers(visual.Markers):
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.resize(sizes, len(positions)))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 80094fc..6655bfb 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -92,9 +92,9 @@ class Points(visual.Points):
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.resize(sizes, len(positions)))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From 0668a9d50e28dc63fbc5b4fa7b1733e56cbeda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 43/91] fix: creating markers having an axis records only their
 creation

---
 gsp_matplotlib/visual/markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 3fdcf94..3e08aef 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -42,7 +42,8 @@ class Markers(visual.Markers):
         if axis is not None:
             positions = np.asanyarray(positions)
             positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
-            positions = glm.to_vec3(positions)
+            if positions.shape[-1] == 2:
+                positions = np.c_[positions, np.zeros(len(positions))]
 
         for i in range(len(positions)):
             try:
-- 
2.43.0


From b25776b0136f8feb39cb1e4241e4ccbbfe3a26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 44/91] fix: pixels, points and markers are drawn once

---
 gsp_matplotlib/visual/markers.py | 1 -
 gsp_matplotlib/visual/pixels.py  | 1 -
 gsp_matplotlib/visual/points.py  | 1 -
 3 files changed, 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 3e08aef..79691dd 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -91,7 +91,6 @@ class Markers(visual.Markers):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index c7a916d..5657b75 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -49,7 +49,6 @@ class Pixels(visual.Pixels):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 6655bfb..ef11531 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -43,7 +43,6 @@ class Points(visual.Points):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
-- 
2.43.0


From f09d30c33d93ad662c4e91da69ca2e1626aa7084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 45/91] fix: line caps of segments and paths reach the drawing
 at each render

---
 gsp_matplotlib/visual/paths.py    | 11 ++++++-----
 gsp_matplotlib/visual/segments.py |  6 ++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index a855e20..8d3e8c3 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -50,11 +50,7 @@ class Paths(visual.Paths):
         
         # Create the collection if necessary
         if viewport not in self._viewports:
-            line_caps = self.eval_variable("line_caps")
-            line_caps = { LineCap.butt:  "butt",
-                          LineCap.round: "round",
-                          LineCap.cap:   "projecting"}[line_caps]            
-            collection = LineCollection([], clip_on=True, snap=False, capstyle=line_caps)
+            collection = LineCollection([], clip_on=True, snap=False)
             self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
@@ -74,6 +70,11 @@ class Paths(visual.Paths):
 
         # Project positions onto screen
         collection = self._viewports[viewport]
+        line_caps = self.eval_variable("line_caps")
+        line_caps = { LineCap.butt:  "butt",
+                      LineCap.round: "round",
+                      LineCap.cap:   "projecting"}[line_caps]
+        collection.set_capstyle(line_caps)
         positions = self.eval_variable("positions")
         positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 7ea51f4..66809f1 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -59,6 +59,12 @@ class Segments(visual.Segments):
             return
 
         collection = self._viewports[viewport]
+        line_caps = self.eval_variable("line_caps")
+        if isinstance(line_caps, int):
+            line_caps = { LineCap.butt:  "butt",
+                          LineCap.round: "round",
+                          LineCap.cap:   "projecting"}[line_caps]
+            collection.set_capstyle(line_caps)
         positions = self.eval_variable("positions")
         positions = positions.reshape(-1,2 if positions.shape[-1] == 2 else 3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-- 
2.43.0


From b78561a07c4f1f650ea91fd0467927e93f73a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 46/91] fix: tracking of arrays is restored when a render fails

---
 gsp_matplotlib/glm/ndarray/tracked.py | 13 +++++++++++++
 gsp_matplotlib/visual/markers.py      |  1 +
 gsp_matplotlib/visual/paths.py        |  1 +
 gsp_matplotlib/visual/pixels.py       |  1 +
 gsp_matplotlib/visual/points.py       |  1 +
 gsp_matplotlib/visual/polygons.py     |  1 +
 gsp_matplotlib/visual/segments.py     |  1 +
 7 files changed, 19 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index a48e145..fbde9dd 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -3,8 +3,21 @@
 # Copyright 2023 Nicolas P. Rougier - BSD 2 Clauses licence
 # -----------------------------------------------------------------------------
 """ Memory aware array class """
+import functools
 import numpy as np
 
+def tracking_restored(func):
+    """Restore tracking when the decorated function ends, even if it fails."""
+
+    @functools.wraps(func)
+    def inner(*args, **kwargs):
+        tracker = tracked.__tracker_class__
+        try:
+            return func(*args, **kwargs)
+        finally:
+            tracked.__tracker_class__ = tracker
+    return inner
+
 class tracked(np.ndarray):
     """
     A tracked array keeps track of the smallest contiguous block
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 79691dd..2afc95b 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -73,6 +73,7 @@ class Markers(visual.Markers):
             self.paths.append(path)
 
 
+    @glm.ndarray.tracking_restored
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 8d3e8c3..3dbf3ec 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -28,6 +28,7 @@ class Paths(visual.Paths):
                          line_styles, line_joins, line_caps, __no_command__ = True)
 
 
+    @glm.ndarray.tracking_restored
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 5657b75..adb848f 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -30,6 +30,7 @@ class Pixels(visual.Pixels):
         super().__init__(positions, colors, __no_command__ = True)
 
 
+    @glm.ndarray.tracking_restored
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index ef11531..7386c98 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -25,6 +25,7 @@ class Points(visual.Points):
                          line_widths, __no_command__ = True)
 
 
+    @glm.ndarray.tracking_restored
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 3d587cf..9a1f48c 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -28,6 +28,7 @@ class Polygons(visual.Polygons):
                          line_widths, line_styles, line_joins, __no_command__ = True)
 
 
+    @glm.ndarray.tracking_restored
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 66809f1..1a2e967 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -26,6 +26,7 @@ class Segments(visual.Segments):
                          line_widths, __no_command__ = True)
 
 
+    @glm.ndarray.tracking_restored
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-- 
2.43.0


From f4dead9aa551cc3ee2f6de36f36573e634c05adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 47/91] fix: rendering a canvas sized by a measure, or resized,
 to an array

---
 gsp_matplotlib/core/canvas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 17ce1dd..af065c5 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -52,6 +52,7 @@ class Canvas(core.Canvas):
                 self._figure.savefig(output, format="raw")
                 output.seek(0)
                 data = np.frombuffer(output.getvalue(), dtype=np.uint8)
-            return data.reshape(self._height, self._width, -1)
+            width, height = self._figure.canvas.get_width_height()
+            return data.reshape(height, width, -1)
         else:
             self._figure.savefig(target, dpi=self._dpi)
-- 
2.43.0


From 90dff66f3daf23a04dfe8a0707294a45c7e0cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 48/91] fix: missing extents of a viewport mean the whole
 canvas, also once resized

---
 gsp_matplotlib/core/viewport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 5905854..61fd385 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -22,8 +22,8 @@ class Viewport(core.Viewport):
         super().__init__(canvas, x, y, width, height, color)
 
         self._canvas = canvas
-        width = width or canvas._width
-        height = height or canvas._height
+        width = width or 1.0
+        height = height or 1.0
         self._color = color
         self._extent = x, y, width, height
         self._axes = canvas._figure.add_axes([0,0,1,1])
-- 
2.43.0


From f2c463066ed2177acb5d895dab9d4d1f2ac2940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:58 +0000
Subject: [PATCH 49/91] fix: the range of a viewport keeps unit squares square
 from its creation

---
 gsp_matplotlib/core/viewport.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 61fd385..5f8557c 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -33,9 +33,6 @@ class Viewport(core.Viewport):
         self._axes.patch.set_color(self._color)
         self._axes.autoscale(False)
 
-        self._axes.set_xlim(-1, 1)
-        self._axes.set_ylim(-1, 1)
-
         self._axes.get_xaxis().set_visible(False)
         self._axes.get_yaxis().set_visible(False)
         for position in ["top", "bottom", "left", "right"]:
-- 
2.43.0


From b9c2931adbb974290ebffe69f8cb2a01b1a1d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 50/91] fix: groups of vertices whose sizes are given by an
 array of small integers

---
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/polygons.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 3dbf3ec..044e2bd 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -95,7 +95,7 @@ class Paths(visual.Paths):
             end = 0
             paths = []
             for size in indices:
-                end += size
+                end += int(size)
                 paths.append (positions[start:end])
                 start = end
 
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 9a1f48c..3ae0ed4 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -90,7 +90,7 @@ class Polygons(visual.Polygons):
             end = 0
             polygons = []
             for size in indices:
-                end += size
+                end += int(size)
                 polygons.append (positions[start:end])
                 start = end
 
-- 
2.43.0


From c953e9a0dd3c16e6f7a9fe9a2ca46a035bab7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 51/91] fix: a ragged list given as indices is read as lists of
 indices

---
 gsp_matplotlib/visual/paths.py    | 4 +++-
 gsp_matplotlib/visual/polygons.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 044e2bd..e9ff00a 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -81,7 +81,9 @@ class Paths(visual.Paths):
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
-        indices = self.eval_variable("indices")
+        indices = self.get_variable("indices")
+        if not isinstance(indices, glm.vlist):
+            indices = self.eval_variable("indices")
 
         # Integer means paths of equal size, consecutive vertices
         if isinstance(indices, (int)):
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 3ae0ed4..85d7003 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -76,7 +76,9 @@ class Polygons(visual.Polygons):
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
-        indices = self.eval_variable("indices")
+        indices = self.get_variable("indices")
+        if not isinstance(indices, glm.vlist):
+            indices = self.eval_variable("indices")
 
         # Integer means polygons of equal size, consecutive vertices
         if isinstance(indices, (int)):
-- 
2.43.0


From 49cc0e5de12096a6738c011b44bee05adca86079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 52/91] fix: a list given as indices can be rendered

---
 gsp_matplotlib/core/list.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 28b740c..9bb25e5 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -20,5 +20,17 @@ class List(core.List):
     def __array__(self):
         return self._data.__array__()
 
+    def __iter__(self):
+        data = np.asanyarray(self._data)
+        if isinstance(self._itemsizes, int):
+            sizes = [self._itemsizes] * len(self)
+        else:
+            sizes = np.asanyarray(self._itemsizes)
+        start = 0
+        for size in sizes:
+            end = start + int(size)
+            yield data[start:end]
+            start = end
+
     def __repr__(self):
         return f"List({len(self)}, {np.asanyarray(self._data).dtype})"
-- 
2.43.0


From f4bee9f747546c005176b5f9ed612cbbe57d46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 53/91] fix: path data can go on after a closed sub-path

Closing a sub-path forgot where it started and left no previous command, so a relative or smooth command
after Z, or a second Z, raised.
---
 gsp/core/svg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index bcf525f..340718d 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -342,7 +342,6 @@ def _parse_path(pathdef, current_pos):
             yield COMMAND_CODES['Z'], verts
 
             current_pos = start_pos
-            start_pos = None
             command = None  # You can't have implicit commands after closing.
 
         # LINETO
@@ -395,7 +394,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'S':
             # Smooth curve. First control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'CS':
+            if last_command not in ('C', 'S'):
                 # If there is no previous command or if the previous command
                 # was not an C, c, S or s, assume the first control point is
                 # coincident with the current point.
@@ -437,7 +436,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'T':
             # Smooth curve. Control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'QT':
+            if last_command not in ('Q', 'T'):
                 # If there is no previous command or if the previous command
                 # was not an Q, q, T or t, assume the first control point is
                 # coincident with the current point.
-- 
2.43.0


From c6894c177832744f0c93ea077a4a5020777eec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 54/91] fix: arc flags need not be separated from what follows

The flags of an arc are single digits: the grammar allows 'a5 3 30 014 4', which icon sets use and which was
read as other numbers or raised.
---
 gsp/core/svg.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index 340718d..4cd166a 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -29,6 +29,9 @@ UPPERCASE = set('MZLHVCSQTA')
 
 COMMAND_RE = re.compile(r"([MmZzLlHhVvCcSsQqTtAa])")
 FLOAT_RE = re.compile(r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?")
+# The flags of an arc are a single digit, not necessarily separated from what follows
+ARC_RE = re.compile(r"[\s,]*".join(
+    [r"(%s)" % FLOAT_RE.pattern] * 3 + [r"([01])"] * 2 + [r"(%s)" % FLOAT_RE.pattern] * 2))
 
 COMMAND_CODES = {
     'M': (Path.MOVETO,),    # moveto
@@ -264,11 +267,18 @@ def arc_path(start, radius, rotation, large, sweep, end):
 
 
 def _tokenize_path(pathdef):
+    command = None
     for x in COMMAND_RE.split(pathdef):
         if x in COMMANDS:
+            command = x
             yield x
-        for token in FLOAT_RE.findall(x):
-            yield token
+        elif command in ('A', 'a'):
+            for arc in ARC_RE.findall(x):
+                for token in arc:
+                    yield token
+        else:
+            for token in FLOAT_RE.findall(x):
+                yield token
 
 
 def _next_pos(elements):
-- 
2.43.0


From e430a0a491fc1c7d03d01feed5c97b95d45a57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 55/91] fix: orthographic matrix translates x by its last
 column

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index ceaa163..78eed43 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -213,7 +213,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
     M[1, 1] = +2.0 / (top - bottom)
     M[2, 2] = -2.0 / (zfar - znear)
     M[3, 3] = 1.0
-    M[0, 2] = -(right + left) / float(right - left)
+    M[0, 3] = -(right + left) / float(right - left)
     M[1, 3] = -(top + bottom) / float(top - bottom)
     M[2, 3] = -(zfar + znear) / float(zfar - znear)
 
-- 
2.43.0


From 8321f9005baef6abd3b8b72c09eda8d3a43251eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 56/91] fix: frustum matrix shifts y, not z, for an off-center
 volume

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 78eed43..835548c 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -131,7 +131,7 @@ def frustum(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=F
     M[1, 1] = +2.0 * znear / (top - bottom)
     M[2, 2] = -(zfar + znear) / (zfar - znear)
     M[0, 2] = (right + left) / (right - left)
-    M[2, 1] = (top + bottom) / (top - bottom)
+    M[1, 2] = (top + bottom) / (top - bottom)
     M[2, 3] = -2.0 * znear * zfar / (zfar - znear)
     M[3, 2] = -1.0
 
-- 
2.43.0


From e67e214250cb78ed649508b001747c0597b418e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 57/91] fix: lookat transposes its result when asked to

---
 gsp_matplotlib/glm/glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 835548c..d5d0f74 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -257,12 +257,17 @@ def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpos
     Y = up
     X = normalize(np.cross(Y, Z))
     Y = normalize(np.cross(Z, X))
-    return np.array([
+    M = np.array([
         [X[0], X[1], X[2], -np.dot(X, eye)],
         [Y[0], Y[1], Y[2], -np.dot(Y, eye)],
         [Z[0], Z[1], Z[2], -np.dot(Z, eye)],
         [0, 0, 0, 1]], dtype=dtype)
 
+    if transpose:
+        return np.transpose(M)
+    else:
+        return M
+
 
 def scale(scale, dtype=np.float32, transpose=False):
     """Non-uniform scaling along the x, y, and z axes
-- 
2.43.0


From 2c1a0e5078c7ca70974f762375168d62bbe2040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 58/91] fix: fit refers to its own bounds

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index d5d0f74..40150b8 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -315,7 +315,7 @@ def fit(vertices):
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
-    V = 2*(vertices - Vmin) / max(Vmax-Vmin) - 1
+    V = 2*(vertices - vmin) / max(vmax-vmin) - 1
     return  V - (V.min(axis=0) + V.max(axis=0))/2
 
 
-- 
2.43.0


From c3ac467de694edd692a8f465877b09ed6a4063a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 59/91] fix: center refers to its own vertices

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 40150b8..dc711a2 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -365,7 +365,7 @@ def center(vertices):
 
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
-    return V - (vmax+vmin)/2
+    return vertices - (vmax+vmin)/2
 
 
 def xrotate(theta=0, dtype=np.float32, transpose=False):
-- 
2.43.0


From 2817602e36872f33fef9da431649458bf414a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 60/91] fix: camera passes vectors to scale and translate

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index dc711a2..5c9f137 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -568,8 +568,8 @@ def camera(xrotation=25, yrotation=45, zoom=1, mode="perspective"):
     xrotation = min(max(xrotation, 0), 90)
     yrotation = min(max(yrotation, 0), 90)
     zoom = max(0.1, zoom)
-    model = scale(zoom,zoom,zoom) @ xrotate(xrotation) @ yrotate(yrotation)
-    view  = translate(0, 0, -4.5)
+    model = scale((zoom,zoom,zoom)) @ xrotate(xrotation) @ yrotate(yrotation)
+    view  = translate((0, 0, -4.5))
     if mode == "ortho":
         proj  = ortho(-1, +1, -1, +1, 1, 100)
     else:
-- 
2.43.0


From 550cb2ad229cb1549bae6dcfe6c116aabf9634db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 61/91] fix: align handles parallel vectors

---
 gsp_matplotlib/glm/glm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 5c9f137..d618e6b 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -531,12 +531,15 @@ def align(U, V, dtype=np.float32, transpose=False):
     a, b = normalize(U), normalize(V)
     v = np.cross(a, b)
     c = np.dot(a, b)
-    s = np.linalg.norm(v)
+    if c < -1 + 1e-12:
+        # Opposite vectors: half turn around any axis orthogonal to U
+        n = normalize(np.cross(a, np.eye(3)[np.argmin(np.abs(a))]))
+        return rotate(180, n, dtype, transpose)
     K = np.array([[   0, -v[2], v[1]],
                   [ v[2],   0, -v[0]],
                   [-v[1], v[0],   0]])
     R = np.zeros((4,4), dtype=dtype)
-    R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    R[:3, :3] = np.eye(3) + K + K@K / (1 + c)
     R[3, 3] = 1
 
     if transpose:
-- 
2.43.0


From 3d83d32e207ac126cf2da33537dccd5de941051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 62/91] fix: integer 4-component vectors can be converted to 2
 components

---
 gsp_matplotlib/glm/vec234.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/vec234.py b/gsp_matplotlib/glm/vec234.py
index 82985c0..19d667d 100644
--- a/gsp_matplotlib/glm/vec234.py
+++ b/gsp_matplotlib/glm/vec234.py
@@ -67,7 +67,7 @@ def to_vec2(other, dtype  = None):
         elif V.shape[1] == 3:
             return _V
         elif V.shape[1] == 4:
-            _V /= V[:,3, np.newaxis]
+            _V[...] = V[:,:2] / V[:,3, np.newaxis]
             return _V
 
     raise TypeError("Cannot convert %s to vec2" % other)
-- 
2.43.0


From aa3316293e0e177d026d8c4f44035c3860bc4ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 63/91] fix: extents of a view having negative strides

---
 gsp_matplotlib/glm/ndarray/tracked.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index fbde9dd..314d686 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -103,10 +103,12 @@ class tracked(np.ndarray):
             base = Z.base.__array_interface__['data'][0]
             view = Z.__array_interface__['data'][0]
             offset = view - base
-            shape = np.array(Z.shape) - 1
-            strides = Z.strides[-len(shape):]
-            size = (shape*strides).sum() + Z.itemsize
-            return offset, offset+size
+            if Z.size == 0:
+                return offset, offset
+            steps = [(n-1)*stride for n, stride in zip(Z.shape, Z.strides)]
+            start = offset + sum(step for step in steps if step < 0)
+            stop = offset + sum(step for step in steps if step > 0) + Z.itemsize
+            return start, stop
         return 0, Z.size*Z.itemsize
 
     # def _compute_extents(self, Z):
-- 
2.43.0


From 9f06da1a59a0877ce9c4669839e08c334627ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 64/91] fix: extents of a view are relative to the tracked
 array it comes from

---
 gsp_matplotlib/glm/ndarray/tracked.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 314d686..740e64e 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -97,10 +97,14 @@ class tracked(np.ndarray):
                 self._dirty = start, stop
 
     def _compute_extents(self, Z):
-        """Compute extents (start, stop) in bytes in the base array"""
-
-        if Z.base is not None:
-            base = Z.base.__array_interface__['data'][0]
+        """Compute extents (start, stop) in bytes in the tracked
+        array at the origin of the view"""
+
+        origin = Z
+        while isinstance(origin.base, tracked):
+            origin = origin.base
+        if origin is not Z:
+            base = origin.__array_interface__['data'][0]
             view = Z.__array_interface__['data'][0]
             offset = view - base
             if Z.size == 0:
-- 
2.43.0


From 0a2f2093948f2ea2103cff9d7bdef19422ac9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 65/91] fix: writing an element through a view marks that
 element as modified

---
 gsp_matplotlib/glm/ndarray/tracked.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 740e64e..dda4a64 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -145,11 +145,12 @@ class tracked(np.ndarray):
             # This test for the case of [...,index] notation. Since we
             # know the result is a scalar, we can safely remove the
             # ellipsis component (that should be the first item).
-            if (isinstance(key, tuple)):
-                key = tuple([k for k in key if k is not Ellipsis])
-            key = tuple(np.mod(np.array(key), self.shape))
-            offset = np.ravel_multi_index(key, self.shape, mode='wrap')*self.itemsize
-            self._update(offset, offset+self.itemsize)
+            if not isinstance(key, tuple):
+                key = (key,)
+            key = tuple([k for k in key if k is not Ellipsis])
+            Z = np.ndarray.__getitem__(self, key + (Ellipsis,))
+            start, stop = self._compute_extents(Z)
+            self._update(start, stop)
 
         # Test for fancy indexing
         elif (Z.base is not self and (isinstance(key, list) or
-- 
2.43.0


From bea3d7266214410245d981f20e65d225a3ca7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 66/91] fix: writing through an index array is tracked

---
 gsp_matplotlib/glm/ndarray/tracked.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index dda4a64..8a4e18b 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -157,6 +157,10 @@ class tracked(np.ndarray):
                (hasattr(key, '__iter__') and
                 any(isinstance(k, (list,np.ndarray)) for k in key)))):
             raise NotImplementedError("Fancy indexing not supported")
+
+        # Z is a copy (index array), any item may have been modified
+        elif not np.may_share_memory(Z, self):
+            self._update(self._extents[0], self._extents[1])
         else:
             Z._extents = self._compute_extents(Z)
             self._update(Z._extents[0], Z._extents[1])
-- 
2.43.0


From 779187541b5e50845ea845756669a77d0d34246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 67/91] fix: in-place operators notify the tracker

---
 gsp_matplotlib/glm/ndarray/tracked.py | 54 ++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 8a4e18b..32576da 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -166,6 +166,11 @@ class tracked(np.ndarray):
             self._update(Z._extents[0], Z._extents[1])
         np.ndarray.__setitem__(self, key, value)
 
+        self._notify()
+
+    def _notify(self):
+        """ Signal dirty region to the tracker """
+
         if self._tracker:
             base = self
             while base.base is not None and isinstance(base.base, tracked):
@@ -185,18 +190,49 @@ class tracked(np.ndarray):
     def __setslice__(self, start, stop,  value):
         self.__setitem__(slice(int(start), int(stop)), value)
 
-    def __iadd__(self, other):
+    def _inplace(self, operator, other):
+        """ Apply in-place operator and notify tracker """
+
+        result = operator(self, other)
         self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__iadd__(self, other)
+        self._notify()
+        return result
+
+    def __iadd__(self, other):
+        return self._inplace(np.ndarray.__iadd__, other)
 
     def __isub__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__isub__(self, other)
+        return self._inplace(np.ndarray.__isub__, other)
 
     def __imul__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__imul__(self, other)
+        return self._inplace(np.ndarray.__imul__, other)
 
-    def __idiv__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+    def __itruediv__(self, other):
+        return self._inplace(np.ndarray.__itruediv__, other)
+
+    def __ifloordiv__(self, other):
+        return self._inplace(np.ndarray.__ifloordiv__, other)
+
+    def __imod__(self, other):
+        return self._inplace(np.ndarray.__imod__, other)
+
+    def __ipow__(self, other):
+        return self._inplace(np.ndarray.__ipow__, other)
+
+    def __imatmul__(self, other):
+        return self._inplace(np.ndarray.__imatmul__, other)
+
+    def __ilshift__(self, other):
+        return self._inplace(np.ndarray.__ilshift__, other)
+
+    def __irshift__(self, other):
+        return self._inplace(np.ndarray.__irshift__, other)
+
+    def __iand__(self, other):
+        return self._inplace(np.ndarray.__iand__, other)
+
+    def __ior__(self, other):
+        return self._inplace(np.ndarray.__ior__, other)
+
+    def __ixor__(self, other):
+        return self._inplace(np.ndarray.__ixor__, other)
-- 
2.43.0


From 15cc813c6a4066a8680ff6dd11fac30cbe8e5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 68/91] fix: arrays not contiguous in memory can be tracked

---
 gsp_matplotlib/glm/ndarray/tracked.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 32576da..b162214 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -175,13 +175,16 @@ class tracked(np.ndarray):
             base = self
             while base.base is not None and isinstance(base.base, tracked):
                 base = base.base
-            data = base.view(np.ubyte).ravel()
             start, stop = self._dirty
+            if base.flags.c_contiguous:
+                data = base.view(np.ubyte).ravel()[start:stop]
+            else:
+                start, data = 0, base
             if base is not self:
-                base._tracker.set_data(start, data[start:stop].tobytes())
+                base._tracker.set_data(start, data.tobytes())
                 base.clear()
             else:
-                self._tracker.set_data(start, data[start:stop].tobytes())
+                self._tracker.set_data(start, data.tobytes())
                 self.clear()
 
     def __getslice__(self, start, stop):
-- 
2.43.0


From 04699947d3e4d740f713e767cf32d2ef52612f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 69/91] fix: a copy of a tracked array does not signal its
 changes to the tracker of that array

---
 gsp_matplotlib/glm/ndarray/tracked.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index b162214..7eda10c 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -60,10 +60,15 @@ class tracked(np.ndarray):
             self._extents = 0, self.size*self.itemsize
         else:
             self._extents = self._compute_extents(obj)
-        self._dirty = self._extents
-        self._tracker = getattr(obj, '_tracker', None)
-        if self._tracker is None and self.__tracker_class__ is not None:
+        self._tracker = None
+        if isinstance(obj, tracked) and not np.may_share_memory(self, obj):
+            # This is a copy, that is, another array
+            self._extents = 0, self.size*self.itemsize
+        elif isinstance(obj, tracked):
+            self._tracker = getattr(obj, '_tracker', None)
+        elif obj is not None and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
+        self._dirty = self._extents
 
     def clear(self):
         """ Clear dirty region"""
-- 
2.43.0


From a0ea38e133813915007cd8306db98b66fe0e82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 70/91] fix: an array derived from a tracked array has a buffer
 of its own

---
 gsp_matplotlib/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 77ba1a0..84f4308 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -36,8 +36,7 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = np.array(obj).view(glm.ndarray.tracked)
-    return Z._tracker.gsp_buffer
+    return Tracker(np.array(obj)).gsp_buffer
 
 @register("list", "List")
 def list_to_List(obj):
@@ -60,13 +59,17 @@ def ndarray_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
-    return Z._tracker.gsp_buffer
+    return Tracker(obj).gsp_buffer
 
 
 @register("tracked", "Buffer")
 def tracked_to_Buffer(obj):
-    return obj._tracker.gsp_buffer
+    tracker = obj._tracker
+    if (tracker is None or
+        tracker.ndarray.__array_interface__ != obj.__array_interface__):
+        # Array is a copy, a part of the tracked array or untracked
+        tracker = Tracker(np.asarray(obj))
+    return tracker.gsp_buffer
 
 
 class Tracker:
-- 
2.43.0


From b9660283a865c94ad5c16f351ec4e11589a939d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 71/91] fix: a buffer made from an array keeps the shape of its
 items

---
 gsp_matplotlib/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 84f4308..3b43615 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -76,7 +76,9 @@ class Tracker:
     def __init__(self, ndarray):
         if ndarray is not None:
             self.ndarray = ndarray
-            self.gsp_buffer = Buffer(len(ndarray), ndarray.dtype, ndarray.data)
+            # An item may itself be an array (e.g. a vector)
+            dtype = np.dtype((ndarray.dtype, ndarray.shape[1:]))
+            self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
     def set_data(self, offset, bytes):
-- 
2.43.0


From 75c4520afaf7ef8280c5105f367b44f489767ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 72/91] fix: buffers of vectors and records can be loaded from
 a file

---
 gsp/io/convert.py             | 2 ++
 gsp/io/json.py                | 3 +++
 gsp_matplotlib/core/buffer.py | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index a41b551..0a263d4 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -158,6 +158,8 @@ def numpy_dtype_to_str(dt):
 
 @register("str", "dtype")
 def numpy_str_to_dtype(desc):
+    if ":" not in desc:
+        return np.dtype(desc)
     dt = []
     elements = desc.split(",")
     for element in elements:
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 0b2d53e..22445f2 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -8,6 +8,7 @@ import base64
 import numpy as np
 from gsp.object import Object
 from . command import CommandQueue, Command
+from . convert import numpy_dtype_to_str
 
 def default(obj):
     from gsp.core.types import Color
@@ -17,6 +18,8 @@ def default(obj):
     elif isinstance(obj, bytes):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, np.dtype):
+        if obj.names or obj.subdtype:
+            return numpy_dtype_to_str(obj)
         return str(obj)
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 32fa690..56f1919 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -4,6 +4,7 @@
 from __future__ import annotations # Solve circular references with typing
 import numpy as np
 from gsp.io.command import command, register
+from gsp.io.convert import numpy_str_to_dtype
 
 from gsp import core
 
@@ -17,6 +18,8 @@ class Buffer(core.Buffer):
                        data : memoryview | bytes = None):
         super().__init__(count, dtype, data, __no_command__ = True)
         self._count = count
+        if isinstance(dtype, str):
+            dtype = numpy_str_to_dtype(dtype)
         self._dtype = dtype
 
         if isinstance(data, str):
-- 
2.43.0


From 7dff51fc544086c33ece6626b1fcc73fe55f2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 73/91] fix: line styles, caps and joins can be loaded from a
 file

---
 gsp_matplotlib/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 3b43615..8a333af 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -7,6 +7,7 @@ from .core.viewport import Viewport
 from .core.buffer import Buffer
 from .core.list import List
 from gsp.core.types import Marker, Matrix
+from gsp.core.types import LineStyle, LineCap, LineJoin
 
 from . import core
 from . import visual
@@ -51,6 +52,18 @@ def list_to_List(obj):
 def int_to_Marker(obj):
     return Marker(obj)
 
+@register("int", "LineStyle")
+def int_to_LineStyle(obj):
+    return LineStyle(obj)
+
+@register("int", "LineCap")
+def int_to_LineCap(obj):
+    return LineCap(obj)
+
+@register("int", "LineJoin")
+def int_to_LineJoin(obj):
+    return LineJoin(obj)
+
 @register("ndarray", "Buffer")
 def ndarray_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
-- 
2.43.0


From 912a108abb63c9ac48d947b4ea40547b37681b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 74/91] fix: objects created when converting created objects
 are saved

---
 gsp/io/json.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 22445f2..29cd9d8 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -65,16 +65,21 @@ def dump(queue=None, filename=None):
 
     queue = CommandQueue("active") if queue is None else queue
     active = CommandQueue("active")
-    commands = []
-    for command in list(queue.commands):
-        # Just in time conversions may create new objects: these need to be
-        # defined before the command and do not belong to the queue.
-        count = len(active.commands)
-        payload = dump_command(command, stream=None)
-        created = active.commands[count:]
-        del active.commands[count:]
-        commands.extend(dump_command(c, stream=None) for c in created)
-        commands.append(payload)
+
+    def dump_commands(commands):
+        payloads = []
+        for command in commands:
+            # Just in time conversions may create new objects: these need to
+            # be defined before the command and do not belong to the queue.
+            count = len(active.commands)
+            payload = dump_command(command, stream=None)
+            created = active.commands[count:]
+            del active.commands[count:]
+            payloads.extend(dump_commands(created))
+            payloads.append(payload)
+        return payloads
+
+    commands = dump_commands(list(queue.commands))
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From c468073a009836aa1f7aaa230940f953f920f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 75/91] fix: copies of transforms are recorded with their
 parameters

---
 gsp/transform/accessor.py  | 6 +++---
 gsp/transform/colormap.py  | 6 +-----
 gsp/transform/out.py       | 8 +-------
 gsp/transform/transform.py | 6 +++---
 4 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index be497dc..29d17fd 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -29,9 +29,9 @@ class Accessor(Transform):
         self._key = key
 
     def copy(self):
-        transform = Transform.copy(self)
-        transform._key = self._key
-        return transform
+        if self.__class__ is Accessor:
+            return Transform.copy(self, None, self._key)
+        return Transform.copy(self)
 
     def evaluate(self, buffers=None):
         if self._next:
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 6cef364..288e037 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -60,11 +60,7 @@ class Colormap(Transform):
         Copy the transform
         """
 
-        transform = Transform.copy(self)
-        transform._colormap = self._colormap
-        transform._vmin = self._vmin
-        transform._vmax = self._vmax
-        return transform
+        return Transform.copy(self, self._colormap, self._vmin, self._vmax)
 
 
     def evaluate(self, buffers : list):
diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 0ac535a..fe27aa4 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -34,13 +34,7 @@ class Out(Transform):
         Copy the transform
         """
 
-        transform = self.__class__()
-        transform.set_buffer(self._buffer)
-        transform.set_base(self.base)
-        transform.name = self.name
-        if self._next:
-            transform.set_next(self._next.copy())
-        return transform
+        return Transform.copy(self, self.name)
 
 
     def evaluate(self, variables : dict):
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 8b8e457..1e8ea6a 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -132,12 +132,12 @@ class Transform(Object):
         """
         return self.last.buffer is not None
 
-    def copy(self):
+    def copy(self, *args):
         """
-        Copy the transform
+        Copy the transform, built with the given arguments
         """
 
-        transform = self.__class__()
+        transform = self.__class__(*args)
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
         if self._next:
-- 
2.43.0


From ed8eaf0a281b0bb134361f728fcf231ba614ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 76/91] fix: a Matrix holds the values it is given, as a 4x4
 array

---
 gsp/core/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4ccef29..c9714d0 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -50,7 +50,7 @@ class Matrix:
             The 16 values of the matrix
         """
 
-        self._data = np.frombuffer(data, dtype=np.float32)
+        self._data = np.array(data, dtype=np.float32).reshape(4,4)
 
     def __array__(self):
         return self._data
-- 
2.43.0


From 2b13db5bfebcc297e3758e48f24f48f6b4c5e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 77/91] fix: scenes rendered with matrices can be saved and
 loaded

---
 gsp/io/json.py             | 4 +++-
 gsp/visual/visual.py       | 6 +++---
 gsp_matplotlib/__init__.py | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 29cd9d8..c6f798b 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -11,7 +11,7 @@ from . command import CommandQueue, Command
 from . convert import numpy_dtype_to_str
 
 def default(obj):
-    from gsp.core.types import Color
+    from gsp.core.types import Color, Matrix
 
     if isinstance(obj, memoryview):
         return base64.b64encode(bytes(obj)).decode()
@@ -23,6 +23,8 @@ def default(obj):
         return str(obj)
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
+    elif isinstance(obj, Matrix):
+        return np.asarray(obj).tolist()
     elif isinstance(obj, Color):
         return tuple(obj._color.tolist())
     elif isinstance(obj, Object):
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ae20046..aa5833b 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -109,11 +109,11 @@ class Visual(Object):
 
         # We store the model/view/proj matrices for resize events
         if model is not None:
-            self._model = model
+            self._model = np.asanyarray(model)
         if view is not None:
-            self._view = view
+            self._view = np.asanyarray(view)
         if proj is not None:
-            self._proj = proj
+            self._proj = np.asanyarray(proj)
 
         try:
             self._transform = self._proj @ self._view @ self._model
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 8a333af..bd17467 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -24,7 +24,7 @@ from .glm.mat234 import *
 from gsp.io import register
 
 
-@register("ndarray", "Matrix")
+@register(("ndarray", "list"), "Matrix")
 def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
-- 
2.43.0


From 6498c83bc34a12a30f7b0241d5abe037f7c576db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 78/91] fix: attributes given as lists follow their items

---
 gsp/visual/visual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index aa5833b..658fc17 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -77,8 +77,13 @@ class Visual(Object):
             value = value.evaluate(self._in_variables | self._out_variables)
         elif isinstance(value, (Buffer, np.ndarray)):
             value = np.asanyarray(value)
-        elif isinstance(value, (List, list)):
+        elif isinstance(value, List):
             return value
+        elif isinstance(value, list):
+            # A list of indices may be ragged
+            if name == "indices":
+                return value
+            value = np.asanyarray(value)
         elif isinstance(value, (float, int, str)):
             return value
         elif value is None:
-- 
2.43.0


From 42dbe77921e440f3cdafe14ba543cbc779fa9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 79/91] fix: vectorized lists can be given as indices

---
 gsp_matplotlib/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index bd17467..67c1600 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -48,6 +48,10 @@ def list_to_List(obj):
     items = np.array(items).view(glm.ndarray.tracked)
     return List(items, count)
 
+@register("ragged", "List")
+def ragged_to_List(obj):
+    return list_to_List([list(item) for item in obj])
+
 @register("int", "Marker")
 def int_to_Marker(obj):
     return Marker(obj)
-- 
2.43.0


From 1b00bd6e3eb0b852cb698d6caa5f0f46ada116ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 80/91] fix: set_data updates the content of a buffer

---
 gsp_matplotlib/core/buffer.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 56f1919..8552043 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -2,6 +2,7 @@
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
 from __future__ import annotations # Solve circular references with typing
+import base64
 import numpy as np
 from gsp.io.command import command, register
 from gsp.io.convert import numpy_str_to_dtype
@@ -23,7 +24,6 @@ class Buffer(core.Buffer):
         self._dtype = dtype
 
         if isinstance(data, str):
-            import base64
             self._data = base64.b64decode(data)
         else:
             self._data = data
@@ -32,15 +32,27 @@ class Buffer(core.Buffer):
     @command()
     def set_data(self, offset : int,
                        data : memoryview | bytes):
-        # Be careful with set_data when the underlying data is already tracked
-        # buffer = np.asanyarray(self).view(np.ubyte)
-        # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-        pass
+        if isinstance(data, str):
+            data = base64.b64decode(data)
+        data = np.frombuffer(data, np.ubyte)
+        array = self.__array__()
+        start, stop = offset, offset + len(data)
+
+        # Nothing to do if the underlying data is tracked (up to date)
+        if np.array_equal(array.reshape(-1).view(np.ubyte)[start:stop], data):
+            return
+
+        # The underlying data may be read-only or shared
+        self._array = array.copy()
+        self._array.reshape(-1).view(np.ubyte)[start:stop] = data
 
     def __array__(self):
         if self._array is None:
             if self._data is not None:
-                self._array = np.frombuffer(self._data, self._dtype)
+                data = memoryview(self._data)
+                if not data.c_contiguous:
+                    data = data.tobytes()
+                self._array = np.frombuffer(data, self._dtype)
             else:
                 self._array = np.empty(self._count, self._dtype)
         return self._array
-- 
2.43.0


From ed3bf216a3cf89220ab898c9a9ab81a70c3abef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 81/91] fix: the most specific converter of an argument is used

---
 gsp/io/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 501bc96..e1c06cf 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -276,7 +276,8 @@ def command(name=None):
                             check = True
                             break
 
-                        # Search for possible converters in any base type
+                        # Search for possible converters in any base type,
+                        # from the most specific to the most generic
                         for base_type in base_types:
                             # Found converter, register it
                             converter = get_converter(base_type, annotated_type)
@@ -288,6 +289,7 @@ def command(name=None):
                                 # else:
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
+                                break
 
                     if check:
                         continue
-- 
2.43.0


From 76bb82887f08f44a55557fde7fb277fadda184ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 82/91] fix: replay from memory uses the replayed object of a
 converted argument

---
 gsp/io/command.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index e1c06cf..c1a95c2 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -426,7 +426,11 @@ class Command:
             elif isinstance(value, OID):
                 _parameters[key] = Object.objects[value]
             elif isinstance(value, Converter):
-                _parameters[key] = value()
+                value = value()
+                # Once replayed, an object replaces the recorded one
+                if isinstance(value, Object):
+                    value = Object.objects.get(value.id, value)
+                _parameters[key] = value
             else:
                 _parameters[key] = value
         parameters = _parameters
-- 
2.43.0


From d751cedc9a276b2113a901d2f838a730a6e0b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 83/91] fix: markers can be rendered with matrix objects

---
 gsp_matplotlib/visual/markers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 2afc95b..2f44c8f 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -77,9 +77,7 @@ class Markers(visual.Markers):
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
-- 
2.43.0


From dbfd413af8814089c32106dea46621fc8485c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 84/91] fix: swizzled writes follow the components when there
 are as many vectors

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 3eb6d82..bdc61d3 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -34,8 +34,10 @@ class swizzle(tracked):
 
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
-                value = np.asarray(value)
+                is_array = isinstance(value, np.ndarray)
+                value = np.array(value) # value may be a view on self
                 shape = value.shape
+                target = self.shape[:-1] + (len(key),)
                 indices = [swizzle.index(c) for c in key]
 
                 # Z.xy = 1
@@ -43,16 +45,23 @@ class swizzle(tracked):
                     for index in indices:
                         self[..., index] = value
                     break
-                # Z.xy = np.ones(10)
-                elif len(self) == value.size: # shape[-1] == 1:
-                    for index in indices:
-                        self[..., index] = np.squeeze(value)
+                # Z.xy = np.ones((10,2)), np.ones((10,1)) or np.ones((1,2))
+                elif (is_array and len(shape) == self.ndim > 1 and
+                      all(n in (1,m) for n,m in zip(shape, target))):
+                    value = np.broadcast_to(value, target)
+                    for src_index, tgt_index in enumerate(indices):
+                        self[..., tgt_index] = value[..., src_index]
                     break
-                # Z.xy = np.ones(10), np.ones(10)
+                # Z.xy = 1,2 or np.ones(10), np.ones(10)
                 elif len(key) == len(value):
                     for src_index, tgt_index in enumerate(indices):
                         self[..., tgt_index] = value[src_index]
                     break
+                # Z.xy = np.ones(10)
+                elif len(self) == value.size: # shape[-1] == 1:
+                    for index in indices:
+                        self[..., index] = np.squeeze(value)
+                    break
                 # Z.xy = np.ones(10,2)
                 elif shape[-1] == len(key):
                     for tgt_index, src_index in enumerate(indices):
-- 
2.43.0


From 868202f35ab5e0ef852695d88dce5bf0671c6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 85/91] fix: sizes of ragged list items can be unsigned
 integers

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 01fdeb7..798dceb 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -86,7 +86,7 @@ class ragged:
         self._size = len(data)
         self._count = count
         self._items = np.zeros((count, 2), int)
-        C = np.cumsum(itemsize)
+        C = np.cumsum(itemsize, dtype=int)
         self._items[1:, 0] += C[:-1]
         self._items[0:, 1] += C
 
-- 
2.43.0


From 17fa931418a4fc9ddccc84490c5b17357f749068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 86/91] fix: ragged lists can be indexed with steps, arrays and
 empty ranges

---
 gsp_matplotlib/glm/ndarray/ragged.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 798dceb..4349807 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -94,6 +94,11 @@ class ragged:
     def __getitem__(self, key):
         """ x.__getitem__(y) <==> x[y] """
 
+        # Items may not be contiguous
+        if (isinstance(key, np.ndarray) or
+            isinstance(key, slice) and key.step not in (None, 1)):
+            key = np.arange(len(self))[key].tolist()
+
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
@@ -102,12 +107,17 @@ class ragged:
             return self._data[indices]
         else:
             indices = self._items[key]
-            start, stop = indices.min(), indices.max()
+            start, stop = (indices.min(), indices.max()) if indices.size else (0, 0)
             return self._data[start:stop]
 
     def __setitem__(self, key, value):
         """ x.__setitem__(y, v) <==> x[y] = v"""
 
+        # Items may not be contiguous
+        if (isinstance(key, np.ndarray) or
+            isinstance(key, slice) and key.step not in (None, 1)):
+            key = np.arange(len(self))[key].tolist()
+
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
@@ -116,7 +126,7 @@ class ragged:
             self._data[indices] = value
         else:
             indices = self._items[key]
-            start, stop = indices.min(), indices.max()
+            start, stop = (indices.min(), indices.max()) if indices.size else (0, 0)
             self._data[start:stop] = value
 
 
-- 
2.43.0


From 48e3f0a147bbfb0614bf8d8ff7f8f89d7ef90125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 87/91] fix: trackball angles are read back over the full turn

---
 gsp_matplotlib/glm/trackball.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 33a6901..cc9bf19 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -192,9 +192,9 @@ class Trackball(object):
         ''' Return current computed orientation (theta,phi). '''
 
         q0,q1,q2,q3 = self._rotation
-        ax = math.atan(2*(q0*q1+q2*q3)/(1-2*(q1*q1+q2*q2)))*180.0/math.pi
-        az = math.atan(2*(q0*q3+q1*q2)/(1-2*(q2*q2+q3*q3)))*180.0/math.pi
-        return -az,ax
+        ax = math.atan2(2*(q0*q3+q1*q2), 2*(q2*q2+q3*q3)-1)*180.0/math.pi
+        az = math.atan2(2*(q0*q1+q2*q3), 1-2*(q1*q1+q2*q2))*180.0/math.pi
+        return ax,az
 
     def _set_orientation(self, theta, phi):
         ''' Computes rotation corresponding to theta and phi. '''
-- 
2.43.0


From de2d28686852fb93ac9359238e85c734cc2c1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 88/91] fix: icosahedron() names the numpy uint32 type

---
 gsp_matplotlib/glm/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/shapes.py b/gsp_matplotlib/glm/shapes.py
index 19d951a..eae99fd 100644
--- a/gsp_matplotlib/glm/shapes.py
+++ b/gsp_matplotlib/glm/shapes.py
@@ -105,5 +105,5 @@ def icosahedron():
               [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9],
               [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1] ]
     verts = np.array(verts, dtype=np.float32)/np.sqrt(a+2)/2
-    faces = np.array(faces, dtype=uint32)
+    faces = np.array(faces, dtype=np.uint32)
     return verts, faces
-- 
2.43.0


From 198ec2130eaf10f18c65929d52f30fea49930440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 89/91] fix: tracked arrays follow in-place division

---
 gsp_matplotlib/glm/tracked_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/tracked_array.py b/gsp_matplotlib/glm/tracked_array.py
index 68fb1f8..cbdfd7a 100644
--- a/gsp_matplotlib/glm/tracked_array.py
+++ b/gsp_matplotlib/glm/tracked_array.py
@@ -146,6 +146,6 @@ class tracked_array(np.ndarray):
         self._update(self._extents[0], self._extents[1])
         return np.ndarray.__imul__(self, other)
 
-    def __idiv__(self, other):
+    def __itruediv__(self, other):
         self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+        return np.ndarray.__itruediv__(self, other)
-- 
2.43.0


From 12641ce557c3529c1c3094156585a829350d64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 90/91] fix: Vec4 is named Vec4

---
 gsp/core/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index c9714d0..88c4265 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -9,7 +9,7 @@ from collections import namedtuple
 Color = namedtuple('Color', ['r', 'g', 'b', 'a'])
 Vec2 = namedtuple('Vec2', ['x', 'y'])
 Vec3 = namedtuple('Vec3', ['x', 'y', 'z'])
-Vec4 = namedtuple('Vec3', ['x', 'y', 'z', 'w'])
+Vec4 = namedtuple('Vec4', ['x', 'y', 'z', 'w'])
 
 class Measure:
     """
-- 
2.43.0


From 3f5fd686926a23d0385d52bc8c13537269a62187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:41 +0000
Subject: [PATCH 91/91] fix: arrays that are not contiguous can be saved as
 JSON

---
 gsp/io/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index c6f798b..6b9e934 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -22,7 +22,7 @@ def default(obj):
             return numpy_dtype_to_str(obj)
         return str(obj)
     elif isinstance(obj, np.ndarray):
-        return base64.b64encode(obj).decode()
+        return base64.b64encode(obj.tobytes()).decode()
     elif isinstance(obj, Matrix):
         return np.asarray(obj).tolist()
     elif isinstance(obj, Color):
-- 
2.43.0

