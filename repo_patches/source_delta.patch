From 9deaaa41504edb95b0b794366dc178e723ae6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 01/72] fix: do not delete opcode methods from classes shared
 with other Python versions

Importing the handlers of one release removed methods from the base classes
that the VMs of earlier releases use, so running e.g. 3.9 bytecode made a
later 2.7 or 3.8 run in the same process fail.
---
 xpython/byteop/byteop27.py     | 10 +++++-----
 xpython/byteop/byteop31.py     | 12 ++++--------
 xpython/byteop/byteop32.py     | 27 +++++++++++----------------
 xpython/byteop/byteop34.py     |  6 +++---
 xpython/byteop/byteop35.py     |  8 ++++----
 xpython/byteop/byteop36.py     |  9 +++++----
 xpython/byteop/byteop36pypy.py |  2 ++
 xpython/byteop/byteop37.py     |  9 ++++-----
 xpython/byteop/byteop38.py     | 14 +++++++-------
 xpython/byteop/byteop39.py     | 24 ++++++++++++------------
 10 files changed, 57 insertions(+), 64 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c22b3c9..1703694 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -5,13 +5,9 @@ import types
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
-# Gone since 2.6
-del ByteOp24.JUMP_IF_FALSE
-del ByteOp24.JUMP_IF_TRUE
-
 
 def fmt_set_add(vm, arg, repr_fn=repr):
     return f" set.add({repr_fn(vm.peek(arg))}, {repr_fn(vm.top)})"
@@ -26,6 +22,10 @@ def fmt_map_add(vm, arg, repr_fn=repr):
 
 
 class ByteOp27(ByteOp26):
+    # Opcodes of earlier releases which do not exist here
+    JUMP_IF_FALSE = None
+    JUMP_IF_TRUE = None
+
     def __init__(self, vm):
         super(ByteOp27, self).__init__(vm)
         self.stack_fmt["SET_ADD"] = fmt_set_add
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 15486ed..6f5eafc 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -4,16 +4,12 @@
 from xpython.byteop.byteop32 import ByteOp32, Version_info
 # from xpython.byteop.byteop26 import ByteOp26
 
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.0 that may want to inherit from this module.
-
-# Added 3.2 but not in 3.1
-del ByteOp32.DUP_TOP_TWO
-del ByteOp32.DELETE_DEREF
-# del ByteOp32.SETUP_WITH
-
 
 class ByteOp31(ByteOp32):
+    # These opcodes do not exist in 3.1
+    DUP_TOP_TWO = None
+    DELETE_DEREF = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7f1dba7..c317b6f 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -8,22 +8,6 @@ from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
 
-# Gone since 3.0
-del ByteOp24.PRINT_EXPR
-del ByteOp24.PRINT_ITEM
-del ByteOp24.PRINT_ITEM_TO
-del ByteOp24.PRINT_NEWLINE
-del ByteOp24.PRINT_NEWLINE_TO
-del ByteOp24.BUILD_CLASS
-del ByteOp24.EXEC_STMT
-del ByteOp24.RAISE_VARARGS
-
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.1 that may want to inherit from this module.
-
-# Gone since 3.2
-del ByteOp24.DUP_TOPX
-
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
     """
@@ -37,6 +21,17 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 
 
 class ByteOp32(ByteOp27):
+    # Opcodes of earlier releases which do not exist here
+    PRINT_EXPR = None
+    PRINT_ITEM = None
+    PRINT_ITEM_TO = None
+    PRINT_NEWLINE = None
+    PRINT_NEWLINE_TO = None
+    BUILD_CLASS = None
+    EXEC_STMT = None
+    RAISE_VARARGS = None
+    DUP_TOPX = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.stack_fmt["MAKE_FUNCTION"] = fmt_make_function
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index a6db178..792ead4 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -12,11 +12,11 @@ from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
-# Gone since 3.3
-del ByteOp32.STORE_LOCALS
-
 
 class ByteOp34(ByteOp33):
+    # Opcodes of earlier releases which do not exist here
+    STORE_LOCALS = None
+
     def __init__(self, vm):
         super(ByteOp34, self).__init__(vm)
         self.version = "3.4.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e6af99f..b9df580 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -5,10 +5,6 @@ from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
-# Gone in 3.5
-del ByteOp24.STORE_MAP
-del ByteOp32.WITH_CLEANUP
-
 
 def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
     """returns string of the repr() for the first element of
@@ -24,6 +20,10 @@ def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
 
 
 class ByteOp35(ByteOp34):
+    # Opcodes of earlier releases which do not exist here
+    STORE_MAP = None
+    WITH_CLEANUP = None
+
     def __init__(self, vm):
         super(ByteOp35, self).__init__(vm)
         self.stack_fmt["BUILD_MAP_UNPACK_WITH_CALL"] = fmt_build_map_unpack_with_call
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4106515..0e2e8ff 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -9,13 +9,10 @@ import inspect
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
-# Gone in 3.6
-del ByteOp24.MAKE_CLOSURE
-del ByteOp24.CALL_FUNCTION_VAR
 
 # Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
 # However, it is gone in 3.7. So we will keep this around for one more version than
@@ -68,6 +65,10 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
 
 # pylint: disable=too-many-public-methods
 class ByteOp36(ByteOp35):
+    # Opcodes of earlier releases which do not exist here
+    MAKE_CLOSURE = None
+    CALL_FUNCTION_VAR = None
+
     def __init__(self, vm):
         super(ByteOp36, self).__init__(vm)
         self.stack_fmt["CALL_FUNCTION"] = fmt_call_function
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index c54a3c2..e9a5d38 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -19,4 +19,6 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
     # However, PyPy 3.6 uses the previous semantics, which we can pull
     # from older Python versions
     CALL_FUNCTION_KW = ByteOp24.CALL_FUNCTION_KW
+    CALL_FUNCTION_VAR = ByteOp35.CALL_FUNCTION_VAR
+    MAKE_CLOSURE = ByteOp35.MAKE_CLOSURE
     BUILD_MAP_UNPACK_WITH_CALL = ByteOp35.BUILD_MAP_UNPACK_WITH_CALL
diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 72888a0..a107a8d 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -3,11 +3,6 @@
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop36 import ByteOp36
 
-# Gone in 3.7
-del ByteOp36.STORE_ANNOTATION
-
-# Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
-del ByteOp24.CALL_FUNCTION_VAR_KW
 
 # del ByteOp36.WITH_CLEANUP_START
 # del ByteOp36.WITH_CLEANUP_FINISH
@@ -39,6 +34,10 @@ class ByteOp37(ByteOp36):
     """
     Python 3.7 opcodes
     """
+    # Opcodes of earlier releases which do not exist here
+    STORE_ANNOTATION = None
+    CALL_FUNCTION_VAR_KW = None
+
     def __init__(self, vm):
         super().__init__(vm)
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ffe32ed..ae0fd7b 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -6,17 +6,17 @@
 # See the documentation for the full license.
 """Bytecode Interpreter operations for Python 3.8
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
-# Gone in 3.8
-del ByteOp24.BREAK_LOOP
-del ByteOp24.CONTINUE_LOOP
-del ByteOp24.SETUP_LOOP
-del ByteOp24.SETUP_EXCEPT
-
 
 class ByteOp38(ByteOp37):
+    # Opcodes of earlier releases which do not exist here
+    BREAK_LOOP = None
+    CONTINUE_LOOP = None
+    SETUP_LOOP = None
+    SETUP_EXCEPT = None
+
     def __init__(self, vm):
         super(ByteOp38, self).__init__(vm)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index aa92bde..9e53fc1 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -12,20 +12,20 @@ from xpython.byteop.byteop35 import ByteOp35
 from xpython.byteop.byteop36 import ByteOp36
 from xpython.byteop.byteop38 import ByteOp38
 
-# Gone in 3.8
-del ByteOp24.END_FINALLY
-del ByteOp35.BUILD_LIST_UNPACK
-del ByteOp35.BUILD_MAP_UNPACK
-del ByteOp35.BUILD_SET_UNPACK
-del ByteOp35.BUILD_TUPLE_UNPACK
-del ByteOp35.WITH_CLEANUP_FINISH
-del ByteOp35.WITH_CLEANUP_START
-del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
-del ByteOp38.CALL_FINALLY
-del ByteOp38.POP_FINALLY
-
 
 class ByteOp39(ByteOp38):
+    # Opcodes of earlier releases which do not exist here
+    END_FINALLY = None
+    BUILD_LIST_UNPACK = None
+    BUILD_MAP_UNPACK = None
+    BUILD_SET_UNPACK = None
+    BUILD_TUPLE_UNPACK = None
+    WITH_CLEANUP_FINISH = None
+    WITH_CLEANUP_START = None
+    BUILD_MAP_UNPACK_WITH_CALL = None
+    CALL_FINALLY = None
+    POP_FINALLY = None
+
     def __init__(self, vm) -> None:
         super(ByteOp38, self).__init__(vm)
         self.hexversion = 0x30907F0
-- 
2.43.0


From dcb7c2b2e0aabefe92ea7df9cc6a1c1dcb2f5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 02/72] fix: select the 2.7 handlers from the module that has
 them, and report unsupported versions as PyVMError

---
 xpython/byteop/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 54e9090..27be1ed 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -24,7 +24,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27PyPy(vm)
                 else:
-                    from xpython.byteop.opcode_2x.byteop27 import ByteOp27
+                    from xpython.byteop.byteop27 import ByteOp27
 
                     byteop = ByteOp27(vm)
             else:
@@ -42,7 +42,8 @@ def get_byteop(vm, python_version, python_implementation):
                 from xpython.byteop.byteop24 import ByteOp24
 
                 byteop = ByteOp24(vm)
-                pass
+            else:
+                raise vm.PyVMError(f"Version {python_version} not supported")
             pass
     else:
         # 3.0 or greater
@@ -68,7 +69,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                 byteop = ByteOp34(vm)
             else:
-                raise vm.VMEerror(f"Version {python_version} not supported")
+                raise vm.PyVMError(f"Version {python_version} not supported")
         else:
             if python_version == (3, 5):
                 if is_pypy:
-- 
2.43.0


From d2c5d8bd92f6e0e49698b068bd1f2d7822693c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 03/72] fix: scale absolute jump operands of 3.10 bytecode when
 the version is given as a pair

---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 2f699ec..11c6e82 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -597,7 +597,7 @@ class PyVM(object):
                     # We probably could set fallthough, since many (all?)
                     # of these are unconditional, but we'll make the jump do
                     # the work of setting.
-                    if self.version >= (3, 10, 0):
+                    if self.version >= (3, 10):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-- 
2.43.0


From 7fed733f15c913d392bfb222bcee213b82ea2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 04/72] fix: let exceptions leave the frame they occur in

An exception raised in a called frame vanished at the end of eval_frame()
(the call returned a stale value), so callers could neither catch it nor be
stopped by it.  Uncaught ones are reported with their message, and method
calls that only worked because their exception was lost are repaired
(LOAD_METHOD of a missing attribute, CALL_METHOD on PyPy 3.7+).
---
 xpython/byteop/byteop37.py     | 15 +++++----------
 xpython/byteop/byteop37pypy.py | 11 +++++++++++
 xpython/byteop/byteop38pypy.py |  1 +
 xpython/byteop/byteop39pypy.py |  1 +
 xpython/vm.py                  | 33 +++++++++++++++++----------------
 xpython/vmtrace.py             | 20 +-------------------
 6 files changed, 36 insertions(+), 45 deletions(-)

diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index a107a8d..a4692dc 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -79,16 +79,11 @@ class ByteOp37(ByteOp36):
         """
         TOS = self.vm.pop()
 
-        if hasattr(TOS, name):
-            # FIXME: Figure out how to get an unbound method and self from a callable function.
-            # Until then, we need to push NULL and the callable (the default slow path).
-            function = getattr(TOS, name)
-            if not callable(function):
-                raise self.vm.PyVMError(f"LOAD_METHOD {name} off of {TOS} of type {type(TOS)} is not callable.")
-            self.vm.push(NULL)
-            self.vm.push(function)
-        else:
-            raise self.vm.PyVMError(f"LOAD_METHOD can't find {name} off of {TOS} of type {type(TOS)}")
+        # FIXME: Figure out how to get an unbound method and self from a callable function.
+        # Until then, we need to push NULL and the callable (the default slow path).
+        function = getattr(TOS, name)
+        self.vm.push(NULL)
+        self.vm.push(function)
 
     def CALL_METHOD(self, count):
         """Calls a method. argc is the number of positional
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1de6785..e041acd 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -48,6 +48,17 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         self.is_pypy = True
         self.version = "3.7.12 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
+    def CALL_METHOD(self, argc: int):
+        """
+        argc has a count of the number of positional parameters.
+        Below these is the cached method slot, which LOOKUP_METHOD fills
+        with garbage, and below that is the method to call.
+        """
+        pos_args = self.vm.popn(argc)
+        self.vm.pop()  # cached method slot is not used here.
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_METHOD_KW(self, argc: int):
         """
         argc has a count of the number of keyword parameters.
diff --git a/xpython/byteop/byteop38pypy.py b/xpython/byteop/byteop38pypy.py
index 8af168d..5ec9f0a 100644
--- a/xpython/byteop/byteop38pypy.py
+++ b/xpython/byteop/byteop38pypy.py
@@ -22,4 +22,5 @@ class ByteOp38PyPy(ByteOp38, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index d3ab917..814df43 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,4 +22,5 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
diff --git a/xpython/vm.py b/xpython/vm.py
index 11c6e82..3c72711 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -443,9 +443,7 @@ class PyVM(object):
                 print("Traceback (most recent call last):")
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(
-                    f"{self.last_exception[0].__name__}:", *self.last_exception[1]
-                )
+                print(f"{self.last_exception[0].__name__}: {self.last_exception[1]}")
             return 1
 
         except Exception:
@@ -455,7 +453,7 @@ class PyVM(object):
                 le1 = self.last_exception[1]
                 tail = ""
                 if le1:
-                    tail = "\n".join(le1.args)
+                    tail = "\n".join(str(arg) for arg in le1.args)
                 print(tail)
             raise
 
@@ -891,18 +889,7 @@ class PyVM(object):
         self.pop_frame()
 
         if why == "exception":
-            last_exception = self.last_exception
-            if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            raise PyVMUncaughtException.from_tuple(last_exception)
-                        else:
-                            raise
-                else:
-                    raise
-            else:
-                raise PyVMError("Borked exception recording")
+            self.raise_last_exception()
             # if self.exception and .... ?
             # log.error("Haven't finished traceback handling, nulling traceback "
             #            "information for now")
@@ -911,6 +898,20 @@ class PyVM(object):
         self.in_exception_processing = False
         return self.return_value
 
+    def raise_last_exception(self):
+        """Leave eval_frame() because of the exception in `last_exception`:
+        raise it in the frame that called us or, if there is none, report it
+        as uncaught."""
+        last_exception = self.last_exception
+        if not (last_exception and last_exception[0]):
+            raise PyVMError("Borked exception recording")
+        exc_type, exc_value = last_exception[:2]
+        if not self.frame and exc_type is not SystemExit:
+            raise PyVMUncaughtException.from_tuple(last_exception)
+        if isinstance(exc_value, BaseException):
+            raise exc_value
+        raise exc_type(exc_value)
+
     # Operators
 
     def sliceOperator(self, op):
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a2b3262..1b4ef31 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -350,25 +350,7 @@ class PyVMTraced(PyVM):
         self.pop_frame()
 
         if why == "exception":
-            last_exception = self.last_exception
-            if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            self.last_exception = PyVMUncaughtException.from_tuple(
-                                last_exception
-                            )
-                        raise self.last_exception
-                    else:
-                        raise last_exception[0]
-                    pass
-                pass
-            else:
-                raise PyVMError("Borked exception recording")
-            # if self.exception and .... ?
-            # log.error("Haven't finished traceback handling, nulling traceback "
-            #            "information for now")
-            # six.reraise(self.last_exception[0], None)
+            self.raise_last_exception()
 
         self.in_exception_processing = False
 
-- 
2.43.0


From f40e9dde0679600c6d09b1af8dca6bb311c4b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 05/72] fix: make PyPy 3.9 method loads agree with its method
 calls

---
 xpython/byteop/byteop39pypy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index 814df43..e18f186 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,5 +22,7 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    # PyPy 3.9 renames LOOKUP_METHOD
+    LOAD_METHOD = ByteOpPyPy.LOOKUP_METHOD
     CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From f5731ab7886134cd4be038cc837eabc06eca05c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 06/72] fix: classic division of Python 2 floors integers, @=
 stores its result

---
 xpython/byteop/byteop.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 70b27ba..5b2cc33 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -28,10 +28,25 @@ UNARY_OPERATORS = {
     "INVERT": operator.invert,
 }
 
+
+def classic_divide(x, y):
+    """The "/" of Python 2 without `from __future__ import division`:
+    integers floor, and classes can define it with __div__/__rdiv__."""
+    if isinstance(x, int) and isinstance(y, int):
+        return x // y
+    for method, operand, other in (("__div__", x, y), ("__rdiv__", y, x)):
+        fn = getattr(type(operand), method, None)
+        if fn is not None:
+            result = fn(operand, other)
+            if result is not NotImplemented:
+                return result
+    return x / y
+
+
 BINARY_OPERATORS = {
     "POWER": pow,
     "MULTIPLY": operator.mul,
-    "DIVIDE": getattr(operator, "div", lambda x, y: x / y),
+    "DIVIDE": classic_divide,
     "FLOOR_DIVIDE": operator.floordiv,
     "TRUE_DIVIDE": operator.truediv,
     "MODULO": operator.mod,
@@ -55,7 +70,7 @@ INPLACE_OPERATORS = frozenset(
         "MODULO",
         "MULTIPLY",
         "OR",
-        "POWER" "RSHIFT",
+        "RSHIFT",
         "SUBTRACT",
         "TRUE_DIVIDE",
         "XOR",
@@ -442,7 +457,7 @@ class ByteOpBase(object):
             if hasattr(x, "__idiv__"):
                 x = x.__idiv__(y)
             else:
-                x //= y
+                x = classic_divide(x, y)
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
@@ -465,7 +480,7 @@ class ByteOpBase(object):
             x |= y
         # 3.5 on
         elif op == "MATRIX_MULTIPLY":
-            operator.imatmul(x, y)
+            x @= y
         else:  # pragma: no cover
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
-- 
2.43.0


From b6dcdf66b23ed2483d52534bf83dde6e85f0d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 07/72] fix: exceptions being handled, re-raised, matched and
 cleaned up after

Keep the exception being handled apart from the one most recently raised, so
that sys.exc_info() and a bare raise see the former and leaving a handler
restores it. Unwind 3.11+ code according to its exception table. Implement what
END_FINALLY, POP_FINALLY, RERAISE, WITH_EXCEPT_START, POP_EXCEPT, BEFORE_WITH
left out. Match tuples of classes, raise TypeError for what cannot be raised or
caught, set __context__, and chain tracebacks from outer to inner frames.
Exceptions which do not derive from Exception are handled like others.
---
 xpython/byteop/byteop.py    |  42 ++++++----
 xpython/byteop/byteop24.py  |  91 ++++++++++----------
 xpython/byteop/byteop27.py  |  39 +++++----
 xpython/byteop/byteop311.py |  56 +++++++++++--
 xpython/byteop/byteop32.py  |  24 ++++--
 xpython/byteop/byteop35.py  |  15 ++--
 xpython/byteop/byteop38.py  |  67 ++++++++++-----
 xpython/byteop/byteop39.py  |  36 ++++----
 xpython/pyobj.py            |   8 +-
 xpython/vm.py               | 162 ++++++++++++++++++------------------
 xpython/vmtrace.py          |  11 ++-
 11 files changed, 315 insertions(+), 236 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 5b2cc33..7469546 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -411,37 +411,43 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
-    def do_raise(self, exc, cause):
-        if exc is None:  # reraise
-            exc_type, val, _ = self.vm.last_exception
-            if exc_type is None:
-                return "exception"  # error
-            else:
-                return "reraise"
-
-        elif type(exc) is type:
+    def do_raise(self, *args):
+        """Implements "raise", "raise exc" and "raise exc from cause". """
+        if not args:  # reraise
+            if self.vm.handled_exception[1] is None:
+                raise RuntimeError("No active exception to reraise")
+            self.vm.last_exception = self.vm.handled_exception
+            return "reraise"
+
+        exc = args[0]
+        if isinstance(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
-            exc_type = exc
             val = exc()  # Make an instance.
+            if not isinstance(val, BaseException):
+                raise TypeError(
+                    f"calling {exc} should have returned an instance of "
+                    f"BaseException, not {type(val)}"
+                )
         elif isinstance(exc, BaseException):
             # As in `raise ValueError('foo')`
-            exc_type = type(exc)
             val = exc
         else:
-            return "exception"  # error
+            raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
-        # val is a valid exception instance and exc_type is its class.
+        # val is a valid exception instance.
         # Now do a similar thing for the cause, if present.
-        if cause:
-            if type(cause) is type:
+        if len(args) > 1:
+            cause = args[1]
+            if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
-            elif not isinstance(cause, BaseException):
-                return "exception"  # error
+            elif cause is not None and not isinstance(cause, BaseException):
+                raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
 
-        self.vm.last_exception = exc_type, val, val.__traceback__
+        self.vm.set_exception_context(val)
+        self.vm.last_exception = type(val), val, None
         return "exception"
 
     def inplace_operator(self, op):
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6c4b1e2..a55b7db 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -78,6 +78,20 @@ def fmt_make_function(vm, _=None, repr=repr):
     # Nothing found.
     return ""
 
+
+def exception_match(exc_type, match) -> bool:
+    """
+    Does an exception of type `exc_type` match what an "except" clause names,
+    i.e. a class or a (possibly nested) tuple of those? Anything else does
+    not match.
+    """
+    if isinstance(match, tuple):
+        return any(exception_match(exc_type, item) for item in match)
+    if isinstance(match, type) and isinstance(exc_type, type):
+        return issubclass(exc_type, match)
+    return exc_type is match
+
+
 class Traceback24(Traceback):
     """
     Python 2.4ish traceback opject
@@ -140,7 +154,7 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        return self.vm.last_exception
+        return self.vm.handled_exception
 
     def fmt_unary_op(vm: PyVM, _=None):
         """
@@ -149,14 +163,10 @@ class ByteOp24(ByteOpBase):
         return f" ({vm.peek(1)})"
 
     def traceback_from_frame(self):
-        frame = self.vm.frame
-        tb = None
-
-        while frame:
-            next_tb = Traceback24(copy(frame))
-            tb = next_tb
-            frame = frame.f_back
-        return tb
+        """
+        Returns a traceback entry for the place where the current frame is.
+        """
+        return Traceback24(copy(self.vm.frame))
 
     def BRKPT(self) -> Optional[Any]:
         """Pseudo opcode: breakpoint. We added this. TODO: call callback, then run
@@ -390,12 +400,6 @@ class ByteOp24(ByteOpBase):
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
-            if self.version_info[:2] >= (3, 5):
-                block = self.vm.top_block()
-                while len(self.vm.frame.stack) > block.level:
-                    self.vm.pop()
-                self.vm.push(tb, val, exctype)
-
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
@@ -534,8 +538,7 @@ class ByteOp24(ByteOpBase):
         lambda x, y: x not in y,
         lambda x, y: x is y,
         lambda x, y: x is not y,
-        lambda x, y: issubclass(x, BaseException)
-        and issubclass(x, y),  # exception-match
+        exception_match,
     ]
 
     def COMPARE_OP(self, opname: int):
@@ -836,32 +839,37 @@ class ByteOp24(ByteOpBase):
         """
         # NOTE: the dis docs quoted above are completely wrong about the order of the
         # operands on the stack!
-        tb = None
-        exctype = None
+        tb = val = None
         if argc == 0:
-            exctype, val, tb = self.vm.last_exception
-        elif argc == 1:
-            exctype = self.vm.pop()
-            val = AssertionError()
-        elif argc == 2:
-            val = self.vm.pop()
-            # Investigate: right now we see this *only* in 2.6.
-            # Can it happen in other bytecode versions?
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
-        elif argc == 3:
-            tb = self.vm.pop()
-            val = self.vm.pop()
-            # See comment above
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
+            exctype, val, tb = self.vm.handled_exception
+        else:
+            if argc >= 3:
+                tb = self.vm.pop()
+            if argc >= 2:
+                val = self.vm.pop()
             exctype = self.vm.pop()
 
-        # There are a number of forms of "raise", normalize them somewhat.
-        if isinstance(exctype, BaseException):
+        # There are a number of forms of "raise", normalize them.
+        while isinstance(exctype, tuple) and exctype:
+            exctype = exctype[0]
+        if isinstance(exctype, type) and issubclass(exctype, BaseException):
+            if val is None:
+                val = exctype()
+            elif isinstance(val, tuple):
+                val = exctype(*val)
+            elif not isinstance(val, exctype):
+                val = exctype(val)
+            exctype = type(val)
+        elif isinstance(exctype, BaseException):
+            if val is not None:
+                raise TypeError("instance exception may not have a separate value")
             val = exctype
             exctype = type(val)
+        else:
+            raise TypeError(
+                "exceptions must be old-style classes or derived from "
+                f"BaseException, not {type(exctype).__name__}"
+            )
 
         self.vm.last_exception = (exctype, val, tb)
 
@@ -889,12 +897,7 @@ class ByteOp24(ByteOpBase):
         off the stack, calls the callable object with those arguments,
         and pushes the return value returned by the callable object.
         """
-        try:
-            return self.call_function(argc, var_args=[], keyword_args={})
-        except TypeError as exc:
-            tb = self.vm.last_traceback = self.traceback_from_frame()
-            self.vm.last_exception = (TypeError, exc, tb)
-            return "exception"
+        return self.call_function(argc, var_args=[], keyword_args={})
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """
diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index 1703694..1a35f85 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -65,6 +65,22 @@ class ByteOp27(ByteOp26):
             method = types.MethodType(func, method.__self__)
         return method
 
+    def lookup_special(self, obj, name):
+        """Looks up a special method the way a with statement does: on the
+        type of the object."""
+        for klass in type(obj).__mro__:
+            if name in klass.__dict__:
+                method = klass.__dict__[name]
+                if hasattr(type(method), "__get__"):
+                    method = method.__get__(obj, type(obj))
+                return method
+        if self.version_info[:2] < (3, 11):
+            raise AttributeError(name)
+        raise TypeError(
+            f"'{type(obj).__name__}' object does not support the context "
+            "manager protocol"
+        )
+
     # Changed in 2.7
     def LIST_APPEND(self, count):
         """Calls list.append(TOS[-i], TOS). Used to implement list comprehensions.
@@ -118,26 +134,9 @@ class ByteOp27(ByteOp26):
         """
         context_manager = self.vm.pop()
 
-        # Make sure __enter__ and __exit__ functions in context_manager are
-        # converted to our Function type, so we can interpret them.
-        # Note though that built-in functions can't be traced.
-        if self.version[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__exit__
-        ):
-            try:
-                exit_method = self.convert_method_native_func(
-                    self.vm.frame, context_manager.__exit__
-                )
-            except Exception:
-                exit_method = context_manager.__exit__
-        else:
-            exit_method = context_manager.__exit__
-        self.vm.push(exit_method)
-        if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__enter__
-        ):
-            self.convert_method_native_func(self.vm.frame, context_manager.__enter__)
-        finally_block = context_manager.__enter__()
+        enter = self.lookup_special(context_manager, "__enter__")
+        self.vm.push(self.lookup_special(context_manager, "__exit__"))
+        finally_block = enter()
         if self.version_info[:2] < (3, 0):
             self.vm.push_block("with", delta)
         else:
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ca98958..5455288 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -14,6 +14,7 @@ from typing import Tuple
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.byteop.byteop24 import Version_info
+from xpython.byteop.byteop32 import exception_match
 from xpython.byteop.byteop36 import (
     COMPREHENSION_FN_NAMES,
     MAKE_FUNCTION_SLOT_NAMES,
@@ -539,8 +540,8 @@ class ByteOp311(ByteOp310):
 
         For "exception matching" use isinstance(TOS1 TOS.__class__) so superclasses
         """
-        _, tos = self.vm.popn(2)
-        self.vm.push(isinstance(tos, tos.__class__))
+        match = self.vm.pop()
+        self.vm.push(exception_match(type(self.vm.top), match))
 
     def JUMP_BACKWARD(self, offset: int):
         """
@@ -559,7 +560,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_TRUE(self, offset: int):
@@ -567,7 +568,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_FALSE(self, offset: int):
@@ -575,7 +576,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_FALSE(self, offset: int):
@@ -583,7 +584,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_NOT_NONE(self, offset: int):
@@ -624,8 +625,49 @@ class ByteOp311(ByteOp310):
         back to the stack. Used in exception handlers.
         """
         val = self.vm.pop()
-        self.vm.push(self.vm.last_exception[1])
+        self.vm.push(self.vm.handled_exception)
         self.vm.push(val)
+        self.vm.handled_exception = self.vm.last_exception
+
+    def POP_EXCEPT(self):
+        """Pops a value from the stack, which is used to restore the exception
+        state."""
+        self.vm.handled_exception = self.vm.pop()
+
+    def RERAISE(self, oparg: int = 0) -> str:
+        """Re-raises the exception currently on top of the stack. If oparg is
+        non-zero, the value below it is used to set f_lasti of the current
+        frame."""
+        val = self.vm.pop()
+        if oparg:
+            self.vm.frame.f_lasti = self.vm.peek(oparg)
+        if self.vm.handled_exception[1] is val:
+            self.vm.last_exception = self.vm.handled_exception
+        elif not (self.vm.last_exception and self.vm.last_exception[1] is val):
+            self.vm.last_exception = (type(val), val, None)
+        return "reraise"
+
+    def BEFORE_WITH(self):
+        """This opcode performs several operations before a with block starts.
+        First, it loads __exit__() from the context manager and pushes it onto
+        the stack for later use by WITH_EXCEPT_START. Then, __enter__() is
+        called. Finally, the result of calling the __enter__() method is
+        pushed onto the stack.
+        """
+        context_manager = self.vm.pop()
+        enter = self.lookup_special(context_manager, "__enter__")
+        exit_method = self.lookup_special(context_manager, "__exit__")
+        self.vm.push(exit_method)
+        self.vm.push(enter())
+
+    def WITH_EXCEPT_START(self):
+        """Calls the function in position 4 on the stack with arguments (type,
+        val, tb) representing the exception at the top of the stack. Used to
+        implement the call context_manager.__exit__(*exc_info()) when an
+        exception has occurred in a with statement.
+        """
+        exit_method = self.vm.peek(4)
+        self.vm.push(exit_method(*self.vm.handled_exception))
 
 
     def RESUME(self, where: int):
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index c317b6f..14e0ddc 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -20,7 +20,23 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
     return f" ({name})"
 
 
+def exception_match(exc_type, match) -> bool:
+    """
+    Does an exception of type `exc_type` match what an "except" clause names,
+    i.e. an exception class or a tuple of those?
+    """
+    for item in match if isinstance(match, tuple) else (match,):
+        if not (isinstance(item, type) and issubclass(item, BaseException)):
+            raise TypeError(
+                "catching classes that do not inherit from BaseException "
+                "is not allowed"
+            )
+    return issubclass(exc_type, match)
+
+
 class ByteOp32(ByteOp27):
+    COMPARE_OPERATORS = ByteOp27.COMPARE_OPERATORS[:-1] + [exception_match]
+
     # Opcodes of earlier releases which do not exist here
     PRINT_EXPR = None
     PRINT_ITEM = None
@@ -253,13 +269,7 @@ class ByteOp32(ByteOp27):
         the traceback as TOS2, the parameter as TOS1, and the
         exception as TOS.
         """
-        cause = exc = None
-        if argc == 2:
-            cause = self.vm.pop()
-            exc = self.vm.pop()
-        elif argc == 1:
-            exc = self.vm.pop()
-        return self.do_raise(exc, cause)
+        return self.do_raise(*self.vm.popn(argc))
 
 
 if __name__ == "__main__":
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index b9df580..8692799 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -165,15 +165,19 @@ class ByteOp35(ByteOp34):
                 exit_method = self.vm.pop(2)
             else:
                 exit_method = self.vm.pop(1)
-        elif issubclass(TOS, BaseException):
+        elif isinstance(TOS, type) and issubclass(TOS, BaseException):
             fourth, third, second = self.vm.popn(3)
             tp, exc, tb = self.vm.popn(3)
             exit_method = self.vm.pop()
+            self.vm.push(tp, exc, tb)
             self.vm.push(None)
             self.vm.push(fourth, third, second)
             block = self.vm.pop_block()
             assert block.type == "except-handler"
             self.vm.push_block(block.type, block.handler, block.level - 1)
+        else:
+            # 3.8+ CALL_FINALLY
+            exit_method = self.vm.pop(1)
         exit_ret = exit_method(second, third, fourth)
         self.vm.push(second)
         self.vm.push(exit_ret)
@@ -189,15 +193,8 @@ class ByteOp35(ByteOp34):
         """
         exit_result = self.vm.pop()
         exception = self.vm.pop()
-        if (
-            exit_result
-            and type(exception) is type
-            and issubclass(exception, BaseException)
-        ):
-            # Pop the exception and replace with "silenced".
-            self.vm.popn(1)
+        if exception is not None and exit_result:
             self.vm.push("silenced")
-            return "silenced"
 
     # All of the following opcodes expect arguments. An argument is
     # two bytes, with the more significant byte last.
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ae0fd7b..11a57e5 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -78,28 +78,39 @@ class ByteOp38(ByteOp37):
             why = None
         elif isinstance(v, int):
             self.vm.jump(v)
-            why = "return"
+            why = None
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
+            # The except-handler block is removed, and the exception state
+            # gets restored, in unwinding the block.
             val = self.vm.pop()
             tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            raise self.vm.PyVMError("END_FINALLY not finished yet")
-            # FIXME: pop 3 more values
+            self.vm.last_exception = (v, val, tb)
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
         return why
 
+    def POP_EXCEPT(self):
+        """
+        Removes one block from the block stack. The popped block must be an
+        exception handler block, as implicitly created when entering an except
+        handler. The last three values on the stack are used to restore the
+        exception state; a value to be returned can be below them.
+        """
+        block = self.vm.pop_block()
+        if block.type != "except-handler":
+            raise self.vm.PyVMError(
+                f"popped block is not an except handler; is {block}"
+            )
+        tb, value, exctype = self.vm.popn(3)
+        self.vm.handled_exception = exctype, value, tb
+
     def CALL_FINALLY(self, delta):
         """Pushes the address of the next instruction onto the stack and
         increments bytecode counter by delta. Used for calling the
         "finally" block as a "subroutine".
         """
-        # Is it f_lasti or the one after that
-        self.vm.push(self.vm.frame.f_lasti)
+        self.vm.push(self.vm.frame.f_lasti + 2)
         self.vm.jump(delta)
 
     def POP_FINALLY(self, preserve_tos: int):
@@ -119,22 +130,32 @@ class ByteOp38(ByteOp37):
         continue and return in the "finally" block.
 
         """
+        preserved = self.vm.pop() if preserve_tos else None
         v = self.vm.pop()
-        if v is None:
-            why = None
-        elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            # FIXME: pop 3 more values
-            why = "reraise"
-            raise self.vm.PyVMError("POP_FINALLY not finished yet")
-        else:  # pragma: no cover
+        if isinstance(v, type) and issubclass(v, BaseException):
+            self.vm.popn(2)
+            self.POP_EXCEPT()
+        elif not (v is None or isinstance(v, int)):  # pragma: no cover
             raise self.vm.PyVMError("Confused POP_FINALLY")
-        return why
+        if preserve_tos:
+            self.vm.push(preserved)
+
+    def WITH_CLEANUP_FINISH(self):
+        """Finishes cleaning up the stack when a with statement block exits.
+
+        TOS is result of __exit__() or __aexit__() function call pushed by
+        WITH_CLEANUP_START. SECOND is None or an exception type (pushed when
+        an exception has been raised).
+
+        Pops two values from the stack. If SECOND is not None and TOS is true
+        unwinds the EXCEPT_HANDLER block which was created when the exception
+        was caught and pushes NULL to the stack.
+        """
+        exit_result = self.vm.pop()
+        exception = self.vm.pop()
+        if exception is not None and exit_result:
+            self.vm.unwind_block(self.vm.pop_block())
+            self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
     # those were reversed.
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 9e53fc1..e45424f 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -8,6 +8,7 @@
 """Bytecode Interpreter operations for Python 3.9
 """
 from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop32 import exception_match
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.byteop.byteop36 import ByteOp36
 from xpython.byteop.byteop38 import ByteOp38
@@ -48,24 +49,28 @@ class ByteOp39(ByteOp38):
     #   already been performed in parse_byte_and_args().
     ##############################################################################
 
-    def RERAISE(self, oparg: int) -> str:
+    def RERAISE(self, oparg: int = 0) -> str:
         """Re-raises the exception currently on top of the stack.  If
-        oparg is non-zero, pops an additional value from the stack
-        which is used to set f_lasti of the current frame.
-
+        oparg is non-zero (3.10), f_lasti of the current frame is restored to
+        where the exception occurred.
         """
-        # An exception was already set up to set: self.vm.last_exception,
-        # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
-        # All we need to do here is note an exception return.
-        for _ in range(oparg, 0, -1):
-            self.vm.frame.block_stack.pop()
-        return "exception"
+        tb, val, exctype = self.vm.popn(3)
+        self.vm.last_exception = (exctype, val, tb)
+        if oparg:
+            self.vm.frame.f_lasti = self.vm.top_block().handler
+        # The except-handler block is removed, and the exception state
+        # gets restored, in unwinding the block.
+        return "reraise"
 
     def WITH_EXCEPT_START(self) -> None:
-        # FIXME
-        raise RuntimeError("WITH_EXCEPT_START not implemented yet")
-        pass
-
+        """Calls the function in position 7 on the stack with the top three
+        items on the stack as arguments. Used to implement the call
+        context_manager.__exit__(*exc_info()) when an exception has occurred
+        in a with statement.
+        """
+        exit_method = self.vm.peek(7)
+        tb, val, exctype = self.vm.peek(3), self.vm.peek(2), self.vm.peek(1)
+        self.vm.push(exit_method(exctype, val, tb))
 
     def LOAD_ASSERTION_ERROR(self) -> None:
         """
@@ -94,8 +99,7 @@ class ByteOp39(ByteOp38):
         the stack.
         """
         TOS1, TOS = self.vm.popn(2)
-        # FIXME: not sure what operation should be used to test not "matches".
-        if not issubclass(TOS1, TOS):
+        if not exception_match(TOS1, TOS):
             self.vm.jump(target)
         return
 
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1189a9..da5a91c 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -508,8 +508,8 @@ class Frame(object):
 
 
 class Traceback:
-    def __init__(self, frame) -> None:
-        self.tb_next = frame.f_back
+    def __init__(self, frame, tb_next=None) -> None:
+        self.tb_next = tb_next
         self.tb_lasti = frame.f_lasti
         self.tb_lineno = frame.f_lineno
         self.tb_frame = frame
@@ -538,9 +538,7 @@ def traceback_from_frame(frame):
     tb = None
 
     while frame:
-        copy_frame = copy(frame)
-        next_tb = Traceback(copy_frame)
-        tb = next_tb
+        tb = Traceback(copy(frame), tb)
         frame = frame.f_back
     return tb
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 3c72711..e36312c 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -162,9 +162,18 @@ class PyVM(object):
         # This changes how we report a VMRuntime error.
         self.vmtest_testing = vmtest_testing
 
-        # Like sys.exc_info() tuple
+        # Like sys.exc_info() tuple, for the exception most recently raised.
         self.last_exception = None
 
+        # Like sys.exc_info() tuple, for the exception that is being handled,
+        # i.e. whose "except" or "finally" clause is running. It is what
+        # sys.exc_info() shows and what a bare "raise" raises.
+        self.handled_exception = (None, None, None)
+
+        # The exception value, if any, with which the last frame was left.
+        # It keeps its traceback in the frames it passes through.
+        self.propagating = None
+
         # Sometimes we need a native function (e.g. for method lookup), but
         # most of the time we want a VM function defined in pyobj.
         # This maps between the two.
@@ -182,29 +191,57 @@ class PyVM(object):
         self.opc = get_opcode_module(python_version, python_implementation)
         self.byteop = get_byteop(self, python_version, python_implementation)
 
-    def exception_handling_311(self):
+    def exception_handling_311(self, offset):
         """In Python 3.11 exception handling blocks are handled off
         of a code co_exceptiontable.
 
-        Here, we find the exception block associated with a code offset,
-        determined by the frame's f_lasti, push the exception block,
-        and note we are in exception processing
-
+        Here, we find the handler for the instruction at `offset`. If there
+        is one, we adjust the evaluation stack for it, continue there and
+        return None. Otherwise, we return "exception".
         """
         frame = self.frame
-        lasti = frame.f_lasti
         encoded_exception_table = frame.f_code.co_exceptiontable
         exception_entries = parse_exception_table(encoded_exception_table)
         for exception_entry in exception_entries:
-            if exception_entry.start <= lasti <= exception_entry.end:
-                self.push_block(
-                    "setup-except311",
-                    exception_entry.target,
-                    exception_entry.depth,
-                )
-                self.in_exception_processing = True
+            if exception_entry.start <= offset <= exception_entry.end:
+                del frame.stack[exception_entry.depth :]
+                if exception_entry.lasti:
+                    self.push(frame.f_lasti)
+                self.push(self.last_exception[1])
+                self.jump(exception_entry.target)
+                return None
+        return "exception"
+
+    def record_exception(self, exc_type, exc_value):
+        """Note in `last_exception` that the instruction of the current frame
+        has raised an exception, and add the frame to its traceback."""
+        traceback = self.byteop.traceback_from_frame()
+        if exc_value is not None and exc_value is self.propagating:
+            traceback.tb_next = self.last_traceback
+        elif (
+            isinstance(exc_value, BaseException)
+            and exc_value.__context__ is None
+        ):
+            self.set_exception_context(exc_value)
+        self.propagating = None
+        self.last_traceback = traceback
+        self.last_exception = (exc_type, exc_value, traceback)
+
+    def set_exception_context(self, exc_value):
+        """Set the __context__ of an exception that is about to be raised to
+        the exception that is being handled."""
+        context = self.handled_exception[1]
+        if self.version < (3, 0) or context is None or context is exc_value:
+            return
+        # Avoid making the context chain circular.
+        ancestor, seen = context, set()
+        while ancestor is not None and id(ancestor) not in seen:
+            seen.add(id(ancestor))
+            if ancestor.__context__ is exc_value:
+                ancestor.__context__ = None
                 break
-        return
+            ancestor = ancestor.__context__
+        exc_value.__context__ = context
 
     ##############################################
     # Frame operations. First the frame stack....
@@ -481,11 +518,11 @@ class PyVM(object):
         while len(self.frame.stack) > block.level + offset:
             self.pop()
 
-        # Set self.last_exception which will filter its way to
-        # sys.last_exception. 3.11+ has a already set this.
-        if block.type == "except-handler" and self.version < (3, 11):
+        # Leaving an exception handler: go back to the exception which was
+        # being handled before it.
+        if block.type == "except-handler":
             tb, value, exctype = self.popn(3)
-            self.last_exception = exctype, value, tb
+            self.handled_exception = exctype, value, tb
 
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
@@ -678,10 +715,9 @@ class PyVM(object):
                     )
                 why = bytecode_fn(*arguments)
 
-        except Exception:
+        except BaseException as exc:
             # Deal with exceptions encountered while executing the op.
-            self.last_traceback = byteop.traceback_from_frame()
-            self.last_exception = sys.exc_info()
+            self.record_exception(type(exc), exc)
 
             # FIXME: dry code
             if not self.in_exception_processing:
@@ -721,11 +757,8 @@ class PyVM(object):
             why = None
             return why
 
-        if not (
-            block.type in ("except-handler", "setup-except311") and why == "silenced"
-        ):
-            self.pop_block()
-            self.unwind_block(block)
+        self.pop_block()
+        self.unwind_block(block)
 
         if block.type == "loop" and why == "break":
             why = None
@@ -741,6 +774,8 @@ class PyVM(object):
             ):
                 if why == "exception":
                     exctype, value, tb = self.last_exception
+                    if block.type != "finally":
+                        self.handled_exception = self.last_exception
                     self.push(tb, value, exctype)
                 else:
                     if why in ("return", "continue"):
@@ -753,35 +788,21 @@ class PyVM(object):
 
         else:
             if why == "exception" and block.type in ["setup-except", "finally"]:
-                self.push_block("except-handler")
-                exc_type, exc_value, exc_traceback = self.last_exception
-                # FIXME: start here - is this right for 2.7?
-                self.push(exc_traceback, exc_value, exc_type)
-                why = None
+                # The handler is where the exception occurred. RERAISE
+                # of 3.10 goes back to that place.
+                self.push_block("except-handler", self.frame.f_lasti)
 
                 # Make the raw exception data available to the
                 # handler, so a program can emulate the Python main
                 # loop.
-
-                # PyErr_NormalizeException goes here
-                self.jump(block.handler)
-                self.last_traceback = exc_traceback
+                exc_type, exc_value, exc_traceback = self.handled_exception
                 self.push(exc_traceback, exc_value, exc_type)
-                return why
-
-            if why == "exception" and block.type == "setup-except311":
-                # FIXME: Is this right?
-                self.push(self.last_exception)
-                self.push_block("except-handler")
-                why = None
-
-                # Make the raw exception data available to the
-                # handler, so a program can emulate the Python main
-                # loop.
+                exc_type, exc_value, exc_traceback = self.last_exception
+                self.push(exc_traceback, exc_value, exc_type)
+                self.handled_exception = self.last_exception
 
-                # PyErr_NormalizeException goes here
                 self.jump(block.handler)
-                return why
+                return None
 
             elif block.type == "finally":
                 if why in ("return", "continue"):
@@ -791,10 +812,6 @@ class PyVM(object):
                 why = None
                 self.jump(block.handler)
                 return why
-            elif block.type == "except-handler" and why == "silenced":
-                # 3.5+ WITH_CLEANUP_FINISH
-                # Nothing needs to be done here.
-                return None
             elif why == "return":
                 # 3.8+ END_FINALLY
                 pass
@@ -824,6 +841,7 @@ class PyVM(object):
             # byte_code == opcode["YIELD_VALUE"]?
 
         self.push_frame(frame)
+        handled_exception = self.handled_exception
         offset = 0
         while True:
             (
@@ -846,35 +864,15 @@ class PyVM(object):
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
-                    # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit:
-                        log.info(
-                            (
-                                "exception in the execution of "
-                                "instruction:\n\t%s"
-                                % self.format_instruction(
-                                    frame,
-                                    self.opc,
-                                    bytecode_name,
-                                    int_arg,
-                                    arguments,
-                                    offset,
-                                    line_number,
-                                    False,
-                                )
-                            )
-                        )
-                    self.last_traceback = traceback_from_frame(frame)
+                    self.record_exception(*self.last_exception[:2])
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
+
+            if why == "exception" and self.version >= (3, 11):
+                why = self.exception_handling_311(offset)
 
             if why != "yield":
                 while why and frame.block_stack:
@@ -887,6 +885,7 @@ class PyVM(object):
         # TODO: handle generator exception state
 
         self.pop_frame()
+        self.handled_exception = handled_exception
 
         if why == "exception":
             self.raise_last_exception()
@@ -906,11 +905,12 @@ class PyVM(object):
         if not (last_exception and last_exception[0]):
             raise PyVMError("Borked exception recording")
         exc_type, exc_value = last_exception[:2]
-        if not self.frame and exc_type is not SystemExit:
+        if not self.frame and issubclass(exc_type, Exception):
             raise PyVMUncaughtException.from_tuple(last_exception)
-        if isinstance(exc_value, BaseException):
-            raise exc_value
-        raise exc_type(exc_value)
+        if not isinstance(exc_value, BaseException):
+            exc_value = exc_type(exc_value)
+        self.propagating = exc_value
+        raise exc_value
 
     # Operators
 
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 1b4ef31..d11a6bb 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -219,6 +219,7 @@ class PyVMTraced(PyVM):
             self.opc.findlinestarts(frame.f_code, dup_lines=True)
         )
 
+        handled_exception = self.handled_exception
         offset = 0
         while True:
             (
@@ -290,18 +291,15 @@ class PyVMTraced(PyVM):
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
-                    self.last_traceback = traceback_from_frame(self.frame)
+                    self.record_exception(*self.last_exception[:2])
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
 
+            if why == "exception" and self.version >= (3, 11):
+                why = self.exception_handling_311(offset)
 
             if why != "yield":
                 while why and frame.block_stack:
@@ -348,6 +346,7 @@ class PyVMTraced(PyVM):
         # TODO: handle generator exception state
 
         self.pop_frame()
+        self.handled_exception = handled_exception
 
         if why == "exception":
             self.raise_last_exception()
-- 
2.43.0


From 95c9c7b955ece29fedd8206f3b6c997dfea12046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 08/72] fix: generators can be thrown into and closed, finish
 for good, and delegate

Implement throw() and close() of generators, PEP 479, ValueError for a generator
already executing, StopIteration for one that has finished, and yield from
delegating all of it. Implement generators of 3.11 and 3.12. The end of an entry
of the exception table is exclusive. Call __exit__() the way 2.5 has it, and
give a native __exit__() a native traceback.
---
 xpython/byteop/byteop24.py  |   2 -
 xpython/byteop/byteop25.py  |  77 ++++++++-----------
 xpython/byteop/byteop26.py  |  53 +++++++++++++
 xpython/byteop/byteop311.py |  47 +++++++++++-
 xpython/byteop/byteop312.py |  56 ++++++++++++--
 xpython/byteop/byteop32.py  |   2 +-
 xpython/byteop/byteop33.py  |  23 +++---
 xpython/byteop/byteop35.py  |   2 +-
 xpython/byteop/byteop39.py  |   2 +-
 xpython/pyobj.py            | 144 +++++++++++++++++++++++++++++++++---
 xpython/vm.py               |  29 ++++++--
 xpython/vmtrace.py          |   7 +-
 12 files changed, 352 insertions(+), 92 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index a55b7db..c234e00 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -334,8 +334,6 @@ class ByteOp24(ByteOpBase):
     def RETURN_VALUE(self):
         """Returns with TOS to the caller of the function."""
         self.vm.return_value = self.vm.pop()
-        if self.vm.frame.generator:
-            self.vm.frame.generator.finished = True
         return "return"
 
     def YIELD_VALUE(self):
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 5313e76..a5d44cd 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -5,6 +5,7 @@ Note: this is subclassed. Later versions use operations from here.
 """
 
 from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.pyobj import Function, Method
 
 
 class ByteOp25(ByteOp24):
@@ -13,55 +14,37 @@ class ByteOp25(ByteOp24):
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
-    # New in Python 2.5 but changes in 3.3.
-    def WITH_CLEANUP(self):
-        """Cleans up the stack when a "with" statement block exits. On top of
-        the stack are 1 3 values indicating how/why the "finally" clause
-        was entered:
-
-        * TOP = None
-        * (TOP, SECOND) = (WHY_{RETURN,CONTINUE}), retval
-        * TOP = WHY_*; no retval below it
-        * (TOP, SECOND, THIRD) = exc_info()
-
-        Under them is EXIT, the context manager s __exit__() bound method.
+    def call_exit(self, exit_func, exc_type, value, tb):
+        """Calls the __exit__() method of a context manager. Those which are
+        not interpreted can insist on having a genuine traceback."""
+        if not isinstance(exit_func, (Function, Method)):
+            tb = getattr(value, "__traceback__", None)
+        return exit_func(exc_type, value, tb)
 
-        In the last case, EXIT(TOP, SECOND, THIRD) is called,
-        otherwise EXIT(None, None, None).
-
-        EXIT is removed from the stack, leaving the values above it in
-        the same order. In addition, if the stack represents an
-        exception, and the function call returns a  true  value, this
-        information is  zapped , to prevent END_FINALLY from
-        re-raising the exception. (But non-local gotos should still be
-        resumed.)
-
-        All of the following opcodes expect arguments. An argument is
-        two bytes, with the more significant byte last.
+    # New in Python 2.5 but changes in 2.6.
+    def WITH_CLEANUP(self):
+        """Cleans up the stack when a "with" statement block exits. TOP is the
+        context manager's __exit__() bound method. Below that are 1-3 values
+        indicating how/why the "finally" clause was entered:
+
+        * SECOND = None
+        * (SECOND, THIRD) = (WHY_{RETURN,CONTINUE}), retval
+        * SECOND = WHY_*; no retval below it
+        * (SECOND, THIRD, FOURTH) = exc_info()
+
+        In the last case, TOP(SECOND, THIRD, FOURTH) is called,
+        otherwise TOP(None, None, None).
+
+        In addition, if the stack represents an exception, and the function
+        call returns a true value, this information is zapped, to prevent
+        END_FINALLY from re-raising the exception. (But non-local gotos should
+        still be resumed.)
         """
-        # The code here does some weird stack manipulation: the __exit__ function
-        # is buried in the stack, and where depends on what's on top of it.
-        # Pull out the exit function, and leave the rest in place.
-        # In Python 3.x this is fixed up so that the __exit__ function is TOS
-        v = w = None
-        u = self.vm.top
-        if u is None:
-            exit_func = self.vm.pop(1)
-        elif isinstance(u, str):
-            if u in ("return", "continue"):
-                exit_func = self.vm.pop(2)
-            else:
-                exit_func = self.vm.pop(1)
-            u = None
-        elif issubclass(u, BaseException):
-            w, v, u = self.vm.popn(3)
-            exit_func = self.vm.pop()
-            self.vm.push(w, v, u)
-        else:  # pragma: no cover
-            raise self.vm.PyVMError("Confused WITH_CLEANUP")
-        exit_ret = exit_func(u, v, w)
-        err = (u is not None) and bool(exit_ret)
-        if err:
+        exit_func = self.vm.pop()
+        exctype = self.vm.top
+        if exctype is None or isinstance(exctype, str):
+            exit_func(None, None, None)
+        elif self.call_exit(exit_func, exctype, self.vm.peek(2), self.vm.peek(3)):
             # An error occurred, and was suppressed
             self.vm.popn(3)
             self.vm.push(None)
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index cdb7c39..627dec2 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -85,6 +85,59 @@ class ByteOp26(ByteOp25):
 
         self.vm.push(module)
 
+    # New in Python 2.5, changed in 2.6 and in 3.2.
+    def WITH_CLEANUP(self):
+        """Cleans up the stack when a "with" statement block exits. On top of
+        the stack are 1 3 values indicating how/why the "finally" clause
+        was entered:
+
+        * TOP = None
+        * (TOP, SECOND) = (WHY_{RETURN,CONTINUE}), retval
+        * TOP = WHY_*; no retval below it
+        * (TOP, SECOND, THIRD) = exc_info()
+
+        Under them is EXIT, the context manager s __exit__() bound method.
+
+        In the last case, EXIT(TOP, SECOND, THIRD) is called,
+        otherwise EXIT(None, None, None).
+
+        EXIT is removed from the stack, leaving the values above it in
+        the same order. In addition, if the stack represents an
+        exception, and the function call returns a  true  value, this
+        information is  zapped , to prevent END_FINALLY from
+        re-raising the exception. (But non-local gotos should still be
+        resumed.)
+
+        All of the following opcodes expect arguments. An argument is
+        two bytes, with the more significant byte last.
+        """
+        # The code here does some weird stack manipulation: the __exit__ function
+        # is buried in the stack, and where depends on what's on top of it.
+        # Pull out the exit function, and leave the rest in place.
+        # In Python 3.x this is fixed up so that the __exit__ function is TOS
+        v = w = None
+        u = self.vm.top
+        if u is None:
+            exit_func = self.vm.pop(1)
+        elif isinstance(u, str):
+            if u in ("return", "continue"):
+                exit_func = self.vm.pop(2)
+            else:
+                exit_func = self.vm.pop(1)
+            u = None
+        elif issubclass(u, BaseException):
+            w, v, u = self.vm.popn(3)
+            exit_func = self.vm.pop()
+            self.vm.push(w, v, u)
+        else:  # pragma: no cover
+            raise self.vm.PyVMError("Confused WITH_CLEANUP")
+        exit_ret = self.call_exit(exit_func, u, v, w)
+        err = (u is not None) and bool(exit_ret)
+        if err:
+            # An error occurred, and was suppressed
+            self.vm.popn(3)
+            self.vm.push(None)
+
     def MAKE_CLOSURE(self, argc: int):
         """
         Creates a new function object, sets its ``func_closure`` slot, and
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 5455288..04e256b 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -667,9 +667,54 @@ class ByteOp311(ByteOp310):
         exception has occurred in a with statement.
         """
         exit_method = self.vm.peek(4)
-        self.vm.push(exit_method(*self.vm.handled_exception))
+        self.vm.push(self.call_exit(exit_method, *self.vm.handled_exception))
 
 
+    def RETURN_GENERATOR(self):
+        """
+        Creates a generator, coroutine, or async generator from the current
+        frame.
+
+        In this interpreter the generator is created when its function is
+        called, so this is where it starts. The next instruction pops what
+        was sent to it.
+        """
+        self.vm.push(None)
+
+    def SEND(self, jump_offset: int):
+        """
+        Equivalent to STACK[-1] = STACK[-2].send(STACK[-1]). Used in yield
+        from and await statements.
+
+        If the call raises StopIteration, pop the top value from the stack,
+        push the exception's value attribute, and increment the bytecode
+        counter by delta.
+
+        Before 3.12, the receiver gets popped as well in the latter case.
+        """
+        value = self.vm.pop()
+        receiver = self.vm.top
+        self.vm.frame.yielding_from = False
+        try:
+            if value is None:
+                result = next(receiver)
+            else:
+                result = receiver.send(value)
+        except StopIteration as stop:
+            if self.version_info[:2] < (3, 12):
+                self.vm.pop()
+            self.vm.push(stop.value)
+            self.vm.jump(jump_offset)
+        else:
+            self.vm.frame.yielding_from = True
+            self.vm.push(result)
+
+    def JUMP_BACKWARD_NO_INTERRUPT(self, offset: int):
+        """
+        Decrements bytecode counter by delta. Does not check for interrupts.
+        """
+        self.vm.jump(offset)
+
     def RESUME(self, where: int):
         """
         A no-op. Performs internal tracing, debugging and optimization checks.
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 64b7eb3..d83dd9c 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -7,6 +7,8 @@
 """Bytecode Interpreter operations for Python 3.12
 """
 
+import sys
+
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
 from xpython.byteop.byteop37 import NULL
@@ -52,10 +54,44 @@ class ByteOp312(ByteOp311):
 
     def END_SEND(self):
         """
-        To be continued...
+        Implements del STACK[-2]. Used to clean up when a generator exits.
         """
-        # FIXME
-        raise self.vm.PyVMError("END_SEND not implemented")
+        self.vm.pop(1)
+
+    def YIELD_VALUE(self, _):
+        """
+        Yields STACK.pop() from a generator.
+
+        Changed in 3.12: oparg set to be the exception block depth, for
+        efficient closing of generators.
+        """
+        return super().YIELD_VALUE()
+
+    def CALL_INTRINSIC_1(self, function: int):
+        """
+        Calls an intrinsic function with one argument. Passes STACK[-1] as the
+        argument and sets STACK[-1] to the result.
+        """
+        if function == 1:  # INTRINSIC_PRINT
+            sys.displayhook(self.vm.pop())
+            self.vm.push(None)
+        elif function == 2:  # INTRINSIC_IMPORT_STAR
+            self.IMPORT_STAR()
+            self.vm.push(None)
+        elif function == 3:  # INTRINSIC_STOPITERATION_ERROR
+            exc = self.vm.top
+            if isinstance(exc, StopIteration):
+                error = RuntimeError("generator raised StopIteration")
+                error.__cause__ = error.__context__ = exc
+                self.vm.set(1, error)
+        elif function == 5:  # INTRINSIC_UNARY_POSITIVE
+            self.vm.push(+self.vm.pop())
+        elif function == 6:  # INTRINSIC_LIST_TO_TUPLE
+            self.vm.push(tuple(self.vm.pop()))
+        else:
+            raise self.vm.PyVMError(
+                f"CALL_INTRINSIC_1 function {function} not implemented"
+            )
 
     def RESERVED(self):
         """
@@ -79,10 +115,18 @@ class ByteOp312(ByteOp311):
 
     def CLEANUP_THROW(self):
         """
-        To be continued...
+        Handles an exception raised during a throw() or close() call through
+        the current frame. If STACK[-1] is an instance of StopIteration, pop
+        three values from the stack and push its value member. Otherwise,
+        re-raise STACK[-1].
         """
-        # FIXME
-        raise self.vm.PyVMError("CLEANUP_THROW not implemented")
+        self.vm.frame.yielding_from = False
+        exc = self.vm.pop()
+        if isinstance(exc, StopIteration):
+            self.vm.popn(2)
+            self.vm.push(None, exc.value)
+            return None
+        return "reraise"
 
     def LOAD_LOCALS(self):
         """
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 14e0ddc..2612351 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -248,7 +248,7 @@ class ByteOp32(ByteOp27):
             self.vm.push_block(block.type, block.handler, block.level - 1)
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused WITH_CLEANUP")
-        exit_ret = exit_func(u, v, w)
+        exit_ret = self.call_exit(exit_func, u, v, w)
         err = (u is not None) and bool(exit_ret)
         if err:
             # An error occurred, and was suppressed
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 21d8770..66a28ba 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -5,7 +5,7 @@
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
-from xpython.pyobj import Function, Generator
+from xpython.pyobj import Function
 
 
 class ByteOp33(ByteOp32):
@@ -133,26 +133,21 @@ class ByteOp33(ByteOp32):
         """
         Pops TOS and delegates to it as a subiterator from a generator.
         """
-        u = self.vm.pop()
-        x = self.vm.top
+        value = self.vm.pop()
+        receiver = self.vm.top
+        self.vm.frame.yielding_from = False
 
         try:
-            if not isinstance(x, Generator) or u is None:
-                # Call next on iterators.
-                retval = next(x)
+            if value is None:
+                self.vm.return_value = next(receiver)
             else:
-                retval = x.send(u)
-            self.vm.return_value = retval
+                self.vm.return_value = receiver.send(value)
         except StopIteration as e:
             self.vm.pop()
             self.vm.push(e.value)
         else:
-            # FIXME: The code has the effect of rerunning the last instruction.
-            # I'm not sure if or why it is correct.
-            if self.vm.version >= (3, 6):
-                self.vm.jump(self.vm.frame.f_lasti - 2)
-            else:
-                self.vm.jump(self.vm.frame.f_lasti - 1)
+            # When the frame is resumed, this instruction is run again.
+            self.vm.frame.yielding_from = True
             return "yield"
 
     # Python 3.3 docs describe a 3.4 MAKE_FUNCTION but seem to follow pre-3.3
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 8692799..d2396ab 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -178,7 +178,7 @@ class ByteOp35(ByteOp34):
         else:
             # 3.8+ CALL_FINALLY
             exit_method = self.vm.pop(1)
-        exit_ret = exit_method(second, third, fourth)
+        exit_ret = self.call_exit(exit_method, second, third, fourth)
         self.vm.push(second)
         self.vm.push(exit_ret)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index e45424f..e11ea1e 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -70,7 +70,7 @@ class ByteOp39(ByteOp38):
         """
         exit_method = self.vm.peek(7)
         tb, val, exctype = self.vm.peek(3), self.vm.peek(2), self.vm.peek(1)
-        self.vm.push(exit_method(exctype, val, tb))
+        self.vm.push(self.call_exit(exit_method, exctype, val, tb))
 
     def LOAD_ASSERTION_ERROR(self) -> None:
         """
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index da5a91c..27fa3bf 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -470,6 +470,17 @@ class Frame(object):
 
         self.block_stack = []
         self.generator = None
+
+        # When a generator is left by a "yield", this is True.
+        self.yielded = False
+        # A generator frame can be suspended in a "yield from". If so, the
+        # iterator it delegates to is on top of the evaluation stack.
+        self.yielding_from = False
+        # Exception to raise when a generator frame is resumed
+        self.pending_exception = None
+        # When suspended inside an exception handler, what it is handling.
+        self.handled_exception = None
+
         self.version = version
 
         # These are sentinel or bogus values to start out.
@@ -547,7 +558,7 @@ class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
         self.vm = vm
-        self.name = vm
+        self.name = name
         self.started = False
         self.finished = False
         self.gi_running = False
@@ -558,23 +569,134 @@ class Generator(object):
     def __iter__(self):
         return self
 
+    @property
+    def gi_yieldfrom(self):
+        """The iterator a suspended "yield from" delegates to, or None."""
+        frame = self.gi_frame
+        return frame.stack[-1] if frame and frame.yielding_from else None
+
     def next(self):
         return self.send(None)
 
     def send(self, value=None):
-        if not self.started and value is not None:
-            raise TypeError("Can't send non-None value to a just-started generator")
-        self.gi_frame.stack.append(value)
-        self.started = True
-        self.running = True
-        val = self.vm.resume_frame(self.gi_frame)
-        if self.finished:
-            self.running = False
-            raise StopIteration(val)
-        return val
+        self.check_not_running()
+        if not self.started and not self.finished and value is not None:
+            raise TypeError("can't send non-None value to a just-started generator")
+        return self.resume(value)
 
     __next__ = next
 
+    def throw(self, exc_type, value=None, traceback=None):
+        """Raise an exception where the generator is suspended."""
+        if isinstance(exc_type, BaseException):
+            if value is not None:
+                raise TypeError("instance exception may not have a separate value")
+            exc = exc_type
+        elif isinstance(exc_type, type) and issubclass(exc_type, BaseException):
+            if isinstance(value, exc_type):
+                exc = value
+            elif value is None:
+                exc = exc_type()
+            elif isinstance(value, tuple):
+                exc = exc_type(*value)
+            else:
+                exc = exc_type(value)
+        else:
+            raise TypeError(
+                "exceptions must be classes or instances deriving from "
+                f"BaseException, not {type(exc_type).__name__}"
+            )
+        self.check_not_running()
+
+        delegate = self.gi_yieldfrom
+        if delegate is not None:
+            self.gi_running = True
+            try:
+                if isinstance(exc, GeneratorExit):
+                    if hasattr(delegate, "close"):
+                        delegate.close()
+                elif hasattr(delegate, "throw"):
+                    return delegate.throw(exc)
+            except StopIteration as stop:
+                if self.vm.version >= (3, 11):
+                    # CLEANUP_THROW is going to handle this
+                    exc = stop
+                else:
+                    # The delegate has finished, so "yield from" has too.
+                    self.gi_frame.yielding_from = False
+                    self.gi_frame.stack.pop()
+                    return self.resume(stop.value)
+            except BaseException as delegate_exc:
+                exc = delegate_exc
+            finally:
+                self.gi_running = False
+        return self.resume(None, exc)
+
+    def close(self):
+        """Have the generator finish where it is suspended."""
+        self.check_not_running()
+        if self.finished:
+            return
+        if not self.started:
+            self.finish()
+            return
+        try:
+            self.throw(GeneratorExit())
+        except (GeneratorExit, StopIteration):
+            return
+        raise RuntimeError("generator ignored GeneratorExit")
+
+    def check_not_running(self):
+        if self.gi_running:
+            raise ValueError("generator already executing")
+
+    def finish(self):
+        self.finished = True
+        self.gi_frame = None
+
+    def resume(self, value, exc=None):
+        """Continue the generator until it yields, which is what is returned,
+        or finishes. "yield" has the given value or raises the given exception.
+        """
+        frame = self.gi_frame
+        if self.finished:
+            if exc is not None:
+                raise exc
+            raise StopIteration
+        if exc is not None and not self.started:
+            self.finish()
+            raise exc
+
+        version = self.vm.version
+        if exc is not None:
+            frame.pending_exception = exc
+            frame.yielding_from = frame.yielding_from and version >= (3, 11)
+        if version >= (2, 5) and (self.started or (3, 10) <= version < (3, 11)):
+            frame.stack.append(value)
+
+        self.started = True
+        self.gi_running = True
+        try:
+            value = self.vm.resume_frame(frame)
+        except StopIteration as stop:
+            self.finish()
+            if (3, 7) <= version < (3, 12):
+                # PEP 479. From 3.12 on, this is done in bytecode.
+                raise RuntimeError("generator raised StopIteration") from stop
+            raise
+        except BaseException:
+            self.finish()
+            raise
+        finally:
+            self.gi_running = False
+
+        if frame.yielded:
+            return value
+        self.finish()
+        if value is None:
+            raise StopIteration
+        raise StopIteration(value)
+
 
 if __name__ == "__main__":
     frame = Frame(
diff --git a/xpython/vm.py b/xpython/vm.py
index e36312c..3300468 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -203,7 +203,7 @@ class PyVM(object):
         encoded_exception_table = frame.f_code.co_exceptiontable
         exception_entries = parse_exception_table(encoded_exception_table)
         for exception_entry in exception_entries:
-            if exception_entry.start <= offset <= exception_entry.end:
+            if exception_entry.start <= offset < exception_entry.end:
                 del frame.stack[exception_entry.depth :]
                 if exception_entry.lasti:
                     self.push(frame.f_lasti)
@@ -452,11 +452,18 @@ class PyVM(object):
             frame.fallthrough = False
             frame.f_lasti = 0
         else:
-            frame.fallthrough = True
+            # Before 3.11, YIELD_FROM gets repeated until the iterator it
+            # delegates to is exhausted. And an exception that is thrown in
+            # occurs where we left off.
+            frame.fallthrough = not (
+                frame.pending_exception is not None
+                or (frame.yielding_from and self.version < (3, 11))
+            )
 
-        val = self.eval_frame(frame)
-        frame.f_back = None
-        return val
+        try:
+            return self.eval_frame(frame)
+        finally:
+            frame.f_back = None
 
     ##############################################
     # End Frame operations.
@@ -623,7 +630,7 @@ class PyVM(object):
                             int_arg = -int_arg
                         int_arg += int_arg
                     arg = arg_offset + int_arg
-                    if bytecode_name == "FOR_ITER" and self.version >= (3, 12):
+                    if bytecode_name in ("FOR_ITER", "SEND") and self.version >= (3, 12):
                         # 3.12 jumps one more instruction for reasons I can't find
                         # well documented.
                         arg += 2
@@ -676,6 +683,9 @@ class PyVM(object):
         self.in_exception_processing = False
         byteop = self.byteop
         try:
+            if self.frame.pending_exception is not None:
+                exc, self.frame.pending_exception = self.frame.pending_exception, None
+                raise exc
             if bytecode_name.startswith("UNARY_"):
                 byteop.unaryOperator(bytecode_name[6:])
             elif (
@@ -842,6 +852,8 @@ class PyVM(object):
 
         self.push_frame(frame)
         handled_exception = self.handled_exception
+        if frame.handled_exception:
+            self.handled_exception = frame.handled_exception
         offset = 0
         while True:
             (
@@ -882,7 +894,10 @@ class PyVM(object):
             if why:
                 break
 
-        # TODO: handle generator exception state
+        frame.yielded = why == "yield"
+        frame.handled_exception = None
+        if frame.yielded and self.handled_exception is not handled_exception:
+            frame.handled_exception = self.handled_exception
 
         self.pop_frame()
         self.handled_exception = handled_exception
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index d11a6bb..7b0d6c7 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -220,6 +220,8 @@ class PyVMTraced(PyVM):
         )
 
         handled_exception = self.handled_exception
+        if frame.handled_exception:
+            self.handled_exception = frame.handled_exception
         offset = 0
         while True:
             (
@@ -343,7 +345,10 @@ class PyVMTraced(PyVM):
             pass
         # End extra tracing code
 
-        # TODO: handle generator exception state
+        frame.yielded = why == "yield"
+        frame.handled_exception = None
+        if frame.yielded and self.handled_exception is not handled_exception:
+            frame.handled_exception = self.handled_exception
 
         self.pop_frame()
         self.handled_exception = handled_exception
-- 
2.43.0


From 901b10d336ec1b33e3e6411580c05bc4b4b97dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 09/72] fix: bind call arguments as Python does: order,
 duplicates, missing and positional-only ones

---
 xpython/byteop/byteop.py       |  37 +++--
 xpython/byteop/byteop311.py    | 239 ++++-----------------------------
 xpython/byteop/byteop32.py     |  81 +++++------
 xpython/byteop/byteop33.py     |  60 +--------
 xpython/byteop/byteop34.py     |  38 +-----
 xpython/byteop/byteop35.py     |  43 +++---
 xpython/byteop/byteop36.py     |  33 ++---
 xpython/byteop/byteop36pypy.py |   1 +
 xpython/byteop/byteop37pypy.py |  18 +--
 xpython/byteop/byteop39.py     |  11 +-
 xpython/pyobj.py               | 145 +++++++++++++++-----
 xpython/vm.py                  |   7 +-
 12 files changed, 259 insertions(+), 454 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 7469546..939ca1f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -167,14 +167,14 @@ class ByteOpBase(object):
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
             # The first parameter must be the correct type.
-            if not isinstance(pos_args[0], func.im_class):
+            elif not (pos_args and isinstance(pos_args[0], func.im_class)):
                 raise TypeError(
                     "unbound method %s() must be called with %s instance "
                     "as first argument (got %s instance instead)"
                     % (
                         func.im_func.func_name,
                         func.im_class.__name__,
-                        type(pos_args[0]).__name__,
+                        type(pos_args[0]).__name__ if pos_args else "nothing",
                     )
                 )
             func = func.im_func
@@ -271,7 +271,7 @@ class ByteOpBase(object):
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
                     source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, unicode):
+                    if isinstance(source, (str, bytes)):
                         try:
                             pos_args[0] = compile(
                                 source, "<string>", mode="eval", dont_inherit=True
@@ -347,17 +347,38 @@ class ByteOpBase(object):
         retval = func(*pos_args, **named_args)
         self.vm.push(retval)
 
+    def pop_keyword_args(self, count: int) -> dict:
+        """Pop `count` pairs of a keyword-argument name and its value, and
+        return these as a dictionary with the keywords in source order.
+        """
+        pairs = self.vm.popn(2 * count)
+        return {pairs[i]: pairs[i + 1] for i in range(0, len(pairs), 2)}
+
+    def merge_keyword_args(self, func, named_args: dict, mapping):
+        """Add the items of `mapping`, the operand of "**" in a call of `func`,
+        to `named_args`. It is an error if a keyword is given twice.
+        """
+        name = getattr(func, "__name__", "function")
+        if not hasattr(mapping, "keys"):
+            raise TypeError(
+                f"{name}() argument after ** must be a mapping, "
+                f"not {type(mapping).__name__}"
+            )
+        for key in mapping.keys():
+            if key in named_args:
+                raise TypeError(
+                    f"{name}() got multiple values for keyword argument {key!r}"
+                )
+            named_args[key] = mapping[key]
+
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
-        named_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            named_args[key] = val
-        named_args.update(keyword_args)
+        named_args = self.pop_keyword_args(len_kw)
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
         func = self.vm.pop()
+        self.merge_keyword_args(func, named_args, keyword_args)
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 04e256b..5adb2fc 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -11,7 +11,7 @@ import inspect
 import logging
 from typing import Tuple
 
-from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
+from xdis.version_info import PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import exception_match
@@ -20,7 +20,6 @@ from xpython.byteop.byteop36 import (
     MAKE_FUNCTION_SLOT_NAMES,
     MAKE_FUNCTION_SLOTS,
 )
-from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Function
@@ -57,196 +56,6 @@ class ByteOp311(ByteOp310):
         self.version = "3.11.0 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(3, 11, 0, "final", 0)
 
-    def call311_function_with_args_resolved(self, func, pos_args, named_args):
-        frame = self.vm.frame
-
-        assert not self.vm.is_empty_stack
-        if self.vm.top is NULL:
-            self.vm.pop()  # Remove NULL
-        else:
-            # Pickup self.
-            self_obj = self.vm.pop()
-            retval = self_obj(func, *pos_args, **named_args)
-            self.vm.push(retval)
-            return
-
-        # FIXME: put this in a separate routine.
-        if inspect.isbuiltin(func):
-            log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
-                # Use the frame's globals(), not the interpreter's
-                self.vm.push(frame.f_globals)
-                return
-            elif func == locals:
-                # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
-                return
-
-            if func == compile:
-                # Set dont_inherit parameter.  FIXME: we should set
-                # other flags too based on the interpreted
-                # environment?
-                if len(pos_args) < 5 and "dont_inherit" not in named_args:
-                    named_args["dont_inherit"] = True
-                    pass
-            elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_exec_warning_shown:
-                        log.warning(
-                            "Running built-in `exec()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_exec_warning_shown = True
-
-            elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_eval_warning_shown:
-                        log.warning(
-                            "Running built-in `eval()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_eval_warning_shown = True
-
-            elif PYTHON_VERSION_TRIPLE >= (3, 0) and func == __build_class__:
-                assert len(pos_args) > 0, (
-                    "__build_class__() should have at least one argument, an "
-                    "__init__() function."
-                )
-                init_fn = pos_args[0]
-                if (
-                    isinstance(init_fn, Function)
-                    or self.is_pypy
-                    or self.version_info[:2] != PYTHON_VERSION_TRIPLE[:2]
-                ):
-                    # 3.3+ __build_class__() works only on bytecode
-                    # that matches the CPython interpreter, so use
-                    # Darius' version instead.  Down the line we will
-                    # try to do this universally, but it is tricky:
-                    retval = build_class(self.vm.opc, *pos_args, **named_args)
-                    self.vm.push(retval)
-                    return
-                else:
-                    # Use builtin __build_class__(). However for that,
-                    # we need a native function.  This is wrong though
-                    # in that we won't trace into __init__().
-                    init_fn = pos_args[0]
-                    if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
-                        pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
-
-        if (
-            inspect.isfunction(func)
-            and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
-        ):
-            # Try to convert to an interpreter function, so we can interpret it.
-            if func in self.vm.fn2native:
-                func = self.vm.fn2native[func]
-            elif False:  # self.vm.version < (3, 0):
-                # Not quite ready. See 3.7 test_asyncgen.py for an
-                # example of code that comes here. In that test, the
-                # LOAD_GLOBAL '_ignore_deprecated_imports' fails to
-                # find the global. '_ignore_deprecated_imports' is a method name
-                # in test.support module of test/support/__init__.py.
-                # In Python 2.X we work around a similar problem by
-                # not tying to handle functions with closures.
-                assert len(pos_args) > 0
-                pos_args[0] = self.convert_native_to_Function(frame, pos_args[0])
-
-        if (
-            inspect.isfunction(func)
-            and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
-        ):
-            log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
-            if func.__name__ == "super":
-                pos_args = [self.vm.frame] + pos_args
-                func = builtin_super
-
-        retval = func(*pos_args, **named_args)
-        self.vm.push(retval)
-
-    def is_method(self, argc: int) -> bool:
-        """
-        Translation of ceval.c is_method() macro:
-            #define is_method(stack_pointer, args) (PEEK((args)+2) != NULL)
-        and Py_TYPE(function) == &PyMethod_Type)
-        """
-        function = self.vm.peek(argc + 1)
-        return self.vm.peek(argc + 2) is not NULL and inspect.ismethod(function)
-
     # Added in 3.11...
 
     # New in 3.11.  Note: below, the parameter mentioned in the
@@ -310,21 +119,33 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION
 
         """
-        total_args = argc + 1 if self.is_method(argc) else argc
-        # FIXME: figure out how to set this
-        kw_names_len = len(self.vm.frame.call_shape_kwnames)
-        named_args = self.vm.frame.call_shape_kwnames
-        positional_args = total_args - kw_names_len
-        pos_args = self.vm.popn(positional_args)
-        function = self.vm.pop()
-        # C interpreter checks for inlining here.
-        # We will skip this.
+        # Get and clear names set by KW_NAMES
+        kw_names = self.vm.frame.call_shape_kwnames
+        self.vm.frame.call_shape_kwnames = ()
 
-        ret_val = self.call311_function_with_args_resolved(function, pos_args, named_args)
+        named_args = dict(zip(kw_names, self.vm.popn(len(kw_names))))
+        pos_args = self.vm.popn(argc - len(kw_names))
+        function, self_or_callable = self.vm.popn(2)
+        if function is NULL:
+            function = self_or_callable
+        else:
+            pos_args.insert(0, self_or_callable)
 
-        # Clear names set by KW_NAMES
-        self.vm.frame.call_shape_kwnames = {}
-        return ret_val
+        return self.call_function_with_args_resolved(function, pos_args, named_args)
+
+    def CALL_FUNCTION_EX(self, flags: int):
+        """
+        Calls a callable object with variable set of positional and keyword
+        arguments.
+
+        Changed in 3.11: there is a NULL below the callable.
+        """
+        mapping = self.vm.pop() if flags & 1 else {}
+        null, func, pos_args = self.vm.popn(3)
+        assert null is NULL
+        named_args = {}
+        self.merge_keyword_args(func, named_args, mapping)
+        self.call_function_with_args_resolved(func, list(pos_args), named_args)
 
     def COPY_FREE_VARS(self, argc: int):
         """Copies the n free variables from the closure into the
@@ -358,9 +179,7 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION_KW
         """
 
-        for name in names:
-            self.vm.frame.call_shape_kwnames[name] = self.vm.pop()
-        return
+        self.vm.frame.call_shape_kwnames = names
 
     # Changed in 3.11...
     def MAKE_CELL(self, name: str):
@@ -498,10 +317,6 @@ class ByteOp311(ByteOp310):
          make it accept the `self` as a first argument.
 
         """
-        n_args = argc + 1 if self.is_method(argc) else argc
-        function = self.vm.peek(n_args + 1)
-        if inspect.ismethod(function):
-            pass
         return
 
     def PUSH_NULL(self):
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 2612351..dfd907f 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -4,7 +4,7 @@
 import inspect
 
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
 
@@ -57,6 +57,35 @@ class ByteOp32(ByteOp27):
     def convert_native_to_Function(self, frame, func):
         assert inspect.isfunction(func) or isinstance(func, Function)
 
+    def pop_function_slots(self, argc: int) -> tuple:
+        """
+        Pop what MAKE_FUNCTION and MAKE_CLOSURE have below the code and the
+        closure, and return it as a tuple of
+
+        * the defaults of positional parameters, a tuple
+        * the defaults of keyword-only parameters, a dictionary
+        * the annotations, a dictionary
+
+        On the stack, annotations are above the defaults. The defaults of
+        keyword-only parameters come first before Python 3.4, and after the
+        other defaults from then on.
+        """
+        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
+
+        annotations = {}
+        if annotate_count:
+            annotate_names = self.vm.pop()
+            annotate_objects = self.vm.popn(len(annotate_names))
+            annotations.update(zip(annotate_names, annotate_objects))
+
+        if self.version_info[:2] < (3, 4):
+            defaults = tuple(self.vm.popn(default_count))
+            kwdefaults = self.pop_keyword_args(kw_default_count)
+        else:
+            kwdefaults = self.pop_keyword_args(kw_default_count)
+            defaults = tuple(self.vm.popn(default_count))
+        return defaults, kwdefaults, annotations
+
     def DELETE_DEREF(self, i):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
@@ -95,30 +124,8 @@ class ByteOp32(ByteOp27):
         variables. The function asl has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         closure, code = self.vm.popn(2)
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -156,33 +163,9 @@ class ByteOp32(ByteOp27):
 
         Changed from Python 2.4.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         code = self.vm.pop()
         name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_names)
-            assert n == len(annotate_objects)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 66a28ba..dd71059 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -2,7 +2,6 @@
 """Byte Interpreter operations for Python 3.3
 """
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.pyobj import Function
@@ -23,38 +22,16 @@ class ByteOp33(ByteOp32):
         variables. The function also has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-        code, name = self.vm.popn(2)
+        code, qualname = self.vm.popn(2)
         closure = self.vm.pop()
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
         globs = self.vm.frame.f_globals
 
         fn = Function(
-            name=name,
+            name=code.co_name,
             code=code,
             globs=globs,
             argdefs=tuple(defaults),
@@ -62,6 +39,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
@@ -82,35 +60,10 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
-        # The string function name does not seem to be used.
-        # In the 3.4, it is dropped.
-        self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
         name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_objects = self.vm.popn(annotate_count)
-            n = len(annotate_objects)
-            assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
@@ -125,6 +78,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 792ead4..518d3f5 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -4,11 +4,9 @@
 import inspect
 import types
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
-from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
@@ -63,38 +61,10 @@ class ByteOp34(ByteOp33):
         * the qualified name of the function (at TOS)
         """
 
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
-        name = self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_objects)
-            # We can annotate a function return value, but
-            # that does is not a parameter object and not
-            # listed in annotate_objects
-            if annotate_names[-1] == "return":
-                assert n == len(annotate_names) - 1
-            else:
-                assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        name = code.co_name
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
@@ -109,7 +79,7 @@ class ByteOp34(ByteOp33):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
-            # FIXME: figure out qualname
+            qualname=qualname,
         )
 
         if (
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index d2396ab..6183d9a 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -246,19 +246,12 @@ class ByteOp35(ByteOp34):
         # entry after the mappings. In 3.6 this function-position
         # encoding was dropped. But we'll follow the spec.
         fn_pos, count = divmod(oparg, 256)
-        fn_pos -= 1
-
         elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_KW
-        self.vm.push(func)
-        if kwargs:
-            self.vm.push(kwargs)
+        func = self.vm.peek(fn_pos)
+        kwargs = {}
+        for mapping in elts:
+            self.merge_keyword_args(func, kwargs, mapping)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
@@ -282,15 +275,33 @@ class ByteOp35(ByteOp34):
         keyword arguments.
 
         """
-        keyword_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        keyword_args = self.pop_keyword_args(len_kw)
+        var_args = self.vm.pop()
+        pos_args = self.vm.popn(len_pos)
+        pos_args.extend(var_args)
+        func = self.vm.pop()
+        self.call_function_with_args_resolved(
+            func, pos_args=pos_args, named_args=keyword_args
+        )
+
+    def CALL_FUNCTION_VAR_KW(self, argc: int):
+        """
+        Calls a function. argc is interpreted as in CALL_FUNCTION. The top
+        element on the stack contains the keyword arguments dictionary. Below
+        that are explicit keyword arguments, then the variable-arguments
+        tuple, and then explicit positional arguments.
+
+        Changed in version 3.5, as in CALL_FUNCTION_VAR.
+        """
+        mapping = self.vm.pop()
+        len_kw, len_pos = divmod(argc, 256)
+        keyword_args = self.pop_keyword_args(len_kw)
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
         func = self.vm.pop()
+        self.merge_keyword_args(func, keyword_args, mapping)
         self.call_function_with_args_resolved(
             func, pos_args=pos_args, named_args=keyword_args
         )
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 0e2e8ff..96a81fa 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -80,10 +80,8 @@ class ByteOp36(ByteOp35):
         self.version_info = Version_info(3, 6, 14, "final", 0)
 
     def call_function_kw(self, argc: int):
-        namedargs = {}
         namedargs_tup = self.vm.pop()
-        for name in reversed(namedargs_tup):
-            namedargs[name] = self.vm.pop()
+        namedargs = dict(zip(namedargs_tup, self.vm.popn(len(namedargs_tup))))
 
         lenPos = argc - len(namedargs_tup)
         posargs = self.vm.popn(lenPos)
@@ -111,23 +109,12 @@ class ByteOp36(ByteOp35):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        count = oparg
-        fn_pos = 0
-
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-
-        posargs = self.vm.pop()
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_EX
-        self.vm.push(func)
-        self.vm.push(posargs)
-        if kwargs:
-            self.vm.push(kwargs)
+        elts = self.vm.popn(oparg)
+        func = self.vm.peek(2)  # the positional arguments are above it
+        kwargs = {}
+        for mapping in elts:
+            self.merge_keyword_args(func, kwargs, mapping)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_KW(self, argc: int):
         """
@@ -285,9 +272,11 @@ class ByteOp36(ByteOp35):
         value returned by the callable object.
         """
         assert isinstance(flags, int)
-        namedargs = self.vm.pop() if flags & 1 else {}
-        posargs = self.vm.pop()
+        mapping = self.vm.pop() if flags & 1 else {}
+        posargs = list(self.vm.pop())
         func = self.vm.pop()
+        namedargs = {}
+        self.merge_keyword_args(func, namedargs, mapping)
         self.call_function_with_args_resolved(func, posargs, namedargs)
 
     def SETUP_ANNOTATIONS(self):
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index e9a5d38..81b3a3e 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -20,5 +20,6 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
     # from older Python versions
     CALL_FUNCTION_KW = ByteOp24.CALL_FUNCTION_KW
     CALL_FUNCTION_VAR = ByteOp35.CALL_FUNCTION_VAR
+    CALL_FUNCTION_VAR_KW = ByteOp35.CALL_FUNCTION_VAR_KW
     MAKE_CLOSURE = ByteOp35.MAKE_CLOSURE
     BUILD_MAP_UNPACK_WITH_CALL = ByteOp35.BUILD_MAP_UNPACK_WITH_CALL
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index e041acd..4a28f8f 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -67,27 +67,13 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         case is garbage. After that is the method to call.
         """
 
-        # We are going to access parameter off of the stack which is
-        # has the last parameter closest to the top.
-        # Reverse keyword names in the tuple match our access pattern.
         kw_names = self.vm.pop()
         assert isinstance(kw_names, tuple)
-        kw_names = list(reversed(kw_names))
         kwarg_count = len(kw_names)
 
         assert argc >= kwarg_count
-        pos_argc = argc - kwarg_count
-        keyword_args = {}
-
-        for i in range(kwarg_count):
-            param_value = self.vm.pop()
-            keyword_args[kw_names[i]] = param_value
-
-        pos_args = []
-        for i in range(pos_argc):
-            pos_args.append(self.vm.pop())
-
-        pos_args = list(reversed(pos_args))
+        keyword_args = dict(zip(kw_names, self.vm.popn(kwarg_count)))
+        pos_args = self.vm.popn(argc - kwarg_count)
 
         self.vm.pop()  # cached method slot is not used here.
         func = self.vm.pop()
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index e11ea1e..7cd1e10 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -129,18 +129,17 @@ class ByteOp39(ByteOp38):
     def DICT_MERGE(self, i) -> None:
         """Like DICT_UPDATE but raises an exception for duplicate keys."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        dups = set(destination.keys()) & set(TOS.keys())
-        if bool(dups):
-            raise RuntimeError(f"Duplicate keys '{dups}' in DICT_MERGE")
-        destination.update(TOS)
+        # The positional arguments are between the function and destination.
+        func = self.vm.peek(i + 2)
+        self.merge_keyword_args(func, destination, TOS)
 
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
+        if not hasattr(TOS, "keys"):
+            raise TypeError(f"'{type(TOS).__name__}' object is not a mapping")
         destination.update(TOS)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 27fa3bf..81a9bf5 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -1,20 +1,22 @@
 """Implementations of Python fundamental objects for xpython."""
 
 import collections
-import inspect
 import linecache
 import types
 from copy import copy
 from sys import stderr
 
-from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
+from xdis import (
+    CO_GENERATOR,
+    CO_ITERABLE_COROUTINE,
+    CO_VARARGS,
+    CO_VARKEYWORDS,
+    iscode,
+)
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
 
-import xpython.stdlib.inspect2 as inspect2
-import xpython.stdlib.inspect3 as inspect3
-
 from xpython.stdlib.types34 import ModuleType
 
 
@@ -56,6 +58,101 @@ COMPREHENSION_FN_NAMES = frozenset(
 )
 
 
+def bind_arguments(func, positional, named):
+    """Return a dictionary with the initial local variables of a call to
+    `func`, which is a Function, with the given positional and named arguments.
+    As in a call in Python, TypeError is raised if they do not fit.
+    """
+    code = func.func_code
+    name = func.__name__
+    if func.version >= (3, 0):
+        defaults = func.__defaults__ or ()
+    else:
+        defaults = func.func_defaults or ()
+
+    arg_count = code.co_argcount
+    kwonly_count = getattr(code, "co_kwonlyargcount", 0) or 0
+    posonly_count = getattr(code, "co_posonlyargcount", 0) or 0
+    arg_names = code.co_varnames[:arg_count]
+    kwonly_names = code.co_varnames[arg_count : arg_count + kwonly_count]
+    star_index = arg_count + kwonly_count
+
+    callargs = dict(zip(arg_names, positional))
+    if code.co_flags & CO_VARARGS:
+        callargs[code.co_varnames[star_index]] = tuple(positional[arg_count:])
+        star_index += 1
+    elif len(positional) > arg_count:
+        raise TypeError(
+            "%s() takes %d positional argument%s but %d %s given"
+            % (
+                name,
+                arg_count,
+                "" if arg_count == 1 else "s",
+                len(positional),
+                "was" if len(positional) == 1 else "were",
+            )
+        )
+
+    extra_named = None
+    if code.co_flags & CO_VARKEYWORDS:
+        extra_named = callargs[code.co_varnames[star_index]] = {}
+
+    for key, value in named.items():
+        if not isinstance(key, str):
+            raise TypeError(f"{name}() keywords must be strings")
+        if key in arg_names[posonly_count:] or key in kwonly_names:
+            if key in callargs:
+                raise TypeError(f"{name}() got multiple values for argument {key!r}")
+            callargs[key] = value
+        elif extra_named is not None:
+            extra_named[key] = value
+        elif key in arg_names:
+            raise TypeError(
+                f"{name}() got some positional-only arguments passed as "
+                f"keyword arguments: {key!r}"
+            )
+        else:
+            raise TypeError(f"{name}() got an unexpected keyword argument {key!r}")
+
+    first_default = arg_count - len(defaults)
+    missing = []
+    for i in range(len(positional), arg_count):
+        if arg_names[i] not in callargs:
+            if i >= first_default:
+                callargs[arg_names[i]] = defaults[i - first_default]
+            else:
+                missing.append(arg_names[i])
+    if missing:
+        raise TypeError(
+            "%s() missing %d required positional argument%s: %s"
+            % (
+                name,
+                len(missing),
+                "" if len(missing) == 1 else "s",
+                ", ".join(repr(arg_name) for arg_name in missing),
+            )
+        )
+
+    for kwonly_name in kwonly_names:
+        if kwonly_name not in callargs:
+            kwdefaults = func.__kwdefaults__ or {}
+            if kwonly_name in kwdefaults:
+                callargs[kwonly_name] = kwdefaults[kwonly_name]
+            else:
+                missing.append(kwonly_name)
+    if missing:
+        raise TypeError(
+            "%s() missing %d required keyword-only argument%s: %s"
+            % (
+                name,
+                len(missing),
+                "" if len(missing) == 1 else "s",
+                ", ".join(repr(kwonly_name) for kwonly_name in missing),
+            )
+        )
+    return callargs
+
+
 class Function:
     """Function(name, code, globals, argdefs, closure, vm,  kwdefaults={},
                 annotations={}, doc=None, qualname=None)
@@ -157,7 +254,7 @@ class Function:
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
             self.__kwdefaults__ = kwdefaults
-            if vm.version >= (3, 4):
+            if vm.version >= (3, 3):
                 self.__qualname__ = qualname if qualname else self.__name__
             else:
                 assert qualname is None
@@ -241,40 +338,14 @@ class Function:
         else:
             return self
 
-    def __call__(self, *args, **kwargs):
-        if self.has_dot_zero:
-            # D'oh! http://bugs.python.org/issue19611 Py2 doesn't know how to
-            # inspect set comprehensions, dict comprehensions, or generator
-            # expressions properly.  They are always functions of one argument,
-            # so just do the right thing.
-            assert len(args) == 1 and not kwargs, "Surprising comprehension!"
-            callargs = {".0": args[0]}
-        elif self._func and self.version[:2] == PYTHON_VERSION_TRIPLE[:2]:
-            # Perhaps this branch can go and we just use the others.
-            # It will require a *lot* more code from inspect.py to be added:
-            # classes Signature, Parameter, etc.
-            callargs = inspect.getcallargs(self._func, *args, **kwargs)
-
-            # The problem with the above is that we are testing with self._func
-            # the function may have changed dynamically.
-            # See 3.7.7. test_keywordonlyarg.py
-
-            # To catch dynamic changes, we'll run a second check
-            if self.version >= (3, 0):
-                inspect3.getcallargs(self, *args, **kwargs)
-            else:
-                inspect2.getcallargs(self, *args, **kwargs)
-        else:
-            if self.version >= (3, 0):
-                callargs = inspect3.getcallargs(self, *args, **kwargs)
-            else:
-                callargs = inspect2.getcallargs(self, *args, **kwargs)
+    def __call__(self, /, *args, **kwargs):
+        callargs = bind_arguments(self, args, kwargs)
 
         frame = self._vm.make_frame(
             self.func_code, callargs, self.func_globals, {}, self.__closure__
         )
         if self.__code__.co_flags & CO_GENERATOR:
-            qualname = self.__qualname__ if self._vm.version >= (3, 4) else None
+            qualname = self.__qualname__ if self._vm.version >= (3, 3) else None
             gen = Generator(
                 g_frame=frame, name=self.__name__, qualname=qualname, vm=self._vm
             )
@@ -318,7 +389,7 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.im_self is not None:
             return self.im_func(self.im_self, *args, **kwargs)
         else:
@@ -494,7 +565,7 @@ class Frame(object):
 
         # Python 3.11 adds call_shape structure which
         # has only one item, kwnames.
-        self.call_shape_kwnames = {}
+        self.call_shape_kwnames = ()
         return
 
     def __repr__(self) -> str:  # pragma: no cover
diff --git a/xpython/vm.py b/xpython/vm.py
index 3300468..c74d455 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -108,7 +108,12 @@ def format_instruction(
     byte_code = opc.opmap.get(bytecode_name, 0)
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
-        stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        # In the presence of exceptions, the stack might not have the operands
+        # of the instruction any more.
+        try:
+            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        except Exception:
+            stack_args = " (?)"
     else:
         stack_args = ""
 
-- 
2.43.0


From 492e7bc4a7dfeff7c4c2ab0b33e407deb5a8513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 10/72] fix: variables live where Python keeps them: cells,
 fast locals, namespaces and deleted names

---
 xpython/builtins.py         |   9 +--
 xpython/byteop/byteop.py    |  52 +++++++++++-------
 xpython/byteop/byteop24.py  |  48 ++++++++++++----
 xpython/byteop/byteop25.py  |  14 +++++
 xpython/byteop/byteop311.py |  31 ++---------
 xpython/byteop/byteop312.py |  66 ++++++++++++++++++----
 xpython/byteop/byteop32.py  |   4 +-
 xpython/byteop/byteop34.py  |   6 +-
 xpython/pyobj.py            | 107 ++++++++++++++++++++++++++----------
 xpython/vm.py               |  14 +++--
 10 files changed, 242 insertions(+), 109 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 4785643..9a8ff69 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -75,8 +75,13 @@ def build_class(opc, func, name, *bases, **kwds):
     # This behavior when interpreting bytecode that isn't the same as
     # the bytecode using in the running Python can cause a SEGV, specifically
     # between Python 3.5 running 3.4 or earlier.
+    callargs = {}
+    if class_body_code.co_argcount:
+        # Before 3.4, the namespace is an argument of the function.
+        callargs[class_body_code.co_varnames[0]] = namespace
     frame = func._vm.make_frame(
         code=class_body_code,
+        callargs=callargs,
         f_globals=func.func_globals,
         f_locals=namespace,
         closure=func.__closure__,
@@ -85,10 +90,6 @@ def build_class(opc, func, name, *bases, **kwds):
     # rocky: cell is the return value of a function where?
     cell = func._vm.eval_frame(frame)
 
-    # Add any class variables that may have been added in running class_body_code.
-    # See test_attribute_access.py for a simple example that needs the update below.
-    namespace.update(frame.f_locals)
-
     # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
     # but needs a builtin cell object. make_cell() can do this.
     if "__classcell__" in namespace and metaclass == type:
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 939ca1f..5d901be 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -160,6 +160,24 @@ class ByteOpBase(object):
         elts = self.vm.popn(count)
         self.vm.push(container_fn(elts))
 
+    def fill_namespaces(self, pos_args: list):
+        """Append the globals and locals arguments that a call of the built-in
+        function eval() or exec() omits: it uses the namespaces of the frame
+        of the caller, not the interpreter's. When only globals are given,
+        these are the locals, too.
+        """
+        frame = self.vm.frame
+        if len(pos_args) > 1 and pos_args[1] is None:
+            pos_args[1] = frame.f_globals
+            if len(pos_args) == 2:
+                pos_args.append(frame.get_locals())
+        if len(pos_args) > 2 and pos_args[2] is None:
+            pos_args[2] = pos_args[1]
+        if len(pos_args) == 1:
+            pos_args += [frame.f_globals, frame.get_locals()]
+        elif len(pos_args) == 2:
+            pos_args.append(pos_args[1])
+
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
         if hasattr(func, "im_func"):
@@ -188,7 +206,13 @@ class ByteOpBase(object):
                 return
             elif func == locals:
                 # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
+                self.vm.push(frame.get_locals())
+                return
+            elif func in (vars, dir) and not pos_args and not named_args:
+                frame_locals = frame.get_locals()
+                self.vm.push(
+                    frame_locals if func == vars else sorted(frame_locals.keys())
+                )
                 return
 
             if func == compile:
@@ -217,13 +241,7 @@ class ByteOpBase(object):
                 n = len(pos_args)
                 assert 1 <= n <= 3
 
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
+                self.fill_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
@@ -258,14 +276,7 @@ class ByteOpBase(object):
                         % (len(pos_args))
                     )
                 assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
+                self.fill_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
@@ -515,9 +526,12 @@ class ByteOpBase(object):
     def lookup_name(self, name):
         """Returns the value in the current frame associated for name"""
         frame = self.vm.frame
-        if name in frame.f_locals:
-            val = frame.f_locals[name]
-        elif name in frame.f_globals:
+        try:
+            # In a class, f_locals might be any mapping.
+            return frame.f_locals[name]
+        except KeyError:
+            pass
+        if name in frame.f_globals:
             val = frame.f_globals[name]
         elif name in frame.f_builtins:
             val = frame.f_builtins[name]
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index c234e00..e8e8c90 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -364,8 +364,10 @@ class ByteOp24(ByteOpBase):
         # if `locals` or `globals` is None, use the frame equivalent.
         if globs is None:
             globs = self.vm.frame.f_globals
-        if locs is None:
-            locs = self.vm.frame.f_locals
+            if locs is None:
+                locs = self.vm.frame.get_locals()
+        elif locs is None:
+            locs = globs
         exec(stmt, globs, locs)
 
     def POP_BLOCK(self):
@@ -428,12 +430,18 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
-        del self.vm.frame.f_globals[name]
+        try:
+            del self.vm.frame.f_globals[name]
+        except KeyError:
+            raise NameError(f"name '{name}' is not defined") from None
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
-        del self.vm.frame.f_locals[name]
+        try:
+            del self.vm.frame.f_locals[name]
+        except KeyError:
+            raise NameError(f"name '{name}' is not defined") from None
 
     def UNPACK_SEQUENCE(self, count):
         """Unpacks TOS into count individual values, which are put onto the
@@ -709,8 +717,8 @@ class ByteOp24(ByteOpBase):
         """
         Pushes a reference to the local co_varnames[var_num] onto the stack.
         """
-        if name in self.vm.frame.f_locals:
-            val = self.vm.frame.f_locals[name]
+        if name in self.vm.frame.fast_locals:
+            val = self.vm.frame.fast_locals[name]
         else:
             raise UnboundLocalError(
                 f"local variable '{name}' referenced before assignment"
@@ -719,11 +727,15 @@ class ByteOp24(ByteOpBase):
 
     def STORE_FAST(self, var_num):
         """Stores TOS into the local co_varnames[var_num]."""
-        self.vm.frame.f_locals[var_num] = self.vm.pop()
+        self.vm.frame.fast_locals[var_num] = self.vm.pop()
 
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
-        del self.vm.frame.f_locals[var_num]
+        if var_num not in self.vm.frame.fast_locals:
+            raise UnboundLocalError(
+                f"local variable '{var_num}' referenced before assignment"
+            )
+        del self.vm.frame.fast_locals[var_num]
 
     def LOAD_CLOSURE(self, i):
         """Pushes a reference to the cell contained in slot i of the
@@ -733,13 +745,28 @@ class ByteOp24(ByteOpBase):
         """
         self.vm.push(self.vm.frame.cells[i])
 
+    def bound_cell(self, name):
+        """Return the cell of variable `name`, which has to be bound."""
+        frame = self.vm.frame
+        cell = frame.cells[name]
+        if cell.is_empty():
+            if name in frame.f_code.co_cellvars:
+                raise UnboundLocalError(
+                    f"local variable '{name}' referenced before assignment"
+                )
+            raise NameError(
+                f"free variable '{name}' referenced before assignment "
+                "in enclosing scope"
+            )
+        return cell
+
     def LOAD_DEREF(self, name):
         """
         Loads the cell contained in slot i of the cell and free variable
         storage. Pushes a reference to the object the cell contains on the
         stack.
         """
-        self.vm.push(self.vm.frame.cells[name].get())
+        self.vm.push(self.bound_cell(name).get())
 
     def STORE_DEREF(self, name):
         """Stores TOS into the cell contained in slot i of the cell
@@ -794,10 +821,9 @@ class ByteOp24(ByteOpBase):
         Changed in 2.6
         """
         code = self.vm.pop()
+        closure = tuple(self.vm.popn(len(code.co_freevars)))
         defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
-
-        closure = tuple([Cell(self.lookup_name(var)) for var in code.co_freevars])
         fn = Function(
             name=None,
             code=code,
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index a5d44cd..62dcff9 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -21,6 +21,20 @@ class ByteOp25(ByteOp24):
             tb = getattr(value, "__traceback__", None)
         return exit_func(exc_type, value, tb)
 
+    # Changed in 2.5: the cells come in a tuple.
+    def MAKE_CLOSURE(self, argc: int):
+        """
+        Creates a new function object, sets its ``func_closure`` slot, and
+        pushes it on the stack. TOS is the code associated with the
+        function, TOS1 the tuple containing cells for the closure's
+        free variables. The function also has ``argc`` default parameters,
+        which are found below the cells.
+        """
+        closure, code = self.vm.popn(2)
+        defaults = self.vm.popn(argc)
+        globs = self.vm.frame.f_globals
+        self.vm.push(Function(None, code, globs, defaults, closure, self.vm))
+
     # New in Python 2.5 but changes in 2.6.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. TOP is the
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 5adb2fc..334b441 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -22,7 +22,7 @@ from xpython.byteop.byteop36 import (
 )
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 log = logging.getLogger(__name__)
 
@@ -152,22 +152,7 @@ class ByteOp311(ByteOp310):
           frame. Removes the need for special code on the caller’s
           side when calling closures.
         """
-        # Copy closure variables to free variables
-        # PyCodeObject *co = frame->f_code;
-        # PyObject *closure = frame->f_func->func_closure;
-        # int offset = co->co_nlocals + co->co_nplaincellvars;
-        # assert(oparg == co->co_nfreevars);
-        # for (int i = 0; i < oparg; ++i) {
-        #     PyObject *o = PyTuple_GET_ITEM(closure, i);
-        #     Py_INCREF(o);
-        #     frame->localsplus[offset + i] = o;
-        # }
-        frame = self.vm.frame
-        co = frame.f_code
-        localsplus = co.co_freevars + co.co_cellvars
-        for i in range(argc):
-            name = localsplus[i]
-            frame.f_locals[name] = frame.cells[name].get()
+        # We do this when the frame is created.
         return
 
     def KW_NAMES(self, names: Tuple[str]):
@@ -187,16 +172,10 @@ class ByteOp311(ByteOp310):
         Creates a new cell in slot i having name "name". If that slot is nonempty then that value is stored into the new cell.
 
 
-        In this interpreter, we create all cells when the frame is created. So there's nothing to do
+        Free variables have slots, too, but their cells come from the closure.
         """
-        # PyObject *initial = GETLOCAL(oparg);
-        # PyObject *cell = PyCell_New(initial);
-        # if (cell == NULL) {
-        #     goto resume_with_error;
-        # }
-        # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, None))
-        return
+        frame = self.vm.frame
+        frame.cells[name] = Cell(frame.fast_locals.get(name, Cell.EMPTY))
 
     # Changed in 3.11...
     def LOAD_GLOBAL(self, name, push_null: bool=False):
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index d83dd9c..fbc05af 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -12,6 +12,7 @@ import sys
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
 from xpython.byteop.byteop37 import NULL
+from xpython.pyobj import Cell
 
 
 # pylint: disable=too-many-public-methods
@@ -130,10 +131,9 @@ class ByteOp312(ByteOp311):
 
     def LOAD_LOCALS(self):
         """
-        To be continued...
+        Pushes a reference to the locals of the current scope on the stack.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_LOCALS not implemented")
+        self.vm.push(self.vm.frame.f_locals)
 
     def RETURN_CONST(self, consti):
         """
@@ -142,12 +142,38 @@ class ByteOp312(ByteOp311):
         self.vm.return_value = consti
         return "return"
 
-    def LOAD_FAST_CHECK(self):
+    def LOAD_FAST_CHECK(self, name):
         """
-        To be continued...
+        Pushes a reference to the local co_varnames[var_num] onto the stack,
+        raising an UnboundLocalError if the local variable has not been
+        initialized.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_FAST_CHECK not implemented")
+        self.LOAD_FAST(name)
+
+    def LOAD_FROM_DICT_OR_DEREF(self, name):
+        """
+        Pops a mapping off the stack and looks up the name associated with
+        slot i of the "fast locals" storage in this mapping. If the name is not
+        found there, loads it from the cell contained in slot i.
+        """
+        mapping = self.vm.pop()
+        try:
+            value = mapping[name]
+        except KeyError:
+            value = self.bound_cell(name).get()
+        self.vm.push(value)
+
+    def LOAD_FROM_DICT_OR_GLOBALS(self, name):
+        """
+        Pops a mapping off the stack and looks up the value for
+        co_names[namei]. If the name is not found there, looks it up in the
+        globals and then the builtins.
+        """
+        mapping = self.vm.pop()
+        try:
+            self.vm.push(mapping[name])
+        except KeyError:
+            self.LOAD_GLOBAL(name)
 
     # def POP_JUMP_IF_FALSE(self):
     #     """
@@ -190,11 +216,31 @@ class ByteOp312(ByteOp311):
         has not been initialized) and sets co_varnames[var_num] to
         NULL.
         """
-        value = self.vm.frame.f_locals.get(name, NULL)
-        if value is NULL:
-            self.vm.frame.f_locals[name] = NULL
+        frame = self.vm.frame
+        if name in frame.cells:
+            value = frame.cells.pop(name)
+        else:
+            value = frame.fast_locals.pop(name, NULL)
         self.vm.push(value)
 
+    def STORE_FAST(self, name):
+        """Stores STACK.pop() into the local co_varnames[var_num].
+
+        Changed in 3.12: in the clean up of an inlined comprehension it
+        restores what LOAD_FAST_AND_CLEAR has saved, which might be a cell or NULL.
+        """
+        frame = self.vm.frame
+        value = self.vm.pop()
+        if value is NULL:
+            frame.fast_locals.pop(name, None)
+            frame.cells.pop(name, None)
+        elif isinstance(value, Cell) and (
+            name in frame.f_code.co_cellvars or name in frame.f_code.co_freevars
+        ):
+            frame.fast_locals.pop(name, None)
+            frame.cells[name] = value
+        else:
+            frame.fast_locals[name] = value
 
     # And many more...
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index dfd907f..8b2423c 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -6,7 +6,7 @@ import inspect
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -89,7 +89,7 @@ class ByteOp32(ByteOp27):
     def DELETE_DEREF(self, i):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
-        raise self.vm.PyVMError("DELETE_DEREF not implemented")
+        self.bound_cell(i).set(Cell.EMPTY)
 
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 518d3f5..256b96d 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -29,7 +29,11 @@ class ByteOp34(ByteOp33):
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        self.vm.push(self.vm.frame.cells[count].get())
+        try:
+            value = self.vm.frame.f_locals[count]
+        except KeyError:
+            value = self.bound_cell(count).get()
+        self.vm.push(value)
 
     ##############################################################################
     # Order of function here is the same as in:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 81a9bf5..ca8c57e 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -9,6 +9,8 @@ from sys import stderr
 from xdis import (
     CO_GENERATOR,
     CO_ITERABLE_COROUTINE,
+    CO_NEWLOCALS,
+    CO_OPTIMIZED,
     CO_VARARGS,
     CO_VARKEYWORDS,
     iscode,
@@ -416,15 +418,35 @@ class Cell:
 
     """
 
-    def __init__(self, value) -> None:
+    # What the cell of a variable which isn't bound (yet or any more) has.
+    EMPTY = object()
+
+    def __init__(self, value=EMPTY) -> None:
         self.contents = value
 
+    def is_empty(self) -> bool:
+        return self.contents is Cell.EMPTY
+
     def get(self):
         return self.contents
 
     def set(self, value) -> None:
         self.contents = value
 
+    @property
+    def cell_contents(self):
+        if self.is_empty():
+            raise ValueError("Cell is empty")
+        return self.contents
+
+    @cell_contents.setter
+    def cell_contents(self, value) -> None:
+        self.contents = value
+
+    @cell_contents.deleter
+    def cell_contents(self) -> None:
+        self.contents = Cell.EMPTY
+
 
 class Block(object):
     """
@@ -475,7 +497,12 @@ class Frame(object):
         self.f_code = f_code
         self.f_globals = f_globals
         self.f_locals = f_locals
-        self.f_locals = f_locals
+
+        # Where the ..._FAST instructions find local variables. In a function
+        # it is the same as f_locals. Elsewhere, as for a comprehension which
+        # 3.12 inlines into a module or class, these variables are hidden.
+        self.fast_locals = f_locals if f_code.co_flags & CO_NEWLOCALS else {}
+        self.locals_snapshot = None
         self.f_trace = None
         self.localsplusnames = localsplusnames
         self.stack = []
@@ -507,37 +534,25 @@ class Frame(object):
         # and other places which is why we don't set it to the more correct -1.
         self.f_lasti = -1
 
-        if f_code.co_cellvars:
-            self.cells = {}
-            if not f_back.cells:
-                f_back.cells = {}
-            for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals, or None.
-                cell = Cell(self.f_locals.get(var))
-                f_back.cells[var] = self.cells[var] = cell
-        else:
-            self.cells = None
+        # The cells of variables in co_cellvars belong to this frame.
+        # From 3.11 on, MAKE_CELL instructions make these.
+        self.cells = {}
+        if version < (3, 11):
+            for var in f_code.co_cellvars or ():
+                self.cells[var] = Cell(self.fast_locals.get(var, Cell.EMPTY))
 
+        # The cells of variables in co_freevars come with the function.
         if f_code.co_freevars:
-            if not self.cells:
-                self.cells = {}
-            for i, var in enumerate(f_code.co_freevars):
-                if closure:
-                    # print("XXX", f_code.co_freevars[i], closure[i].get())
-                    # if f_code.co_freevars[i] == "c" and  closure[i].get() == 5:
-                    #     from trepan.api import debug; debug()
-                    self.cells[var] = closure[i]
-                else:
-                    # FIXME: this branch is probably wrong.
-                    # Also check all calls of Frame and make_frame() in vm to ensure we
-                    # pass a function's closure attribute.
-                    assert isinstance(f_back.cells[i], Cell), "f_back.cells[%d]: %r" % (
-                        i,
-                        f_back.cells[i],
+            if len(closure or ()) != len(f_code.co_freevars):
+                raise ValueError(
+                    "%s requires closure of length %d, not %d"
+                    % (
+                        f_code.co_name,
+                        len(f_code.co_freevars),
+                        len(closure or ()),
                     )
-                    self.cells[var] = f_back.cells[var]
-                pass
-            pass
+                )
+            self.cells.update(zip(f_code.co_freevars, closure))
 
         self.block_stack = []
         self.generator = None
@@ -576,6 +591,38 @@ class Frame(object):
             self.f_lasti,
         )
 
+    def get_locals(self) -> dict:
+        """What `locals()` is in this frame: a dictionary with the variables
+        that are bound. In a function it is a snapshot of these.
+        """
+        flags = self.f_code.co_flags
+        if not flags & CO_NEWLOCALS or self.f_locals is not self.fast_locals:
+            return self.f_locals
+
+        if flags & CO_OPTIMIZED:
+            if self.locals_snapshot is None:
+                self.locals_snapshot = {}
+            snapshot = self.locals_snapshot
+            names = self.f_code.co_varnames
+            cell_names = (*self.f_code.co_cellvars, *self.f_code.co_freevars)
+        else:
+            snapshot = self.f_locals
+            names = ()
+            cell_names = self.f_code.co_cellvars
+
+        for name in names:
+            if name in self.fast_locals:
+                snapshot[name] = self.fast_locals[name]
+            else:
+                snapshot.pop(name, None)
+        for name in cell_names:
+            cell = self.cells.get(name)
+            if cell is not None and not cell.is_empty():
+                snapshot[name] = cell.get()
+            elif name not in names or cell is not None:
+                snapshot.pop(name, None)
+        return snapshot
+
     def line_number(self) -> int:
         """Get the current line number the frame is executing."""
         # We don't keep f_lineno up to date, so calculate it based on the
diff --git a/xpython/vm.py b/xpython/vm.py
index c74d455..ad0fc52 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -391,19 +391,18 @@ class PyVM(object):
 
         # Implement NEWLOCALS flag. See Objects/frameobject.c in CPython.
         if code.co_flags & CO_NEWLOCALS:
-            f_locals = {"__locals__": {}}
+            f_locals = {}
 
-        f_locals.update(callargs)
+        if callargs:
+            f_locals.update(callargs)
 
         # create a localsplusnames table that resolves duplicates.
         varnames = code.co_varnames
         cells = code.co_cellvars
         freevars = code.co_freevars
         localsplusnames = (varnames or tuple()) + tuple(
-            name for name in (freevars or tuple()) if name not in varnames
-            ) + tuple(
             name for name in (cells or tuple()) if name not in varnames
-            )
+            ) + tuple(freevars or tuple())
 
         frame = Frame(
             f_code=code,
@@ -648,7 +647,10 @@ class PyVM(object):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-                    arg = f_code.co_varnames[int_arg]
+                    if self.version >= (3, 11):
+                        arg = f.localsplusnames[int_arg]
+                    else:
+                        arg = f_code.co_varnames[int_arg]
                     if isinstance(arg, UnicodeForPython3):
                         arg = str(arg)
                 else:
-- 
2.43.0


From beb25667f0e062b0cd4cdfbfaf8c12c691a6bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 11/72] fix: super(), metaclasses, implicit static and class
 methods, and bound methods follow Python

---
 xpython/builtins.py         | 123 +++++++++++++++++-------------------
 xpython/byteop/byteop.py    |  22 +++----
 xpython/byteop/byteop312.py |  25 ++++++--
 xpython/pyobj.py            |  65 +++++++++++++++++--
 xpython/vm.py               |   5 +-
 5 files changed, 152 insertions(+), 88 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 9a8ff69..a6a6fbe 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,11 +4,12 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
+import types
 from typing import Any
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
-from xpython.pyobj import Cell, Function, make_cell
+from xpython.pyobj import Cell, Function
 
 
 def func_code(func):
@@ -43,9 +44,12 @@ def build_class(opc, func, name, *bases, **kwds):
     if not isinstance(name, str):
         raise TypeError("name is not a string")
 
-    metaclass = kwds.pop("metaclass", None)
+    orig_bases = bases
+    bases = types.resolve_bases(bases)
 
-    if metaclass is None:
+    if "metaclass" in kwds:
+        metaclass = kwds.pop("metaclass")
+    else:
         metaclass = type(bases[0]) if bases else type
     if isinstance(metaclass, type):
         metaclass = calculate_metaclass(metaclass, bases)
@@ -53,6 +57,14 @@ def build_class(opc, func, name, *bases, **kwds):
     if hasattr(metaclass, "__prepare__"):
         prepare = metaclass.__prepare__
         namespace = prepare(name, bases, **kwds)
+        if not hasattr(namespace, "__getitem__"):
+            raise TypeError(
+                "%s.__prepare__() must return a mapping, not %s"
+                % (
+                    getattr(metaclass, "__name__", "<metaclass>"),
+                    type(namespace).__name__,
+                )
+            )
     else:
         namespace = {}
 
@@ -90,78 +102,57 @@ def build_class(opc, func, name, *bases, **kwds):
     # rocky: cell is the return value of a function where?
     cell = func._vm.eval_frame(frame)
 
-    # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
-    # but needs a builtin cell object. make_cell() can do this.
-    if "__classcell__" in namespace and metaclass == type:
-        namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
+    if bases is not orig_bases:
+        namespace["__orig_bases__"] = orig_bases
 
-    try:
-        cls = metaclass(name, bases, namespace)
-    except TypeError:
-        # For mysterious reasons the above can raise a:
-        #  __init__() takes *n* positional arguments but *n+1* were given.
-        # In particular for:
-        #     class G(Generic[T]):
-        #        pass
-        import types
+    # type() can't deal with a xpython.pyobj.Cell object; it sets the genuine
+    # cell in that.
+    if isinstance(cell, Cell) and "__classcell__" in namespace:
+        namespace["__classcell__"] = cell.native
 
-        cls = types.new_class(name, bases, kwds, exec_body=lambda ns: namespace)
-        pass
+    cls = metaclass(name, bases, namespace, **kwds)
 
     if isinstance(cell, Cell):
-        cell.set(cls)
+        if opc.version_tuple >= (3, 6) and isinstance(cls, type):
+            if cell.is_empty():
+                raise RuntimeError(
+                    f"__class__ not set defining {name!r} as {cls!r}. "
+                    "Was __classcell__ propagated to type.__new__?"
+                )
+            if cell.get() is not cls:
+                raise TypeError(
+                    f"__class__ set to {cell.get()!r} defining {name!r} as {cls!r}"
+                )
+        else:
+            cell.set(cls)
     return cls
 
 
-# FIXME: change to return a true Proxy object.
-def builtin_super(self: Any, typ=None, obj=None):
-    """
-    super() but first argument is filled in via interpreter
-    """
-    cells = self.cells
-    if hasattr(cells, "__class__"):
-        cell = cells["__class__"]
-    elif hasattr(cells, "__classcell__"):
-        cell = cells["__classcell__"]
-
-    start_class = cell.get()
-    return WrappedSuperClass(start_class, typ, obj)
-
-    return None
-
-
-class WrappedSuperClass(object):
+def builtin_super(frame: Any, *args):
     """
-    builtin "super" object return type. This is a
-    proxy object that delegates method calls to a parent or sibling class of ``type``.
-    See https://docs.python.org/3.7/library/functions.html#super
+    super() where the class and the object, when these are not given, come
+    from the interpreted frame it is called in.
     """
-
-    def __init__(self, start_class, typ, obj: Any):
-        if obj is not None:
-            assert isinstance(obj, typ)
-
-        self.type_given = typ is not None
-        if self.type_given:
-            start_class = typ
-        self.start_class = start_class
-        self.superclass = start_class.__mro__[1]
-        self.__orig_init__ = self.superclass.__init__
-        self.__init__ = self.init
-        self.object = obj
-        self.type = typ
-
-    def __repr__(self):
-        if self.type_given is not None and self.object is None:
-            obj_str = "NULL"
-        elif self.object is not None:
-            obj_str = f"<{self.object.__class__.__name__} object>"
-        else:
-            obj_str = repr(self.type)
-        return f"<super: <class '{self.start_class.__name__}'>, {obj_str}>"
-
-    def init(self, *args, **kwargs):
-        return self.__orig_init__(self, *args, **kwargs)
+    if args:
+        return super(*args)
+
+    code = frame.f_code
+    if code.co_argcount == 0:
+        raise RuntimeError("super(): no arguments")
+    first_name = code.co_varnames[0]
+    if first_name in frame.fast_locals:
+        first_arg = frame.fast_locals[first_name]
+    elif first_name in frame.cells and not frame.cells[first_name].is_empty():
+        first_arg = frame.cells[first_name].get()
+    else:
+        raise RuntimeError("super(): arg[0] deleted")
+
+    cell = frame.cells.get("__class__")
+    if cell is None:
+        raise RuntimeError("super(): __class__ cell not found")
+    if cell.is_empty():
+        raise RuntimeError("super(): empty __class__ cell")
+    return super(cell.get(), first_arg)
 
 
 # From Pypy 3.6
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 5d901be..f28f3a3 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, copy_module
+from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -180,7 +180,7 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
-        if hasattr(func, "im_func"):
+        if isinstance(func, Method):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
@@ -330,12 +330,13 @@ class ByteOpBase(object):
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
         elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
+            # Set __module__, which type() takes from the frame it is called in.
             namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
+            if isinstance(namespace, dict) and "__module__" not in namespace:
+                if "__name__" in frame.f_globals:
+                    pos_args[2] = dict(
+                        namespace, __module__=frame.f_globals["__name__"]
+                    )
 
         if (
             inspect.isfunction(func)
@@ -350,10 +351,9 @@ class ByteOpBase(object):
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
-            if func.__name__ == "super":
-                pos_args = [self.vm.frame] + pos_args
-                func = builtin_super
+        elif func is super:
+            pos_args = [frame] + pos_args
+            func = builtin_super
 
         retval = func(*pos_args, **named_args)
         self.vm.push(retval)
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index fbc05af..721d40f 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -203,12 +203,29 @@ class ByteOp312(ByteOp311):
         # FIXME
         raise self.vm.PyVMError("POP_JUMP_IF_NONE not implemented")
 
-    def LOAD_SUPER_ATTR(self):
+    def LOAD_SUPER_ATTR(self, name, load_method, two_args):
         """
-        To be continued...
+        This opcode implements super(), both in its zero-argument and
+        two-argument forms (e.g. super().method(), super().attr and
+        super(cls, self).method(), super(cls, self).attr).
+
+        It pops three values from the stack (from top of stack down): self,
+        cls and the global value of super. The low bit of namei (load_method)
+        signals to attempt a method load, as with LOAD_ATTR. The second-low bit
+        (two_args) is set if super() was called with arguments.
+
+        Note: name, load_method, and two_args are set in parse_byte_and_args()
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_SUPER_ATTR not implemented")
+        func, cls, obj = self.vm.popn(3)
+        if two_args or func is super:
+            val = getattr(func(cls, obj), name)
+        else:
+            val = getattr(func(), name)
+
+        if load_method:
+            self.vm.push(NULL)
+
+        self.vm.push(val)
 
     def LOAD_FAST_AND_CLEAR(self, name):
         """Pushes a reference to the local co_varnames[var_num] onto
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index ca8c57e..be6abf6 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -243,15 +243,16 @@ class Function:
         self.func_code = self.__code__ = code
         self.func_name = self.__name__ = name or code.co_name
         self.func_defaults = self.__defaults__ = tuple(argdefs) if argdefs else tuple()
-        self.func_closure = self.__closure__ = closure
+        self.func_closure = self.__closure__ = closure or None
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
         self.__dict__ = {"version": vm.version, "_vm": vm}
+        self.__module__ = globs.get("__name__")
 
-        self.__doc__ = (
-            code.co_consts[0] if hasattr(code, "co_consts") and code.co_consts else None
-        )
+        # The docstring, if there is one, is the first constant.
+        first_const = code.co_consts[0] if code.co_consts else None
+        self.__doc__ = first_const if isinstance(first_const, str) else None
 
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
@@ -269,7 +270,6 @@ class Function:
         # we will detect this and store True in this field when appropriate.
         if (
             not argdefs
-            and hasattr(self, "__name")
             and self.__name__.split(".")[-1] in COMPREHENSION_FN_NAMES
         ):
             self.has_dot_zero = True
@@ -340,6 +340,20 @@ class Function:
         else:
             return self
 
+    def __set_name__(self, owner, name):
+        """type() has created class `owner`, where this is attribute `name`.
+        As type() does for a genuine function, make those methods implicitly
+        static or class methods for which Python specifies this.
+        """
+        if name == "__new__":
+            type.__setattr__(owner, name, staticmethod(self))
+        elif name in ("__init_subclass__", "__class_getitem__"):
+            type.__setattr__(owner, name, classmethod(self))
+
+    @property
+    def __globals__(self):
+        return self.func_globals
+
     def __call__(self, /, *args, **kwargs):
         callargs = bind_arguments(self, args, kwargs)
 
@@ -369,7 +383,7 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = obj.__doc__
+        self.__doc__ = func.__doc__
         self.im_self = obj
         self.im_class = _class
         self.im_func = func
@@ -384,6 +398,28 @@ class Method(object):
         # This causes failure
         # self.__name__ = obj.__name__
 
+    @property
+    def __self__(self):
+        return self.im_self
+
+    @property
+    def __func__(self):
+        return self.im_func
+
+    def __getattr__(self, name):
+        # As for a genuine method, the other attributes are the function's.
+        if name in ("im_func", "im_self", "im_class"):
+            raise AttributeError(name)
+        return getattr(self.im_func, name)
+
+    def __eq__(self, other):
+        if not isinstance(other, Method):
+            return NotImplemented
+        return self.im_self is other.im_self and self.im_func == other.im_func
+
+    def __hash__(self):
+        return hash((id(self.im_self), self.im_func))
+
     def __repr__(self) -> str:  # pragma: no cover
         name = f"{self.im_class.__name__}.{self.im_func.func_name}"
         if self.im_self is not None:
@@ -422,8 +458,25 @@ class Cell:
     EMPTY = object()
 
     def __init__(self, value=EMPTY) -> None:
+        # The genuine cell which holds the value. It is for type(), which sets
+        # the cell it finds under "__classcell__".
+        self.native = types.CellType()
         self.contents = value
 
+    @property
+    def contents(self):
+        try:
+            return self.native.cell_contents
+        except ValueError:
+            return Cell.EMPTY
+
+    @contents.setter
+    def contents(self, value) -> None:
+        if value is Cell.EMPTY:
+            del self.native.cell_contents
+        else:
+            self.native.cell_contents = value
+
     def is_empty(self) -> bool:
         return self.contents is Cell.EMPTY
 
diff --git a/xpython/vm.py b/xpython/vm.py
index ad0fc52..195379c 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -610,7 +610,10 @@ class PyVM(object):
                             var_idx = int_arg - len(f.f_code.co_cellvars)
                             arg = f_code.co_freevars[var_idx]
                 elif byte_code in self.opc.NAME_OPS:
-                    if self.version >= (3, 11) and (
+                    if bytecode_name == "LOAD_SUPER_ATTR":
+                        namei = f_code.co_names[int_arg >> 2]
+                        arguments = [namei, bool(int_arg & 1), bool(int_arg & 2)]
+                    elif self.version >= (3, 11) and (
                         bytecode_name == "LOAD_GLOBAL"
                         or (self.version >= (3, 12) and bytecode_name == "LOAD_ATTR")
                     ):
-- 
2.43.0


From d038d249f26d73e8fca392648eba4e9b6ae57a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 12/72] fix: unpacking takes any iterable and checks the count;
 logging runs no code of the program

---
 xpython/byteop/byteop24.py     | 42 ++++++++++++++++++++--------------
 xpython/byteop/byteop32.py     | 30 ++++++++++++++++++++++++
 xpython/byteop/byteop36.py     | 11 +++------
 xpython/byteop/byteop37pypy.py |  2 +-
 xpython/pyobj.py               | 42 ++++++++++++++++++++++++++++++++++
 xpython/vm.py                  | 10 ++++----
 6 files changed, 107 insertions(+), 30 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index e8e8c90..449d968 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Cell, Function, Traceback
+from xpython.pyobj import Cell, Function, Traceback, name_of
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -45,11 +45,11 @@ def get_cell_name(vm, i: int):
 
 
 def fmt_store_deref(vm, _, repr=repr):
-    return f" ({vm.top})"
+    return f" ({repr(vm.top)})"
 
 
 def fmt_load_deref(vm, int_arg, repr=repr):
-    return f" ({vm.frame.cells[get_cell_name(vm, int_arg)].get()})"
+    return f" ({repr(vm.frame.cells[get_cell_name(vm, int_arg)].get())})"
 
 
 def fmt_call_function(vm, argc: int, repr=repr):
@@ -58,12 +58,7 @@ def fmt_call_function(vm, argc: int, repr=repr):
     """
     name_default, pos_args = divmod(argc, 256)
     code = vm.peek(name_default + pos_args + 1)
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(code, attr):
-            return f" ({getattr(code, attr)})"
-
-    # Nothing found.
-    return ""
+    return f" ({name})" if (name := name_of(code)) else ""
 
 
 def fmt_make_function(vm, _=None, repr=repr):
@@ -71,12 +66,7 @@ def fmt_make_function(vm, _=None, repr=repr):
     returns the name of the function from the code object in the stack
     """
     TOS = vm.top
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    return f" ({name})" if (name := name_of(TOS)) else ""
 
 
 def exception_match(exc_type, match) -> bool:
@@ -448,8 +438,26 @@ class ByteOp24(ByteOpBase):
         stack right-to-left.
         """
         seq = self.vm.pop()
-        for x in reversed(seq):
-            self.vm.push(x)
+        values = []
+        for value in self.iterator_for_unpack(seq):
+            if len(values) == count:
+                raise ValueError(f"too many values to unpack (expected {count})")
+            values.append(value)
+        if len(values) < count:
+            raise ValueError(
+                f"not enough values to unpack (expected {count}, got {len(values)})"
+            )
+        self.vm.push(*reversed(values))
+
+    def iterator_for_unpack(self, seq):
+        """iter() as unpacking does it."""
+        if not hasattr(type(seq), "__iter__") and not hasattr(
+            type(seq), "__getitem__"
+        ):
+            raise TypeError(
+                f"cannot unpack non-iterable {type(seq).__name__} object"
+            )
+        return iter(seq)
 
     def DUP_TOPX(self, count: int):
         """
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 8b2423c..f4bf31e 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -110,6 +110,36 @@ class ByteOp32(ByteOp27):
             )
         self.vm.unwind_block(block)
 
+    def UNPACK_EX(self, counts: int):
+        """Implements assignment with a starred target: Unpacks an iterable in
+        TOS into individual values, where the total number of values can be
+        smaller than the number of items in the iterable: one of the new values
+        will be a list of all leftover items.
+
+        The low byte of counts is the number of values before the list value,
+        the high byte of counts the number of values after it. The resulting
+        values are put onto the stack right-to-left.
+        """
+        before, after = counts & 0xFF, counts >> 8
+        iterator = self.iterator_for_unpack(self.vm.pop())
+        values = []
+        while len(values) < before:
+            try:
+                values.append(next(iterator))
+            except StopIteration:
+                raise ValueError(
+                    "not enough values to unpack (expected at least "
+                    f"{before + after}, got {len(values)})"
+                ) from None
+        rest = list(iterator)
+        if len(rest) < after:
+            raise ValueError(
+                "not enough values to unpack (expected at least "
+                f"{before + after}, got {before + len(rest)})"
+            )
+        last = len(rest) - after
+        self.vm.push(*reversed(values + [rest[:last]] + rest[last:]))
+
     def LOAD_BUILD_CLASS(self):
         """Pushes builtins.__build_class__() onto the stack. It is
         later called by CALL_FUNCTION to construct a class."""
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 96a81fa..0b2e0dd 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -11,7 +11,7 @@ from xdis.version_info import PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop35 import ByteOp35
-from xpython.pyobj import Function
+from xpython.pyobj import Function, name_of
 
 
 # Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
@@ -46,12 +46,7 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     name_default, pos_args = divmod(argc, 256)
     TOS = vm.peek(pos_args + 1)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    return f" ({name})" if (name := name_of(TOS)) else ""
 
 
 def fmt_call_function_kw(vm, argc, repr=repr) -> str:
@@ -60,7 +55,7 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
     """
     namedargs_tup = vm.top
     func = vm.peek(argc + 2)
-    return f" (keyword: {namedargs_tup}, function: {func})"
+    return f" (keyword: {namedargs_tup}, function: {repr(func)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 4a28f8f..0029860 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -27,7 +27,7 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     kwargs_count = len(kwarg_names)
     kwargs_list = []
     for i in range(kwargs_count):
-        kwargs_list.append(f"{kwarg_names[i]}={vm.peek(i+1)}")
+        kwargs_list.append(f"{kwarg_names[i]}={repr(vm.peek(i + 1))}")
 
     pos_args = []
     j = kwargs_count + 2
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index be6abf6..3ae4dc8 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -1,7 +1,9 @@
 """Implementations of Python fundamental objects for xpython."""
 
 import collections
+import inspect
 import linecache
+import reprlib
 import types
 from copy import copy
 from sys import stderr
@@ -54,6 +56,43 @@ except Exception:
     pass
 
 
+class SafeRepr(reprlib.Repr):
+    """repr() for showing values of the interpreted program without running
+    any of its code."""
+
+    def __init__(self) -> None:
+        super().__init__()
+        self.maxlevel = 10
+        self.maxdict = self.maxlist = self.maxtuple = self.maxset = 100
+        self.maxfrozenset = self.maxdeque = self.maxarray = 100
+        self.maxlong = self.maxstring = self.maxother = 1000
+
+    def repr1(self, x, level):
+        cls = type(x)
+        if isinstance(x, (Function, Method, Cell)):
+            return object.__repr__(x) if cls is Cell else repr(x)
+        for name in ("__repr__", "__str__", "__len__", "__iter__"):
+            if isinstance(getattr(cls, name, None), Function):
+                return object.__repr__(x)
+        if isinstance(x, type) and type(x) is not type:
+            return f"<class {type.__getattribute__(x, '__name__')!r}>"
+        try:
+            return super().repr1(x, level)
+        except Exception:
+            return object.__repr__(x)
+
+
+def name_of(obj):
+    """The name of a function, class or code object, and None for anything else:
+    asking that could run code of the interpreted program.
+    """
+    if isinstance(obj, type):
+        return type.__getattribute__(obj, "__name__")
+    if isinstance(obj, (Function, Method)) or inspect.isroutine(obj):
+        return getattr(obj, "__name__", None)
+    return getattr(obj, "co_name", None) if iscode(obj) else None
+
+
 # Code with these names have an implicit .0 in them
 COMPREHENSION_FN_NAMES = frozenset(
     ("<setcomp>", "<dictcomp>", "<listcomp>", "<genexpr>")
@@ -892,3 +931,6 @@ if __name__ == "__main__":
     for attr in "__name__ __doc__ __qualname__".split():
         print(getattr(foo.bar, attr), attr)
         assert getattr(foo.bar, attr) == getattr(myMfoo.im_func, attr), attr
+
+
+safe_repr = SafeRepr().repr
diff --git a/xpython/vm.py b/xpython/vm.py
index 195379c..8bb7bdb 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -24,7 +24,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Block, Frame, Traceback, safe_repr, traceback_from_frame
 
 log = logging.getLogger(__name__)
 
@@ -111,7 +111,9 @@ def format_instruction(
         # In the presence of exceptions, the stack might not have the operands
         # of the instruction any more.
         try:
-            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+            stack_args = vm.byteop.stack_fmt[bytecode_name](
+                vm, int_arg, safe_repr
+            )
         except Exception:
             stack_args = " (?)"
     else:
@@ -368,7 +370,7 @@ class PyVM(object):
         log.debug(
             "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
             code,
-            repr(callargs),
+            list(callargs),
             (type(f_globals), id(f_globals)),
             (type(f_locals), id(f_locals)),
         )
@@ -678,7 +680,7 @@ class PyVM(object):
             vm=self,
         )
         indent = "    " * (len(self.frames) - 1)
-        stack_rep = repr(self.frame.stack)
+        stack_rep = safe_repr(self.frame.stack)
         block_stack_rep = repr(self.frame.block_stack)
 
         log.debug(f"  {indent}frame.stack: {stack_rep}")
-- 
2.43.0


From f6cd1fb6936bd45dc18776dec32c0f8b9f8cf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 13/72] fix: print's softspace, import star, 2.4/2.5 import
 operands, and sys tells the simulated version

---
 xpython/byteop/byteop.py   | 58 ++++++++++++++++++++++----------------
 xpython/byteop/byteop24.py | 16 +++++++----
 xpython/byteop/byteop25.py | 12 ++++++++
 xpython/pyobj.py           | 38 +++++++++++++++++++------
 4 files changed, 86 insertions(+), 38 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index f28f3a3..12017c6 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, Method, copy_module
+from xpython.pyobj import Function, Method, SysModule
 from xpython.vm import PyVM
 
 
@@ -143,6 +143,9 @@ class ByteOpBase(object):
         self.cross_bytecode_eval_warning_shown = False
         self.cross_bytecode_exec_warning_shown = False
 
+        # The "sys" module of the interpreted program, once it is imported.
+        self.sys_module = None
+
     def exc_info(self) -> tuple:
         """
         Default exc_info()
@@ -558,41 +561,48 @@ class ByteOpBase(object):
         # Note This attribute is not used to control the print
         # statement, but to allow the implementation of print to keep
         # track of its internal state.
-        if hasattr(to, "softspace") and to.softspace:
+        if getattr(to, "softspace", 0):
             print(" ", end="", file=to)
-            to.softspace = 0
         print(item, end="", file=to)
 
-        if hasattr(to, "softspace"):
-            if isinstance(item, str):
-                if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
-                    to.softspace = 1
-            else:
-                to.softspace = 1
+        if isinstance(item, str):
+            self.set_softspace(
+                to, (not item) or (not item[-1].isspace()) or (item[-1] == " ")
+            )
+        else:
+            self.set_softspace(to, True)
+
+    def set_softspace(self, to, softspace: bool):
+        """Set the softspace attribute of file `to` if it can have one."""
+        try:
+            to.softspace = int(softspace)
+        except (AttributeError, TypeError):
+            pass
 
     def print_newline(self, to=None):
         if to is None:
             to = sys.stdout
         print("", file=to)
-        if hasattr(to, "softspace"):
-            to.softspace = 0
+        self.set_softspace(to, False)
 
     def setup_sys_module(self) -> types.ModuleType:
-        """If this has not previously been done, make a *copy* of the
-        running sys module, add it in the frame, and adapt it for the
-        interpreter we are simulating.
+        """If this has not previously been done, make a stand-in for the
+        running sys module, adapted for the interpreter we are simulating.
         """
 
-        if "sys" not in self.vm.frame.f_globals:
-            sys_module = copy_module(sys)
-            self.vm.frame.f_globals["sys"] = sys_module
-
-            sys_module.hexversion = self.hexversion
-            sys_module.version_info = self.version_info
-            sys_module.exc_info = self.exc_info
-        else:
-            sys_module = self.vm.frame.f_globals["sys"]
-        return sys_module
+        if self.sys_module is None:
+            version_info = self.version_info
+            hexversion = 0
+            for part in (*version_info[:3], 0xF0 | version_info[4]):
+                hexversion = hexversion << 8 | part
+            self.sys_module = SysModule(
+                sys,
+                hexversion=hexversion,
+                version=self.version,
+                version_info=version_info,
+                exc_info=self.exc_info,
+            )
+        return self.sys_module
 
     def unaryOperator(self, op):
         x = self.vm.pop()
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 449d968..39187e9 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -338,11 +338,13 @@ class ByteOp24(ByteOpBase):
         TOS to the local namespace. The module is popped after loading all
         names. This opcode implements from module import *.
         """
-        # TODO: this doesn't use __all__ properly.
         mod = self.vm.pop()
-        for attr in dir(mod):
-            if attr[0] != "_":
-                self.vm.frame.f_locals[attr] = getattr(mod, attr)
+        if hasattr(mod, "__all__"):
+            names = mod.__all__
+        else:
+            names = [name for name in dir(mod) if name[0] != "_"]
+        for name in names:
+            self.vm.frame.f_locals[name] = getattr(mod, name)
 
     def EXEC_STMT(self):
         """
@@ -577,10 +579,14 @@ class ByteOp24(ByteOpBase):
 
         Changed in 2.6
         """
+        self.import_module(name, fromlist=self.vm.pop(), level=0)
+
+    def import_module(self, name, fromlist, level):
+        """What the various IMPORT_NAME's have in common"""
         frame = self.vm.frame
 
         module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=None, level=0
+            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=level
         )
 
         if module is sys:
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 62dcff9..a77cec9 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -21,6 +21,18 @@ class ByteOp25(ByteOp24):
             tb = getattr(value, "__traceback__", None)
         return exit_func(exc_type, value, tb)
 
+    # Changed in 2.5: there is a level
+    def IMPORT_NAME(self, name):
+        """
+        Imports the module co_names[namei]. TOS and TOS1 are popped and
+        provide the fromlist and level arguments of __import__(). A level of
+        -1 means try relative imports before absolute imports.
+
+        Note: name = co_names[namei] set in parse_byte_and_args()
+        """
+        level, fromlist = self.vm.popn(2)
+        self.import_module(name, fromlist, max(level, 0))
+
     # Changed in 2.5: the cells come in a tuple.
     def MAKE_CLOSURE(self, argc: int):
         """
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3ae4dc8..b154161 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -21,17 +21,37 @@ from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
 
-from xpython.stdlib.types34 import ModuleType
 
-
-def copy_module(old_module) -> ModuleType:
-    """
-    Use to make copy of system modules like "sys" which should be
-    distinct.
+class SysModule(types.ModuleType):
+    """The "sys" module of an interpreted program: the one which is running,
+    except for what tells the version and state of the simulated interpreter.
     """
-    new_module = types.ModuleType(old_module.__name__)
-    new_module.__dict__.update(old_module.__dict__)
-    return new_module
+
+    def __init__(self, sys_module, **overrides) -> None:
+        super().__init__("sys", sys_module.__doc__)
+        object.__setattr__(self, "_genuine", sys_module)
+        for name, value in overrides.items():
+            object.__setattr__(self, name, value)
+
+    def __getattribute__(self, name):
+        attrs = object.__getattribute__(self, "__dict__")
+        if name in attrs and not name.startswith("__"):
+            return attrs[name]
+        if name in ("__class__", "__dict__"):
+            return object.__getattribute__(self, name)
+        return getattr(attrs["_genuine"], name)
+
+    def __setattr__(self, name, value) -> None:
+        if name in object.__getattribute__(self, "__dict__"):
+            object.__setattr__(self, name, value)
+        else:
+            setattr(self._genuine, name, value)
+
+    def __delattr__(self, name) -> None:
+        delattr(self._genuine, name)
+
+    def __dir__(self):
+        return dir(self._genuine)
 
 
 def make_cell(value: int):
-- 
2.43.0


From 318296a6b1f6b20025905970f853f89d3ff80ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 14/72] fix: structural pattern matching, except*, generic
 functions, and None jumps in 3.10-3.12

---
 xpython/byteop/byteop310.py | 111 +++++++++++++++++++++++++++++++-----
 xpython/byteop/byteop311.py | 106 +++++++++++++++++++++++++++++++++-
 xpython/byteop/byteop312.py |  48 ++++++++++++----
 3 files changed, 239 insertions(+), 26 deletions(-)

diff --git a/xpython/byteop/byteop310.py b/xpython/byteop/byteop310.py
index 26c9208..b31bc64 100644
--- a/xpython/byteop/byteop310.py
+++ b/xpython/byteop/byteop310.py
@@ -20,6 +20,83 @@ from xpython.byteop.byteop39 import ByteOp39
 from xpython.pyobj import Function
 
 
+# Flags of types for pattern matching. See Include/object.h in CPython
+TPFLAGS_SEQUENCE = 1 << 5
+TPFLAGS_MAPPING = 1 << 6
+TPFLAGS_MATCH_SELF = 1 << 22
+
+
+def match_keys(subject, keys):
+    """Returns a tuple of the values the mapping `subject` has for `keys`, or
+    None if one of the keys is missing."""
+    missing = object()
+    seen = set()
+    values = []
+    for key in keys:
+        if key in seen:
+            raise ValueError(f"mapping pattern checks duplicate key ({key!r})")
+        seen.add(key)
+        value = subject.get(key, missing)
+        if value is missing:
+            return None
+        values.append(value)
+    return tuple(values)
+
+
+def match_class(subject, cls, count, kwd_names):
+    """Returns a tuple of the attributes class pattern `cls` with `count`
+    positional sub-patterns and keyword sub-patterns for `kwd_names` extracts
+    from `subject`, or None if this does not match.
+    """
+    if not isinstance(cls, type):
+        raise TypeError("called match pattern must be a class")
+    if not isinstance(subject, cls):
+        return None
+
+    attrs = []
+    names = []
+    if count:
+        match_self = False
+        if hasattr(cls, "__match_args__"):
+            match_args = cls.__match_args__
+            if not isinstance(match_args, tuple):
+                raise TypeError(
+                    f"{cls.__name__}.__match_args__ must be a tuple "
+                    f"(got {type(match_args).__name__})"
+                )
+        else:
+            match_args = ()
+            match_self = bool(cls.__flags__ & TPFLAGS_MATCH_SELF)
+        allowed = 1 if match_self else len(match_args)
+        if allowed < count:
+            raise TypeError(
+                "%s() accepts %d positional sub-pattern%s (%d given)"
+                % (cls.__name__, allowed, "" if allowed == 1 else "s", count)
+            )
+        if match_self:
+            attrs.append(subject)
+        else:
+            names.extend(match_args[:count])
+
+    seen = set()
+    for name in (*names, *kwd_names):
+        if not isinstance(name, str):
+            raise TypeError(
+                "__match_args__ elements must be strings "
+                f"(got {type(name).__name__})"
+            )
+        if name in seen:
+            raise TypeError(
+                f"{cls.__name__}() got multiple sub-patterns for attribute {name!r}"
+            )
+        seen.add(name)
+        try:
+            attrs.append(getattr(subject, name))
+        except AttributeError:
+            return None
+    return tuple(attrs)
+
+
 class ByteOp310(ByteOp39):
     def __init__(self, vm):
         super(ByteOp310, self).__init__(vm)
@@ -119,20 +196,23 @@ class ByteOp310(ByteOp39):
         """TOS is a tuple of mapping keys, and TOS1 is the match
         subject. Replace TOS with a dict formed from the items of TOS1, but
         without any of the keys in TOS."""
-        # FIXME
-        raise self.vm.PyVMError("MATCH_COPY_DICT_WITHOUT_KEYS not implemented")
+        subject, keys = self.vm.popn(2)
+        rest = {}
+        rest.update(subject)
+        for key in keys:
+            del rest[key]
+        self.vm.push(subject, rest)
 
     def GET_LEN(self):
         """Push len(TOS) onto the stack."""
-        self.vm.push(len(self.vm.pop()))
+        self.vm.push(len(self.vm.top))
 
     def MATCH_MAPPING(self):
         """If TOS is an instance of collections.abc.Mapping (or, more
         technically: if it has the Py_TPFLAGS_MAPPING flag set in its
         tp_flags), push True onto the stack. Otherwise, push False.
         """
-        # FIXME
-        raise self.vm.PyVMError("MATCH_MAPPING not implemented")
+        self.vm.push(bool(type(self.vm.top).__flags__ & TPFLAGS_MAPPING))
 
     def MATCH_SEQUENCE(self):
         """If TOS is an instance of collections.abc.Sequence and is not an
@@ -140,8 +220,7 @@ class ByteOp310(ByteOp39):
         has the Py_TPFLAGS_SEQUENCE flag set in its tp_flags), push
         True onto the stack. Otherwise, push False.
         """
-        # FIXME
-        raise self.vm.PyVMError("MATCH_SEQUENCE not implemented")
+        self.vm.push(bool(type(self.vm.top).__flags__ & TPFLAGS_SEQUENCE))
 
     def MATCH_KEYS(self):
         """TOS is a tuple of mapping keys, and TOS1 is the match subject. If
@@ -149,8 +228,8 @@ class ByteOp310(ByteOp39):
         the corresponding values, followed by True. Otherwise, push
         None, followed by False.
         """
-        # FIXME
-        raise self.vm.PyVMError("MATCH_KEYS not implemented")
+        values = match_keys(self.vm.peek(2), self.vm.top)
+        self.vm.push(values, values is not None)
 
     def GEN_START(self, kind):
         """Pops TOS. If TOS was not None, raises an exception. The kind
@@ -168,10 +247,10 @@ class ByteOp310(ByteOp39):
         """Lift the top count stack items one position up, and move
         TOS down to position count.
         """
-        # FIXME
-        raise self.vm.PyVMError("ROT_N not implemented")
+        items = self.vm.popn(count)
+        self.vm.push(items[-1], *items[:-1])
 
-    def MATCH_CLASS(self):
+    def MATCH_CLASS(self, count: int):
         """TOS is a tuple of keyword attribute names, TOS1 is the class being
         matched against, and TOS2 is the match subject. count is the number of
         positional sub-patterns.
@@ -181,5 +260,9 @@ class ByteOp310(ByteOp39):
         True and TOS1 to a tuple of extracted attributes. Otherwise,
         set TOS to False.
         """
-        # FIXME
-        raise self.vm.PyVMError("MATCH_CLASS not implemented")
+        subject, cls, kwd_names = self.vm.popn(3)
+        attrs = match_class(subject, cls, count, kwd_names)
+        if attrs is None:
+            self.vm.push(subject, False)
+        else:
+            self.vm.push(attrs, True)
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 334b441..74511f7 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -21,7 +21,7 @@ from xpython.byteop.byteop36 import (
     MAKE_FUNCTION_SLOTS,
 )
 from xpython.byteop.byteop37 import NULL
-from xpython.byteop.byteop310 import ByteOp310
+from xpython.byteop.byteop310 import ByteOp310, match_class, match_keys
 from xpython.pyobj import Cell, Function
 
 log = logging.getLogger(__name__)
@@ -337,6 +337,110 @@ class ByteOp311(ByteOp310):
         match = self.vm.pop()
         self.vm.push(exception_match(type(self.vm.top), match))
 
+    def CHECK_EG_MATCH(self):
+        """Performs exception matching for except*. Applies split(TOS) on
+        the exception group representing TOS1.
+
+        In case of a match, pops two items from the stack and pushes the
+        non-matching subgroup (None in case of full match) followed by the
+        matching subgroup. When there is no match, pops one item (the match
+        type) and pushes None.
+        """
+        exc, match_type = self.vm.popn(2)
+        for exc_type in match_type if isinstance(match_type, tuple) else (match_type,):
+            if not (isinstance(exc_type, type) and issubclass(exc_type, BaseException)):
+                raise TypeError(
+                    "catching classes that do not inherit from BaseException "
+                    "is not allowed"
+                )
+            if issubclass(exc_type, BaseExceptionGroup):
+                raise TypeError(
+                    "catching ExceptionGroup with except* is not allowed. "
+                    "Use except instead."
+                )
+
+        if exc is None:
+            match = rest = None
+        elif isinstance(exc, match_type):
+            if isinstance(exc, BaseExceptionGroup):
+                match = exc
+            else:
+                match = BaseExceptionGroup("", [exc])
+            rest = None
+        elif isinstance(exc, BaseExceptionGroup):
+            match, rest = exc.split(match_type)
+        else:
+            match, rest = None, exc
+
+        self.vm.push(rest, match)
+        if match is not None:
+            self.vm.handled_exception = (type(match), match, None)
+
+    def PREP_RERAISE_STAR(self):
+        """Combines the raised and reraised exceptions list from TOS, into an
+        exception group to propagate from a try-except* block. Uses the
+        original exception group from TOS1 to reconstruct the structure of
+        reraised exceptions. Pops two items from the stack and pushes the
+        exception to reraise or None if there isn't one.
+        """
+        orig, excs = self.vm.popn(2)
+        self.vm.push(self.exception_star_result(orig, excs))
+
+    def exception_star_result(self, orig, excs):
+        if not isinstance(orig, BaseExceptionGroup):
+            # A single exception was caught and wrapped, so at most one of
+            # the clauses has run.
+            return excs[0] if excs else None
+
+        raised = []
+        kept = set()
+        for exc in excs:
+            if exc is None:
+                continue
+            if isinstance(exc, BaseExceptionGroup) and all(
+                getattr(exc, name, None) is getattr(orig, name, None)
+                for name in (
+                    "__notes__", "__traceback__", "__cause__", "__context__"
+                )
+            ):
+                groups = [exc]
+                for group in groups:
+                    for leaf in group.exceptions:
+                        if isinstance(leaf, BaseExceptionGroup):
+                            groups.append(leaf)
+                        else:
+                            kept.add(id(leaf))
+            else:
+                raised.append(exc)
+
+        reraised = orig.split(lambda exc: id(exc) in kept)[0] if kept else None
+        if not raised:
+            return reraised
+        if reraised is not None:
+            raised.append(reraised)
+        return raised[0] if len(raised) == 1 else BaseExceptionGroup("", raised)
+
+    # Changed in 3.11: there is no longer a boolean pushed
+
+    def MATCH_KEYS(self):
+        """TOS is a tuple of mapping keys, and TOS1 is the match subject. If
+        TOS1 contains all of the keys in TOS, push a tuple containing the
+        corresponding values. Otherwise, push None.
+        """
+        self.vm.push(match_keys(self.vm.peek(2), self.vm.top))
+
+    def MATCH_CLASS(self, count: int):
+        """TOS is a tuple of keyword attribute names, TOS1 is the class being
+        matched against, and TOS2 is the match subject. count is the number of
+        positional sub-patterns.
+
+        Pop TOS, TOS1, and TOS2. If TOS2 is an instance of TOS1 and has the
+        positional and keyword attributes required by count and TOS, push a
+        tuple of extracted attributes. Otherwise, push None.
+        """
+        subject, cls, kwd_names = self.vm.popn(3)
+        self.vm.push(match_class(subject, cls, count, kwd_names))
+
     def JUMP_BACKWARD(self, offset: int):
         """
         Decrements bytecode counter by delta. Checks for interrupts.
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 721d40f..abd29c5 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -8,6 +8,7 @@
 """
 
 import sys
+import typing
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
@@ -89,11 +90,35 @@ class ByteOp312(ByteOp311):
             self.vm.push(+self.vm.pop())
         elif function == 6:  # INTRINSIC_LIST_TO_TUPLE
             self.vm.push(tuple(self.vm.pop()))
+        elif function == 7:  # INTRINSIC_TYPEVAR
+            self.vm.push(typing.TypeVar(self.vm.pop(), infer_variance=True))
+        elif function == 8:  # INTRINSIC_PARAMSPEC
+            self.vm.push(typing.ParamSpec(self.vm.pop(), infer_variance=True))
+        elif function == 9:  # INTRINSIC_TYPEVARTUPLE
+            self.vm.push(typing.TypeVarTuple(self.vm.pop()))
+        elif function == 10:  # INTRINSIC_SUBSCRIPT_GENERIC
+            self.vm.push(typing.Generic[self.vm.pop()])
         else:
             raise self.vm.PyVMError(
                 f"CALL_INTRINSIC_1 function {function} not implemented"
             )
 
+    def CALL_INTRINSIC_2(self, function: int):
+        """
+        Calls an intrinsic function with two arguments. Passes STACK[-2],
+        STACK[-1] as the arguments and sets STACK[-1] to the result.
+        """
+        first, second = self.vm.popn(2)
+        if function == 1:  # INTRINSIC_PREP_RERAISE_STAR
+            self.vm.push(self.exception_star_result(first, second))
+        elif function == 4:  # INTRINSIC_SET_FUNCTION_TYPE_PARAMS
+            first.__type_params__ = second
+            self.vm.push(first)
+        else:
+            raise self.vm.PyVMError(
+                f"CALL_INTRINSIC_2 function {function} not implemented"
+            )
+
     def RESERVED(self):
         """
         To be continued...
@@ -108,11 +133,10 @@ class ByteOp312(ByteOp311):
           start = STACK.pop()
           container = STACK.pop()
           values = STACK.pop()
-          STACK.push(container)
+          container[start:end] = values
         """
         values, container, start, end = self.vm.popn(4)
-        container[start:end]= values
-        self.vm.push(container)
+        container[start:end] = values
 
     def CLEANUP_THROW(self):
         """
@@ -189,19 +213,21 @@ class ByteOp312(ByteOp311):
     #     # FIXME
     #     raise self.vm.PyVMError("POP_JUMP_IF_FALSE not implemented")
 
-    def POP_JUMP_IF_NOT_NONE(self):
+    def POP_JUMP_IF_NOT_NONE(self, offset: int):
         """
-        To be continued...
+        If STACK[-1] is not None, increments the bytecode counter by delta.
+        STACK[-1] is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NOT_NONE not implemented")
+        if self.vm.pop() is not None:
+            self.vm.jump(offset)
 
-    def POP_JUMP_IF_NONE(self):
+    def POP_JUMP_IF_NONE(self, offset: int):
         """
-        To be continued...
+        If STACK[-1] is None, increments the bytecode counter by delta.
+        STACK[-1] is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NONE not implemented")
+        if self.vm.pop() is None:
+            self.vm.jump(offset)
 
     def LOAD_SUPER_ATTR(self, name, load_method, two_args):
         """
-- 
2.43.0


From 597de3935c8a258998f383c14c562be6ca2c3fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 15/72] fix: run modules with -m, report the exit status with
 -c, restore sys.argv, and deliver the fatal event

---
 xpython/__main__.py |  1 +
 xpython/execfile.py | 77 +++++++++++++++++++--------------------------
 2 files changed, 33 insertions(+), 45 deletions(-)

diff --git a/xpython/__main__.py b/xpython/__main__.py
index 52b5193..21bcb61 100644
--- a/xpython/__main__.py
+++ b/xpython/__main__.py
@@ -22,6 +22,7 @@ def version_message() -> str:
 @click.option(
     "-m",
     "--module",
+    is_flag=True,
     default=False,
     help="PATH is a module name, not a Python main program",
 )
diff --git a/xpython/execfile.py b/xpython/execfile.py
index 0b1cc7d..e2d8b60 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -18,11 +18,8 @@ from xpython.version_info import SUPPORTED_BYTECODE, SUPPORTED_PYPY, SUPPORTED_P
 from xpython.vm import PyVM, PyVMUncaughtException, format_instruction
 from xpython.vmtrace import PyVMTraced
 
-if PYTHON_VERSION_TRIPLE >= (3, 4):
-    from importlib.util import find_spec as find_module
-    from types import ModuleType as new_module
-else:
-    from imp import find_module, new_module
+from importlib.util import find_spec
+from types import ModuleType as new_module
 
 warnings.filterwarnings("ignore")
 
@@ -81,15 +78,15 @@ def exec_code_object(
             python_implementation,
             format_instruction_func=format_instruction,
         )
-        try:
-            vm.run_code(code, f_globals=env)
-        except PyVMUncaughtException:
+        rc = vm.run_code(code, f_globals=env)
+        if rc:
+            # There was an exception which the program does not handle.
             vm.last_exception = event_arg = (
                 vm.last_exception[0],
                 vm.last_exception[1],
                 vm.last_traceback,
             )
-            callback("fatal", 0, "fatalOpcode", 0, -1, event_arg, [], vm)
+            callback("fatal", 0, "fatalOpcode", 0, -1, None, event_arg, vm)
     else:
         if python_version != PYTHON_VERSION_TRIPLE[:2]:
             make_compatible_builtins(BUILTINS.__dict__, python_version)
@@ -136,43 +133,29 @@ def run_python_module(modulename, args):
     element naming the module being executed.
 
     """
-    openfile = None
-    glo, loc = globals(), locals()
     try:
-        try:
-            # Search for the module - inside its parent package, if any - using
-            # standard import mechanics.
-            if "." in modulename:
-                packagename, name = rsplit1(modulename, ".")
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-            else:
-                packagename, name = None, modulename
-                searchpath = None  # "top-level search" in imp.find_module()
-            openfile, pathname, _ = find_module(name, searchpath)
-
-            # Complain if this is a magic non-file module.
-            if openfile is None and pathname is None:
-                raise NoSourceError(f"module does not live in a file: {modulename!r}")
-
-            # If `modulename` is actually a package, not a mere module, then we
-            # pretend to be Python 2.7 and try running its __main__.py script.
-            if openfile is None:
-                packagename = modulename
-                name = "__main__"
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-                openfile, pathname, _ = find_module(name, searchpath)
-        except ImportError:
-            _, err, _ = sys.exc_info()
-            raise NoSourceError(str(err))
-    finally:
-        if openfile:
-            openfile.close()
+        # Search for the module - inside its parent package, if any - using
+        # standard import mechanics.
+        spec = find_spec(modulename)
+        packagename = modulename.rpartition(".")[0]
+
+        # If `modulename` is actually a package, not a mere module, then we
+        # run its __main__.py script.
+        if spec is not None and spec.submodule_search_locations is not None:
+            packagename = modulename
+            spec = find_spec(f"{modulename}.__main__")
+    except (ImportError, ValueError) as err:
+        raise NoSourceError(str(err))
+
+    if spec is None:
+        raise NoSourceError(f"No module named {modulename!r}")
+
+    # Complain if this is a magic non-file module.
+    if not spec.has_location:
+        raise NoSourceError(f"module does not live in a file: {modulename!r}")
 
     # Finally, hand the file off to run_python_file for execution.
-    args[0] = pathname
-    run_python_file(pathname, args, package=packagename)
+    run_python_file(spec.origin, args, package=packagename)
 
 
 def run_python_file(
@@ -309,6 +292,7 @@ def run_python_string(
     main_mod.__builtins__ = BUILTINS
 
     # Set sys.argv and the first path element properly.
+    old_argv = sys.argv
     old_path0 = sys.path[0]
     sys.argv = [fake_path] + list(args)
 
@@ -328,11 +312,11 @@ def run_python_string(
         python_version = PYTHON_VERSION_TRIPLE
 
         # Execute the source string.
-        exec_code_object(
+        rc = exec_code_object(
             code,
             main_mod.__dict__,
             python_version,
-            IS_PYPY,
+            PYTHON_IMPLEMENTATION,
             callback,
             format_instruction=format_instruction,
         )
@@ -342,8 +326,11 @@ def run_python_string(
         sys.modules["__main__"] = old_main_mod
 
         # Restore the old argv and path
+        sys.argv = old_argv
         sys.path[0] = old_path0
 
+    sys.exit(rc)
+
 
 if __name__ == "__main__":
     if len(sys.argv) < 2:
-- 
2.43.0


From c1c3d2677f3c9c54f4f1004bd338ccafcb370e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 16/72] fix: breakpoints, returns a trace callback asks for,
 and frames left by an exception

---
 xpython/byteop/byteop24.py |  4 ++--
 xpython/vm.py              | 17 ++++++++++++++---
 xpython/vmtrace.py         | 14 ++++++++++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 39187e9..2fa6cb1 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -189,10 +189,10 @@ class ByteOp24(ByteOpBase):
                     frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
                 elif result == "return":
                     # Immediate return with value
-                    return self.return_value
+                    return "return"
                 elif result == "skip":
                     # Don't run instruction
-                    return result
+                    return None
 
         if log.isEnabledFor(logging.INFO):
             vm.log(byte_name, int_arg, arguments, opoffset, line_number)
diff --git a/xpython/vm.py b/xpython/vm.py
index 8bb7bdb..04bdbf2 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -302,7 +302,7 @@ class PyVM(object):
             if new_size > self.frame.f_code.co_stacksize:
                 print(
                     f"***Warning: exceeding declared max stacksize; have {new_size}, "
-                    f"max size: {self.f_code.co_stacksize}"
+                    f"max size: {self.frame.f_code.co_stacksize}"
                 )
 
         self.frame.stack.extend(vals)
@@ -486,6 +486,7 @@ class PyVM(object):
         This matters when this is called to interpret eval().
         """
         frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
+        depth = len(self.frames)
         try:
             self.eval_frame(frame)
         except PyVMUncaughtException:
@@ -496,8 +497,13 @@ class PyVM(object):
                 print(f"{self.last_exception[0].__name__}: {self.last_exception[1]}")
             return 1
 
-        except Exception:
-            if self.last_traceback:
+        except BaseException as exc:
+            # Leave the frames of the code which did not get to an end.
+            while len(self.frames) > depth:
+                self.pop_frame()
+
+            # In eval() or exec() the program can still handle the exception.
+            if toplevel and isinstance(exc, Exception) and self.last_traceback:
                 self.last_traceback.print_tb()
                 print(f"{self.last_exception[0].__name__}", end="")
                 le1 = self.last_exception[1]
@@ -560,6 +566,9 @@ class PyVM(object):
         while True:
             if f.fallthrough:
                 if not replay:
+                    # The size is the one of the instruction which a
+                    # breakpoint might have smashed.
+                    byte_code = f.brkpt.get(f.f_lasti, byte_code)
                     f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
             else:
                 # Jump instructions must set this False.
@@ -582,6 +591,7 @@ class PyVM(object):
                     arg_offset += 1
                     if byte_code == self.opc.EXTENDED_ARG:
                         extended_arg = int_arg << 8
+                        replay = False
                         continue
                     else:
                         extended_arg = 0
@@ -594,6 +604,7 @@ class PyVM(object):
                     arg_offset += 2
                     if byte_code == self.opc.EXTENDED_ARG:
                         extended_arg = int_arg * 65536
+                        replay = False
                         continue
                     else:
                         extended_arg = 0
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 7b0d6c7..706c78e 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -5,10 +5,11 @@ This can be used in a debugger or profiler.
 import logging
 from types import TracebackType
 
-from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
+from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
+from xdis.version_info import PYTHON_IMPLEMENTATION, PythonImplementation
 
 from xpython.pyobj import Frame, Traceback, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
@@ -79,14 +80,14 @@ class PyVMTraced(PyVM):
         self,
         callback,
         python_version: tuple[int, ...]=PYTHON_VERSION_TRIPLE,
-        is_pypy: bool=IS_PYPY,
+        python_implementation: PythonImplementation=PYTHON_IMPLEMENTATION,
         vmtest_testing: bool=False,
         event_flags: int=PyVMEVENT_ALL,
         format_instruction_func=format_instruction,
     ) -> None:
         super().__init__(
             python_version,
-            is_pypy,
+            python_implementation,
             vmtest_testing,
             format_instruction_func=format_instruction_func,
         )
@@ -111,6 +112,9 @@ class PyVMTraced(PyVM):
         # Convert code to something we can change, then
         # Convert its bytecode bytes to a list, update the list and replace this back in
         # the code.
+        if frame.f_code.co_code[offset] == BREAKPOINT_OP:
+            # There already is one.
+            return
         code = codeType2Portable(frame.f_code, self.version)
         frame.brkpt[offset] = code.co_code[offset]
         bytecode = list(code.co_code)
@@ -213,6 +217,7 @@ class PyVMTraced(PyVM):
                 frame.f_trace = None
                 frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
             elif result == "return":
+                self.pop_frame()
                 return self.return_value
 
         self.frame.linestarts = dict(
@@ -284,6 +289,7 @@ class PyVMTraced(PyVM):
                 elif result == "finish":
                     # Continue execution without tracing
                     frame.f_trace = None
+                    frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
 
             # When unwinding the block stack, we need to keep track of why we
             # are doing it.
@@ -321,7 +327,7 @@ class PyVMTraced(PyVM):
                 and frame
                 and (not frame or frame.event_flags & PyVMEVENT_EXCEPTION)
             ):
-                frame.f_trace(
+                callback(
                     "exception",
                     offset,
                     bytecode_name,
-- 
2.43.0


From 111914ee3ec318fc8aeeaf59362a3859cc9167e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 17/72] fix: sys._getframe() gives the frames of the
 interpreted program

---
 xpython/byteop/byteop.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 12017c6..1ee0a09 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -601,9 +601,17 @@ class ByteOpBase(object):
                 version=self.version,
                 version_info=version_info,
                 exc_info=self.exc_info,
+                _getframe=self.get_frame,
             )
         return self.sys_module
 
+    def get_frame(self, depth=0, /):
+        """sys._getframe() of the interpreted program"""
+        frames = self.vm.frames
+        if depth >= len(frames):
+            raise ValueError("call stack is not deep enough")
+        return frames[-1 - max(depth, 0)]
+
     def unaryOperator(self, op):
         x = self.vm.pop()
         self.vm.push(UNARY_OPERATORS[op](x))
-- 
2.43.0


From 0cec0ab85ec643132314fd81e057831dcae52517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:41 +0000
Subject: [PATCH 18/72] fix: open slices of Python 2 pass None; logging a
 failed unary operator raises nothing

---
 xpython/byteop/byteop.py | 12 +++++++-----
 xpython/vm.py            |  5 +----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 1ee0a09..e5d5637 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -102,6 +102,8 @@ def fmt_ternary_op(vm: PyVM, arg=None, repr=repr):
     """returns string of the repr() for each of the first three
     elements of evaluation stack
     """
+    if vm.frame is None or len(vm.frame.stack) < 3:
+        return " (?)"
     return f" ({repr(vm.peek(3))}, {repr(vm.peek(2))}, {repr(vm.top)})"
 
 
@@ -112,11 +114,11 @@ def fmt_unary_op(vm: PyVM, arg=None, repr=repr):
     # We need to check the length because sometimes in a return event,
     # as opposed to a RETURN_VALUE, callback can return the value has
     # been popped, and if the return values was the only one on the
-    # stack, it will be empty here.
-    if len(vm.frame.stack):
-        return f" ({repr(vm.top)})"
-    else:
-        raise vm.PyVMError("Empty stack in unary op")
+    # stack, it will be empty here. So it is when the operator raised
+    # an exception.
+    if vm.frame is None or not vm.frame.stack:
+        return " (?)"
+    return f" ({repr(vm.top)})"
 
 
 class ByteOpBase(object):
diff --git a/xpython/vm.py b/xpython/vm.py
index 04bdbf2..e7c8568 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -953,8 +953,7 @@ class PyVM(object):
     # Operators
 
     def sliceOperator(self, op):
-        start = 0
-        end = None  # we will take this to mean end
+        start = end = None  # an end that is left out
         op, count = op[:-2], int(op[-1])
         if count == 1:
             start = self.pop()
@@ -964,8 +963,6 @@ class PyVM(object):
             end = self.pop()
             start = self.pop()
         slice_len = self.pop()
-        if end is None:
-            end = len(slice_len)
         if op.startswith("STORE_"):
             slice_len[start:end] = self.pop()
         elif op.startswith("DELETE_"):
-- 
2.43.0


From 13dcaecdf061728b1f9811e6a7115fb1d98a16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 19/72] fix: errors of del, unpacking, name lookup and
 from-import as CPython raises them

Unpacking and del of an unbound name no longer leave the internal
StopIteration or KeyError as the __context__ of what is raised, and unpacking
calls iter() once. LOAD_NAME looks a name up once, so a mapping used
as a class namespace sees one access. IMPORT_FROM does not need the module
to have a __name__, keeps an error other than AttributeError, and finds
a partly imported submodule in sys.modules.
---
 xpython/byteop/byteop24.py | 68 ++++++++++++++++++++++----------------
 xpython/byteop/byteop32.py | 15 ++++-----
 2 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 2fa6cb1..191a94e 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -424,33 +424,47 @@ class ByteOp24(ByteOpBase):
         """Implements del name, where name in global."""
         try:
             del self.vm.frame.f_globals[name]
+            return
         except KeyError:
-            raise NameError(f"name '{name}' is not defined") from None
+            pass
+        raise NameError(f"name '{name}' is not defined")
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
         try:
             del self.vm.frame.f_locals[name]
+            return
         except KeyError:
-            raise NameError(f"name '{name}' is not defined") from None
+            pass
+        raise NameError(f"name '{name}' is not defined")
 
     def UNPACK_SEQUENCE(self, count):
         """Unpacks TOS into count individual values, which are put onto the
         stack right-to-left.
         """
         seq = self.vm.pop()
-        values = []
-        for value in self.iterator_for_unpack(seq):
-            if len(values) == count:
-                raise ValueError(f"too many values to unpack (expected {count})")
-            values.append(value)
+        iterator = self.iterator_for_unpack(seq)
+        values = self.take_for_unpack(iterator, count)
         if len(values) < count:
             raise ValueError(
                 f"not enough values to unpack (expected {count}, got {len(values)})"
             )
+        if self.take_for_unpack(iterator, 1):
+            raise ValueError(f"too many values to unpack (expected {count})")
         self.vm.push(*reversed(values))
 
+    @staticmethod
+    def take_for_unpack(iterator, count):
+        """The next "count" values of iterator, or fewer when it ends early."""
+        values = []
+        try:
+            while len(values) < count:
+                values.append(next(iterator))
+        except StopIteration:
+            pass
+        return values
+
     def iterator_for_unpack(self, seq):
         """iter() as unpacking does it."""
         if not hasattr(type(seq), "__iter__") and not hasattr(
@@ -493,15 +507,7 @@ class ByteOp24(ByteOpBase):
         """Pushes the value associated with co_names[namei] onto the stack.
         Running this opcode can raise a NameError.
         """
-        #
-        try:
-            self.lookup_name(name)
-        except NameError:
-            self.vm.last_traceback = self.traceback_from_frame()
-            self.create_exception(NameError, f"name '{name}' is not defined")
-            return "exception"
-        else:
-            self.vm.push(self.lookup_name(name))
+        self.vm.push(self.lookup_name(name))
 
     # Building
 
@@ -603,19 +609,23 @@ class ByteOp24(ByteOpBase):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         mod = self.vm.top
-        if not hasattr(mod, name):
-            if not hasattr(mod, "__file__"):
-                # Builtins don't have a __file__ attribute
-                value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
-            else:
-                value = ImportError(
-                    f"cannot import name '{name}' from '{mod.__name__} ({mod.__file__}"
-                )
-
-            self.vm.last_exception = (ImportError, value, None)
-            return "exception"
-
-        self.vm.push(getattr(mod, name))
+        try:
+            self.vm.push(getattr(mod, name))
+            return
+        except AttributeError:
+            pass
+
+        mod_name = getattr(mod, "__name__", "<unknown module name>")
+        submodule = f"{mod_name}.{name}"
+        if submodule in sys.modules:
+            # In a circular import, the submodule may have been started
+            # on, but not be an attribute of its package yet.
+            self.vm.push(sys.modules[submodule])
+            return
+
+        # Builtins don't have a __file__ attribute
+        location = getattr(mod, "__file__", None) or "unknown location"
+        raise ImportError(f"cannot import name '{name}' from '{mod_name}' ({location})")
 
     # Jumps
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index f4bf31e..e53aac6 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -122,15 +122,12 @@ class ByteOp32(ByteOp27):
         """
         before, after = counts & 0xFF, counts >> 8
         iterator = self.iterator_for_unpack(self.vm.pop())
-        values = []
-        while len(values) < before:
-            try:
-                values.append(next(iterator))
-            except StopIteration:
-                raise ValueError(
-                    "not enough values to unpack (expected at least "
-                    f"{before + after}, got {len(values)})"
-                ) from None
+        values = self.take_for_unpack(iterator, before)
+        if len(values) < before:
+            raise ValueError(
+                "not enough values to unpack (expected at least "
+                f"{before + after}, got {len(values)})"
+            )
         rest = list(iterator)
         if len(rest) < after:
             raise ValueError(
-- 
2.43.0


From 13f9da399fb70c248628216ee5519b3a6201e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 20/72] fix: showing a bound method in a log ran the program's
 __str__()

Logging an exception ran the interpreted program's code; and the repr() of a
bound method shows the repr(), not the str(), of its instance.
---
 xpython/pyobj.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index b154161..1d0948e 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -89,8 +89,10 @@ class SafeRepr(reprlib.Repr):
 
     def repr1(self, x, level):
         cls = type(x)
-        if isinstance(x, (Function, Method, Cell)):
-            return object.__repr__(x) if cls is Cell else repr(x)
+        if isinstance(x, (Method, Cell)):
+            return object.__repr__(x)
+        if isinstance(x, Function):
+            return repr(x)
         for name in ("__repr__", "__str__", "__len__", "__iter__"):
             if isinstance(getattr(cls, name, None), Function):
                 return object.__repr__(x)
@@ -482,9 +484,9 @@ class Method(object):
     def __repr__(self) -> str:  # pragma: no cover
         name = f"{self.im_class.__name__}.{self.im_func.func_name}"
         if self.im_self is not None:
-            return f"<Bound Method {name} of {self.im_self}>"
+            return f"<bound method {name} of {self.im_self!r}>"
         else:
-            return f"<Unbound Method {name}>"
+            return f"<unbound method {name}>"
 
     def __call__(self, /, *args, **kwargs):
         if self.im_self is not None:
-- 
2.43.0


From 7b0c91991595958cd202d549afe8825acf3ad872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 21/72] fix: showing an instruction which raised an exception
 could run code of the program

Its operands may be popped already, so that what is then on the stack is anything.
---
 xpython/byteop/byteop311.py    | 6 ++----
 xpython/byteop/byteop32.py     | 4 ++--
 xpython/byteop/byteop36.py     | 2 +-
 xpython/byteop/byteop37pypy.py | 8 ++++++--
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 74511f7..2e5cc97 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -22,7 +22,7 @@ from xpython.byteop.byteop36 import (
 )
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310, match_class, match_keys
-from xpython.pyobj import Cell, Function
+from xpython.pyobj import Cell, Function, name_of
 
 log = logging.getLogger(__name__)
 
@@ -38,9 +38,7 @@ def fmt_make_function(vm, _=None, repr_fn=repr) -> str:
     """
     returns the name of the function from the code object in the stack
     """
-    fn_item = vm.top
-    name = fn_item.co_name
-    return f" ({name})"
+    return f" ({name_of(vm.top)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index e53aac6..695b6cf 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -6,7 +6,7 @@ import inspect
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Cell, Function
+from xpython.pyobj import Cell, Function, name_of
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -16,7 +16,7 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
     # Gotta love Python for stuff like this.
     fn_index = 1 if vm.version >= (3, 2) else 2
     fn_item = vm.peek(fn_index)
-    name = fn_item if isinstance(fn_item, str) else fn_item.co_name
+    name = fn_item if isinstance(fn_item, str) else name_of(fn_item)
     return f" ({name})"
 
 
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 0b2e0dd..a6892c0 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -55,7 +55,7 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
     """
     namedargs_tup = vm.top
     func = vm.peek(argc + 2)
-    return f" (keyword: {namedargs_tup}, function: {repr(func)})"
+    return f" (keyword: {repr(namedargs_tup)}, function: {repr(func)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 0029860..a8d89a4 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -7,6 +7,7 @@
 """
 from xpython.byteop.byteop37 import ByteOp37
 from xpython.byteop.byteoppypy import ByteOpPyPy
+from xpython.pyobj import name_of
 
 
 def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
@@ -15,7 +16,7 @@ def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
     """
     pos_args = [vm.peek(i + 1) for i in range(argc)]
 
-    fn_name = vm.peek(argc + 2).__name__
+    fn_name = name_of(vm.peek(argc + 2))
     return f""" {fn_name}({", ".join((repr_fn(a) for a in pos_args))})"""
 
 
@@ -24,6 +25,9 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     formats function name (without enclosing object), positional  and keyword args.
     """
     kwarg_names = vm.peek(1)
+    if type(kwarg_names) is not tuple or set(map(type, kwarg_names)) - {str}:
+        # An exception was raised after the operands were popped.
+        return " (?)"
     kwargs_count = len(kwarg_names)
     kwargs_list = []
     for i in range(kwargs_count):
@@ -34,7 +38,7 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     for i in range(argc - kwargs_count):
         pos_args.append(vm.peek(i + j))
 
-    fn_name = vm.peek(argc + 3).__name__
+    fn_name = name_of(vm.peek(argc + 3))
     return f""" {fn_name}({", ".join((repr(a) for a in pos_args + kwargs_list))})"""
 
 
-- 
2.43.0


From b1ad1518859325f343accc69ebfe2dd3d902139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 22/72] fix: StopIteration of iter() in [*x], (*x,) and {*x}
 became RuntimeError

---
 xpython/byteop/byteop35.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 6183d9a..01585e1 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -33,7 +33,11 @@ class ByteOp35(ByteOp34):
 
     def build_container_flat(self, count, container_fn):
         elts = self.vm.popn(count)
-        self.vm.push(container_fn(e for elt in elts for e in elt))
+        # In a generator, a StopIteration of iter(elt) would be changed.
+        items = []
+        for elt in elts:
+            items.extend(elt)
+        self.vm.push(container_fn(items))
 
     def get_awaitable_iter(self, o):
         # This helper function returns an awaitable for `o`:
-- 
2.43.0


From 7d91ca2606981c1df9bbc7d4ad29f096931436d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 23/72] fix: a call of an object with **kwargs does not look up
 the object's __name__

---
 xpython/byteop/byteop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e5d5637..15aa00f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, Method, SysModule
+from xpython.pyobj import Function, Method, SysModule, name_of
 from xpython.vm import PyVM
 
 
@@ -374,7 +374,7 @@ class ByteOpBase(object):
         """Add the items of `mapping`, the operand of "**" in a call of `func`,
         to `named_args`. It is an error if a keyword is given twice.
         """
-        name = getattr(func, "__name__", "function")
+        name = name_of(func) or "function"
         if not hasattr(mapping, "keys"):
             raise TypeError(
                 f"{name}() argument after ** must be a mapping, "
-- 
2.43.0


From dd6fe00ccb95badb1ed70df140a89492295eb671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 24/72] fix: report the line event for a line that starts with
 EXTENDED_ARG

---
 xpython/vm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index e7c8568..7852398 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -562,6 +562,7 @@ class PyVM(object):
         # the argument exists.
         arguments = []
         int_arg = None
+        line_number = None
 
         while True:
             if f.fallthrough:
@@ -574,9 +575,9 @@ class PyVM(object):
                 # Jump instructions must set this False.
                 f.fallthrough = True
             offset = f.f_lasti
-            line_number = self.frame.linestarts.get(offset, None)
-            if line_number is not None:
-                f.f_lineno = line_number
+            if offset in f.linestarts:
+                # A line can start at an EXTENDED_ARG before the instruction.
+                f.f_lineno = line_number = f.linestarts[offset]
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From e8d2d99bedcb3b800f3286ad419107b6bf9ec0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 25/72] fix: showing operands in Python 2 does not run the
 __repr__ of the program

---
 xpython/pyobj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 1d0948e..a1b519b 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -94,7 +94,9 @@ class SafeRepr(reprlib.Repr):
         if isinstance(x, Function):
             return repr(x)
         for name in ("__repr__", "__str__", "__len__", "__iter__"):
-            if isinstance(getattr(cls, name, None), Function):
+            # In Python 2, getattr() would make a Method of a Function.
+            attr = inspect.getattr_static(cls, name, None)
+            if isinstance(attr, Function):
                 return object.__repr__(x)
         if isinstance(x, type) and type(x) is not type:
             return f"<class {type.__getattribute__(x, '__name__')!r}>"
-- 
2.43.0


From 129cb02ed3d94101c2a97f2f77f3439b7c69aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 26/72] fix: yield from looks up no attributes it does not need

---
 xpython/byteop/byteop35.py |  3 ++-
 xpython/pyobj.py           | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 01585e1..8052d0a 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -3,6 +3,7 @@
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop34 import ByteOp34
+from xpython.pyobj import Generator
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
 
@@ -90,7 +91,7 @@ class ByteOp35(ByteOp34):
         is. Otherwise, implements TOS = iter(TOS).
         """
         TOS = self.vm.top
-        if isgeneratorfunction(TOS) or iscoroutinefunction(TOS):
+        if isinstance(TOS, Generator):
             return
         TOS = self.vm.pop()
         self.vm.push(iter(TOS))
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index a1b519b..7556758 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -847,10 +847,13 @@ class Generator(object):
             self.gi_running = True
             try:
                 if isinstance(exc, GeneratorExit):
-                    if hasattr(delegate, "close"):
-                        delegate.close()
-                elif hasattr(delegate, "throw"):
-                    return delegate.throw(exc)
+                    close = getattr(delegate, "close", None)
+                    if close is not None:
+                        close()
+                else:
+                    throw = getattr(delegate, "throw", None)
+                    if throw is not None:
+                        return throw(exc)
             except StopIteration as stop:
                 if self.vm.version >= (3, 11):
                     # CLEANUP_THROW is going to handle this
-- 
2.43.0


From 55bc31dcd27cbc63e224a6ccb42dbe34f1155886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 27/72] fix: dictionary merging uses a mapping the way
 PyDict_Update does

---
 xpython/byteop/byteop.py   | 37 ++++++++++++++++++++++++++++++-------
 xpython/byteop/byteop35.py |  2 +-
 xpython/byteop/byteop39.py |  4 +---
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 15aa00f..421651c 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -375,17 +375,40 @@ class ByteOpBase(object):
         to `named_args`. It is an error if a keyword is given twice.
         """
         name = name_of(func) or "function"
-        if not hasattr(mapping, "keys"):
-            raise TypeError(
-                f"{name}() argument after ** must be a mapping, "
-                f"not {type(mapping).__name__}"
-            )
-        for key in mapping.keys():
+
+        def check_key(key):
             if key in named_args:
                 raise TypeError(
                     f"{name}() got multiple values for keyword argument {key!r}"
                 )
-            named_args[key] = mapping[key]
+
+        message = (
+            f"{name}() argument after ** must be a mapping, "
+            f"not {type(mapping).__name__}"
+        )
+        self.update_dict(named_args, mapping, message, check_key)
+
+    def update_dict(self, destination: dict, mapping, message=None, check_key=None):
+        """Add the items of `mapping` to `destination`, as PyDict_Update() does
+        it. TypeError with `message` is raised if it is not a mapping.
+        `check_key` is called for each key before its value is taken.
+        """
+        if isinstance(mapping, dict) and type(mapping).__iter__ is dict.__iter__:
+            # Overridden methods of a subclass are not used.
+            for key, value in dict.items(mapping):
+                if check_key:
+                    check_key(key)
+                destination[key] = value
+            return
+        try:
+            for key in mapping.keys():
+                if check_key:
+                    check_key(key)
+                destination[key] = mapping[key]
+            return
+        except AttributeError:
+            pass
+        raise TypeError(message or f"'{type(mapping).__name__}' object is not a mapping")
 
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
         len_kw, len_pos = divmod(argc, 256)
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 8052d0a..1468bed 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -237,7 +237,7 @@ class ByteOp35(ByteOp34):
         elts = self.vm.popn(count)
         result = {}
         for d in elts:
-            result.update(d)
+            self.update_dict(result, d)
         self.vm.push(result)
 
     def BUILD_MAP_UNPACK_WITH_CALL(self, oparg):
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 7cd1e10..1443fe0 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -140,6 +140,4 @@ class ByteOp39(ByteOp38):
         TOS = self.vm.pop()
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        if not hasattr(TOS, "keys"):
-            raise TypeError(f"'{type(TOS).__name__}' object is not a mapping")
-        destination.update(TOS)
+        self.update_dict(destination, TOS)
-- 
2.43.0


From 731a3f4af4dcce8875740d067aec763ef47bae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 28/72] fix: interpreted eval() and exec() set __builtins__ and
 check their arguments; eval in an inlined comprehension

---
 xpython/byteop/byteop.py | 71 ++++++++++++++++++++++------------------
 xpython/pyobj.py         | 13 ++++++--
 2 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 421651c..2b937a5 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -172,16 +172,42 @@ class ByteOpBase(object):
         these are the locals, too.
         """
         frame = self.vm.frame
-        if len(pos_args) > 1 and pos_args[1] is None:
+        pos_args += [None] * (3 - len(pos_args))
+        if pos_args[1] is None:
             pos_args[1] = frame.f_globals
-            if len(pos_args) == 2:
-                pos_args.append(frame.get_locals())
-        if len(pos_args) > 2 and pos_args[2] is None:
+            if pos_args[2] is None:
+                pos_args[2] = frame.get_locals()
+        elif pos_args[2] is None:
             pos_args[2] = pos_args[1]
-        if len(pos_args) == 1:
-            pos_args += [frame.f_globals, frame.get_locals()]
-        elif len(pos_args) == 2:
-            pos_args.append(pos_args[1])
+
+    def eval_or_exec(self, mode: str, source, f_globals, f_locals):
+        """What the built-in function eval() or exec() does for bytecode of
+        the release that we are running in: compile `source` and interpret it.
+        """
+        if not hasattr(type(f_locals), "__getitem__"):
+            raise TypeError(
+                f"{mode}() locals must be a mapping, not {type(f_locals).__name__}"
+            )
+        if not isinstance(f_globals, dict):
+            raise TypeError(
+                f"{mode}() globals must be a dict, not {type(f_globals).__name__}"
+            )
+        if not dict.__contains__(f_globals, "__builtins__"):
+            dict.__setitem__(f_globals, "__builtins__", self.vm.frame.f_builtins)
+
+        if inspect.iscode(source):
+            if source.co_freevars:
+                raise TypeError(
+                    f"code object passed to {mode}() may not contain free variables"
+                )
+        elif isinstance(source, (str, bytes, bytearray, memoryview)):
+            if mode == "eval" and not isinstance(source, memoryview):
+                blanks = " \t" if isinstance(source, str) else b" \t"
+                source = source.lstrip(blanks)
+            source = compile(source, "<string>", mode, dont_inherit=True)
+        else:
+            raise TypeError(f"{mode}() arg 1 must be a string, bytes or code object")
+        return self.vm.run_code(source, f_globals, f_locals, toplevel=False)
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
@@ -239,27 +265,17 @@ class ByteOpBase(object):
             #   func == exec
             elif func.__name__ == "exec":
                 if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
+                    raise TypeError(
                         "exec() builtin should have 1..3 positional arguments; got %d"
                         % (len(pos_args))
                     )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
                 self.fill_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
+                    self.eval_or_exec("exec", *pos_args)
+                    self.vm.push(None)
                     return
                 else:
                     if not self.cross_bytecode_exec_warning_shown:
@@ -276,25 +292,16 @@ class ByteOpBase(object):
 
             elif func == eval:
                 if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
+                    raise TypeError(
                         "eval() builtin should have 1..3 positional arguments; got %d"
                         % (len(pos_args))
                     )
-                assert 1 <= len(pos_args) <= 3
                 self.fill_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, (str, bytes)):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
+                    self.vm.push(self.eval_or_exec("eval", *pos_args))
                     return
                 else:
                     if not self.cross_bytecode_eval_warning_shown:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 7556758..8334cd9 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -636,7 +636,7 @@ class Frame(object):
             self.f_builtins = f_back.f_builtins
         else:
             try:
-                self.f_builtins = f_globals["__builtins__"]
+                self.f_builtins = dict.__getitem__(f_globals, "__builtins__")
                 if hasattr(self.f_builtins, "__dict__"):
                     self.f_builtins = self.f_builtins.__dict__
             except KeyError:
@@ -713,7 +713,16 @@ class Frame(object):
         """
         flags = self.f_code.co_flags
         if not flags & CO_NEWLOCALS or self.f_locals is not self.fast_locals:
-            return self.f_locals
+            # From 3.12 on, there can be variables of an inlined comprehension.
+            hidden = {}
+            if self.version >= (3, 12) and not flags & CO_OPTIMIZED:
+                for name in self.f_code.co_varnames:
+                    cell = self.cells.get(name)
+                    if cell is not None and not cell.is_empty():
+                        hidden[name] = cell.get()
+                    elif cell is None and name in self.fast_locals:
+                        hidden[name] = self.fast_locals[name]
+            return {**self.f_locals, **hidden} if hidden else self.f_locals
 
         if flags & CO_OPTIMIZED:
             if self.locals_snapshot is None:
-- 
2.43.0


From bb820732286207dc6d38e0b6166bdf59585ba688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 29/72] fix: the order of locals() in 3.11 and later is the one
 of the variables

---
 xpython/pyobj.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 8334cd9..0943b6f 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -735,16 +735,13 @@ class Frame(object):
             names = ()
             cell_names = self.f_code.co_cellvars
 
-        for name in names:
-            if name in self.fast_locals:
-                snapshot[name] = self.fast_locals[name]
-            else:
-                snapshot.pop(name, None)
-        for name in cell_names:
+        for name in (*names, *cell_names):
             cell = self.cells.get(name)
             if cell is not None and not cell.is_empty():
                 snapshot[name] = cell.get()
-            elif name not in names or cell is not None:
+            elif cell is None and name in names and name in self.fast_locals:
+                snapshot[name] = self.fast_locals[name]
+            else:
                 snapshot.pop(name, None)
         return snapshot
 
-- 
2.43.0


From 710f0e3004a0c5eff1e8eaba555f27498d365010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 30/72] fix: a breakpoint changed the code other frames run,
 and lost the EXTENDED_ARG before it

---
 xpython/pyobj.py   | 1 +
 xpython/vm.py      | 5 ++++-
 xpython/vmtrace.py | 4 +++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0943b6f..efbcd02 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -630,6 +630,7 @@ class Frame(object):
         # smasshed by overwriting it with the pseudo opcode BRKPT.
         # After a breakpoint is serviced, this opcode needs to be run.
         self.brkpt = {}
+        self.brkpt_extended_arg = 0
 
         if f_back and f_back.f_globals is f_globals:
             # If we share the globals, we share the builtins.
diff --git a/xpython/vm.py b/xpython/vm.py
index 7852398..014967d 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -553,7 +553,8 @@ class PyVM(object):
         f = self.frame
         f_code = f.f_code
         co_code = f_code.co_code
-        extended_arg = 0
+        # On replay, what EXTENDED_ARG before the breakpoint said.
+        extended_arg = f.brkpt_extended_arg if replay else 0
 
         # Note: There is never more than one argument.
         # The list size is used to indicate whether an argument
@@ -581,6 +582,8 @@ class PyVM(object):
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
+            if bytecode_name == "BRKPT":
+                f.brkpt_extended_arg = extended_arg
 
             arg_offset = offset + 1
             arg = None
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 706c78e..ed958ec 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,6 +3,7 @@ This can be used in a debugger or profiler.
 """
 
 import logging
+from copy import copy
 from types import TracebackType
 
 from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
@@ -115,7 +116,8 @@ class PyVMTraced(PyVM):
         if frame.f_code.co_code[offset] == BREAKPOINT_OP:
             # There already is one.
             return
-        code = codeType2Portable(frame.f_code, self.version)
+        # Other frames use the same code: change a copy.
+        code = copy(codeType2Portable(frame.f_code, self.version))
         frame.brkpt[offset] = code.co_code[offset]
         bytecode = list(code.co_code)
         bytecode[offset] = BREAKPOINT_OP
-- 
2.43.0


From 384c0233b6c7f9db0a9941e25f3910ce4c44e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 31/72] fix: logging ran __hash__, __lt__ and __repr__ of
 values inside of others

---
 xpython/pyobj.py | 94 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index efbcd02..be471ba 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -3,7 +3,6 @@
 import collections
 import inspect
 import linecache
-import reprlib
 import types
 from copy import copy
 from sys import stderr
@@ -17,6 +16,7 @@ from xdis import (
     CO_VARKEYWORDS,
     iscode,
 )
+from xdis.codetype.base import CodeBase
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
@@ -76,34 +76,76 @@ except Exception:
     pass
 
 
-class SafeRepr(reprlib.Repr):
-    """repr() for showing values of the interpreted program without running
-    any of its code."""
+# Types whose values hold no other objects.
+ATOMIC_TYPES = frozenset(
+    (bool, bytearray, bytes, complex, float, int, range, str)
+    + (type(None), type(Ellipsis), type(NotImplemented))
+)
 
-    def __init__(self) -> None:
-        super().__init__()
-        self.maxlevel = 10
-        self.maxdict = self.maxlist = self.maxtuple = self.maxset = 100
-        self.maxfrozenset = self.maxdeque = self.maxarray = 100
-        self.maxlong = self.maxstring = self.maxother = 1000
+# Other types whose repr() does not use that of another object.
+ROUTINE_TYPES = (
+    types.BuiltinFunctionType,
+    types.ClassMethodDescriptorType,
+    types.CodeType,
+    types.FunctionType,
+    types.MethodDescriptorType,
+    types.MethodWrapperType,
+    types.WrapperDescriptorType,
+    CodeBase,
+)
 
-    def repr1(self, x, level):
-        cls = type(x)
-        if isinstance(x, (Method, Cell)):
-            return object.__repr__(x)
-        if isinstance(x, Function):
-            return repr(x)
-        for name in ("__repr__", "__str__", "__len__", "__iter__"):
-            # In Python 2, getattr() would make a Method of a Function.
-            attr = inspect.getattr_static(cls, name, None)
-            if isinstance(attr, Function):
-                return object.__repr__(x)
-        if isinstance(x, type) and type(x) is not type:
-            return f"<class {type.__getattribute__(x, '__name__')!r}>"
+BRACKETS = {
+    dict: ("{", "}"),
+    frozenset: ("frozenset({", "})"),
+    list: ("[", "]"),
+    set: ("{", "}"),
+    tuple: ("(", ")"),
+}
+
+
+def safe_repr(x, level=10, max_items=100, max_len=1000):
+    """repr() for showing values of the interpreted program without running
+    any of its code."""
+    cls = type(x)
+    if cls in ATOMIC_TYPES:
         try:
-            return super().repr1(x, level)
-        except Exception:
+            result = repr(x)
+        except ValueError:
+            # Too many digits
             return object.__repr__(x)
+        if len(result) > max_len:
+            result = result[: max_len // 2] + "..." + result[-max_len // 2 :]
+        return result
+    if cls in BRACKETS:
+        left, right = BRACKETS[cls]
+        if level <= 0:
+            return f"{left}...{right}"
+        items = []
+        for item in list(x.items() if cls is dict else x)[:max_items]:
+            if cls is dict:
+                key, value = item
+                items.append(
+                    f"{safe_repr(key, level - 1)}: {safe_repr(value, level - 1)}"
+                )
+            else:
+                items.append(safe_repr(item, level - 1))
+        if len(x) > max_items:
+            items.append("...")
+        elif cls is tuple and len(x) == 1:
+            items[0] += ","
+            return f"({items[0]})"
+        return left + ", ".join(items) + right
+    # isinstance() would look up __class__ of x.
+    if issubclass(cls, type):
+        return f"<class {type.__getattribute__(x, '__name__')!r}>"
+    if cls is Function or issubclass(cls, ROUTINE_TYPES):
+        return repr(x)
+    if issubclass(cls, BaseException):
+        args = BaseException.args.__get__(x)
+        return type.__getattribute__(cls, "__name__") + safe_repr(args, level)
+    if cls is types.ModuleType:
+        return f"<module {safe_repr(x.__dict__.get('__name__'))}>"
+    return object.__repr__(x)
 
 
 def name_of(obj):
@@ -966,5 +1008,3 @@ if __name__ == "__main__":
         print(getattr(foo.bar, attr), attr)
         assert getattr(foo.bar, attr) == getattr(myMfoo.im_func, attr), attr
 
-
-safe_repr = SafeRepr().repr
-- 
2.43.0


From d7254b7c8dd66036ae19901227ba692cf0bcfd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 32/72] fix: a breakpoint before MAKE_FUNCTION with
 EXTENDED_ARG made the next instruction start in the middle of one

---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 014967d..3a516db 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -570,7 +570,7 @@ class PyVM(object):
                 if not replay:
                     # The size is the one of the instruction which a
                     # breakpoint might have smashed.
-                    byte_code = f.brkpt.get(f.f_lasti, byte_code)
+                    byte_code = f.brkpt.get(f.f_lasti, byteint(co_code[f.f_lasti]))
                     f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
             else:
                 # Jump instructions must set this False.
-- 
2.43.0


From 471f854fd75299e7915c405c55357d574c508cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 33/72] fix: line numbers in bytecode before 3.6 when lines are
 more than 127 apart

---
 xpython/pyobj.py   | 26 +++++++++++++++++++++++++-
 xpython/vm.py      | 13 +++++++++++--
 xpython/vmtrace.py |  4 ++--
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index be471ba..dc87b24 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -148,6 +148,30 @@ def safe_repr(x, level=10, max_items=100, max_len=1000):
     return object.__repr__(x)
 
 
+def find_line_starts(code, version, dup_lines=False):
+    """findlinestarts() for code of the given version. That function takes
+    increments of the line number above 127 for negative ones, which there are
+    from 3.6 on only.
+    """
+    lnotab = code.co_lnotab if version < (3, 6) else None
+    if not isinstance(lnotab, (bytes, str)) or len(lnotab) == 0:
+        yield from findlinestarts(code, dup_lines)
+        return
+    if isinstance(lnotab, str):
+        lnotab = lnotab.encode("latin-1")
+    last_line = None
+    offset, line = 0, code.co_firstlineno
+    for offset_delta, line_delta in zip(lnotab[0::2], lnotab[1::2]):
+        if offset_delta:
+            if line != last_line or dup_lines and offset_delta < 255:
+                yield offset, line
+                last_line = line
+            offset += offset_delta
+        line += line_delta
+    if line != last_line or dup_lines:
+        yield offset, line
+
+
 def name_of(obj):
     """The name of a function, class or code object, and None for anything else:
     asking that could run code of the interpreted program.
@@ -735,7 +759,7 @@ class Frame(object):
         self.last_op = None
 
         # Keep a cache of line starts for this frame
-        self.line_starts = list(findlinestarts(self.f_code))
+        self.line_starts = list(find_line_starts(self.f_code, version))
 
         # Python 3.11 adds call_shape structure which
         # has only one item, kwnames.
diff --git a/xpython/vm.py b/xpython/vm.py
index 3a516db..125734f 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -24,7 +24,14 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, safe_repr, traceback_from_frame
+from xpython.pyobj import (
+    Block,
+    Frame,
+    Traceback,
+    find_line_starts,
+    safe_repr,
+    traceback_from_frame,
+)
 
 log = logging.getLogger(__name__)
 
@@ -417,7 +424,9 @@ class PyVM(object):
         )
 
         # THINK ABOUT: should this go into making the frame?
-        frame.linestarts = dict(self.opc.findlinestarts(code, dup_lines=True))
+        frame.linestarts = dict(
+            find_line_starts(code, self.version, dup_lines=True)
+        )
 
         log.debug("%r", frame)
         return frame
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index ed958ec..0b649a2 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -12,7 +12,7 @@ from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
 from xdis.opcodes.base import def_op
 from xdis.version_info import PYTHON_IMPLEMENTATION, PythonImplementation
 
-from xpython.pyobj import Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Frame, Traceback, find_line_starts, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
 
 log = logging.getLogger(__name__)
@@ -223,7 +223,7 @@ class PyVMTraced(PyVM):
                 return self.return_value
 
         self.frame.linestarts = dict(
-            self.opc.findlinestarts(frame.f_code, dup_lines=True)
+            find_line_starts(frame.f_code, self.version, dup_lines=True)
         )
 
         handled_exception = self.handled_exception
-- 
2.43.0


From 317fef3345878310aed43bdb273fb52b6139dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 34/72] fix: the line of a frame was wrong after a jump into
 the middle of a line

---
 xpython/pyobj.py | 11 ++++-------
 xpython/vm.py    |  4 ++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index dc87b24..92c8cd9 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -4,7 +4,9 @@ import collections
 import inspect
 import linecache
 import types
+from bisect import bisect_right
 from copy import copy
+from math import inf
 from sys import stderr
 
 from xdis import (
@@ -816,13 +818,8 @@ class Frame(object):
         """Get the current line number the frame is executing."""
         # We don't keep f_lineno up to date, so calculate it based on the
         # instruction address and the line number table.
-        last_line_number = 0
-        for offset, line_number in self.line_starts:
-            if offset > self.f_lasti:
-                break
-            last_line_number = line_number
-
-        return last_line_number
+        index = bisect_right(self.line_starts, (self.f_lasti, inf))
+        return self.line_starts[index - 1][1] if index else self.f_lineno
 
 
 class Traceback:
diff --git a/xpython/vm.py b/xpython/vm.py
index 125734f..8fe27f0 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -575,6 +575,7 @@ class PyVM(object):
         line_number = None
 
         while True:
+            jumped = not f.fallthrough
             if f.fallthrough:
                 if not replay:
                     # The size is the one of the instruction which a
@@ -588,6 +589,9 @@ class PyVM(object):
             if offset in f.linestarts:
                 # A line can start at an EXTENDED_ARG before the instruction.
                 f.f_lineno = line_number = f.linestarts[offset]
+            elif jumped:
+                # This may lead into the middle of a line.
+                f.f_lineno = f.line_number()
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From 6683671abc92637a93d55d41874288b0bf8cff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 35/72] fix: locals() in a class body of 3.12 showed a free
 variable that has the name of a comprehension's

---
 xpython/pyobj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 92c8cd9..455b175 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -786,7 +786,10 @@ class Frame(object):
             hidden = {}
             if self.version >= (3, 12) and not flags & CO_OPTIMIZED:
                 for name in self.f_code.co_varnames:
-                    cell = self.cells.get(name)
+                    # A free variable of the same name is another one.
+                    cell = None
+                    if name in self.f_code.co_cellvars:
+                        cell = self.cells.get(name)
                     if cell is not None and not cell.is_empty():
                         hidden[name] = cell.get()
                     elif cell is None and name in self.fast_locals:
-- 
2.43.0


From 8750039423aa626e4174ffbd0096b7d9fbc9f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 36/72] fix: closures in bytecode files before 3.11 where xdis
 swaps free and cell variables

---
 xpython/execfile.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index e2d8b60..10247b2 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -11,6 +11,7 @@ import warnings
 from typing import Optional
 
 from xdis import load_module
+from xdis.codetype.base import CodeBase
 from xdis.version_info import IS_PYPY, PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, PythonImplementation, version_tuple_to_str
 
 from xpython.stdlib.builtins import make_compatible_builtins
@@ -51,6 +52,32 @@ class NoSourceError(Exception):
     pass
 
 
+def restore_closure_variables(code) -> None:
+    """There are releases of xdis whose load_module() takes co_freevars of the
+    code in a file before 3.11 for co_cellvars, and the other way round. That has
+    happened if there is code with a free variable which is none of the
+    variables that the code around it can pass on.
+    """
+
+    def nested(code):
+        return [const for const in code.co_consts if isinstance(const, CodeBase)]
+
+    def is_swapped(code) -> bool:
+        passed_on = set(code.co_cellvars) | set(code.co_freevars)
+        return any(
+            not passed_on.issuperset(const.co_freevars) or is_swapped(const)
+            for const in nested(code)
+        )
+
+    def swap(code) -> None:
+        code.co_freevars, code.co_cellvars = code.co_cellvars, code.co_freevars
+        for const in nested(code):
+            swap(const)
+
+    if is_swapped(code):
+        swap(code)
+
+
 def source_is_older(source_path: str, bytecode_path: str) -> Optional[bool]:
     """
     Check that the modification time on `source_path` is before the modification
@@ -217,6 +244,7 @@ def run_python_file(
                         "We only support byte code for %s: %r is %s bytecode"
                         % (mess, filename, version_tuple_to_str(python_version))
                     )
+                restore_closure_variables(code)
                 main_mod.__file__ = code.co_filename
                 make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
 
-- 
2.43.0


From b712a4bf0fc9606b17b907442f365c0d632c3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 37/72] fix: the traceback of a re-raised exception, and of one
 thrown into a generator before it starts

A bare raise, the end of finally and RERAISE keep the traceback of the
exception: what other exceptions left in last_traceback meanwhile was
shown in place of it. And throw() into a generator that has not started
did not add the generator's frame.
---
 xpython/pyobj.py   | 6 ++++++
 xpython/vm.py      | 3 +++
 xpython/vmtrace.py | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 455b175..2218a29 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -975,6 +975,12 @@ class Generator(object):
             raise StopIteration
         if exc is not None and not self.started:
             self.finish()
+            # The exception occurs at the first line of the generator.
+            vm = self.vm
+            if exc.__context__ is None:
+                vm.set_exception_context(exc)
+            vm.last_traceback = Traceback(copy(frame))
+            vm.propagating = exc
             raise exc
 
         version = self.vm.version
diff --git a/xpython/vm.py b/xpython/vm.py
index 8fe27f0..e790852 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -921,6 +921,9 @@ class PyVM(object):
                     self.in_exception_processing = True
 
             elif why == "reraise":
+                # The traceback has had an entry for this frame since the
+                # exception was raised.
+                self.last_traceback = self.last_exception[2]
                 why = "exception"
 
             if why == "exception" and self.version >= (3, 11):
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 0b649a2..6d6eb83 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -306,6 +306,9 @@ class PyVMTraced(PyVM):
                     self.in_exception_processing = True
 
             elif why == "reraise":
+                # The traceback has had an entry for this frame since the
+                # exception was raised.
+                self.last_traceback = self.last_exception[2]
                 why = "exception"
 
             if why == "exception" and self.version >= (3, 11):
-- 
2.43.0


From 9215f1a84b80643cf0ee928d8c342f8362eb99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 38/72] fix: a generator was missing in the stack of calls
 while throw() went to the one it delegates to

---
 xpython/pyobj.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 2218a29..c7932a9 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -917,16 +917,15 @@ class Generator(object):
 
         delegate = self.gi_yieldfrom
         if delegate is not None:
-            self.gi_running = True
             try:
                 if isinstance(exc, GeneratorExit):
                     close = getattr(delegate, "close", None)
                     if close is not None:
-                        close()
+                        self.call_while_running(close)
                 else:
                     throw = getattr(delegate, "throw", None)
                     if throw is not None:
-                        return throw(exc)
+                        return self.call_while_running(throw, exc)
             except StopIteration as stop:
                 if self.vm.version >= (3, 11):
                     # CLEANUP_THROW is going to handle this
@@ -938,10 +937,22 @@ class Generator(object):
                     return self.resume(stop.value)
             except BaseException as delegate_exc:
                 exc = delegate_exc
-            finally:
-                self.gi_running = False
         return self.resume(None, exc)
 
+    def call_while_running(self, method, *args):
+        """Call a method of the iterator we delegate to, while we are on the
+        stack of calls."""
+        frame = self.gi_frame
+        frame.f_back = self.vm.frame
+        self.vm.push_frame(frame)
+        self.gi_running = True
+        try:
+            return method(*args)
+        finally:
+            self.gi_running = False
+            self.vm.pop_frame()
+            frame.f_back = None
+
     def close(self):
         """Have the generator finish where it is suspended."""
         self.check_not_running()
-- 
2.43.0


From 74b74dc4faf2780677cdd75705240bad34aa3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 39/72] fix: the report of an uncaught exception went to
 standard output in part

---
 xpython/pyobj.py | 6 ++++--
 xpython/vm.py    | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index c7932a9..ebe9123 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -3,11 +3,11 @@
 import collections
 import inspect
 import linecache
+import sys
 import types
 from bisect import bisect_right
 from copy import copy
 from math import inf
-from sys import stderr
 
 from xdis import (
     CO_GENERATOR,
@@ -833,8 +833,10 @@ class Traceback:
         self.tb_frame = frame
 
     # Note: this can be removed when we have our own compatibility traceback.
-    def print_tb(self, limit=None, file=stderr) -> None:
+    def print_tb(self, limit=None, file=None) -> None:
         """Like traceback.tb, but is a method."""
+        if file is None:
+            file = sys.stderr
         tb = self
         while tb:
             f = tb.tb_frame
diff --git a/xpython/vm.py b/xpython/vm.py
index e790852..4ae74c3 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -500,10 +500,13 @@ class PyVM(object):
             self.eval_frame(frame)
         except PyVMUncaughtException:
             if self.last_traceback is not None:
-                print("Traceback (most recent call last):")
+                print("Traceback (most recent call last):", file=sys.stderr)
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(f"{self.last_exception[0].__name__}: {self.last_exception[1]}")
+                print(
+                    f"{self.last_exception[0].__name__}: {self.last_exception[1]}",
+                    file=sys.stderr,
+                )
             return 1
 
         except BaseException as exc:
-- 
2.43.0


From 328faa437264af357a33f9bbbdbffaf3bfb2cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 40/72] fix: -m did not find modules of the current directory;
 the report of an exception that ends the VM

---
 xpython/execfile.py |  7 ++++++-
 xpython/vm.py       | 10 ++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 10247b2..9fcab61 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -160,6 +160,9 @@ def run_python_module(modulename, args):
     element naming the module being executed.
 
     """
+    # Modules of the current directory come first, as with "python -m".
+    old_path0 = sys.path[0]
+    sys.path[0] = ""
     try:
         # Search for the module - inside its parent package, if any - using
         # standard import mechanics.
@@ -173,6 +176,8 @@ def run_python_module(modulename, args):
             spec = find_spec(f"{modulename}.__main__")
     except (ImportError, ValueError) as err:
         raise NoSourceError(str(err))
+    finally:
+        sys.path[0] = old_path0
 
     if spec is None:
         raise NoSourceError(f"No module named {modulename!r}")
@@ -204,7 +209,7 @@ def run_python_file(
     main_mod = new_module("__main__")
     sys.modules["__main__"] = main_mod
     main_mod.__file__ = filename
-    if package:
+    if package is not None:
         main_mod.__package__ = package
     main_mod.__builtins__ = BUILTINS
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 4ae74c3..346cb3d 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -517,12 +517,10 @@ class PyVM(object):
             # In eval() or exec() the program can still handle the exception.
             if toplevel and isinstance(exc, Exception) and self.last_traceback:
                 self.last_traceback.print_tb()
-                print(f"{self.last_exception[0].__name__}", end="")
-                le1 = self.last_exception[1]
-                tail = ""
-                if le1:
-                    tail = "\n".join(str(arg) for arg in le1.args)
-                print(tail)
+                print(
+                    f"{self.last_exception[0].__name__}: {self.last_exception[1]}",
+                    file=sys.stderr,
+                )
             raise
 
         # Frame ran to normal completion... check some invariants
-- 
2.43.0


From 4a5e75e9b1aadb22f2a6d80c2b9d94b9b0abd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 41/72] fix: big integers in bytecode files of Python 3 were
 shown like those of Python 2; -c did not find modules of the current
 directory

---
 xpython/execfile.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 9fcab61..723553b 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -12,6 +12,7 @@ from typing import Optional
 
 from xdis import load_module
 from xdis.codetype.base import CodeBase
+from xdis.cross_types import LongTypeForPython3
 from xdis.version_info import IS_PYPY, PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, PythonImplementation, version_tuple_to_str
 
 from xpython.stdlib.builtins import make_compatible_builtins
@@ -78,6 +79,25 @@ def restore_closure_variables(code) -> None:
         swap(code)
 
 
+def restore_integers(code) -> None:
+    """xdis gives big integers in a bytecode file the type which shows them
+    like Python 2's "long"; Python 3 does not have that.
+    """
+
+    def restore(const):
+        if isinstance(const, LongTypeForPython3):
+            return int(const)
+        if isinstance(const, tuple):
+            return tuple(restore(item) for item in const)
+        if isinstance(const, frozenset):
+            return frozenset(restore(item) for item in const)
+        if isinstance(const, CodeBase):
+            restore_integers(const)
+        return const
+
+    code.co_consts = tuple(restore(const) for const in code.co_consts)
+
+
 def source_is_older(source_path: str, bytecode_path: str) -> Optional[bool]:
     """
     Check that the modification time on `source_path` is before the modification
@@ -250,6 +270,8 @@ def run_python_file(
                         % (mess, filename, version_tuple_to_str(python_version))
                     )
                 restore_closure_variables(code)
+                if isinstance(code, CodeBase) and python_version >= (3, 0):
+                    restore_integers(code)
                 main_mod.__file__ = code.co_filename
                 make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
 
@@ -320,7 +342,7 @@ def run_python_string(
     main_mod = new_module("__main__")
     sys.modules["__main__"] = main_mod
     fake_path = main_mod.__file__ = f"<string {source[:20]}>"
-    if package:
+    if package is not None:
         main_mod.__package__ = package
     main_mod.__builtins__ = BUILTINS
 
@@ -328,6 +350,8 @@ def run_python_string(
     old_argv = sys.argv
     old_path0 = sys.path[0]
     sys.argv = [fake_path] + list(args)
+    # Modules of the current directory come first, as with "python -c".
+    sys.path[0] = ""
 
     try:
         supported_versions, mess = get_supported_versions(IS_PYPY, is_bytecode=False)
-- 
2.43.0


From 372d445794ff26139089acf6b094451b2c7623f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 42/72] fix: close() of a generator does not put it on the
 stack of calls while it closes the one it delegates to

---
 xpython/pyobj.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index ebe9123..2598ba4 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -923,11 +923,15 @@ class Generator(object):
                 if isinstance(exc, GeneratorExit):
                     close = getattr(delegate, "close", None)
                     if close is not None:
-                        self.call_while_running(close)
+                        self.gi_running = True
+                        try:
+                            close()
+                        finally:
+                            self.gi_running = False
                 else:
                     throw = getattr(delegate, "throw", None)
                     if throw is not None:
-                        return self.call_while_running(throw, exc)
+                        return self.call_from_frame(throw, exc)
             except StopIteration as stop:
                 if self.vm.version >= (3, 11):
                     # CLEANUP_THROW is going to handle this
@@ -941,7 +945,7 @@ class Generator(object):
                 exc = delegate_exc
         return self.resume(None, exc)
 
-    def call_while_running(self, method, *args):
+    def call_from_frame(self, method, *args):
         """Call a method of the iterator we delegate to, while we are on the
         stack of calls."""
         frame = self.gi_frame
-- 
2.43.0


From 7a11ff6203aba2bdc2536d161dc19667365e2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 43/72] fix: in 3.11, throw() and close() of a generator when
 what it delegates to finishes, or has been left by a handled exception

---
 xpython/pyobj.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 2598ba4..21f439e 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -863,6 +863,16 @@ def traceback_from_frame(frame):
     return tb
 
 
+class FinishedIterator:
+    """What a "yield from" delegates to once that has returned a value."""
+
+    def __init__(self, value):
+        self.value = value
+
+    def __next__(self):
+        raise StopIteration(self.value)
+
+
 class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
@@ -933,9 +943,14 @@ class Generator(object):
                     if throw is not None:
                         return self.call_from_frame(throw, exc)
             except StopIteration as stop:
-                if self.vm.version >= (3, 11):
+                if self.vm.version >= (3, 12):
                     # CLEANUP_THROW is going to handle this
                     exc = stop
+                elif self.vm.version >= (3, 11):
+                    # SEND comes next and finds that the delegate has finished.
+                    self.gi_frame.yielding_from = False
+                    self.gi_frame.stack[-1] = FinishedIterator(stop.value)
+                    return self.resume(None)
                 else:
                     # The delegate has finished, so "yield from" has too.
                     self.gi_frame.yielding_from = False
@@ -1003,7 +1018,7 @@ class Generator(object):
         version = self.vm.version
         if exc is not None:
             frame.pending_exception = exc
-            frame.yielding_from = frame.yielding_from and version >= (3, 11)
+            frame.yielding_from = frame.yielding_from and version >= (3, 12)
         if version >= (2, 5) and (self.started or (3, 10) <= version < (3, 11)):
             frame.stack.append(value)
 
-- 
2.43.0


From d97a5348f7e7668afd061928926be9d9359d166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 44/72] fix: assert statements of PyPy 3.5 were always skipped

---
 xpython/byteop/byteoppypy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteoppypy.py b/xpython/byteop/byteoppypy.py
index 634d2c4..08ef2bf 100644
--- a/xpython/byteop/byteoppypy.py
+++ b/xpython/byteop/byteoppypy.py
@@ -14,10 +14,9 @@ class ByteOpPyPy(object):
         self.ROT_TWO()
 
     def JUMP_IF_NOT_DEBUG(self, jump_offset) -> None:
-        """
-        For now, same as JUMP_ABSOLUTE.
-        """
-        self.vm.jump(jump_offset)
+        """Skips an assert statement when not debugging, i.e. when running with -O."""
+        if not __debug__:
+            self.vm.jump(jump_offset)
 
     # For Python 3.7+ this is not correct
     def LOOKUP_METHOD(self, name) -> None:
-- 
2.43.0


From 764f60bdbe018c0ab86543764490e088265a91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 45/72] fix: attributes of functions could not be replaced or
 deleted as in Python

---
 xpython/pyobj.py | 157 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 132 insertions(+), 25 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 21f439e..4c3fbf1 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -306,22 +306,23 @@ class Function:
     as appropriate.
     """
 
+    # Most attributes of a function have two names, one for Python 2.x and one
+    # for Python 3.x; the properties below are for these.
     __slots__ = [
-        "func_code",  # Python 2.x
-        "func_name",
-        "func_defaults",
-        "func_closure",
-        "__code__",  # Python 3.x
-        "__name__",
-        "__defaults__",
-        "__kwdefaults__",
-        "__closure__",
+        "_annotations",
+        "_closure",
+        "_code",
+        "_defaults",
+        "_kwdefaults",
+        "_name",
         # rest
         "func_globals",
         "func_locals",
-        "func_dict",
         "__dict__",
+        "__qualname__",
         # "__doc__" is filled in by the doc comment above.
+        "has_dot_zero",
+        "version",
         "_vm",
         "_func",
     ]
@@ -371,14 +372,13 @@ class Function:
         # We create attributes for both names. Other code in this file assumes
         # 2.7ish names, while bytecode for 3.x will use 3.x names.
         # TODO: be more stringent based on vm version.
-        self.func_code = self.__code__ = code
-        self.func_name = self.__name__ = name or code.co_name
-        self.func_defaults = self.__defaults__ = tuple(argdefs) if argdefs else tuple()
-        self.func_closure = self.__closure__ = closure or None
+        self._code = code
+        self._name = name or code.co_name
+        self._defaults = tuple(argdefs) if argdefs else None
+        self._closure = closure or None
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
-        self.__dict__ = {"version": vm.version, "_vm": vm}
         self.__module__ = globs.get("__name__")
 
         # The docstring, if there is one, is the first constant.
@@ -386,8 +386,8 @@ class Function:
         self.__doc__ = first_const if isinstance(first_const, str) else None
 
         if vm.version >= (3, 0):
-            self.__annotations__ = annotations
-            self.__kwdefaults__ = kwdefaults
+            self._annotations = annotations
+            self._kwdefaults = kwdefaults or None
             if vm.version >= (3, 3):
                 self.__qualname__ = qualname if qualname else self.__name__
             else:
@@ -425,10 +425,7 @@ class Function:
         # The intent in providing native functions is for use in type
         # testing, mostly. The functions should not be run, since that defeats our
         # ability to trace functions.
-        if hasattr(self, "func_defaults"):
-            kw = {"argdefs": self.func_defaults}
-        else:
-            kw = {}
+        kw = {"argdefs": self.func_defaults}
 
         if closure:
             kw["closure"] = tuple(make_cell(0) for _ in closure)
@@ -462,11 +459,12 @@ class Function:
             return str(self._func)
         return f"<Function at 0x{id(self):08x}>"
 
-    def __get__(self, instance, owner):
+    def __get__(self, instance, owner=None):
         if instance is not None:
-            return Method(instance, owner, self)
-        version = self.version if hasattr(self, "version") else PYTHON_VERSION_TRIPLE
-        if version < (3, 0):
+            return Method(instance, type(instance) if owner is None else owner, self)
+        if owner is None:
+            raise TypeError("__get__(None, None) is invalid")
+        if self.version < (3, 0):
             return Method(None, owner, self)
         else:
             return self
@@ -485,6 +483,115 @@ class Function:
     def __globals__(self):
         return self.func_globals
 
+    @property
+    def __closure__(self):
+        return self._closure
+
+    func_closure = __closure__
+
+    @property
+    def __code__(self):
+        return self._code
+
+    @__code__.setter
+    def __code__(self, code):
+        if not iscode(code):
+            raise TypeError("__code__ must be set to a code object")
+        if len(code.co_freevars) != len(self._code.co_freevars):
+            raise ValueError(
+                f"{self._name}() requires a code object with "
+                f"{len(self._code.co_freevars)} free vars, not {len(code.co_freevars)}"
+            )
+        self._code = code
+
+    @__code__.deleter
+    def __code__(self):
+        raise TypeError("__code__ must be set to a code object")
+
+    func_code = __code__
+
+    @property
+    def __defaults__(self):
+        return self._defaults
+
+    @__defaults__.setter
+    def __defaults__(self, defaults):
+        if defaults is not None and not isinstance(defaults, tuple):
+            raise TypeError("__defaults__ must be set to a tuple object")
+        self._defaults = defaults
+
+    @__defaults__.deleter
+    def __defaults__(self):
+        self._defaults = None
+
+    func_defaults = __defaults__
+
+    @property
+    def __kwdefaults__(self):
+        if self.version < (3, 0):
+            raise AttributeError("'function' object has no attribute '__kwdefaults__'")
+        return self._kwdefaults
+
+    @__kwdefaults__.setter
+    def __kwdefaults__(self, kwdefaults):
+        if kwdefaults is not None and not isinstance(kwdefaults, dict):
+            raise TypeError("__kwdefaults__ must be set to a dict object")
+        self._kwdefaults = kwdefaults
+
+    @__kwdefaults__.deleter
+    def __kwdefaults__(self):
+        self._kwdefaults = None
+
+    @property
+    def __annotations__(self):
+        if self.version < (3, 0):
+            raise AttributeError("'function' object has no attribute '__annotations__'")
+        return self._annotations
+
+    @__annotations__.setter
+    def __annotations__(self, annotations):
+        if annotations is not None and not isinstance(annotations, dict):
+            raise TypeError("__annotations__ must be set to a dict object")
+        self._annotations = {} if annotations is None else annotations
+
+    @__annotations__.deleter
+    def __annotations__(self):
+        self._annotations = {}
+
+    @property
+    def __name__(self):
+        return self._name
+
+    @__name__.setter
+    def __name__(self, name):
+        if not isinstance(name, str):
+            raise TypeError("__name__ must be set to a string object")
+        self._name = name
+
+    @__name__.deleter
+    def __name__(self):
+        raise TypeError("__name__ must be set to a string object")
+
+    func_name = __name__
+
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
+    @property
+    def func_dict(self):
+        return self.__dict__
+
+    @property
+    def func_doc(self):
+        return self.__doc__
+
+    @func_doc.setter
+    def func_doc(self, doc):
+        self.__doc__ = doc
+
     def __call__(self, /, *args, **kwargs):
         callargs = bind_arguments(self, args, kwargs)
 
-- 
2.43.0


From 846a3660989c03e9e1de9de55821f0c67b8395c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 46/72] fix: methods accepted attributes, and could not be
 copied

---
 xpython/pyobj.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 4c3fbf1..6d986f1 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -6,7 +6,7 @@ import linecache
 import sys
 import types
 from bisect import bisect_right
-from copy import copy
+from copy import copy, deepcopy
 from math import inf
 
 from xdis import (
@@ -621,17 +621,16 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = func.__doc__
-        self.im_self = obj
-        self.im_class = _class
-        self.im_func = func
-
-        if hasattr(func, "func_code"):
-            self.func_code = func.func_code
-        if hasattr(func, "__name__"):
-            self.__name__ = func.__name__
-        if hasattr(func, "__code__"):
-            self.__code__ = func.__code__
+        # These are all the attributes there are: see __setattr__().
+        attributes = self.__dict__
+        attributes["__doc__"] = func.__doc__
+        attributes["im_self"] = obj
+        attributes["im_class"] = _class
+        attributes["im_func"] = func
+
+        for name in ("func_code", "__name__", "__code__", "__module__"):
+            if hasattr(func, name):
+                attributes[name] = getattr(func, name)
 
         # This causes failure
         # self.__name__ = obj.__name__
@@ -650,6 +649,18 @@ class Method(object):
             raise AttributeError(name)
         return getattr(self.im_func, name)
 
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        return Method(deepcopy(self.im_self, memo), self.im_class, self.im_func)
+
+    def __setattr__(self, name, value):
+        raise AttributeError(f"'method' object has no attribute {name!r}")
+
+    def __delattr__(self, name):
+        raise AttributeError(f"'method' object has no attribute {name!r}")
+
     def __eq__(self, other):
         if not isinstance(other, Method):
             return NotImplemented
-- 
2.43.0


From 005f0691caacc3ab759dde6511526fdb1129ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 47/72] fix: throw() to a native delegate showed the generator
 in the stack of calls

---
 xpython/pyobj.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 6d986f1..3efe6c5 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -1059,7 +1059,13 @@ class Generator(object):
                 else:
                     throw = getattr(delegate, "throw", None)
                     if throw is not None:
-                        return self.call_from_frame(throw, exc)
+                        if isinstance(delegate, Generator):
+                            return self.call_from_frame(throw, exc)
+                        self.gi_running = True
+                        try:
+                            return throw(exc)
+                        finally:
+                            self.gi_running = False
             except StopIteration as stop:
                 if self.vm.version >= (3, 12):
                     # CLEANUP_THROW is going to handle this
-- 
2.43.0


From cac8c3badb0bc09b0eb663aa9ef932dd05914286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 48/72] fix: cells of closures did not compare by contents

---
 xpython/pyobj.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3efe6c5..ac9ebda 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -749,6 +749,19 @@ class Cell:
     def cell_contents(self) -> None:
         self.contents = Cell.EMPTY
 
+    # Cells are compared by what they hold.
+    def __eq__(self, other):
+        if not isinstance(other, Cell):
+            return NotImplemented
+        return self.native == other.native
+
+    def __lt__(self, other):
+        if not isinstance(other, Cell):
+            return NotImplemented
+        return self.native < other.native
+
+    __hash__ = None
+
 
 class Block(object):
     """
-- 
2.43.0


From 60dc93a50e8c0df4c6c59b01b32f854976f3ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 49/72] fix: a generator of a renamed function had the old name

---
 xpython/pyobj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index ac9ebda..9777232 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -1013,7 +1013,9 @@ class Generator(object):
         self.finished = False
         self.gi_running = False
         self.gi_code = g_frame.f_code
-        self.__name__ = g_frame.f_code.co_name
+        # Before 3.5 the name was that of the code, also if the function's name
+        # had been changed.
+        self.__name__ = name if g_frame.version >= (3, 5) else self.gi_code.co_name
         self.__qualname__ = qualname if g_frame.version >= (3, 4) else None
 
     def __iter__(self):
-- 
2.43.0


From c49632707bcd09bb9c82e3447ab675a29e62d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 50/72] fix: arguments of a program that look like options were
 taken by xpython

---
 xpython/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/__main__.py b/xpython/__main__.py
index 21bcb61..0426ef8 100644
--- a/xpython/__main__.py
+++ b/xpython/__main__.py
@@ -17,7 +17,8 @@ def version_message() -> str:
     return mess
 
 
-@click.command()
+# What follows PATH are the arguments of the program, also if they look like our options.
+@click.command(context_settings={"allow_interspersed_args": False})
 @click.version_option(version_message(), "-V", "--version")
 @click.option(
     "-m",
-- 
2.43.0


From 83ceb8b2c96f678490dbbbb062ec08a17aa13692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 51/72] fix: Python 2 built-in functions apply(), coerce() and
 execfile() did not work

apply() without keywords and execfile() always failed, coerce() did not
convert, and execfile() did not use the namespaces of its caller. With a
callback, programs did not get the built-ins of older releases at all.
---
 xpython/byteop/byteop.py   |  3 +++
 xpython/execfile.py        |  4 ++--
 xpython/stdlib/builtins.py | 20 ++++++++++++++------
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 2b937a5..8f972ba 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -15,6 +15,7 @@ from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
 from xpython.pyobj import Function, Method, SysModule, name_of
+from xpython.stdlib.builtins import execfile
 from xpython.vm import PyVM
 
 
@@ -349,6 +350,8 @@ class ByteOpBase(object):
                     pos_args[2] = dict(
                         namespace, __module__=frame.f_globals["__name__"]
                     )
+        elif func is execfile and 1 <= len(pos_args) <= 3:
+            self.fill_namespaces(pos_args)
 
         if (
             inspect.isfunction(func)
diff --git a/xpython/execfile.py b/xpython/execfile.py
index 723553b..84eb906 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -118,6 +118,8 @@ def exec_code_object(
     format_instruction=format_instruction,
 ) -> int:
     rc = 0
+    if python_version != PYTHON_VERSION_TRIPLE[:2]:
+        make_compatible_builtins(BUILTINS.__dict__, python_version)
     if callback:
         vm = PyVMTraced(
             callback,
@@ -135,8 +137,6 @@ def exec_code_object(
             )
             callback("fatal", 0, "fatalOpcode", 0, -1, None, event_arg, vm)
     else:
-        if python_version != PYTHON_VERSION_TRIPLE[:2]:
-            make_compatible_builtins(BUILTINS.__dict__, python_version)
         vm = PyVM(python_version, python_implementation, format_instruction_func=format_instruction)
         try:
             rc = vm.run_code(code, f_globals=env)
diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 64e9dc1..fa2f5d3 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -57,7 +57,7 @@ def apply(f: Callable, args=None, kwargs=None) -> Any:
     """
     Python 1-2.x apply for Python 3.x
     """
-    return f(*args, **kwargs)
+    return f(*(() if args is None else args), **({} if kwargs is None else kwargs))
 
 
 def breakpoint(*args, **kwargs) -> None:
@@ -85,16 +85,24 @@ def coerce(x, y) -> tuple:
         raise TypeError("number coercion failed")
     if not isinstance(y, numeric_types):
         raise TypeError("number coercion failed")
-        raise TypeError
-    # Leave unchanged and other operations do the coercion
-    return x, y
+    if type(x) is type(y):
+        return x, y
+    for common_type in (complex, float):
+        if isinstance(x, common_type) or isinstance(y, common_type):
+            return common_type(x), common_type(y)
+    return int(x), int(y)
 
 
-def execfile(path: str) -> None:
+def execfile(path: str, f_globals: dict, f_locals=None) -> None:
     """
     Python 1-2.x execfile for Python 3.x
+
+    The interpreter fills in `f_globals` and `f_locals` of the caller when
+    these are not given.
     """
-    exec(compile(open(path).read()))
+    with open(path, "rb") as source:
+        code = compile(source.read(), path, "exec", dont_inherit=True)
+    exec(code, f_globals, f_globals if f_locals is None else f_locals)
 
 
 class OverflowWarning(RuntimeError):
-- 
2.43.0


From 22238cabc7dd01ae0a2dc1a4c768ac57ad873917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 52/72] fix: exec of a tuple in Python 2 bytecode failed

---
 xpython/byteop/byteop24.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 191a94e..092c20d 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -353,6 +353,16 @@ class ByteOp24(ByteOpBase):
         """
         stmt, globs, locs = self.vm.popn(3)
 
+        # "exec(code, globals, locals)" is the same as
+        # "exec code in globals, locals".
+        if (
+            globs is None
+            and locs is None
+            and isinstance(stmt, tuple)
+            and len(stmt) in (2, 3)
+        ):
+            stmt, globs, locs = (stmt + (None,))[:3]
+
         # if `locals` or `globals` is None, use the frame equivalent.
         if globs is None:
             globs = self.vm.frame.f_globals
-- 
2.43.0


From a3676ea2955801fb9178afdf0c9b106045b997f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 53/72] fix: __metaclass__ was ignored in Python 2 bytecode

Also, when creating a class raised TypeError, it was tried again.
---
 xpython/byteop/byteop24.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 092c20d..544dc0d 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -413,16 +413,15 @@ class ByteOp24(ByteOpBase):
         tuple of the names of the base classes, and TOS2 the class name.
         """
         name, bases, methods = self.vm.popn(3)
-        # Note: type() wants to only create new-style classes, while
-        # bases might include only old-style classes. This will
-        # trigger this error: TypeError: a new-style class can't have
-        # only classic bases So what we'll do is throw in "object" so
-        # there is at least one new-style class.
-        try:
-            klass = type(name, bases, methods)
-        except TypeError:
-            klass = type(name, tuple([object] + list(bases)), methods)
-        self.vm.push(klass)
+        # Note: there are no old-style classes here. A class without bases is
+        # a new-style one.
+        if "__metaclass__" in methods:
+            metaclass = methods["__metaclass__"]
+        elif bases:
+            metaclass = getattr(bases[0], "__class__", type(bases[0]))
+        else:
+            metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
+        self.vm.push(metaclass(name, bases, methods))
 
     def STORE_NAME(self, name):
         """Implements name = TOS. namei is the index of name in the attribute
-- 
2.43.0


From 27681fe45648465c675dfe848e00a01a7e2ef465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 54/72] fix: import * bound what a module's __dir__() lists,
 not its names

---
 xpython/byteop/byteop24.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 544dc0d..4cc9b4c 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -339,12 +339,33 @@ class ByteOp24(ByteOpBase):
         names. This opcode implements from module import *.
         """
         mod = self.vm.pop()
+        f_locals = self.vm.frame.f_locals
         if hasattr(mod, "__all__"):
-            names = mod.__all__
-        else:
-            names = [name for name in dir(mod) if name[0] != "_"]
-        for name in names:
-            self.vm.frame.f_locals[name] = getattr(mod, name)
+            for name in mod.__all__:
+                if not isinstance(name, str):
+                    raise TypeError(
+                        f"Item in {mod.__name__}.__all__ must be str, "
+                        f"not {type(name).__name__}"
+                    )
+                f_locals[name] = getattr(mod, name)
+            return
+
+        # What dir() gives need not be what is in the module: there can be a
+        # __dir__() function or, if this is not a module, a class.
+        try:
+            namespace = mod.__dict__
+        except AttributeError:
+            raise ImportError(
+                "from-import-* object has no __dict__ and no __all__"
+            ) from None
+        for name in list(namespace.keys()):
+            if not isinstance(name, str):
+                raise TypeError(
+                    f"Key in {mod.__name__}.__dict__ must be str, "
+                    f"not {type(name).__name__}"
+                )
+            if not name.startswith("_"):
+                f_locals[name] = getattr(mod, name)
 
     def EXEC_STMT(self):
         """
-- 
2.43.0


From e82dbf4a0d9810ea5166c14ef728ff2d17e61eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 55/72] fix: threads of an interpreted program mixed up their
 frames

A machine has one stack of frames and one state of exception handling,
and functions that run in a thread used those of the main program.
---
 xpython/builtins.py        |  5 ++-
 xpython/byteop/byteop.py   |  2 +-
 xpython/byteop/byteop24.py |  2 +-
 xpython/pyobj.py           | 15 +++++---
 xpython/vm.py              | 76 ++++++++++++++++++++++++++------------
 5 files changed, 67 insertions(+), 33 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index a6a6fbe..5c4e70a 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -91,7 +91,8 @@ def build_class(opc, func, name, *bases, **kwds):
     if class_body_code.co_argcount:
         # Before 3.4, the namespace is an argument of the function.
         callargs[class_body_code.co_varnames[0]] = namespace
-    frame = func._vm.make_frame(
+    vm = func._vm.for_this_thread()
+    frame = vm.make_frame(
         code=class_body_code,
         callargs=callargs,
         f_globals=func.func_globals,
@@ -100,7 +101,7 @@ def build_class(opc, func, name, *bases, **kwds):
     )
 
     # rocky: cell is the return value of a function where?
-    cell = func._vm.eval_frame(frame)
+    cell = vm.eval_frame(frame)
 
     if bases is not orig_bases:
         namespace["__orig_bases__"] = orig_bases
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 8f972ba..d4188a2 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -642,7 +642,7 @@ class ByteOpBase(object):
 
     def get_frame(self, depth=0, /):
         """sys._getframe() of the interpreted program"""
-        frames = self.vm.frames
+        frames = self.vm.for_this_thread().frames
         if depth >= len(frames):
             raise ValueError("call stack is not deep enough")
         return frames[-1 - max(depth, 0)]
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 4cc9b4c..c78e6da 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -144,7 +144,7 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        return self.vm.handled_exception
+        return self.vm.for_this_thread().handled_exception
 
     def fmt_unary_op(vm: PyVM, _=None):
         """
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9777232..e938cad 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -595,13 +595,14 @@ class Function:
     def __call__(self, /, *args, **kwargs):
         callargs = bind_arguments(self, args, kwargs)
 
-        frame = self._vm.make_frame(
+        vm = self._vm.for_this_thread()
+        frame = vm.make_frame(
             self.func_code, callargs, self.func_globals, {}, self.__closure__
         )
         if self.__code__.co_flags & CO_GENERATOR:
-            qualname = self.__qualname__ if self._vm.version >= (3, 3) else None
+            qualname = self.__qualname__ if vm.version >= (3, 3) else None
             gen = Generator(
-                g_frame=frame, name=self.__name__, qualname=qualname, vm=self._vm
+                g_frame=frame, name=self.__name__, qualname=qualname, vm=vm
             )
             if self.__code__.co_flags & CO_ITERABLE_COROUTINE:
                 gen = _AsyncGeneratorWrapper(gen)
@@ -611,7 +612,7 @@ class Function:
             frame.generator = gen
             retval = gen
         else:
-            retval = self._vm.eval_frame(frame)
+            retval = vm.eval_frame(frame)
         return retval
 
 
@@ -1007,7 +1008,7 @@ class FinishedIterator:
 class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
-        self.vm = vm
+        self._vm = vm
         self.name = name
         self.started = False
         self.finished = False
@@ -1021,6 +1022,10 @@ class Generator(object):
     def __iter__(self):
         return self
 
+    @property
+    def vm(self):
+        return self._vm.for_this_thread()
+
     @property
     def gi_yieldfrom(self):
         """The iterator a suspended "yield from" delegates to, or None."""
diff --git a/xpython/vm.py b/xpython/vm.py
index 346cb3d..9394882 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,6 +6,8 @@ import linecache
 import logging
 import os
 import sys
+import threading
+from copy import copy
 from types import TracebackType
 from typing import Any, List
 
@@ -158,14 +160,7 @@ class PyVM(object):
         vmtest_testing=False,
         format_instruction_func=format_instruction,
     ):
-        # The call stack of frames.
-        self.frames: List[Frame] = []
-        # The current frame.
-        self.frame = None
-        self.return_value = None
-        self.last_exception = None
-        self.last_traceback_limit = None
-        self.last_traceback = None
+        self.reset_state()
         self.version = python_version
         self.is_pypy = python_implementation is PythonImplementation.PyPy
         self.format_instruction = format_instruction_func
@@ -176,25 +171,11 @@ class PyVM(object):
         # This changes how we report a VMRuntime error.
         self.vmtest_testing = vmtest_testing
 
-        # Like sys.exc_info() tuple, for the exception most recently raised.
-        self.last_exception = None
-
-        # Like sys.exc_info() tuple, for the exception that is being handled,
-        # i.e. whose "except" or "finally" clause is running. It is what
-        # sys.exc_info() shows and what a bare "raise" raises.
-        self.handled_exception = (None, None, None)
-
-        # The exception value, if any, with which the last frame was left.
-        # It keeps its traceback in the frames it passes through.
-        self.propagating = None
-
         # Sometimes we need a native function (e.g. for method lookup), but
         # most of the time we want a VM function defined in pyobj.
         # This maps between the two.
         self.fn2native = {}
 
-        self.in_exception_processing = False
-
         # This is somewhat hokey:
         # Give byteop routines a way to raise an error, without having
         # to import this file. We import from from byteops.
@@ -205,6 +186,50 @@ class PyVM(object):
         self.opc = get_opcode_module(python_version, python_implementation)
         self.byteop = get_byteop(self, python_version, python_implementation)
 
+        # Threads of the program have a machine of their own; this holds the
+        # one for the running thread.
+        self.of_thread = threading.local()
+        self.of_thread.vm = self
+        self.is_for_thread = False
+
+    def reset_state(self):
+        """Set what changes as a program runs to what it is before that."""
+        # The call stack of frames.
+        self.frames: List[Frame] = []
+        # The current frame.
+        self.frame = None
+        self.return_value = None
+        self.last_traceback_limit = None
+        self.last_traceback = None
+
+        # Like sys.exc_info() tuple, for the exception most recently raised.
+        self.last_exception = None
+
+        # Like sys.exc_info() tuple, for the exception that is being handled,
+        # i.e. whose "except" or "finally" clause is running. It is what
+        # sys.exc_info() shows and what a bare "raise" raises.
+        self.handled_exception = (None, None, None)
+
+        # The exception value, if any, with which the last frame was left.
+        # It keeps its traceback in the frames it passes through.
+        self.propagating = None
+
+        self.in_exception_processing = False
+
+    def for_this_thread(self):
+        """The machine to use in the running thread. That is another one in a
+        thread the program has started: a machine has just one stack of frames.
+        """
+        vm = getattr(self.of_thread, "vm", None)
+        if vm is None:
+            self.byteop.setup_sys_module()
+            vm = self.of_thread.vm = copy(self)
+            vm.reset_state()
+            vm.is_for_thread = True
+            vm.byteop = copy(self.byteop)
+            vm.byteop.vm = vm
+        return vm
+
     def exception_handling_311(self, offset):
         """In Python 3.11 exception handling blocks are handled off
         of a code co_exceptiontable.
@@ -432,6 +457,8 @@ class PyVM(object):
         return frame
 
     def push_frame(self, frame):
+        if not self.frames:
+            self.of_thread.vm = self
         self.frames.append(frame)
         self.frame = frame
 
@@ -959,12 +986,13 @@ class PyVM(object):
     def raise_last_exception(self):
         """Leave eval_frame() because of the exception in `last_exception`:
         raise it in the frame that called us or, if there is none, report it
-        as uncaught."""
+        as uncaught. A thread does the latter itself."""
         last_exception = self.last_exception
         if not (last_exception and last_exception[0]):
             raise PyVMError("Borked exception recording")
         exc_type, exc_value = last_exception[:2]
-        if not self.frame and issubclass(exc_type, Exception):
+        is_uncaught = not self.frame and not self.is_for_thread
+        if is_uncaught and issubclass(exc_type, Exception):
             raise PyVMUncaughtException.from_tuple(last_exception)
         if not isinstance(exc_value, BaseException):
             exc_value = exc_type(exc_value)
-- 
2.43.0


From a1a3f0ce737d0141901ba877d54830a184699d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 56/72] fix: generators that are no longer used were not
 closed, and finalizers broke unwinding

The finally clauses and with blocks of an abandoned generator never ran.
A __del__ method that handles an exception, run while blocks or frames
are left, replaced the exception or the value they are left with.
---
 xpython/pyobj.py   | 20 +++++++++++++++-----
 xpython/vm.py      | 35 +++++++++++++++++++++++++++++++++++
 xpython/vmtrace.py |  6 ++++++
 3 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index e938cad..e6b15e7 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -605,14 +605,14 @@ class Function:
                 g_frame=frame, name=self.__name__, qualname=qualname, vm=vm
             )
             if self.__code__.co_flags & CO_ITERABLE_COROUTINE:
-                gen = _AsyncGeneratorWrapper(gen)
-                frame.generator = gen
-                return gen
+                return _AsyncGeneratorWrapper(gen)
 
-            frame.generator = gen
             retval = gen
         else:
+            # This can be a finalizer, which runs at any time, so leave no traces.
+            transient_state = vm.transient_state
             retval = vm.eval_frame(frame)
+            vm.transient_state = transient_state
         return retval
 
 
@@ -872,7 +872,6 @@ class Frame(object):
             self.cells.update(zip(f_code.co_freevars, closure))
 
         self.block_stack = []
-        self.generator = None
 
         # When a generator is left by a "yield", this is True.
         self.yielded = False
@@ -1132,6 +1131,17 @@ class Generator(object):
             return
         raise RuntimeError("generator ignored GeneratorExit")
 
+    def __del__(self):
+        # What is pending in "finally" clauses and "with" statements gets done,
+        # since release 2.5.
+        if self.started and not self.finished and self.gi_frame.version >= (2, 5):
+            vm = self.vm
+            transient_state = vm.transient_state
+            try:
+                self.close()
+            finally:
+                vm.transient_state = transient_state
+
     def check_not_running(self):
         if self.gi_running:
             raise ValueError("generator already executing")
diff --git a/xpython/vm.py b/xpython/vm.py
index 9394882..d0a0494 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -216,6 +216,27 @@ class PyVM(object):
 
         self.in_exception_processing = False
 
+    @property
+    def transient_state(self):
+        """What an instruction leaves for those that handle its outcome."""
+        return (
+            self.return_value,
+            self.last_exception,
+            self.last_traceback,
+            self.propagating,
+            self.in_exception_processing,
+        )
+
+    @transient_state.setter
+    def transient_state(self, state):
+        (
+            self.return_value,
+            self.last_exception,
+            self.last_traceback,
+            self.propagating,
+            self.in_exception_processing,
+        ) = state
+
     def for_this_thread(self):
         """The machine to use in the running thread. That is another one in a
         thread the program has started: a machine has just one stack of frames.
@@ -243,7 +264,10 @@ class PyVM(object):
         exception_entries = parse_exception_table(encoded_exception_table)
         for exception_entry in exception_entries:
             if exception_entry.start <= offset < exception_entry.end:
+                # What gets dropped here might have a finalizer to run.
+                transient_state = self.transient_state
                 del frame.stack[exception_entry.depth :]
+                self.transient_state = transient_state
                 if exception_entry.lasti:
                     self.push(frame.f_lasti)
                 self.push(self.last_exception[1])
@@ -836,7 +860,12 @@ class PyVM(object):
             return why
 
         self.pop_block()
+
+        # What gets dropped here might have a finalizer to run. That must not
+        # change what we are unwinding the block for.
+        transient_state = self.transient_state
         self.unwind_block(block)
+        self.transient_state = transient_state
 
         if block.type == "loop" and why == "break":
             why = None
@@ -970,6 +999,12 @@ class PyVM(object):
         if frame.yielded and self.handled_exception is not handled_exception:
             frame.handled_exception = self.handled_exception
 
+        if why == "exception":
+            # A traceback keeps the frame, but what it works on gets dropped.
+            transient_state = self.transient_state
+            del frame.stack[:]
+            self.transient_state = transient_state
+
         self.pop_frame()
         self.handled_exception = handled_exception
 
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 6d6eb83..27d63db 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -361,6 +361,12 @@ class PyVMTraced(PyVM):
         if frame.yielded and self.handled_exception is not handled_exception:
             frame.handled_exception = self.handled_exception
 
+        if why == "exception":
+            # A traceback keeps the frame, but what it works on gets dropped.
+            transient_state = self.transient_state
+            del frame.stack[:]
+            self.transient_state = transient_state
+
         self.pop_frame()
         self.handled_exception = handled_exception
 
-- 
2.43.0


From 43ee1e8fff851faf1d00feb30ee9754249586045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 57/72] fix: print of Python 2 writes what it prints, and no
 empty strings, to a file-like object

---
 xpython/byteop/byteop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index d4188a2..3491aad 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -597,8 +597,8 @@ class ByteOpBase(object):
         # statement, but to allow the implementation of print to keep
         # track of its internal state.
         if getattr(to, "softspace", 0):
-            print(" ", end="", file=to)
-        print(item, end="", file=to)
+            to.write(" ")
+        to.write(str(item))
 
         if isinstance(item, str):
             self.set_softspace(
@@ -617,7 +617,7 @@ class ByteOpBase(object):
     def print_newline(self, to=None):
         if to is None:
             to = sys.stdout
-        print("", file=to)
+        to.write("\n")
         self.set_softspace(to, False)
 
     def setup_sys_module(self) -> types.ModuleType:
-- 
2.43.0


From 3e5e4bab066d05af2ee259d9cb39b663336deff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 58/72] fix: names of the Python 2 built-ins stayed in the
 built-ins of the process

---
 xpython/execfile.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 84eb906..ec8ee5f 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -119,7 +119,7 @@ def exec_code_object(
 ) -> int:
     rc = 0
     if python_version != PYTHON_VERSION_TRIPLE[:2]:
-        make_compatible_builtins(BUILTINS.__dict__, python_version)
+        set_compatible_builtins(env, python_version)
     if callback:
         vm = PyVMTraced(
             callback,
@@ -156,6 +156,21 @@ def get_supported_versions(is_pypy, is_bytecode):
     return supported_versions, mess
 
 
+def set_compatible_builtins(env: dict, python_version: tuple):
+    """
+    Give a program whose global variables are `env` the built-ins of `python_version`.
+    What our Python does not have goes into a module of the program's own, so that
+    this and other programs do not find it.
+    """
+    builtins = env.get("__builtins__")
+    if builtins is BUILTINS or builtins is BUILTINS.__dict__:
+        names = dict(BUILTINS.__dict__)
+        make_compatible_builtins(names, python_version)
+        if len(names) > len(BUILTINS.__dict__):
+            env["__builtins__"] = new_module(BUILTINS.__name__)
+            env["__builtins__"].__dict__.update(names)
+
+
 # from coverage.py:
 
 try:
@@ -273,7 +288,6 @@ def run_python_file(
                 if isinstance(code, CodeBase) and python_version >= (3, 0):
                     restore_integers(code)
                 main_mod.__file__ = code.co_filename
-                make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
 
                 if source_is_older(code.co_filename, filename):
                     print(
-- 
2.43.0


From d1776af9ff5eb08cbc2a828c76666485c89bc340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 59/72] fix: exec with a closure; arguments that eval, exec,
 globals and locals do not take

---
 xpython/byteop/byteop.py | 44 +++++++++++++++++++++++++---------------
 xpython/pyobj.py         |  9 ++++++++
 xpython/vm.py            |  8 ++++++--
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 3491aad..c8d2ed6 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, Method, SysModule, name_of
+from xpython.pyobj import Cell, Function, Method, SysModule, name_of
 from xpython.stdlib.builtins import execfile
 from xpython.vm import PyVM
 
@@ -181,7 +181,7 @@ class ByteOpBase(object):
         elif pos_args[2] is None:
             pos_args[2] = pos_args[1]
 
-    def eval_or_exec(self, mode: str, source, f_globals, f_locals):
+    def eval_or_exec(self, mode: str, source, f_globals, f_locals, closure=None):
         """What the built-in function eval() or exec() does for bytecode of
         the release that we are running in: compile `source` and interpret it.
         """
@@ -197,10 +197,25 @@ class ByteOpBase(object):
             dict.__setitem__(f_globals, "__builtins__", self.vm.frame.f_builtins)
 
         if inspect.iscode(source):
-            if source.co_freevars:
+            count = len(source.co_freevars)
+            if count and mode == "eval":
                 raise TypeError(
-                    f"code object passed to {mode}() may not contain free variables"
+                    "code object passed to eval() may not contain free variables"
                 )
+            if closure is not None and not count:
+                raise TypeError("cannot use a closure with this code object")
+            if count and not (
+                isinstance(closure, tuple)
+                and len(closure) == count
+                and all(isinstance(cell, (Cell, types.CellType)) for cell in closure)
+            ):
+                raise TypeError(
+                    f"code object requires a closure of exactly length {count}"
+                )
+            if closure:
+                closure = tuple(Cell.of(cell) for cell in closure)
+        elif closure is not None:
+            raise TypeError("closure can only be used when source is a code object")
         elif isinstance(source, (str, bytes, bytearray, memoryview)):
             if mode == "eval" and not isinstance(source, memoryview):
                 blanks = " \t" if isinstance(source, str) else b" \t"
@@ -208,7 +223,9 @@ class ByteOpBase(object):
             source = compile(source, "<string>", mode, dont_inherit=True)
         else:
             raise TypeError(f"{mode}() arg 1 must be a string, bytes or code object")
-        return self.vm.run_code(source, f_globals, f_locals, toplevel=False)
+        return self.vm.run_code(
+            source, f_globals, f_locals, toplevel=False, closure=closure
+        )
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
@@ -232,11 +249,13 @@ class ByteOpBase(object):
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
+            if func in (globals, locals, eval) and named_args:
+                raise TypeError(f"{func.__name__}() takes no keyword arguments")
+            if func == globals and not pos_args:
                 # Use the frame's globals(), not the interpreter's
                 self.vm.push(frame.f_globals)
                 return
-            elif func == locals:
+            elif func == locals and not pos_args:
                 # Use the frame's locals(), not the interpreter's
                 self.vm.push(frame.get_locals())
                 return
@@ -257,14 +276,7 @@ class ByteOpBase(object):
             # In Python 3.0 or greater, "exec()" is a builtin.  In
             # Python 2.7 it was an opcode EXEC_STMT and is not a
             # built-in function.
-            #
-            # FIXME: a better test would be nice. There can be
-            # other builtin "exec"s. Tk has a built-in "eval". See 3.6.10
-            # test_tcl.py.
-            # If we drop the requirement of supporting 2.7 we can do the simpler
-            # and more reliable:
-            #   func == exec
-            elif func.__name__ == "exec":
+            elif func == exec:
                 if not 1 <= len(pos_args) <= 3:
                     raise TypeError(
                         "exec() builtin should have 1..3 positional arguments; got %d"
@@ -275,7 +287,7 @@ class ByteOpBase(object):
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
-                    self.eval_or_exec("exec", *pos_args)
+                    self.eval_or_exec("exec", *pos_args, **named_args)
                     self.vm.push(None)
                     return
                 else:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index e6b15e7..9fc6b7a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -713,6 +713,15 @@ class Cell:
         self.native = types.CellType()
         self.contents = value
 
+    @staticmethod
+    def of(cell):
+        """The Cell for `cell`, which is one or is a genuine cell."""
+        if isinstance(cell, Cell):
+            return cell
+        result = Cell()
+        result.native = cell
+        return result
+
     @property
     def contents(self):
         try:
diff --git a/xpython/vm.py b/xpython/vm.py
index d0a0494..d0b6e88 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -536,7 +536,9 @@ class PyVM(object):
     ##############################################
 
     # This is the main entry point
-    def run_code(self, code, f_globals=None, f_locals=None, toplevel=True) -> Any:
+    def run_code(
+        self, code, f_globals=None, f_locals=None, toplevel=True, closure=None
+    ) -> Any:
         """run code using f_globals and f_locals in our VM.
 
         If toplevel is True, then the return is 0 on successful run, and the
@@ -545,7 +547,9 @@ class PyVM(object):
         is the value from the last RETURN_VALUE or RETURN_CONST instruction.
         This matters when this is called to interpret eval().
         """
-        frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
+        frame = self.make_frame(
+            code, f_globals=f_globals, f_locals=f_locals, closure=closure
+        )
         depth = len(self.frames)
         try:
             self.eval_frame(frame)
-- 
2.43.0


From 01b67587d5c3d04c40bd1d5f35b3f10a90e08bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 60/72] fix: sys.path[0] of a linked file, and of a module
 found elsewhere than in the current directory

---
 xpython/execfile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index ec8ee5f..dcbe9f7 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -255,10 +255,11 @@ def run_python_file(
     # note: the type of args is na tuple; we want type(sys.argv) == list
     sys.argv = [filename] + list(args)
 
-    if package:
-        sys.path[0] = ""
+    if package is not None:
+        # As with "python -m", no matter where the module is.
+        sys.path[0] = os.getcwd()
     else:
-        sys.path[0] = osp.abspath(osp.dirname(filename))
+        sys.path[0] = osp.dirname(osp.realpath(filename))
 
     python_implementation = PYTHON_IMPLEMENTATION
     try:
-- 
2.43.0


From 05e00033a72ec4c5ab5d10817149400d5c24c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 61/72] fix: import and class statements did not look
 __import__ and __build_class__ up in the built-ins of the frame

---
 xpython/byteop/byteop.py   |  3 ++-
 xpython/byteop/byteop24.py | 11 +++++------
 xpython/byteop/byteop26.py | 24 +++++++-----------------
 xpython/byteop/byteop32.py |  5 ++++-
 4 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index c8d2ed6..a6925c1 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -9,6 +9,7 @@ import logging
 import operator
 import sys
 import types
+from builtins import __build_class__ as native_build_class
 from typing import Any, Callable
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
@@ -329,7 +330,7 @@ class ByteOpBase(object):
                         )
                         self.cross_bytecode_eval_warning_shown = True
 
-            elif func == __build_class__:
+            elif func is native_build_class:
                 assert len(pos_args) > 0, (
                     "__build_class__() should have at least one argument, an "
                     "__init__() function."
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index c78e6da..eaaf119 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -21,9 +21,6 @@ from xpython.pyobj import Cell, Function, Traceback, name_of
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
-import importlib
-import_fn = importlib.__import__
-
 Version_info = namedtuple("version_info", "major minor micro releaselevel serial")
 
 log = logging.getLogger(__name__)
@@ -621,9 +618,11 @@ class ByteOp24(ByteOpBase):
         """What the various IMPORT_NAME's have in common"""
         frame = self.vm.frame
 
-        module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=level
-        )
+        try:
+            import_fn = frame.f_builtins["__import__"]
+        except KeyError:
+            raise ImportError("__import__ not found") from None
+        module = import_fn(name, frame.f_globals, frame.f_locals, fromlist, level)
 
         if module is sys:
             module = self.setup_sys_module()
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index 627dec2..05d5c78 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -43,7 +43,6 @@ class ByteOp26(ByteOp25):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         level, fromlist = self.vm.popn(2)
-        frame = self.vm.frame
 
         # Should we replace import "name" with a compatibility version?
         if name in xpython.stdlib.__all__:
@@ -66,24 +65,15 @@ class ByteOp26(ByteOp25):
         # while the below finds "os" which does have a "path" attribute.
         #
         assert level >= -1, f"Invalid Level number {level} on IMPORT_NAME"
-        module = None
-        if level == -1:
-            # In Python 2.6 added the level parameter, and it was -1 by
-            # default until but not including 3.0.  -1 means try
-            # relative imports before absolute imports.
 
-            # FIXME: give warning that we can't handle absolute
-            # import. Or fix up code to handle possible absolute
-            # import.
-            level = 0
+        # In Python 2.6 added the level parameter, and it was -1 by
+        # default until but not including 3.0.  -1 means try
+        # relative imports before absolute imports.
 
-        if module is None:
-            module = __import__(name, frame.f_globals, frame.f_locals, fromlist, level)
-
-        if module is sys:
-            module = self.setup_sys_module()
-
-        self.vm.push(module)
+        # FIXME: give warning that we can't handle absolute
+        # import. Or fix up code to handle possible absolute
+        # import.
+        self.import_module(name, fromlist, max(level, 0))
 
     # New in Python 2.5, changed in 2.6 and in 3.2.
     def WITH_CLEANUP(self):
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 695b6cf..b949c7c 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -140,7 +140,10 @@ class ByteOp32(ByteOp27):
     def LOAD_BUILD_CLASS(self):
         """Pushes builtins.__build_class__() onto the stack. It is
         later called by CALL_FUNCTION to construct a class."""
-        self.vm.push(__build_class__)
+        try:
+            self.vm.push(self.vm.frame.f_builtins["__build_class__"])
+        except KeyError:
+            raise NameError("__build_class__ not found") from None
 
     def MAKE_CLOSURE(self, argc: int):
         """
-- 
2.43.0


From 97672e3acd69a55395e420a53265a7c112fd2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 62/72] fix: functions could not be weakly referenced or
 pickled, and type(method) not called

---
 xpython/pyobj.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9fc6b7a..68f6895 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -325,6 +325,7 @@ class Function:
         "version",
         "_vm",
         "_func",
+        "__weakref__",
     ]
 
     def __init__(
@@ -574,6 +575,10 @@ class Function:
 
     func_name = __name__
 
+    def __reduce__(self):
+        # As with a genuine function, pickle has to find it under its name.
+        return self.__qualname__
+
     def __copy__(self):
         return self
 
@@ -621,7 +626,11 @@ class Function:
 class Method(object):
     """Create a bound instance method object."""
 
-    def __init__(self, obj, _class, func) -> None:
+    def __init__(self, obj, _class, func=None) -> None:
+        if func is None:
+            # Called by the program, with what a genuine method is made of.
+            func, obj, _class = obj, _class, type(_class)
+
         # These are all the attributes there are: see __setattr__().
         attributes = self.__dict__
         attributes["__doc__"] = func.__doc__
@@ -650,6 +659,9 @@ class Method(object):
             raise AttributeError(name)
         return getattr(self.im_func, name)
 
+    def __reduce__(self):
+        return getattr, (self.im_self, self.im_func.__name__)
+
     def __copy__(self):
         return self
 
-- 
2.43.0


From 245bb95172c422451826991e20c9666e9ec214b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 63/72] fix: __doc__ and __module__ were in the __dict__ of
 functions, and deleted ones gave the interpreter's

---
 xpython/pyobj.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 68f6895..3b8c0fb 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -313,14 +313,15 @@ class Function:
         "_closure",
         "_code",
         "_defaults",
+        "_doc",
         "_kwdefaults",
+        "_module",
         "_name",
         # rest
         "func_globals",
         "func_locals",
         "__dict__",
         "__qualname__",
-        # "__doc__" is filled in by the doc comment above.
         "has_dot_zero",
         "version",
         "_vm",
@@ -575,6 +576,31 @@ class Function:
 
     func_name = __name__
 
+    # These two are not in __dict__.
+    @property
+    def __doc__(self):
+        return self._doc
+
+    @__doc__.setter
+    def __doc__(self, doc):
+        self._doc = doc
+
+    @__doc__.deleter
+    def __doc__(self):
+        self._doc = None
+
+    @property
+    def __module__(self):
+        return self._module
+
+    @__module__.setter
+    def __module__(self, module):
+        self._module = module
+
+    @__module__.deleter
+    def __module__(self):
+        self._module = None
+
     def __reduce__(self):
         # As with a genuine function, pickle has to find it under its name.
         return self.__qualname__
-- 
2.43.0


From 695d8eb80dd43b60c883623979c113ee74fbf9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 64/72] fix: division of Python 2 with NotImplemented from
 __idiv__, subclasses' __rdiv__ and classes derived from int

---
 xpython/byteop/byteop.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index a6925c1..ae0eb4e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -34,14 +34,21 @@ UNARY_OPERATORS = {
 def classic_divide(x, y):
     """The "/" of Python 2 without `from __future__ import division`:
     integers floor, and classes can define it with __div__/__rdiv__."""
-    if isinstance(x, int) and isinstance(y, int):
-        return x // y
-    for method, operand, other in (("__div__", x, y), ("__rdiv__", y, x)):
+    attempts = [("__div__", x, y)]
+    if type(y) is not type(x):
+        reflected = getattr(type(y), "__rdiv__", None)
+        is_overridden = issubclass(type(y), type(x)) and reflected != getattr(
+            type(x), "__rdiv__", None
+        )
+        attempts.insert(0 if is_overridden else 1, ("__rdiv__", y, x))
+    for method, operand, other in attempts:
         fn = getattr(type(operand), method, None)
         if fn is not None:
             result = fn(operand, other)
             if result is not NotImplemented:
                 return result
+    if isinstance(x, int) and isinstance(y, int):
+        return x // y
     return x / y
 
 
@@ -543,10 +550,9 @@ class ByteOpBase(object):
             # Overwritten __div__ is not picked up by x //= y
             # which seems to puck up FLOOR_DIVIDE
             # See Python 2.7 test_augassign.py
-            if hasattr(x, "__idiv__"):
-                x = x.__idiv__(y)
-            else:
-                x = classic_divide(x, y)
+            idiv = getattr(type(x), "__idiv__", None)
+            result = NotImplemented if idiv is None else idiv(x, y)
+            x = classic_divide(x, y) if result is NotImplemented else result
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
-- 
2.43.0


From 3f3784f04cbcf34a132dceac31903a2e181314d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 65/72] fix: cmp() of Python 2 failed for equal objects without
 order, and took an object for different from itself

---
 xpython/stdlib/builtins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index fa2f5d3..05ba816 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -71,6 +71,8 @@ def cmp(x, y) -> int:
     """
     Python 1-2.x cmp (compare) for Python 3.x
     """
+    if x is y or x == y:
+        return 0
     return (x > y) - (x < y)
 
 
-- 
2.43.0


From 2299b35f922821022e0dfcdb75bc69f6faf81523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 66/72] fix: messages of NameErrors for global names since 3.4

---
 xpython/byteop/byteop24.py  | 3 ++-
 xpython/byteop/byteop311.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index eaaf119..0e3cf5b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -725,7 +725,8 @@ class ByteOp24(ByteOpBase):
         elif name in vm_frame.f_builtins:
             val = vm_frame.f_builtins[name]
         else:
-            raise NameError(f"global name '{name}' is not defined")
+            kind = "global name" if self.vm.version < (3, 4) else "name"
+            raise NameError(f"{kind} '{name}' is not defined")
         self.vm.push(val)
 
     def SETUP_LOOP(self, jump_offset):
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 2e5cc97..75c0ebf 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -190,7 +190,7 @@ class ByteOp311(ByteOp310):
         elif name in f.f_builtins:
             val = f.f_builtins[name]
         else:
-            raise NameError(f"global name '{name}' is not defined")
+            raise NameError(f"name '{name}' is not defined")
 
         if push_null:
             self.vm.push(NULL)
-- 
2.43.0


From 6290757327d5fa74249d937b1f10701da1e02d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 67/72] fix: type aliases and type variables with bounds or
 constraints, and generic classes that have these, were not implemented

---
 xpython/builtins.py         |  2 ++
 xpython/byteop/byteop312.py | 42 +++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 5c4e70a..c14c50f 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -110,6 +110,8 @@ def build_class(opc, func, name, *bases, **kwds):
     # cell in that.
     if isinstance(cell, Cell) and "__classcell__" in namespace:
         namespace["__classcell__"] = cell.native
+    if "__classdictcell__" in class_body_code.co_names:
+        namespace["__classdictcell__"] = namespace["__classdictcell__"].native
 
     cls = metaclass(name, bases, namespace, **kwds)
 
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index abd29c5..8414914 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -8,7 +8,7 @@
 """
 
 import sys
-import typing
+from opcode import opmap
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
@@ -16,6 +16,25 @@ from xpython.byteop.byteop37 import NULL
 from xpython.pyobj import Cell
 
 
+def genuine_intrinsic(function: int, *args):
+    """
+    The intrinsic function of our Python, which is of this version too, for those
+    that nothing in the library is the same as.
+    """
+
+    def template(first, second):
+        return first, second
+
+    instructions = [("RESUME", 0)]
+    instructions += [("LOAD_FAST", i) for i in range(len(args))]
+    instructions += [(f"CALL_INTRINSIC_{len(args)}", function), ("RETURN_VALUE", 0)]
+    template.__code__ = template.__code__.replace(
+        co_argcount=len(args),
+        co_code=b"".join(bytes((opmap[name], arg)) for name, arg in instructions),
+    )
+    return template(*args)
+
+
 # pylint: disable=too-many-public-methods
 class ByteOp312(ByteOp311):
     """
@@ -90,14 +109,17 @@ class ByteOp312(ByteOp311):
             self.vm.push(+self.vm.pop())
         elif function == 6:  # INTRINSIC_LIST_TO_TUPLE
             self.vm.push(tuple(self.vm.pop()))
-        elif function == 7:  # INTRINSIC_TYPEVAR
-            self.vm.push(typing.TypeVar(self.vm.pop(), infer_variance=True))
-        elif function == 8:  # INTRINSIC_PARAMSPEC
-            self.vm.push(typing.ParamSpec(self.vm.pop(), infer_variance=True))
-        elif function == 9:  # INTRINSIC_TYPEVARTUPLE
-            self.vm.push(typing.TypeVarTuple(self.vm.pop()))
-        elif function == 10:  # INTRINSIC_SUBSCRIPT_GENERIC
-            self.vm.push(typing.Generic[self.vm.pop()])
+        elif 7 <= function <= 10:  # INTRINSIC_TYPEVAR .. INTRINSIC_SUBSCRIPT_GENERIC
+            self.vm.push(genuine_intrinsic(function, self.vm.pop()))
+        elif function == 11:  # INTRINSIC_TYPEALIAS
+            name, type_params, compute_value = self.vm.pop()
+
+            # What finds the alias' module needs a genuine function.
+            def compute():
+                return compute_value()
+
+            compute.__module__ = compute_value.__module__
+            self.vm.push(genuine_intrinsic(function, (name, type_params, compute)))
         else:
             raise self.vm.PyVMError(
                 f"CALL_INTRINSIC_1 function {function} not implemented"
@@ -111,6 +133,8 @@ class ByteOp312(ByteOp311):
         first, second = self.vm.popn(2)
         if function == 1:  # INTRINSIC_PREP_RERAISE_STAR
             self.vm.push(self.exception_star_result(first, second))
+        elif function in (2, 3):  # INTRINSIC_TYPEVAR_WITH_BOUND, .._WITH_CONSTRAINTS
+            self.vm.push(genuine_intrinsic(function, first, second))
         elif function == 4:  # INTRINSIC_SET_FUNCTION_TYPE_PARAMS
             first.__type_params__ = second
             self.vm.push(first)
-- 
2.43.0


From 274bc0796101926c9fdb07a47a96c74e48392fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 68/72] fix: except* took a part of a group that was raised
 again for one that was not handled

---
 xpython/byteop/byteop311.py | 19 +++++++++++++++----
 xpython/pyobj.py            |  3 +++
 xpython/vm.py               |  5 +++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 75c0ebf..0be7ce5 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -370,6 +370,12 @@ class ByteOp311(ByteOp310):
         else:
             match, rest = None, exc
 
+        frame = self.vm.frame
+        frame.raised_groups = [
+            group
+            for group in frame.raised_groups
+            if group is not exc and group is not match
+        ]
         self.vm.push(rest, match)
         if match is not None:
             self.vm.handled_exception = (type(match), match, None)
@@ -392,13 +398,18 @@ class ByteOp311(ByteOp310):
 
         raised = []
         kept = set()
+        raised_groups = self.vm.frame.raised_groups
         for exc in excs:
             if exc is None:
                 continue
-            if isinstance(exc, BaseExceptionGroup) and all(
-                getattr(exc, name, None) is getattr(orig, name, None)
-                for name in (
-                    "__notes__", "__traceback__", "__cause__", "__context__"
+            if (
+                isinstance(exc, BaseExceptionGroup)
+                and not any(exc is group for group in raised_groups)
+                and all(
+                    getattr(exc, name, None) is getattr(orig, name, None)
+                    for name in (
+                        "__notes__", "__traceback__", "__cause__", "__context__"
+                    )
                 )
             ):
                 groups = [exc]
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3b8c0fb..18255e6 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -879,6 +879,9 @@ class Frame(object):
         self.brkpt = {}
         self.brkpt_extended_arg = 0
 
+        # Exception groups that have been raised here, for except*.
+        self.raised_groups = []
+
         if f_back and f_back.f_globals is f_globals:
             # If we share the globals, we share the builtins.
             self.f_builtins = f_back.f_builtins
diff --git a/xpython/vm.py b/xpython/vm.py
index d0b6e88..c971b4a 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -286,6 +286,11 @@ class PyVM(object):
             and exc_value.__context__ is None
         ):
             self.set_exception_context(exc_value)
+        if self.version >= (3, 11) and isinstance(exc_value, BaseExceptionGroup):
+            # except* needs to know what has been raised since it matched.
+            if self.handled_exception[1] is None:
+                self.frame.raised_groups.clear()
+            self.frame.raised_groups.append(exc_value)
         self.propagating = None
         self.last_traceback = traceback
         self.last_exception = (exc_type, exc_value, traceback)
-- 
2.43.0


From 2fd7c4fe7f8c9496882078900d94da07018b7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 69/72] fix: messages of NameErrors for unbound variables since
 3.11, and for deleting globals before 3.4

---
 xpython/byteop/byteop24.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 0e3cf5b..58f40cd 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -454,7 +454,8 @@ class ByteOp24(ByteOpBase):
             return
         except KeyError:
             pass
-        raise NameError(f"name '{name}' is not defined")
+        kind = "global name" if self.vm.version < (3, 4) else "name"
+        raise NameError(f"{kind} '{name}' is not defined")
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
@@ -767,6 +768,16 @@ class ByteOp24(ByteOpBase):
 
     # some (but not all) Names
 
+    def unbound_local_error(self, name):
+        if self.vm.version >= (3, 11):
+            return UnboundLocalError(
+                f"cannot access local variable '{name}' where it is not "
+                "associated with a value"
+            )
+        return UnboundLocalError(
+            f"local variable '{name}' referenced before assignment"
+        )
+
     def LOAD_FAST(self, name):
         """
         Pushes a reference to the local co_varnames[var_num] onto the stack.
@@ -774,9 +785,7 @@ class ByteOp24(ByteOpBase):
         if name in self.vm.frame.fast_locals:
             val = self.vm.frame.fast_locals[name]
         else:
-            raise UnboundLocalError(
-                f"local variable '{name}' referenced before assignment"
-            )
+            raise self.unbound_local_error(name)
         self.vm.push(val)
 
     def STORE_FAST(self, var_num):
@@ -786,9 +795,7 @@ class ByteOp24(ByteOpBase):
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
         if var_num not in self.vm.frame.fast_locals:
-            raise UnboundLocalError(
-                f"local variable '{var_num}' referenced before assignment"
-            )
+            raise self.unbound_local_error(var_num)
         del self.vm.frame.fast_locals[var_num]
 
     def LOAD_CLOSURE(self, i):
@@ -805,8 +812,11 @@ class ByteOp24(ByteOpBase):
         cell = frame.cells[name]
         if cell.is_empty():
             if name in frame.f_code.co_cellvars:
-                raise UnboundLocalError(
-                    f"local variable '{name}' referenced before assignment"
+                raise self.unbound_local_error(name)
+            if self.vm.version >= (3, 11):
+                raise NameError(
+                    f"cannot access free variable '{name}' where it is not "
+                    "associated with a value in enclosing scope"
                 )
             raise NameError(
                 f"free variable '{name}' referenced before assignment "
-- 
2.43.0


From 4be8810b0b305adcb53f779d97c301314a405e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 70/72] fix: class patterns looked __match_args__ up twice

---
 xpython/byteop/byteop310.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop310.py b/xpython/byteop/byteop310.py
index b31bc64..df825d1 100644
--- a/xpython/byteop/byteop310.py
+++ b/xpython/byteop/byteop310.py
@@ -57,16 +57,16 @@ def match_class(subject, cls, count, kwd_names):
     names = []
     if count:
         match_self = False
-        if hasattr(cls, "__match_args__"):
+        try:
             match_args = cls.__match_args__
-            if not isinstance(match_args, tuple):
-                raise TypeError(
-                    f"{cls.__name__}.__match_args__ must be a tuple "
-                    f"(got {type(match_args).__name__})"
-                )
-        else:
+        except AttributeError:
             match_args = ()
             match_self = bool(cls.__flags__ & TPFLAGS_MATCH_SELF)
+        if not isinstance(match_args, tuple):
+            raise TypeError(
+                f"{cls.__name__}.__match_args__ must be a tuple "
+                f"(got {type(match_args).__name__})"
+            )
         allowed = 1 if match_self else len(match_args)
         if allowed < count:
             raise TypeError(
-- 
2.43.0


From 866b6164b4845ca35c2e1dee14fb5c87e2a8707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 71/72] fix: texts of the TypeErrors for arguments that do not
 fit, of Python 3

---
 xpython/pyobj.py | 84 ++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 18255e6..bcd79f5 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -191,13 +191,33 @@ COMPREHENSION_FN_NAMES = frozenset(
 )
 
 
+def plural(count):
+    """What a noun after this number ends in."""
+    return "" if count == 1 else "s"
+
+
+def check_all_given(name, kind, missing):
+    """Raise TypeError if there are missing arguments."""
+    if not missing:
+        return
+    names = [repr(arg_name) for arg_name in missing]
+    if len(names) > 2:
+        names = ", ".join(names[:-1]) + ", and " + names[-1]
+    else:
+        names = " and ".join(names)
+    raise TypeError(
+        f"{name}() missing {len(missing)} required {kind} "
+        f"argument{plural(len(missing))}: {names}"
+    )
+
+
 def bind_arguments(func, positional, named):
     """Return a dictionary with the initial local variables of a call to
     `func`, which is a Function, with the given positional and named arguments.
     As in a call in Python, TypeError is raised if they do not fit.
     """
     code = func.func_code
-    name = func.__name__
+    name = func.__qualname__ if func.version >= (3, 10) else code.co_name
     if func.version >= (3, 0):
         defaults = func.__defaults__ or ()
     else:
@@ -214,17 +234,6 @@ def bind_arguments(func, positional, named):
     if code.co_flags & CO_VARARGS:
         callargs[code.co_varnames[star_index]] = tuple(positional[arg_count:])
         star_index += 1
-    elif len(positional) > arg_count:
-        raise TypeError(
-            "%s() takes %d positional argument%s but %d %s given"
-            % (
-                name,
-                arg_count,
-                "" if arg_count == 1 else "s",
-                len(positional),
-                "was" if len(positional) == 1 else "were",
-            )
-        )
 
     extra_named = None
     if code.co_flags & CO_VARKEYWORDS:
@@ -239,32 +248,40 @@ def bind_arguments(func, positional, named):
             callargs[key] = value
         elif extra_named is not None:
             extra_named[key] = value
-        elif key in arg_names:
-            raise TypeError(
-                f"{name}() got some positional-only arguments passed as "
-                f"keyword arguments: {key!r}"
-            )
         else:
+            wrong = [arg_name for arg_name in arg_names[:posonly_count] if arg_name in named]
+            if wrong:
+                raise TypeError(
+                    f"{name}() got some positional-only arguments passed as "
+                    f"keyword arguments: '{', '.join(wrong)}'"
+                )
             raise TypeError(f"{name}() got an unexpected keyword argument {key!r}")
 
+    given = len(positional)
+    if given > arg_count and not code.co_flags & CO_VARARGS:
+        kwonly_given = sum(kwonly_name in callargs for kwonly_name in kwonly_names)
+        if defaults:
+            takes = f"from {arg_count - len(defaults)} to {arg_count} positional arguments"
+        else:
+            takes = f"{arg_count} positional argument{plural(arg_count)}"
+        if kwonly_given:
+            were = (
+                f" positional argument{plural(given)} (and {kwonly_given} "
+                f"keyword-only argument{plural(kwonly_given)}) were"
+            )
+        else:
+            were = " was" if given == 1 else " were"
+        raise TypeError(f"{name}() takes {takes} but {given}{were} given")
+
     first_default = arg_count - len(defaults)
     missing = []
-    for i in range(len(positional), arg_count):
+    for i in range(given, arg_count):
         if arg_names[i] not in callargs:
             if i >= first_default:
                 callargs[arg_names[i]] = defaults[i - first_default]
             else:
                 missing.append(arg_names[i])
-    if missing:
-        raise TypeError(
-            "%s() missing %d required positional argument%s: %s"
-            % (
-                name,
-                len(missing),
-                "" if len(missing) == 1 else "s",
-                ", ".join(repr(arg_name) for arg_name in missing),
-            )
-        )
+    check_all_given(name, "positional", missing)
 
     for kwonly_name in kwonly_names:
         if kwonly_name not in callargs:
@@ -273,16 +290,7 @@ def bind_arguments(func, positional, named):
                 callargs[kwonly_name] = kwdefaults[kwonly_name]
             else:
                 missing.append(kwonly_name)
-    if missing:
-        raise TypeError(
-            "%s() missing %d required keyword-only argument%s: %s"
-            % (
-                name,
-                len(missing),
-                "" if len(missing) == 1 else "s",
-                ", ".join(repr(kwonly_name) for kwonly_name in missing),
-            )
-        )
+    check_all_given(name, "keyword-only", missing)
     return callargs
 
 
-- 
2.43.0


From e3457a44a78d53b831ea57f293214184d452a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 72/72] fix: throw() of generators gave delegates an instance
 instead of its arguments, and raised errors of making it outside

---
 xpython/pyobj.py | 86 ++++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 32 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index bcd79f5..42b6135 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -1062,6 +1062,34 @@ class FinishedIterator:
         raise StopIteration(self.value)
 
 
+def exception_to_throw(exc_type, value=None, traceback=None):
+    """The exception that throw() of a generator gets with these arguments."""
+    if traceback is not None and not isinstance(
+        traceback, (Traceback, types.TracebackType)
+    ):
+        raise TypeError("throw() third argument must be a traceback object")
+    if isinstance(exc_type, BaseException):
+        if value is not None:
+            raise TypeError("instance exception may not have a separate value")
+        return exc_type
+    if not (isinstance(exc_type, type) and issubclass(exc_type, BaseException)):
+        raise TypeError(
+            "exceptions must be classes or instances deriving from "
+            f"BaseException, not {type(exc_type).__name__}"
+        )
+    if isinstance(value, exc_type):
+        return value
+    try:
+        if value is None:
+            return exc_type()
+        if isinstance(value, tuple):
+            return exc_type(*value)
+        return exc_type(value)
+    except BaseException as exc:
+        # This is what the generator gets then.
+        return exc
+
+
 class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
@@ -1100,32 +1128,23 @@ class Generator(object):
 
     __next__ = next
 
-    def throw(self, exc_type, value=None, traceback=None):
-        """Raise an exception where the generator is suspended."""
-        if isinstance(exc_type, BaseException):
-            if value is not None:
-                raise TypeError("instance exception may not have a separate value")
-            exc = exc_type
-        elif isinstance(exc_type, type) and issubclass(exc_type, BaseException):
-            if isinstance(value, exc_type):
-                exc = value
-            elif value is None:
-                exc = exc_type()
-            elif isinstance(value, tuple):
-                exc = exc_type(*value)
-            else:
-                exc = exc_type(value)
-        else:
+    def throw(self, *args):
+        """Raise an exception, given as for the raise statement of Python 2,
+        where the generator is suspended."""
+        if not 1 <= len(args) <= 3:
             raise TypeError(
-                "exceptions must be classes or instances deriving from "
-                f"BaseException, not {type(exc_type).__name__}"
+                "throw expected at %s, got %d"
+                % ("most 3 arguments" if args else "least 1 argument", len(args))
             )
-        self.check_not_running()
-
-        delegate = self.gi_yieldfrom
+        delegate = None if self.gi_running else self.gi_yieldfrom
+        throw = None
         if delegate is not None:
+            exc_type = args[0] if isinstance(args[0], type) else type(args[0])
+            exiting = issubclass(exc_type, GeneratorExit)
+            if not exiting:
+                throw = getattr(delegate, "throw", None)
             try:
-                if isinstance(exc, GeneratorExit):
+                if exiting:
                     close = getattr(delegate, "close", None)
                     if close is not None:
                         self.gi_running = True
@@ -1133,16 +1152,14 @@ class Generator(object):
                             close()
                         finally:
                             self.gi_running = False
-                else:
-                    throw = getattr(delegate, "throw", None)
-                    if throw is not None:
-                        if isinstance(delegate, Generator):
-                            return self.call_from_frame(throw, exc)
-                        self.gi_running = True
-                        try:
-                            return throw(exc)
-                        finally:
-                            self.gi_running = False
+                elif throw is not None:
+                    if isinstance(delegate, Generator):
+                        return self.call_from_frame(throw, *args)
+                    self.gi_running = True
+                    try:
+                        return throw(*args)
+                    finally:
+                        self.gi_running = False
             except StopIteration as stop:
                 if self.vm.version >= (3, 12):
                     # CLEANUP_THROW is going to handle this
@@ -1159,6 +1176,11 @@ class Generator(object):
                     return self.resume(stop.value)
             except BaseException as delegate_exc:
                 exc = delegate_exc
+            else:
+                exc = exception_to_throw(*args)
+        else:
+            exc = exception_to_throw(*args)
+            self.check_not_running()
         return self.resume(None, exc)
 
     def call_from_frame(self, method, *args):
-- 
2.43.0

