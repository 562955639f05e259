"""Runs one program on the real x-python VM and on the reference (CPython), recording
event logs.  Everything that judges a run is in oracle functions elsewhere."""
import ast
import contextlib
import io
import os
import re
import signal
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from xdis.version_info import PythonImplementation  # noqa: E402

import xpython.vm as xvm  # noqa: E402
from xpython.vm import PyVM, PyVMUncaughtException  # noqa: E402
from vc.compiler import Compiler, Options, Unsupported  # noqa: E402
from vc.t311 import compile311  # noqa: E402
from lib import py2ref  # noqa: E402

CPY = PythonImplementation.CPython
PYPY = PythonImplementation.PyPy

TARGETS = {}
for _v in [(2, 4), (2, 5), (2, 6), (2, 7), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6),
           (3, 7), (3, 8), (3, 9), (3, 10), (3, 11), (3, 12)]:
    TARGETS["%d.%d" % _v] = (_v, CPY)
for _v in [(3, 5), (3, 6), (3, 7), (3, 8), (3, 9)]:
    TARGETS["pypy%d.%d" % _v] = (_v, PYPY)
NATIVE = "%d.%d" % sys.version_info[:2]


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


@contextlib.contextmanager
def time_limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- refusals
REFUSALS = []


def watch_refusals():
    """Record every PyVMError (an explicit 'I cannot do this') the VM creates, also the ones that
    interpreted code catches or that get lost on the way."""
    cls = xvm.PyVMError

    def __init__(self, *a):
        Exception.__init__(self, *a)
        REFUSALS.append(str(a[0])[:300] if a else "")

    cls.__init__ = __init__


watch_refusals()

import logging  # noqa: E402
logging.lastResort = logging.NullHandler()
sys.unraisablehook = lambda *a: None


# ---------------------------------------------------------------- canonical values
# What functions, methods and generators look like in print is not judged
REPR = re.compile(r"<(?:[Ff]unction|(?:un)?bound method|[Gg]enerator|coroutine|cell|code) (?:[^<>]|<\w+>)* at 0x>|<(?:un)?bound method (?:[^<>]|<\w+>)*>")
ADDRESS = re.compile(" at 0x[0-9a-fA-F]+")


def canon(v, depth=0, seen=()):
    """A comparable, address-free description of a value."""
    if depth > 8:
        return "..."
    t = type(v)
    if t is str and " at 0x" in v:
        v = REPR.sub("<>", ADDRESS.sub(" at 0x", v))
    if v is None or t in (bool, int, str, bytes):
        return (t.__name__, v)
    if t is float or t is complex:
        return (t.__name__, repr(v))
    if v is Ellipsis or v is NotImplemented:
        return repr(v)
    if id(v) in seen:
        return "<cycle>"
    seen = seen + (id(v),)
    if t in (list, tuple):
        return (t.__name__, tuple(canon(x, depth + 1, seen) for x in v))
    if t in (set, frozenset):
        return (t.__name__, tuple(sorted((canon(x, depth + 1, seen) for x in v), key=repr)))
    if t is dict:
        return ("dict", tuple((canon(k, depth + 1, seen), canon(x, depth + 1, seen)) for k, x in v.items()))
    if issubclass(t, type):
        return ("type", v.__name__)
    if issubclass(t, BaseException):
        return ("exc", t.__name__, canon_args(v, depth, seen))
    if t in (types.BuiltinFunctionType, types.BuiltinMethodType):
        return ("builtin", v.__name__)
    if issubclass(t, types.ModuleType):
        return ("module", v.__name__)
    n = t.__name__
    if n in ("function", "Function"):
        return ("function", getattr(v, "__name__", "?"))
    if n in ("method", "Method"):
        return ("method", getattr(getattr(v, "__func__", v), "__name__", "?"))
    if n in ("generator", "Generator"):
        return ("generator",)
    if n == "cell" or n == "Cell":
        return ("cell",)
    if t in (slice, range):
        return repr(v)
    try:
        d = object.__getattribute__(v, "__dict__")
    except Exception:
        d = None
    if type(d) is dict:
        return ("obj", n, tuple(sorted(((k, canon(x, depth + 1, seen)) for k, x in d.items()), key=lambda p: repr(p[0]))))
    return ("other", n)


def canon_args(e, depth=0, seen=()):
    try:
        return tuple(canon(a, depth + 1, seen) for a in e.args)
    except Exception:
        return ("?",)


NORMAL_MSG = [
    # host-version wording that the VM legitimately produces itself
]


def canon_exc(tp, val):
    """(class name, args) of an exception; messages of interpreter-made errors are kept only as a class."""
    name = getattr(tp, "__name__", str(tp))
    return name


class Outcome:
    __slots__ = ("log", "exc", "globals", "stdout", "refusals", "timeout", "crash", "rc", "left", "vm", "loaded", "tb", "val", "env")

    def __init__(self):
        self.log = []
        self.exc = None
        self.globals = None
        self.stdout = ""
        self.refusals = []
        self.timeout = False
        self.crash = None
        self.rc = None
        self.left = 0
        self.vm = None
        self.tb = self.val = None

    def brief(self):
        return {"log": self.log, "exc": self.exc, "globals": self.globals, "stdout": self.stdout,
                "refusals": self.refusals, "timeout": self.timeout, "crash": self.crash}


MAX_LOG = 4000


class LogFull(BaseException):
    pass


def make_tracer(log, describe=None):
    """The T(tag, value) function every generated program logs through."""

    def T(*a):
        if len(log) >= MAX_LOG:
            raise LogFull()
        log.append(describe() if describe else tuple(canon(x) for x in a))
        return a[-1] if a else None

    return T


PLAIN = (int, str, bytes, float, complex, bool, type(None), list, tuple, dict, set, frozenset)


def canon_globals(env, skip):
    out = {}
    for k, v in sorted(env.items(), key=lambda p: str(p[0])):
        if not isinstance(k, str) or k in skip or k.startswith("_"):
            continue
        out[k] = canon(v)
    return out


def exc_desc(tp, val, user_types):
    """Exception identity: class name plus args for exceptions the program itself made
    (args of interpreter-generated messages vary with the release)."""
    name = getattr(tp, "__name__", str(tp))
    args = None
    if isinstance(val, BaseException):
        args = canon_args(val)
    elif isinstance(val, tuple):
        args = tuple(canon(a) for a in val)
    return [name, args]


def builtins_for_vm(version):
    """The module of built-ins the VM gives a program of that release: for Python 2 a copy, not to change the host's."""
    import builtins
    if version >= (3, 0):
        return builtins
    from xpython.stdlib.builtins import make_compatible_builtins
    m = types.ModuleType("builtins")
    m.__dict__.update(builtins.__dict__)
    make_compatible_builtins(m.__dict__, version)
    return m


def base_env(log, extra=None, name="__main__", builtins=None):
    if builtins is None:
        import builtins

    env = {"__name__": name, "__builtins__": builtins, "__doc__": None, "T": make_tracer(log, (extra or {}).get("__describe__"))}
    if extra:
        env.update((k, v) for k, v in extra.items() if k != "__describe__")
    return env


def run_x(code, target, extra=None, timeout=10, vm=None, runner=None, keep_globals=True):
    """Run a module code object on the real VM."""
    version, impl = TARGETS[target]
    o = Outcome()
    env = base_env(o.log, extra, builtins=builtins_for_vm(version))
    skip = set(env)
    vm = vm or PyVM(version, impl)
    o.vm = vm
    o.env = env               # what is suspended stays so, until the outcome is judged
    del REFUSALS[:]
    buf = io.StringIO()
    try:
        with time_limit(timeout), contextlib.redirect_stdout(buf):
            if runner is not None:
                o.rc = runner(vm, code, env)
            else:
                frame = vm.make_frame(code, f_globals=env)
                vm.eval_frame(frame)
                o.rc = 0
    except Timeout:
        o.timeout = True
    except LogFull:
        o.timeout = True
        o.crash = "log full"
    except PyVMUncaughtException as e:
        le = vm.last_exception
        o.exc = exc_desc(le[0], le[1], None)
    except RecursionError as e:
        o.exc = ["RecursionError", None]
    except SystemExit as e:
        o.exc = ["SystemExit", canon_args(e)]
    except BaseException as e:
        o.exc = exc_desc(type(e), e, None)
        o.crash = "raised through: %r" % (e,)
    o.stdout = buf.getvalue()
    o.log = list(o.log)       # what finalizers log later is not judged
    o.refusals = list(REFUSALS)
    o.left = len(vm.frames)
    if keep_globals:
        o.globals = canon_globals(env, skip)
    return o


def watch_finalizers():
    """Count in FINALIZED the suspended generators that are closed because nothing refers to them any more; when that
    happens is not judged, nor are the events of it."""
    from xpython import pyobj

    plain = getattr(pyobj.Generator, "__del__", None)
    if plain is None or getattr(plain, "watched", False):
        return

    def __del__(self):
        if getattr(self, "started", True) and not getattr(self, "finished", False):
            FINALIZED[0] += 1
        plain(self)

    __del__.watched = True
    pyobj.Generator.__del__ = __del__


FINALIZED = [0]


# ---------------------------------------------------------------- reference
class RefRewrite(ast.NodeTransformer):
    """Express the older release's documented semantics in today's Python."""

    def __init__(self, version, py2div, py2meta=False):
        self.v = version
        self.py2meta = py2meta
        self.py2div = py2div
        self.n = 0

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        if self.py2meta and not node.keywords:
            node.keywords.append(ast.keyword("metaclass", ast.Name("__META2__", ast.Load())))
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.v < (3, 5) and all(k is not None for k in node.keys):
            args = []
            for k, x in zip(node.keys, node.values):
                args += [x, k]
            return ast.Call(func=ast.Name("__dict_vk__", ast.Load()), args=args, keywords=[])
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if self.v < (3, 8):
            return ast.Call(
                func=ast.Name("__dict_pairs__", ast.Load()),
                args=[ast.ListComp(elt=ast.Tuple([node.value, node.key], ast.Load()), generators=node.generators)],
                keywords=[])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.py2div and isinstance(node.op, ast.Div):
            return ast.Call(func=ast.Name("__py2div__", ast.Load()), args=[node.left, node.right], keywords=[])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.py2div and isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            return ast.Assign(
                targets=[node.target],
                value=ast.Call(func=ast.Name("__py2idiv__", ast.Load()),
                               args=[ast.Name(node.target.id, ast.Load()), node.value], keywords=[]))
        return node

    def visit_ListComp(self, node):
        """Python 2's list comprehensions bind their variables in the scope they are in."""
        self.generic_visit(node)
        if self.v < (3, 0):
            for g in node.generators:
                if isinstance(g.target, ast.Name) and not g.target.id.startswith("_"):
                    self.n += 1
                    tmp = "_lc_%d" % self.n
                    bind = ast.NamedExpr(target=g.target, value=ast.Name(tmp, ast.Load()))
                    g.target = ast.Name(tmp, ast.Store())
                    g.ifs.insert(0, ast.List([bind], ast.Load()))
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if self.v < (3, 0) and node.name:
            self.n += 1
            tmp = "_exc_%d" % self.n
            node.body.insert(0, ast.Assign(targets=[ast.Name(node.name, ast.Store())], value=ast.Name(tmp, ast.Load())))
            node.name = tmp
        return node


class NoFormatFold(ast.NodeTransformer):
    """Keep '%s' % (x,) an operation: CPython makes f-strings of it, which call __str__ in another order."""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.right, ast.Tuple):
            node.left = ast.Subscript(ast.List([node.left], ast.Load()), ast.Constant(0), ast.Load())
        return node


def _special(t, name):
    for c in t.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]


def py2div(a, b):
    """Python 2's `a / b`: the right operand's __rdiv__ goes first if its class derives from the left one's and has
    an __rdiv__ of its own, and not at all if the classes are the same."""
    ta, tb = type(a), type(b)
    left, right = _special(ta, "__div__"), _special(tb, "__rdiv__")
    todo = [(left, a, b)]
    if tb is not ta and right is not None:
        first = issubclass(tb, ta) and right is not _special(ta, "__rdiv__")
        todo.insert(0 if first else 1, (right, b, a))
    for fn, p, q in todo:
        r = fn.__get__(p)(q) if fn is not None else NotImplemented
        if r is not NotImplemented:
            return r
    return a // b if isinstance(a, int) and isinstance(b, int) else a / b


def py2idiv(a, b):
    fn = _special(type(a), "__idiv__")
    r = fn.__get__(a)(b) if fn is not None else NotImplemented
    return py2div(a, b) if r is NotImplemented else r


def dict_vk(*a):
    d = {}
    for i in range(0, len(a), 2):
        d[a[i + 1]] = a[i]
    return d


def dict_pairs(l):
    return {k: v for v, k in l}


def lines_of(tb):
    """[(function, line)] of the entries of a traceback that belong to the program."""
    out = []
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename == "prog.py" and code.co_name not in ("<listcomp>", "<setcomp>", "<dictcomp>"):
            out.append((code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    return out


def ref_env(log, version, extra=None, ref_extra=None):
    env = base_env(log, extra, builtins=py2ref.builtins_module() if version < (3, 0) else None)
    env.update({"__py2div__": py2div, "__py2idiv__": py2idiv, "__dict_vk__": dict_vk, "__dict_pairs__": dict_pairs})
    if ref_extra:
        env.update(ref_extra)
    return env


def ref_compile(source, version, rewrite=None):
    tree = ast.parse(source)
    if rewrite is not None:
        tree = rewrite.visit(tree)
        ast.fix_missing_locations(tree)
    if version < (3, 11):
        tree = NoFormatFold().visit(tree)
        ast.fix_missing_locations(tree)
    if version < (3, 8):
        tree = RefRewrite(version, version < (3, 0) and "import division" not in source,
                          version < (3, 0) and "__metaclass__" in source).visit(tree)
        ast.fix_missing_locations(tree)
    return compile(tree, "prog.py", "exec", dont_inherit=True)


def run_ref(source, target, extra=None, timeout=10, ref_extra=None, rewrite=None):
    version, impl = TARGETS[target]
    o = Outcome()
    env = ref_env(o.log, version, extra, ref_extra)
    skip = set(env)
    try:
        code = ref_compile(source, version, rewrite)
    except SyntaxError:           # what the reference makes of it goes over CPython's limits
        o.timeout = True
        return o
    buf = io.StringIO()
    try:
        with time_limit(timeout), contextlib.redirect_stdout(buf):
            exec(code, env)
            o.rc = 0
    except Timeout:
        o.timeout = True
    except LogFull:
        o.timeout = True
    except RecursionError:
        o.exc = ["RecursionError", None]
    except BaseException as e:
        o.exc = exc_desc(type(e), e, None)
        o.tb, o.val = lines_of(e.__traceback__), e
    o.stdout = buf.getvalue()
    o.log = list(o.log)       # what finalizers log later is not judged
    o.globals = canon_globals(env, skip)
    return o


def compile_for(source, target, opt=None, filename="prog.py"):
    version, impl = TARGETS[target]
    if target == NATIVE:
        return compile(source, filename, "exec", dont_inherit=True)
    if version == (3, 11):
        return compile311(source, filename)
    return Compiler(version, impl is PYPY, filename, opt).compile(source)


def diff(ref, x, check_globals=True, check_stdout=True, exc_args=False):
    """Return a description of the first disagreement, or None."""
    if ref.timeout:
        return None
    if x.timeout:
        return "no termination (reference terminates)"
    n = min(len(ref.log), len(x.log))
    for i in range(n):
        if ref.log[i] != x.log[i]:
            return "event %d: expected %r, observed %r" % (i, ref.log[i], x.log[i])
    if len(ref.log) != len(x.log):
        k = n
        return "event count: expected %d, observed %d; first extra/missing: %r" % (
            len(ref.log), len(x.log), (ref.log[k] if len(ref.log) > k else x.log[k]))
    re, xe = ref.exc, x.exc
    if (re is None) != (xe is None):
        return "outcome: expected %r, observed %r" % (re, xe)
    if re is not None:
        if re[0] != xe[0]:
            return "uncaught exception: expected %r, observed %r" % (re, xe)
        if exc_args and re[1] is not None and xe[1] is not None and re[1] != xe[1]:
            return "uncaught exception args: expected %r, observed %r" % (re, xe)
    if check_stdout and ref.stdout != x.stdout:
        return "stdout: expected %r, observed %r" % (ref.stdout[-300:], x.stdout[-300:])
    if check_globals and ref.globals != x.globals:
        for k in sorted(set(ref.globals) | set(x.globals)):
            a, b = ref.globals.get(k, "<absent>"), x.globals.get(k, "<absent>")
            if a != b:
                return "global %s: expected %r, observed %r" % (k, a, b)
    return None
