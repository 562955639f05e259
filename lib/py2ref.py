"""Reference meaning (in today's Python) of the Python 2 statements our front end spells as calls."""
import sys


class _SoftSpace(object):
    def __init__(self):
        self.m = {}


def make(env_of_caller=None):
    soft = {}

    def __PRINT__(dest, nl, *items):
        f = sys.stdout if dest is None else dest
        k = id(f)
        for it in items:
            if soft.get(k):
                f.write(" ")
            s = str(it)
            f.write(s)
            # a string ending in newline (or other white space but blank) resets soft space
            soft[k] = not (isinstance(it, str) and s[-1:].isspace() and s[-1:] != " ")
        if nl:
            f.write("\n")
            soft[k] = False

    def __EXEC__(code, *ns):
        fr = sys._getframe(1)
        ns = [n for n in ns if n is not None]
        if not ns and isinstance(code, tuple) and len(code) in (2, 3):
            code, ns = code[0], [n for n in code[1:] if n is not None]
        if not ns:
            g, l = fr.f_globals, fr.f_locals
        elif len(ns) == 1:
            g = l = ns[0]
        else:
            g, l = ns[:2]
        exec(code, g, l)

    def __RAISE__(t, v=None, tb=None):
        if isinstance(t, type) and issubclass(t, BaseException):
            if isinstance(v, t):
                e = v
            elif v is None:
                e = t()
            elif isinstance(v, tuple):
                e = t(*v)
            else:
                e = t(v)
        else:
            e = t
        raise e

    def __META2__(name, bases, ns):
        """Python 2's build_class()."""
        g = sys._getframe(1).f_globals
        ns = dict(ns)
        if "__metaclass__" in ns:
            m = ns["__metaclass__"]
        elif bases:
            m = getattr(bases[0], "__class__", type(bases[0]))
        else:
            m = g.get("__metaclass__", type)
        ns.pop("__qualname__", None)
        return m(name, bases, ns)

    return {"__META2__": __META2__, "__PRINT__": __PRINT__, "__EXEC__": __EXEC__, "__RAISE__": __RAISE__, "__REPR__": repr}


def builtins_module():
    """The built-ins a Python 2 program finds, on top of the host's; written independently of the VM's own versions."""
    import builtins
    import functools
    import types

    def apply(f, args=(), kwargs={}):
        return f(*args, **kwargs)

    def cmp(a, b):
        if a == b:
            return 0
        return -1 if a < b else 1

    def coerce(a, b):
        for v in (a, b):
            if not isinstance(v, (int, float, complex)):
                raise TypeError("number coercion failed")
        if type(a) is type(b):
            return (a, b)
        c = 0 * a + 0 * b
        return (type(c)(a), type(c)(b))

    def execfile(path, *ns):
        fr = sys._getframe(1)
        if len(ns) > 2:
            raise TypeError("execfile expected at most 3 arguments")
        g = ns[0] if ns else fr.f_globals
        l = ns[1] if len(ns) > 1 else g if ns else fr.f_locals
        with open(path) as f:
            exec(f.read(), g, l)

    m = types.ModuleType("builtins")
    m.__dict__.update(builtins.__dict__)
    m.__dict__.update(apply=apply, cmp=cmp, coerce=coerce, execfile=execfile, reduce=functools.reduce, intern=sys.intern, long=int,
                      unichr=chr, unicode=str, basestring=str, xrange=range, raw_input=input, StandardError=Exception,
                      file=open, buffer=memoryview)
    return m
