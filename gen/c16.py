"""Functions and methods as objects: a pool of them whose attributes are read, replaced and deleted, that are called, bound,
compared, stored and wrapped, in random histories."""

ATTRS = ["u", "v", "w"]


def signature(g):
    ps = []
    n = g.k(0, 3)
    nd = g.k(0, n)
    for i in range(n):
        ps.append("abc"[i] + ("=%d" % g.k(10, 99) if i >= n - nd else ""))
    star = g.p(0.25)
    kwo = []
    if not g.py2 and g.p(0.3):
        kwo = ["k%s" % ("=%d" % g.k(100, 199) if g.p(0.6) else "")]
        if g.p(0.5):
            kwo.append("l=%d" % g.k(200, 299))
    if star:
        ps.append("*r")
    elif kwo:
        ps.append("*")
    ps += kwo
    if g.p(0.2):
        ps.append("**q")
    names = ["abc"[i] for i in range(n)] + (["r"] if star else []) + [x.split("=")[0] for x in kwo]
    if ps and ps[-1] == "**q":
        names.append("sorted(q.items())")
    return ", ".join(ps), "(" + "".join(x + ", " for x in names) + ")"


def make_functions(g):
    pool = []
    for i in range(g.k(2, 4)):
        n = "f%d" % i
        s, names = signature(g)
        kind = g.weighted([(4, "def"), (1, "lambda"), (1.2, "gen")])
        if kind == "lambda":
            g.w("%s = lambda %s: ('%s', %s)" % (n, s, n, names))
        else:
            ann = ""
            if not g.py2 and g.p(0.3):
                ann = " -> %d" % g.k(1, 9)
            with g.block("def %s(%s)%s:" % (n, s, ann)):
                if g.p(0.4):
                    g.w("'doc of %s'" % n)
                if kind == "gen":
                    g.w("_got = yield ('%s', %s)" % (n, names))
                    g.w("yield _got")
                else:
                    g.w("return ('%s', %s)" % (n, names))
        pool.append(n)
    for i in range(g.k(1, 2)):
        with g.block("def mk%d(x, y):" % i):
            s, names = signature(g)
            with g.block("def one(%s):" % s):
                g.w("return ('one%d', x, %s)" % (i, names))
            with g.block("def two():"):
                g.w("return ('two%d', x, y)" % i)
            with g.block("def three(z=0):"):
                if g.py2:
                    g.w("return ('three%d', x, z)" % i)
                else:
                    g.w("nonlocal x")
                    g.w("x = (x, z)")
                    g.w("return ('three%d', x)" % i)
            g.w("return one, two, three")
        g.w("c%d, t%d, s%d = mk%d(%d, %d)" % (i, i, i, i, g.k(1, 9), g.k(1, 9)))
        pool += ["c%d" % i, "t%d" % i, "s%d" % i]
    with g.block("class A(object):"):
        s, names = signature(g)
        with g.block("def m(self%s):" % (", " + s if s else "")):
            g.w("'doc of m'")
            g.w("return ('m', self.n, %s)" % names)
        with g.block("def __init__(self, n):"):
            g.w("self.n = n")
        with g.block("def __eq__(self, o):"):
            g.w("return isinstance(o, A)")
        with g.block("def __hash__(self):"):
            g.w("return 7")
        if g.p(0.4):
            with g.block("def %s(self):" % g.pick("__len__", "__nonzero__" if g.py2 else "__bool__")):
                g.w(g.pick("return self.n > 1", "return False"))
        with g.block("def __repr__(self):"):
            g.w("return 'A(%r)' % self.n")
    g.w("A.plain = A.__dict__['m']")
    g.w("a = A(1)")
    g.w("b = A(2)")
    return pool


def args(g):
    xs = [str(g.k(0, 9)) for _ in range(g.weighted([(3, 0), (3, 1), (3, 2), (1, 3), (0.4, 4)]))]
    if g.p(0.25):
        xs.append("%s=%d" % (g.pick("a", "b", "c", "k", "l", "zz"), g.k(20, 29)))
    return ", ".join(xs)


def attempt(g, *lines):
    with g.block("try:"):
        for x in lines:
            g.w(x)
    with g.block("except Exception as _e:"):
        g.w("T(%d, type(_e).__name__)" % g.tag())


def op(g, pool):
    f, h = g.of(pool), g.of(pool)
    dunder = g.since(2, 6)
    c = g.weighted([
        (5, "call"), (2 if dunder else 0, "defaults"), (1.2 if not g.py2 else 0, "kwdefaults"), (2 if dunder else 0, "code"),
        (1, "name"), (1, "doc"), (1.5, "attr"), (0.8 if not g.py2 else 0, "ann"), (1 if dunder else 0, "read"),
        (1, "get"), (2, "bound"), (1, "methattr"), (1, "asmethod"), (1, "wrap"), (0.7, "eq"), (0.6 if dunder else 0, "codeattrs"),
        (1 if dunder else 0, "closure"), (0.5, "dcall"), (0.5, "odd"), (1, "genobj"), (0.5, "later"), (0.4, "copy"),
        (0.4 if g.native and g.since(3, 12) else 0, "sig"), (0.4 if g.since(3, 3) else 0, "qualname")])
    if c == "call":
        attempt(g, "_v = %s(%s)" % (f, args(g)), "T(%d, show(_v))" % g.tag())
    elif c == "defaults":
        v = g.weighted([(3, "(%d,)" % g.k(300, 399)), (2, "(%d, %d)" % (g.k(300, 399), g.k(400, 499))), (1, "None"), (1, "()"),
                        (0.6, "[1]"), (0.4, "5"), (1, "%s.__defaults__" % h), (1, "del")])
        if g.p(0.15):
            f = "A.__dict__['m']"
        attempt(g, "del %s.__defaults__" % f if v == "del" else "%s.__defaults__ = %s" % (f, v),
                "T(%d, %s.__defaults__)" % (g.tag(), f), "T(%d, show(%s(%s)))" % (g.tag(), f, args(g)))
    elif c == "kwdefaults":
        v = g.weighted([(3, "{'k': %d}" % g.k(500, 599)), (1, "{'k': 1, 'l': 2, 'zz': 3}"), (1, "None"), (1, "{}"), (0.5, "7"),
                        (1, "%s.__kwdefaults__" % h), (1, "del"), (1, "item")])
        line = "%s.__kwdefaults__ = %s" % (f, v)
        if v == "del":
            line = "del %s.__kwdefaults__" % f
        elif v == "item":
            line = "%s.__kwdefaults__['k'] = %d" % (f, g.k(600, 699))
        attempt(g, line, "T(%d, %s.__kwdefaults__)" % (g.tag(), f), "T(%d, show(%s(%s)))" % (g.tag(), f, args(g)))
    elif c == "code":
        v = g.weighted([(5, "%s.__code__" % h), (1, "A.__dict__['m'].__code__"), (0.5, "5"), (0.3, "None")])
        attempt(g, "%s.__code__ = %s" % (f, v), "T(%d, %s.__code__ is %s, %s.__name__, %s.__code__.co_name)" % (g.tag(), f, v, f, f))
        attempt(g, "T(%d, show(%s(%s)))" % (g.tag(), f, args(g)))
    elif c == "name":
        attempt(g, "%s.__name__ = %s" % (f, g.pick("'n%d'" % g.k(1, 9), "'n%d'" % g.k(1, 9), "5", "None")),
                "T(%d, %s.__name__)" % (g.tag(), f))
        attempt(g, "T(%d, %s.__name__, %s.__name__)" % (g.tag(), f, h))
    elif c == "doc":
        if g.p(0.5):
            attempt(g, "%s.__doc__ = %s" % (f, g.pick("'new'", "3", "None")))
        g.log("%s.__doc__" % f, "%s.__module__" % h, "a.m.__doc__")
    elif c == "attr":
        n = g.of(ATTRS)
        attempt(g, g.pick("%s.%s = %d" % (f, n, g.k(1, 99)), "del %s.%s" % (f, n), "setattr(%s, '%s', [%s.%s])" % (f, n, h, n),
                          "%s.__dict__['%s'] = %d" % (f, n, g.k(1, 99)), "%s.%s += 1" % (f, n)))
        attempt(g, "T(%d, hasattr(%s, '%s'), hasattr(%s, '%s'), %s.%s)" % (g.tag(), h, n, f, n, f, n))
    elif c == "ann":
        attempt(g, g.pick("%s.__annotations__ = {'a': %d}" % (f, g.k(1, 9)), "%s.__annotations__['b'] = %d" % (f, g.k(1, 9)),
                          "%s.__annotations__ = None" % f, "%s.__annotations__ = 4" % f, "del %s.__annotations__" % f))
        g.log("sorted(%s.__annotations__.items())" % f, "sorted(%s.__annotations__.items())" % h)
    elif c == "read":
        g.log("%s.__name__" % f, "%s.__defaults__" % f, "%s.__globals__ is globals()" % f, "%s.__module__" % f,
              "%s.__closure__ is None" % f)
    elif c == "get":
        if g.p(0.5):
            attempt(g, "_m = %s.__get__(%s)" % (f, g.pick("a", "b, A", "5", "[1], list", "None")),
                    "T(%d, show(_m(%s)))" % (g.tag(), args(g)))
        else:
            g.log("%s.__get__(a).__self__ is a" % f, "%s.__get__(a, A) == %s.__get__(a)" % (f, f),
                  "%s.__get__(a) == %s.__get__(b)" % (f, h), "%s.__get__(a) is %s.__get__(a)" % (f, f))
    elif c == "bound":
        w = g.k(0, 3)
        if w == 0:
            g.w("bm = a.m")
            attempt(g, "A.m = %s" % f, "T(%d, show(a.m(%s)))" % (g.tag(), args(g)))
            attempt(g, "T(%d, show(bm(%s)))" % (g.tag(), args(g)))
            g.w("A.m = A.__dict__['plain']")
        elif w == 1:
            attempt(g, "T(%d, show(%s.m(%s)))" % (g.tag(), g.pick("a", "b"), args(g)))
        elif w == 2:
            g.log("len(set([a.m, b.m, a.m, a.plain]))", "a.m == b.m", "a.m == a.m", "hash(a.m) == hash(a.m)", "a.m == a.plain",
                  "a.m != b.m", "a.m == %s" % f)
        else:
            attempt(g, "T(%d, show(A.m(%s%s)))" % (g.tag(), g.pick("a", "a", "b"), ", " + args(g)))
    elif c == "methattr":
        attempt(g, g.pick("a.m.u = 1", "a.m.__name__ = 'x'", "del a.m.u", "a.m.__self__ = b", "A.__dict__['m'].u = %d" % g.k(1, 9), "a.m.nothing"))
        attempt(g, "T(%d, a.m.__name__, a.m.__module__, a.m.u)" % g.tag())
        if dunder:
            g.log("a.m.__func__ is A.__dict__['m']", "a.m.__self__ is a", "a.m.__defaults__" if not g.py2 else "0")
    elif c == "asmethod":
        w = g.pick("A.n_ = %s" % f, "a.n_ = %s" % f, "A.n_ = staticmethod(%s)" % f, "A.n_ = classmethod(%s)" % f,
                   "A.n_ = property(%s)" % f, "A.n_ = a.m")
        attempt(g, w, "_v = a.n_", "T(%d, show(_v) if %s else show(_v(%s)))" % (g.tag(), "property" in w, args(g)))
        attempt(g, "del A.n_")
        attempt(g, "del a.n_")
    elif c == "wrap":
        k = g.k(0, 2)
        if k == 0:
            attempt(g, "_p = functools.partial(%s, %s)" % (f, args(g) or "1"), "T(%d, show(_p(%s)), _p.func is %s)" % (g.tag(), args(g), f))
        elif k == 1:
            with g.block("def wrapper(*p, **q):"):
                g.w("return ('wrapped', show(%s(*p, **q)))" % f)
            attempt(g, "wrapper = functools.update_wrapper(wrapper, %s)" % f,
                    "T(%d, wrapper.__name__, wrapper.__doc__, [getattr(wrapper, n, 0) for n in ('u', 'v', 'w')])" % g.tag(),
                    "T(%d, wrapper(%s))" % (g.tag(), args(g)))
        else:
            attempt(g, "T(%d, [show(x) for x in map(%s, [1, 2])])" % (g.tag(), f))
    elif c == "eq":
        g.log("%s == %s" % (f, h), "%s != %s" % (f, h), "%s is %s" % (f, h), "{%s: 1}.get(%s)" % (f, h), "bool(%s)" % f,
              "callable(%s)" % f, "hash(%s) == hash(%s)" % (f, f))
    elif c == "codeattrs":
        co = "%s.__code__" % f
        g.log("%s.co_name" % co, "%s.co_argcount" % co, "%s.co_varnames[:%s.co_argcount]" % (co, co), "%s.co_freevars" % co,
              "%s.co_flags & 44" % co)
    elif c == "closure":
        k = g.k(0, 3 if g.since(3, 7) else 2)
        if k == 0:
            attempt(g, "T(%d, [x.cell_contents for x in %s.__closure__])" % (g.tag(), f))
        elif k == 1:
            attempt(g, "T(%d, len(%s.__closure__), %s.__closure__[0] is %s.__closure__[0])" % (g.tag(), f, f, h))
        elif k == 2:
            attempt(g, "%s.__closure__ = %s" % (f, g.pick("None", "%s.__closure__" % h)), "T(%d, 'set')" % g.tag())
        else:
            attempt(g, "%s.__closure__[0].cell_contents = %d" % (f, g.k(700, 799)), "T(%d, show(%s()))" % (g.tag(), h))
    elif c == "dcall":
        attempt(g, "T(%d, show(%s.__call__(%s)))" % (g.tag(), g.pick(f, "a.m"), args(g)))
    elif c == "odd":
        attempt(g, "T(%d, %s)" % (g.tag(), g.pick("len(%s)", "%s + 1", "[x for x in %s]", "%s[0]", "-%s", "'x' in %s", "%s.nothing",
                                                  "int(%s)") % f))
        if not g.py2:
            attempt(g, "%s.__globals__ = {}" % f, "T(%d, 'set')" % g.tag())
    elif c == "genobj":
        attempt(g, "_g = %s(%s)" % (f, args(g)), "T(%d, next(_g), hasattr(_g, 'gi_frame'))" % g.tag(),
                "T(%d, _g.gi_running, _g.gi_frame is None, _g.gi_code is %s.__code__%s)" % (
                    g.tag(), f, ", _g.__name__" if g.since(3, 5) else "") if dunder else "T(0)",
                "T(%d, _g.send('x'))" % g.tag() if g.since(2, 5) else "T(0)", "T(%d, next(_g))" % g.tag())
        if dunder:
            attempt(g, "T(%d, _g.gi_frame is None, _g.gi_running)" % g.tag())
    elif c == "later":
        g.w("_saved = %s" % f)
        g.w("%s = %s" % (f, h))
        attempt(g, "T(%d, show(_saved(%s)), _saved.__name__, show(%s(%s)))" % (g.tag(), args(g), f, args(g)))
        g.w("%s = _saved" % f)
    elif c == "copy":
        g.log("copy.copy(%s) is %s" % (f, f), "copy.deepcopy(%s) is %s" % (f, f), "copy.deepcopy([%s, %s])[0] is %s" % (f, h, f))
    elif c == "sig":
        attempt(g, "T(%d, str(inspect.signature(%s)))" % (g.tag(), f))
    elif c == "qualname":
        attempt(g, "%s.__qualname__ = 'q%d'" % (f, g.k(1, 9)))
        g.log("%s.__qualname__" % f, "a.m.__qualname__", "%s.__name__" % f)


def make(g):
    for m in ("copy", "functools", "inspect"):
        g.w("import %s" % m)
    with g.block("def show(v):"):
        with g.block("if hasattr(v, 'send'):"):
            g.w("return ('gen', list(v))")
        g.w("return v")
    pool = make_functions(g)
    for _ in range(g.k(12, 24)):
        op(g, pool)
