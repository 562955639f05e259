"""Import statements in every form over a generated package tree."""

TREE = "zpkg"


def tree(g):
    """{path: source}; modules log through zlog (a module the harness plants)."""
    files = {}

    def mod(path, name, extra=""):
        attrs = g.r.sample(["a", "b", "_hid", "val", "fn", "deep"], g.k(2, 5))
        src = "import zlog\nzlog.T('import', __name__)\n" + extra
        for a in attrs:
            if a == "fn":
                src += "def fn(x=1): return (__name__, x)\n"
            else:
                src += "%s = ('%s', '%s')\n" % (a, name, a)
        if g.p(0.3):
            src += "__all__ = %r\n" % (g.r.sample(attrs, g.k(1, len(attrs))) + (["nope"] if g.p(0.1) else []),)
        if g.p(0.12):
            src += "def __dir__(): return %r\n" % (g.r.sample(["a", "val", "zz", "_hid", "__name__"], g.k(0, 3)),)
        if g.p(0.12):
            src += ("def __getattr__(n):\n    zlog.T('getattr', n)\n    if n in ('zz', 'nope', 'm3'): return '%s dyn'\n"
                    "    raise AttributeError(n)\n" % name)
        if g.p(0.06):
            src += "__all__ = %s\n" % g.pick("['a', 3]", "('zlog',)", "'a'", "[]", "None", "['zlog', None]")
        if path == "ztop.py" and g.p(0.3):
            src += g.pick("class O(object):\n    k = 5\n    def __init__(self): self.a = 1; self._b = 2\n",
                          "class O(object):\n    __slots__ = ('a',)\n    def __init__(self): self.a = 1\n",
                          "class O(object):\n    __all__ = ['a', 'p']\n    a = 3\n    p = property(lambda s: zlog.T('p'))\n")
            src += "import sys\nsys.modules[__name__] = O()\n"
        if g.p(0.06):
            src += "raise %s('in module')\n" % g.pick("ValueError", "ImportError", "KeyError")
        files[path] = src

    mod(TREE + "/__init__.py", "zpkg", g.pick("", "", "from zpkg import m1\n", "from . import m2\n"))
    for m in ("m1", "m2"):
        mod(TREE + "/%s.py" % m, m, g.pick("", "", "import zpkg.sub\n", "from .sub import m3\n"))
    mod(TREE + "/sub/__init__.py", "sub")
    for m in ("m3", "m4"):
        mod(TREE + "/sub/%s.py" % m, m, g.pick("", "from .. import m1\n", "from zpkg.sub import m3 as other\n" if m == "m4" else ""))
    # the names of modules the machine knows itself
    mod(TREE + "/sub/sys.py", "sub.sys")
    mod(TREE + "/inspect.py", "zpkg.inspect")
    mod("ztop.py", "ztop")
    return files


def imp(g, s):
    """An import statement and the names it binds."""
    mods = ["zpkg", "zpkg.m1", "zpkg.m2", "zpkg.sub", "zpkg.sub.m3", "zpkg.sub.m4", "ztop", "znone", "zpkg.znone", "zpkg.m1.q",
            "zpkg.sub.sys", "zpkg.inspect"]
    names = ["a", "b", "val", "fn", "deep", "_hid", "m1", "m2", "sub", "m3", "zz"]
    c = g.weighted([(3, "import"), (2, "as"), (2, "multi"), (4, "from"), (2.5 if s["rel"] and g.since(2, 5) else 0, "rel"),
                    (1.5 if s["module"] else 0, "star"), (0.8 if s["rel"] and s["module"] and g.since(2, 5) else 0, "relstar"), (0.7, "std"), (0.6, "dunder")])
    if c == "import":
        m = g.of(mods)
        return "import %s" % m, [m.split(".")[0], m]
    if c == "as":
        m = g.of(mods)
        return "import %s as x1" % m, ["x1"]
    if c == "multi":
        a, b = g.of(mods), g.of(mods)
        return "import %s, %s as x2" % (a, b), [a.split(".")[0], "x2"]
    if c == "from":
        ns = g.r.sample(names, g.k(1, 3))
        return "from %s import %s" % (g.of(mods), ", ".join(n + g.pick("", "", " as y%d" % i) for i, n in enumerate(ns))), ns + ["y0", "y1", "y2"]
    if c == "rel":
        ns = g.r.sample(names + ["sys"], g.k(1, 2))
        return "from %s import %s" % (g.pick(".", ".", "..", ".m1", ".sub", "..m2", "...", ".m3", "..sub.m4", ".sub.m3", ".sys", ".sys", ".sub.sys", "..inspect", "..sub.sys"), ", ".join(ns)), ns
    if c == "star":
        return "from %s import *" % g.of(mods), g.r.sample(names, 3) + g.r.sample(["zlog", "k", "p", "a", "_b"], 2)
    if c == "relstar":
        return "from %s import *" % g.pick(".", ".m1", ".sub"), names
    if c == "std":
        m = g.pick("os.path", "math", "xml.dom", "string", "collections")
        return g.pick("import %s as x3", "from %s import %s as x3" if 0 else "import %s as x3") % m, []
    return g.pick("x4 = __import__('zpkg.sub.m3')", "x4 = __import__('zpkg.m1', fromlist=['a'])"), ["x4"]


def use(g, names):
    for n in names:
        with g.block("try:"):
            g.log("'%s'" % n, "show(%s)" % n)
        with g.block("except (NameError, AttributeError) as _e:"):
            g.log("type(_e).__name__")


def stmts(g, s, k):
    for _ in range(k):
        text, names = imp(g, s)
        with g.block("try:"):
            g.w(text)
            g.log("'done'")
        with g.block("except Exception as _e:"):
            g.log("type(_e).__name__")
        use(g, names[:4])


def make(g):
    g.files = tree(g)
    g.rel = g.p(0.5)
    with g.block("def show(v):"):
        g.w("n = getattr(v, '__name__', None)")
        g.w("return n or v")
    s = {"rel": g.rel, "module": 1}
    stmts(g, s, g.k(3, 6))
    for i in range(g.k(1, 2)):
        with g.block("def f%d(a=1):" % i):
            stmts(g, dict(s, module=0), g.k(1, 3))
            if g.p(0.4):
                g.w("def inner(): return m1")
                g.w("import zpkg.m1 as m1")
                g.log("show(inner())")
        with g.block("try:"):
            g.w("f%d()" % i)
        g.catch()
    with g.block("class K(object):"):
        stmts(g, dict(s, module=0), g.k(1, 2))
    with g.block("for _n in ('a', 'b', 'val', 'fn', 'deep', '_hid', 'm1', 'sub', 'zpkg', 'ztop', 'x1', 'x2'):"):
        g.log("_n", "show(globals().get(_n, 'unset'))", "_n in vars(K)")
