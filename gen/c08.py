"""Classes: bodies, inheritance and the order of resolution, super(), metaclasses, decorators, descriptors, special methods."""

ATTR = ["p", "q", "r_", "m", "n"]


def cls_body(g, name, idx, bases, meta):
    had = set()
    if g.p(0.3):
        g.w("'''doc of %s'''" % name)
    for _ in range(g.k(1, 6)):
        c = g.weighted([(3, "attr"), (4, "method"), (1.5, "super"), (1, "static"), (1, "classm"), (1, "prop"), (0.7, "deco"),
                        (0.6, "loop"), (0.6, "nested"), (0.8, "special"), (0.7, "init"), (0.5, "closure"), (0.5, "private"),
                        (0.4, "descr"), (0.4, "lambda"), (0.5 if not g.py2 else 0, "classcell"), (0.4, "usebody"),
                        (0.3, "gen"), (0.3, "del"), (0.3 if g.since(3, 6) else 0, "ann"), (0.3, "getattr"), (0.3, "cond"),
                        (0.25, "slots"), (0.4 if g.since(3, 6) else 0, "setname"), (0.3, "comp")])
        a = g.of(ATTR)
        if c == "attr":
            g.w("%s = %s" % (a, g.pick("%d" % g.k(1, 99), "'%s.%s'" % (name, a), "T(%d, %d)" % (g.tag(), g.k(1, 9)), "[%d]" % idx)))
        elif c == "method":
            with g.block("def %s(self, x=0, *a):" % a):
                g.log("'%s.%s'" % (name, a), "x")
                g.w("return %s" % g.pick("('%s', x)" % name, "x", "type(self).__name__", "self.tag(x)"))
        elif c == "super":
            with g.block("def %s(self, x=0):" % a):
                g.log("'%s.%s'" % (name, a))
                sup = "super(%s, self)" % name
                if not g.py2 and g.p(0.75):
                    sup = "super()"
                with g.block("try:"):
                    g.w("return ('%s', %s.%s%s)" % (name, sup, a, g.pick("(x)", "()", "", "(x + 1)")))
                with g.block("except (AttributeError, TypeError) as _e:"):
                    g.w("_r = ('%s', type(_e).__name__)" % name)
                g.w("return _r")
        elif c == "init":
            with g.block("def __init__(self, *a, **k):"):
                g.log("'%s.init'" % name, "len(a)")
                g.w("%s.__init__()" % ("super()" if not g.py2 and g.p(0.7) else "super(%s, self)" % name))
                g.w("self.%s_i = a" % name)
        elif c == "static":
            g.w("@staticmethod")
            g.w("def %s(x=1): return ('static', '%s', x)" % (a, name))
        elif c == "classm":
            g.w("@classmethod")
            with g.block("def %s(cls, x=2):" % a):
                if g.p(0.4):
                    with g.block("try:"):
                        g.w("return ('cm', cls.__name__, %s.%s())" % ("super()" if not g.py2 else "super(%s, cls)" % name, a))
                    with g.block("except (AttributeError, TypeError) as _e:"):
                        g.w("_r = type(_e).__name__")
                    g.w("return _r")
                else:
                    g.w("return ('class', cls.__name__, x)")
        elif c == "prop":
            g.w("@property")
            g.w("def %s(self): T(%d, 'get'); return ('prop', '%s')" % (a, g.tag(), name))
            if g.p(0.5) and g.since(2, 6):
                g.w("@%s.setter" % a)
                g.w("def %s(self, v): T(%d, 'set', v)" % (a, g.tag()))
        elif c == "deco":
            g.w("@deco(%d)" % g.tag())
            if g.p(0.4):
                g.w("@deco(%d)" % g.tag())
            g.w("def %s(self): return 'decorated'" % a)
        elif c == "loop":
            v = "_i" if g.py2 else "_i"
            with g.block("for %s in range(2):" % v):
                g.w("%s = ('loop', %s)" % (a, v))
            g.w("del %s" % v)
        elif c == "cond":
            with g.block("if %s:" % g.pick("0", "idx_%d" % idx, "not 0")):
                g.w("%s = 'if'" % a)
            with g.block("else:"):
                g.w("%s = 'else'" % a)
        elif c == "nested":
            with g.block("class Inner%s:" % ("(object)" if g.py2 else "")):
                g.w("%s = '%s.Inner'" % (a, name))
                g.w("def who(self): return '%s'" % name)
        elif c == "special":
            d, body = g.pick(
                ("__len__(self)", "return 3"), ("__getitem__(self, i)", "return (i, '%s')[i]" % name),
                ("__call__(self, *a)", "return ('called', '%s', a)" % name), ("__eq__(self, o)", "return type(o) is type(self)"),
                ("__add__(self, o)", "return ('add', '%s')" % name), ("__iter__(self)", "yield '%s'" % name),
                ("__contains__(self, x)", "return x == 1"), ("__repr__(self)", "return '<%s>'" % name),
                ("__hash__(self)", "return 5"))
            g.w("def %s: %s" % (d, body))
        elif c == "closure":
            g.w("def %s(self): return (outer_%d, '%s')" % (a, idx, name))
        elif c == "private":
            g.w("__priv = '%s'" % name)
            g.w("def getpriv%s(self): return self.__priv" % name)
        elif c == "descr":
            g.w("%s = Desc('%s')" % (a, name))
        elif c == "lambda":
            g.w("%s = lambda self, k=%d: (k, '%s')" % (a, g.k(1, 9), name))
        elif c == "classcell":
            g.w("def %s(self): return __class__.__name__" % a)
        elif c == "usebody":
            g.w("%s = 5" % a)
            g.w("%s2 = %s + 1" % (a, a))
        elif c == "gen":
            with g.block("def %s(self):" % a):
                g.w("yield '%s'" % name)
                g.w("yield self is not None")
        elif c == "del":
            g.w("tmp_ = 1")
            g.w("del tmp_")
        elif c == "ann":
            g.w("%s: int = 4" % a)
        elif c == "getattr":
            with g.block("def __getattr__(self, name):"):
                g.w("if name[:1] == '_': raise AttributeError(name)")
                g.w("return ('dyn', name, '%s')" % name)
        elif c == "slots":
            g.w("tag2 = '%s'" % name)
        elif c == "setname":
            g.w("%s = SetName()" % a)
        elif c == "comp":
            g.w("%s = %s" % (a, "[x * 2 for x in (1, 2)]" if not g.py2 else "list(x * 2 for x in (1, 2))"))


def make(g):
    with g.block("def deco(k):"):
        with g.block("def inner(f):"):
            g.w("T('deco', k, callable(f))")
            g.w("return %s" % g.pick("f", "lambda *a: ('wrapped', k, f(*a))", "lambda *a: ('wrapped', k, f(*a))"))
        g.w("return inner")
    with g.block("def cdeco(c):"):
        g.w("T('cdeco', c.__name__)")
        g.w("c.decorated = c.__name__")
        g.w("return c")
    with g.block("class Desc(object):"):
        g.w("def __init__(self, n): self.n = n")
        g.w("def __get__(self, o, t): T('desc', o is None); return ('desc', self.n)")
        if g.p(0.5):
            g.w("def __set__(self, o, v): T('descset', v)")
    if g.since(3, 6):
        with g.block("class SetName(object):"):
            g.w("def __set_name__(self, o, n): T('setname', o.__name__, n); self.nn = n")
            g.w("def __get__(self, o, t): return ('sn', self.nn)")
    with g.block("class Root(object):"):
        g.w("def tag(self, x): return ('tag', x)")
        g.w("def __init__(self, *a, **k): T('Root.init'); object.__init__(self)")
        if g.p(0.3):
            g.w("def %s(self): return T('false', False)" % ("__nonzero__" if g.py2 else "__bool__"))
        if g.since(3, 6) and g.p(0.5):
            with g.block("def __init_subclass__(cls, **k):"):
                g.w("T('init_subclass', cls.__name__, sorted(k))")
                g.w("super().__init_subclass__()")
    metas = []
    if not g.py2 and g.p(0.7):
        with g.block("class Meta(type):"):
            if g.p(0.6):
                with g.block("def __new__(mcs, name, bases, ns, **k):"):
                    g.w("T('Meta.new', name, [_c1.__name__ for _c1 in bases], sorted(x for x in ns if x[:2] != '__'), sorted(k))")
                    g.w("return super().__new__(mcs, name, bases, dict(ns))" if g.p(0.5) else
                        "return type.__new__(mcs, name, bases, dict(ns))")
            if g.p(0.5):
                with g.block("def __init__(cls, name, bases, ns, **k):"):
                    g.w("T('Meta.init', name, sorted(k))")
                    g.w("super().__init__(name, bases, ns)")
            else:
                g.w("def __init__(cls, name, bases, ns, **k): pass")
            if g.p(0.5):
                g.w("@classmethod")
                with g.block("def __prepare__(mcs, name, bases, **k):"):
                    g.w("T('prepare', name, sorted(k))")
                    g.w("return %s" % g.pick("{}", "{'prepared': 1}"))
            if g.p(0.4):
                g.w("def __call__(cls, *a, **k): T('Meta.call', cls.__name__); return type.__call__(cls, *a, **k)")
            g.w("def mm(cls): return ('mm', cls.__name__)")
        metas.append("Meta")
        if g.p(0.5):
            with g.block("class Meta2(Meta):"):
                with g.block("def __init__(cls, name, bases, ns, **k):"):
                    g.w("T('Meta2.init', name)")
                    g.w("super().__init__(name, bases, ns)")
                if g.p(0.4):
                    g.w("@classmethod")
                    g.w("def __prepare__(mcs, name, bases, **k): T('prepare2', name); return {'prepared': 2}")
            metas.append("Meta2")
        if g.p(0.2):
            with g.block("class Meta3(type):"):
                g.w("def __new__(mcs, name, bases, ns, **k): T('Meta3.new', name); return type.__new__(mcs, name, bases, dict(ns))")
                g.w("def __init__(cls, name, bases, ns, **k): pass")
            metas.append("Meta3")
    mixins = []
    for i in range(g.k(0, 4)):
        m = "M%d" % i
        with g.block("class %s(%s):" % (m, "object" if not metas or g.p(0.4) else "metaclass=%s" % g.of(metas))):
            g.w("%s = '%s'" % (g.of(ATTR), m))
        mixins.append(m)
    names = ["Root"]
    in_func = g.p(0.4)
    if in_func:
        g.w("def build():")
        g.ind += 1
    hasnew = metas and "def __new__" in "\n".join(g.out)
    for i in range(g.k(3, 6)):
        g.w("outer_%d = 'o%d'" % (i, i))
        g.w("idx_%d = %d" % (i, i % 2))
        n = "C%d" % i
        bases = g.r.sample(names, g.k(1, min(2, len(names))))
        if len(bases) == 2 and "Root" in bases:
            bases.remove("Root")
            bases.append("Root") if g.p(0.5) else None
        if mixins and g.p(0.4):
            bases += g.r.sample(mixins, g.k(1, len(mixins)))
            if g.p(0.4):
                g.r.shuffle(bases)
        kw = []
        if metas and g.p(0.4):
            kw.append("metaclass=%s" % g.of(metas))
        if g.since(3, 6) and g.p(0.2) and not kw:
            kw.append("opt=T(%d, 1)" % g.tag())
        with g.block("try:"):
            if g.p(0.25) and g.since(2, 6):
                g.w("@cdeco")
            with g.block("class %s(%s):" % (n, ", ".join([T_base(g, b) for b in bases] + kw))):
                cls_body(g, n, i, bases, kw)
            g.log("[_c1.__name__ for _c1 in %s.__mro__ if _c1 is not object]" % n)
            names.append(n)
        with g.block("except TypeError as _e:"):
            g.log("'TypeError'")
            g.w("%s = Root" % n)
    if in_func:
        g.w("return [%s]" % ", ".join(names))
        g.ind -= 1
        g.w("_classes = build()")
    else:
        g.w("_classes = [%s]" % ", ".join(names))
    with g.block("for _c in _classes:"):
        g.log("_c.__name__", "_c.__doc__ if 0 else 0" if g.since(2, 5) else "0")
        if g.since(3, 1):
            g.log("_c.__doc__ and _c.__doc__[:3] == 'doc'", "_c.__module__")
        with g.block("try:"):
            g.w("_o = _c(%s)" % g.pick("", "1", "1, k=2"))
        with g.block("except Exception as _e:"):
            g.log("type(_e).__name__")
            g.w("continue")
        with g.block("for _a in %r:" % (ATTR + ["p2", "q2", "decorated", "prepared", "mm", "nope", "tag2"],)):
            with g.block("try:"):
                g.w("_v = getattr(_o, _a)")
                with g.block("if callable(_v):"):
                    g.w("_v = _v()")
                    g.w("if hasattr(_v, '__next__'): _v = list(_v)")
                g.log("_a", "_v")
            with g.block("except Exception as _e:"):
                g.log("_a", "type(_e).__name__")
            if g.p(0.7):
                with g.block("try:"):
                    g.w("_v = getattr(_c, _a)")
                    g.w("if callable(_v) and _a != 'Inner': _v = %s" % g.pick("_v(_o)", "_v(_o, 5)", "_v()"))
                    g.w("if hasattr(_v, '__next__'): _v = list(_v)")
                    g.log("_a", "_v if not isinstance(_v, property) else 'property'" if g.since(2, 5) else "0")
                with g.block("except Exception as _e:"):
                    g.log("_a", "type(_e).__name__")
        for e in ("len(_o)", "_o[1]", "_o(1)", "_o == _o", "_o + 1", "list(_o)", "1 in _o", "repr(_o)[:3]", "hash(_o) == 5",
                  "_o.Inner().who()", "sorted(_k for _k in vars(_o))"):
            with g.block("try:"):
                g.log(e)
            with g.block("except Exception as _e:"):
                g.log("type(_e).__name__")
        with g.block("try:"):
            g.w("_o.%s = 9" % g.of(ATTR))
            g.w("del _o.%s" % g.of(ATTR))
            g.log("isinstance(_o, Root)", "issubclass(_c, Root)", "type(_o) is _c")
        with g.block("except Exception as _e:"):
            g.log("type(_e).__name__")


def T_base(g, b):
    return b if g.p(0.85) else "T(%d, %s)" % (g.tag(), b)
