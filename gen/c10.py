"""Python 2: print and its soft space, exec statement, classic division, old raise forms, backquotes, slices, leaking
list-comprehension and exception variables."""


def item(g):
    return g.pick("1", "'a'", "'line\\n'", "'tab\\t'", "'sp '", "''", "[1, 'x']", "None", "-3", "2.5", "(1,)", "f(%d, 4)" % g.tag(),
                  "P()", "'%s' % 3", "x")


def div(g, d=2):
    if d <= 0:
        return g.pick("%d" % g.k(1, 40), "-%d" % g.k(1, 40), "x", "y", "2.0", "0.5", "big", "True", "f(%d, 7)" % g.tag())
    return "(%s %s %s)" % (div(g, d - 1), g.pick("/", "/", "/", "//", "%", "+", "*", "-"), div(g, d - g.k(1, 2)))


def stmt(g, s):
    c = g.weighted([(4, "print"), (2, "printto"), (3, "div"), (1.5, "augdiv"), (2.5, "userdiv"), (1.5, "exec"), (2, "raise"), (1, "repr"), (2, "slice"),
                    (1, "leak"), (1, "excvar"), (0.5, "old"), (0.5, "call"), (0.7, "truth"), (0.6, "loop"), (0.8, "builtin"), (0.8, "meta")])
    with g.block("try:"):
        if c == "print":
            g.w("__PRINT__(%s)" % ", ".join(["None", g.pick("True", "True", "False")] + [item(g) for _ in range(g.k(0, 3))]))
        elif c == "printto":
            g.w("__PRINT__(%s)" % ", ".join([g.pick("_W1", "_W1", "_W2", "f(%d, _W1)" % g.tag()), g.pick("True", "True", "False")]
                                            + [item(g) for _ in range(g.k(0, 3))]))
        elif c == "div":
            g.log(div(g, g.k(1, 3)))
        elif c == "userdiv":
            a = "DV%d" % g.k(0, 99)
            base = g.pick("object", "object", "int", "float")
            val = "" if base == "object" else g.pick("7", "-3", "0")

            def meths(names):
                for m in names:
                    if g.p(0.6):
                        g.w("def __%s__(self, o):" % m)
                        g.w("    T(%d, %r)" % (g.tag(), m))
                        g.w("    return %s" % g.pick("'%s'" % m, "'%s'" % m, "NotImplemented", "NotImplemented", "1.5"))
            with g.block("class %s(%s):" % (a, base)):
                g.w("k = 1")
                meths(["div", "rdiv", "idiv"])
            b = a
            if g.p(0.7):
                b = a + "b"
                with g.block("class %s(%s):" % (b, g.pick(a, a, a, "object"))):
                    g.w("k = 2")
                    meths(["div", "rdiv", "idiv"])
            both = ["%s(%s)" % (n, val) for n in (a, b)]
            for _ in range(g.k(1, 3)):
                x, y = g.of(both + ["8", "2.5", "True"]), g.of(both + ["2", "0.5", "'s'"])
                if g.p(0.4):
                    g.w("x = %s" % x)
                    g.w("try:")
                    g.w("    x /= %s" % y)
                    g.w("    T(%d, isinstance(x, (str, int, float)) and x or type(x).__name__)" % g.tag())
                else:
                    g.w("try:")
                    g.w("    T(%d, %s / %s)" % (g.tag(), x, y))
                g.w("except (TypeError, ZeroDivisionError):")
                g.w("    T(%d, 'no')" % g.tag())
            g.w("x = 5")
        elif c == "augdiv":
            g.w("x = %s" % g.pick("9", "-9", "7.5", "2 ** 65", "0"))
            g.w("x %s= %s" % (g.pick("/", "/", "//", "%"), g.pick("2", "-4", "2.0", "7", "0", "y")))
            g.log("x")
        elif c == "exec":
            ns = g.pick("", "NS", "NS, NS", "NS, NS2", "None" if 0 else "NS")
            code = g.pick("q = 5", "q = 1\nr = q + 1", "def ff(): return 3\nq = ff()", "del q", "q += 1", "for q in range(3): pass")
            if s["func"] and g.p(0.3):
                # the frame's own names: what the code assigns globally can be seen, and locals and globals be read
                g.w("__EXEC__(%r, %s)" % (g.pick("global gq; gq = (x, len(globals()) > 3)", "global gq\ngq = ('x' in globals(), sorted(locals())[:1])",
                    "T(x, 'NS' in globals(), '__builtins__' in locals())", "T(sorted(_k for _k in globals() if _k in ('x', 'T', 'NS', 'f', 'y')), x)"),
                    g.pick("None", "None, None")))
                g.log("globals().get('gq')", "'gq' in locals()")
            else:
                if ns == "" and s["func"]:
                    ns = "NS"
                if ns and g.p(0.3):
                    g.w("__EXEC__((%r, %s))" % (code, ns))
                else:
                    g.w("__EXEC__(%r%s)" % (code, ", " + ns if ns else ""))
                if ns:
                    g.log("sorted(_k for _k in NS if _k[0] != '_')", "sorted(NS2.items())")
                else:
                    g.log("q")
        elif c == "raise":
            e = g.pick("KeyError", "ValueError", "Boom", "Boom2")
            v = g.pick("'m'", "('a', 'b')", "%s(3)" % e, "None", "4", "()", "[1]")
            if g.p(0.3):
                v += ", None"
            with g.block("try:"):
                g.w("__RAISE__(%s, %s)" % (e, v))
            with g.block("except (KeyError, ValueError, Boom) as _err:"):
                g.log("type(_err).__name__", "_err.args")
        elif c == "repr":
            g.log("__REPR__(%s)" % item(g), "__REPR__((%s, %s))" % (g.pick("1", "'z'"), g.pick("2.5", "None", "P()")))
        elif c == "slice":
            i, j = g.pick("", "1", "-1", "0", "f(%d, 2)" % g.tag(), "x"), g.pick("", "2", "-1", "9", "f(%d, 3)" % g.tag())
            k = g.k(0, 3)
            o = g.pick("L", "f(%d, L)" % g.tag(), "S")
            if k == 0:
                g.log("%s[%s:%s]" % (g.pick(o, "'abcde'", "(1, 2, 3, 4)"), i, j))
            elif k == 1:
                g.w("%s[%s:%s] = %s" % (o, i, j, g.pick("[7, 8]", "'zz'", "()", "f(%d, [9])" % g.tag())))
            elif k == 2:
                g.w("del %s[%s:%s]" % (o, i, j))
            else:
                g.w("L[%s:%s] += [4]" % (i, j))
            g.log("L")
        elif c == "leak":
            v = g.pick("x", "z1", "y")
            g.log("[%s for %s in %s%s]" % (g.pick(v, "(%s, 1)" % v), v, g.pick("range(3)", "'ab'", "(4, 5)"), g.pick("", " if %s" % v)))
            g.log(v)
        elif c == "excvar":
            with g.block("try:"):
                g.w("raise %s" % g.pick("KeyError(1)", "Boom('b', 2)", "ValueError"))
            with g.block("except %s as ev:" % g.pick("KeyError", "Boom", "Exception")):
                g.log("1")
            g.log("ev.args")
        elif c == "old":
            g.log("Old().m()", "Old.x", "isinstance(Old(), Old)")
        elif c == "call" and g.funcs:
            g.log("%s(%s, 2)" % (g.of(g.funcs), g.k(1, 9)))
        elif c == "builtin":
            k = g.k(0, 5)
            n = lambda: g.pick("1", "x", "y", "2.5", "3j", "True", "big", "'s'", "f(%d, 4)" % g.tag())
            if k == 0:
                g.log("apply(%s%s)" % (g.pick("f", "va", "f", "Old"), g.pick("", ", (1, 2)", ", [3, x]", ", L", ", (1,), {'v': 2}", ", (), {'k': x, 'v': 8}",
                                                                             ", (), NS", ", 5")))
            elif k == 1:
                g.log("coerce(%s, %s)" % (n(), n()))
            elif k == 2:
                g.log("cmp(%s, %s)" % (n(), n()), "cmp(L, [0, 1])")
            elif k == 3:
                g.log("reduce(f, L%s)" % g.pick("", ", 9"), "[i for i in xrange(%d)]" % g.k(0, 4), "long(x)", "unichr(66)")
            elif k == 4:
                g.log("reduce(lambda a, b: a + b, [%s][:%d]%s)" % (n(), g.k(0, 1), g.pick("", ", 0")))
            else:
                g.log("isinstance(%s, basestring)" % n(), "unicode(x)", "issubclass(Boom, StandardError)")
        elif c == "meta":
            nm = "K%d" % g.tag()
            with g.block("class %s%s:" % (nm, g.pick("", "(object)", "(MC)", "(MC, Old)", "(Old, MC)", "(Old)", "(_last)", "(MF)"))):
                if g.p(0.4):
                    g.w("__metaclass__ = %s" % g.pick("M1", "M2", "mfun", "type", "f(%d, M1)" % g.tag(), "None"))
                g.w("w%d = T(%d, x)" % (g.tag(), g.tag()))
            g.log("type(%s).__name__" % nm)
            if g.p(0.5):
                g.w("_last = %s" % nm)
        elif c == "truth":
            g.log("x and y", "not x", "x or 'd'", "x == y", "x != y", "x is None", "1 if x else 2" if g.since(2, 5) else "0")
        elif c == "loop":
            with g.block("for x in %s:" % g.pick("range(2)", "(1, 2)", "L")):
                g.w("__PRINT__(None, %s, x)" % g.pick("True", "False"))
            with g.block("else:"):
                g.w("__PRINT__(None, True)")
    g.catch()


def make(g):
    g.funcs = []
    with g.block("def f(k, v):"):
        g.w("T('f', k)")
        g.w("return v")
    with g.block("class W(object):"):
        g.w("def __init__(self): self.l = []")
        g.w("def write(self, s): self.l.append(s)")
    with g.block("class P(object):"):
        g.w("def __str__(self): return 'P!'")
        g.w("def __repr__(self): return '<P>'")
    with g.block("class Sub(object):"):
        g.w("def __getitem__(self, i): T('get', repr(i)); return 1")
        g.w("def __setitem__(self, i, v): T('set', repr(i))")
        g.w("def __delitem__(self, i): T('del', repr(i))")
    with g.block("class Old:"):
        g.w("x = 3")
        g.w("def m(self): return self.x")
    g.w("class Boom(Exception): pass")
    g.w("class Boom2(Boom): pass")
    for m in ("M1", "M2"):
        with g.block("class %s(type):" % m):
            with g.block("def __new__(mcs, name, bases, ns):"):
                g.w("T('%s', name, len(bases), sorted(k for k in ns if k[0] != '_'))" % m)
                g.w("return type.__new__(mcs, name, bases, ns)")
            with g.block("def __init__(cls, name, bases, ns):"):
                g.w("T('%s init', name)" % m)
    with g.block("def mfun(name, bases, ns):"):
        g.w("T('mfun', name, len(bases))")
        g.w("return type(name, bases, ns)" if g.p(0.5) else "return (name, len(bases))")
    g.w("def va(*a, **k): return (a, sorted(k.items()))")
    with g.block("class MC(object):"):
        g.w("__metaclass__ = M1")
    with g.block("class MF%s:" % g.pick("", "(MC)")):
        g.w("__metaclass__ = %s" % g.pick("M2", "M1", "mfun"))
    if g.p(0.2):
        g.w("__metaclass__ = %s" % g.pick("M1", "mfun", "type"))
    g.w("_last = MC")
    g.w("_W1, _W2, S = W(), W(), Sub()")
    g.w("L = [0, 1, 2, 3]")
    g.w("NS = {'q': 0}")
    g.w("NS2 = {}")
    g.w("x, y, big, q, z1 = 7, -2, 2 ** 70, 0, 0")
    for i in range(g.k(1, 3)):
        with g.block("def fn%d(x, y):" % i):
            g.w("L = [5, 6, 7]")
            for _ in range(g.k(2, 4)):
                stmt(g, {"func": 1})
            g.w("return %s" % div(g, 1))
        g.funcs.append("fn%d" % i)
    for _ in range(g.k(5, 10)):
        stmt(g, {"func": 0})
    g.w("__PRINT__(None, True, 'end')")
    g.log("''.join(_W1.l)", "''.join(_W2.l)")
