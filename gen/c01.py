"""Expressions and operators."""

BIN = ["+", "-", "*", "/", "//", "%", "<<", ">>", "&", "|", "^", "**"]
CMP = ["<", "<=", ">", ">=", "==", "!=", "in", "not in"]
DUNDER = {"+": "add", "-": "sub", "*": "mul", "//": "floordiv", "%": "mod", "<<": "lshift", ">>": "rshift",
          "&": "and", "|": "or", "^": "xor", "**": "pow", "/": "truediv", "@": "matmul"}
CMPD = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}


def prelude(g):
    ops = [o for o in BIN if o != "/" or not g.py2]
    if g.since(3, 5):
        ops = ops + ["@"]
    g.ops = ops
    for cls, base in (("V", "object"), ("W", "V")):
        with g.block("class %s(%s):" % (cls, base)):
            if cls == "V":
                with g.block("def __init__(self, n):"):
                    g.w("self.n = n")
                with g.block("def __repr__(self):"):
                    g.w("return '%s(%r)' % (type(self).__name__, self.n)")
                g.w("__hash__ = object.__hash__")
            some = [o for o in ops if g.p(0.6)]
            for o in some:
                d = DUNDER[o]
                for kind in ("", "r", "i"):
                    if not g.p(0.55):
                        continue
                    if kind == "i" and o == "/" and g.py2:
                        continue
                    with g.block("def __%s%s__(self, o):" % (kind, d)):
                        g.w("T('%s%s%s', self.n, type(o).__name__.lower())" % (cls, kind, d))
                        c = g.k(0, 5)
                        if c == 0:
                            g.w("return NotImplemented")
                        elif c == 1 and kind == "i":
                            g.w("self.n = self.n + 1")
                            g.w("return self")
                        elif c == 2:
                            g.w("return %s(self.n + 100)" % cls)
                        elif c == 3:
                            g.w("return (self.n, '%s')" % d)
                        elif c == 4 and g.p(0.3):
                            g.w("raise ValueError('%s')" % d)
                        else:
                            g.w("return self.n")
            for o, d in sorted(CMPD.items()):
                if g.p(0.4):
                    with g.block("def __%s__(self, o):" % d):
                        g.w("T('%s%s', self.n, type(o).__name__.lower())" % (cls, d))
                        g.w("return %s" % g.pick("NotImplemented", "True", "False", "self.n > 2", "[]", "'x'"))
            for d in ("neg", "pos", "invert"):
                if g.p(0.5):
                    with g.block("def __%s__(self):" % d):
                        g.w("return ('%s', self.n)" % d)
            if not g.py2 and g.p(0.6):
                with g.block("def __bool__(self):"):
                    g.w("T('bool', self.n)")
                    g.w("return self.n %% 2 == %d" % g.k(0, 1))
            if g.p(0.6):
                with g.block("def __contains__(self, x):"):
                    g.w("T('contains', self.n, x)")
                    g.w("return %s" % g.pick("True", "0", "'yes'", "x == self.n"))
            if g.p(0.7):
                with g.block("def __getitem__(self, i):"):
                    g.w("T('getitem', self.n, i)")
                    g.w("if isinstance(i, int) and i > 3: raise IndexError(i)")
                    g.w("return %s" % g.pick("self.n", "(i, self.n)", "{}[i]"))
            if g.p(0.5):
                with g.block("def __setitem__(self, i, v):"):
                    g.w("T('setitem', self.n, i, v)")
            if g.p(0.5):
                with g.block("def __getattr__(self, a):"):
                    g.w("if a[:2] == '__': raise AttributeError(a)")
                    g.w("T('getattr', a)")
                    g.w("return %s" % g.pick("self.n", "a", "self"))
            if g.p(0.5):
                with g.block("def __call__(self, *a):"):
                    g.w("T('call', self.n, a)")
                    g.w("return len(a)")
    with g.block("class N(object):"):
        g.w("def __eq__(self, o): return False")
        g.w("def __ne__(self, o): return True")
        g.w("def __repr__(self): return 'N'")
        g.w("__hash__ = object.__hash__")
    with g.block("def f(k, v):"):
        g.w("T('f', k)")
        g.w("return v")
    g.w("V.__name__, W.__name__")
    vals = ["0", "1", "2", "-3", "7", "True", "False", "None", "NotImplemented", "Ellipsis", "2 ** 70", "1.5", "-0.0", "0.0", "'ab'", "''",
            "'%s-%s'", "(1, 2)", "()", "[1, 2, 3]", "[]", "{'a': 1, 2: 'b'}", "{}", "3j", "V(1)", "V(2)", "W(3)",
            "W(4)", "len", "(1, (2, 3))", "frozenset([1, 2])", "'b'"]
    vals += ["float('nan')", "N()", "[N()]"]
    if not g.py2:
        vals += ["b'xy'", "{1, 2}", "range(5)"]
    g.r.shuffle(vals)
    g.pool = []
    for i, v in enumerate(vals[:14] + ["V(5)", "W(6)", "3", "[4, 5]"]):
        g.w("a%d = %s" % (i, v))
        g.pool.append("a%d" % i)


def atom(g):
    x = g.of(g.pool)
    if g.p(0.25):
        return "f(%d, %s)" % (g.tag(), x)
    if g.p(0.12):
        return "(%s)" % g.pick("1", "2", "-1", "'ab'", "(1, 2)", "None", "0.5", "'a'", "[3, 4]", "lambda: 3")
    return x


def small(g):
    return g.pick("1", "2", "3", "(-1)", "0", "0.5", "f(%d, 2)" % g.tag(), "V(2)", "W(3)", "True")


def expr(g, depth=3):
    if depth <= 0:
        return atom(g)
    c = g.weighted([(6, "bin"), (2, "un"), (3, "cmp"), (3, "bool"), (2, "tern"), (2, "sub"), (1, "attr"), (1, "call"),
                    (1, "slice"), (1, "tuple"), (1, "not"), (1, "lambda"), (1.2 if g.since(3, 6) else 0, "fstr"),
                    (0.8 if g.since(3, 8) else 0, "walrus"), (1, "chain"), (0.6, "fmt"), (1.5, "atom"),
                    (0.7, "repr")])
    e = lambda: expr(g, depth - g.k(1, 2))
    if c == "bin":
        o = g.of(g.ops)
        if o == "**":
            return "(%s ** %s)" % (small(g), small(g))
        if o in ("<<",):
            return "(%s %s %s)" % (small(g), o, small(g))
        if o == "*":
            return "(%s * %s)" % (atom(g), small(g))
        return "(%s %s %s)" % (e(), o, e())
    if c == "un":
        return "(%s%s)" % (g.pick("-", "+", "~"), e())
    if c == "not":
        return "(not %s)" % e()
    if c == "cmp" and g.p(0.15):
        x = g.of(g.pool)
        return "(%s %s %s)" % (x, g.pick("in", "not in", "==", "!=", "<="),
                               g.pick("[%s]", "(1, %s)", "[[], %s, 2]", "{1: %s}", "%s", "(%s,)", "list((%s,))") % x)
    if c == "cmp" and g.p(0.15):
        # not of literals: whether equal ones are the same object is up to the compiler
        return "(%s %s %s)" % (g.of(g.pool), g.pick("is", "is not"), g.pick("None", "True", g.of(g.pool), "f(%d, None)" % g.tag()))
    if c == "cmp":
        return "(%s %s %s)" % (e(), g.of(CMP), e())
    if c == "chain":
        s = e()
        for _ in range(g.k(2, 4)):
            s += " %s %s" % (g.of(CMP), e())
        return "(%s)" % s
    if c == "bool":
        o = g.pick(" and ", " or ")
        return "(%s)" % o.join(e() for _ in range(g.k(2, 4)))
    if c == "tern" and g.since(2, 5):
        return "(%s if %s else %s)" % (e(), e(), e())
    if c == "sub":
        return "%s[%s]" % (par(e()), e())
    if c == "slice":
        b = lambda: g.pick("", "1", "-1", "0", "2", "f(%d, 1)" % g.tag())
        s = "%s:%s" % (b(), b())
        if g.p(0.3):
            s += ":" + g.pick("", "2", "-1")
        return "%s[%s]" % (par(g.of(g.pool)), s)
    if c == "attr":
        return "%s.%s" % (par(e()), g.pick("n", "real", "missing", "n"))
    if c == "call":
        return "%s(%s)" % (g.pick("f", "len", "max", "isinstance", "V", "str", "repr", "abs", "bool") if g.p(0.6) else par(atom(g)),
                           ", ".join(e() for _ in range(g.k(0, 2))))
    if c == "tuple":
        return "(%s, %s)" % (e(), e())
    if c == "lambda":
        return "(lambda x, y=%s: %s)(%s)" % (e(), g.pick("(x, y)", "x or y", "x == y"), e())
    if c == "fstr":
        q = g.pick("!r", "!s", "!a", "", ":>4", ":{'<'}5", ":0")
        if "'" in q:
            q = ":<5"
        return 'f"<{%s%s}|{{}}{%s}>"' % (g.of([x for x in g.pool]), q, g.of(g.pool))
    if c == "walrus":
        return "(w%d := %s)" % (g.k(1, 3), e())
    if c == "fmt":
        return "('%%s|%%r' %% (%s, %s))" % (g.pick("1", "'a'", "None", "2.5"), g.pick("'q'", "(1,)", "[1]"))
    if c == "repr":
        return "repr(%s)" % g.pick("1.5", "'a'", "[1, (2,)]", "None")
    return atom(g)


def par(s):
    return s if s.isidentifier() or s[-1] in ")]" else "(%s)" % s


def stmt(g):
    c = g.weighted([(8, "log"), (3, "aug"), (1, "augattr"), (1.5, "augsub"), (1, "multi"), (1, "cond"), (1, "delsub")])
    with g.block("try:"):
        if c == "log":
            g.log(expr(g, g.k(1, 4)))
        elif c == "aug":
            g.w("t = %s" % g.of(g.pool))
            g.w("u = t")
            o = g.of(g.ops)
            g.w("t %s= %s" % (o, small(g) if o in ("**", "<<", "*") else expr(g, 1)))
            g.log("t", "u", "t is u")
        elif c == "augattr":
            o = g.of([o for o in g.ops if o not in ("**", "<<", "*")])
            g.w("t = V(%d)" % g.k(0, 9))
            g.w("f(%d, t).n %s= %s" % (g.tag(), o, expr(g, 1)))
            g.log("t.n")
        elif c == "augsub":
            o = g.of([o for o in g.ops if o not in ("**", "<<", "*")])
            g.w("t = %s" % g.pick("[1, 2, 3]", "{0: 1, 1: 2}", "V(3)", "[[], 'a', V(8)]", "{0: V(7), 1: [1]}"))
            g.w("f(%d, t)[f(%d, %d)] %s= %s" % (g.tag(), g.tag(), g.k(0, 3), o, expr(g, 1)))
            g.log("t")
        elif c == "multi":
            g.w("t = u = %s" % expr(g, 2))
            g.log("t is u", "t")
        elif c == "cond":
            with g.block("if %s:" % expr(g, 2)):
                g.log("'yes'")
            with g.block("elif %s:" % expr(g, 2)):
                g.log("'elif'")
            with g.block("else:"):
                g.log("'no'")
        else:
            g.w("t = [1, 2, {'k': 3}]")
            g.w("del t[%s]" % g.pick("0", "-1", "7", "2]['k'", "2]['z'"))
            g.log("t")
    g.catch()


def make(g):
    prelude(g)
    for _ in range(g.k(3, 6)):
        stmt(g)
    for i in range(g.k(1, 3)):
        # the same expressions over locals and parameters
        ps = g.r.sample(g.pool, 6)
        with g.block("def fun%d(%s):" % (i, ", ".join(ps[:4]))):
            g.w("%s = 11" % ps[4])
            if g.p(0.3):
                g.w("inner = lambda: (%s, %s)" % (ps[0], ps[4]))
            for _ in range(g.k(2, 5)):
                stmt(g)
            g.w("return %s" % expr(g, 1))
        with g.block("try:"):
            g.log("fun%d(%s)" % (i, ", ".join(g.of(g.pool) for _ in range(4))))
        g.catch()
