"""Control flow: branches, loops, their else clauses, break/continue/return, through try and with; with
enough padding in some programs that jump operands need EXTENDED_ARG."""


class S(object):
    loop = 0
    func = 0
    fin = 0          # inside a finally (or in a try/finally inside the innermost loop)
    depth = 0


def cond(g, s):
    c = g.k(0, 9)
    a = lambda: g.pick("d(2)", "d(3)", "d(2) == 1", "d(4) > 1", "not d(2)", "x", "not x", "x > 2", "x is None",
                       "x is not None", "[]", "'s'", "y in (1, 2)", "y not in (1, 2)", "None", "d(5) != 3",
                       "Odd(%d)" % g.k(0, 3), "Odd(%d) is None" % g.k(0, 3), "Odd(%d) is not None" % g.k(0, 3), "Odd(%d) == None" % g.k(0, 3), "Ellipsis", "NotImplemented", "0.0", "()")
    if c < 4:
        return a()
    if c < 6:
        return "%s %s %s" % (a(), g.pick("and", "or"), a())
    if c < 7:
        return "(%s %s %s) %s %s" % (a(), g.pick("and", "or"), a(), g.pick("and", "or"), a())
    if c < 8:
        return "not (%s %s %s)" % (a(), g.pick("and", "or"), a())
    if c < 9:
        return "0 <= d(4) < %s" % g.pick("2", "x", "y", "3")
    if g.since(2, 5):
        return "(%s if %s else %s)" % (a(), a(), a())
    return a()


def pad(g):
    """Many distinct constants and names."""
    n = g.k(20, 120)
    for i in range(n):
        g.w("_p%d = %d" % (i, 1000 + i))


def body(g, s, n=None):
    for _ in range(n or g.k(1, 3)):
        if g.budget <= 0:
            break
        stmt(g, s)
    g.log("x", "y")


def stmt(g, s):
    g.budget -= 1
    if s.depth > 5:
        g.log("x", "y")
        return
    s.depth += 1
    c = g.weighted([
        (3, "log"), (4, "if"), (3, "while"), (3, "for"), (2.5, "try"), (1.5, "set"),
        (1.5 if s.loop else 0, "break"), (1.5 if s.loop and not s.fin else 0, "continue"),
        (1.2 if s.func else 0, "return"), (0 if g.pypy and g.v == (3, 5) else 0.8, "assert"), (1 if g.since(2, 5) else 0, "with"),
        (0.5, "forelse"), (0.7, "whiletrue"), (0.5, "del"), (0.6 if g.big else 0, "pad"),
        (1.5 if g.since(3, 10) else 0, "match"), (0.5, "unpackfor"), (0.5, "call"), (0.4, "comp")])
    if c == "log":
        g.log("x", g.pick("y", "x == y", "(x, y)"))
    elif c == "set":
        g.w(g.pick("x = d(5)", "y = d(4)", "x = None", "x, y = y, x", "y = (x or 0) + 1", "x = y = d(3)"))
        g.log("x", "y")
    elif c == "pad":
        pad(g)
    elif c == "if":
        with g.block("if %s:" % cond(g, s)):
            body(g, s)
        while g.p(0.3):
            with g.block("elif %s:" % cond(g, s)):
                body(g, s)
        if g.p(0.5):
            with g.block("else:"):
                body(g, s)
    elif c in ("while", "whiletrue"):
        v = g.name("n")
        g.w("%s = %d" % (v, g.k(1, 4)))
        t = c == "whiletrue"
        with g.block("while %s:" % ("True" if t and g.p(0.5) else "1" if t else "%s > 0 and %s" % (v, cond(g, s))
                                     if g.p(0.6) else v)):
            g.w("%s -= 1" % v)
            if t:
                with g.block("if %s < 0:" % v):
                    g.log("'leave'")
                    g.w("break")
            else:
                with g.block("if %s < -3:" % v):
                    g.w("break")
            s.loop += 1
            f, s.fin = s.fin, 0
            body(g, s)
            s.fin = f
            s.loop -= 1
        if g.p(0.5) and not t:
            with g.block("else:"):
                body(g, s)
    elif c in ("for", "forelse", "unpackfor"):
        v = g.name("i")
        it = g.pick("range(d(4))", "range(3)", "[1, 2, 3]", "(x, y)", "'ab'", "[]", "{1: 2, 3: 4}", "range(2)",
                    "iter(lambda: d(3), 1)", "zip([1, 2], 'ab')", "map(str, [1, 2])", "enumerate('ab')", "reversed([1, 2])",
                    "sorted('ba')", "set([3])", "dict([(1, 2)]).items()", "iter([1, 2])", "(e_ for e_ in [1, 2])", "filter(None, [0, 1])")
        tgt = v
        if c == "unpackfor":
            tgt, it = "(%s, y)" % v, "[(1, 2), (x, 4)]"
        with g.block("for %s in %s:" % (tgt, it)):
            g.log(v)
            s.loop += 1
            f, s.fin = s.fin, 0
            body(g, s)
            s.fin = f
            s.loop -= 1
        if c == "forelse" or g.p(0.4):
            with g.block("else:"):
                body(g, s)
    elif c == "try":
        kind = g.k(0, 3)
        if kind != 1:
            with g.block("try:"):
                if kind == 3:
                    with g.block("try:"):
                        body(g, s)
                        if g.p(0.4):
                            g.w("if d(2): raise KeyError(x)")
                    with g.block("except %s:" % g.pick("KeyError", "(KeyError, IndexError)", "LookupError")):
                        body(g, s)
                    if g.p(0.5):
                        with g.block("else:"):
                            body(g, s)
                else:
                    body(g, s)
            with g.block("finally:"):
                s.fin += 1
                f, s.func = s.func, 0
                l, s.loop = s.loop, 0
                body(g, s, 1)
                s.func = f
                s.loop = l
                s.fin -= 1
        else:
            with g.block("try:"):
                body(g, s)
                with g.block("if %s:" % cond(g, s)):
                    g.w("raise %s" % g.pick("KeyError(1)", "ValueError(2)", "IndexError"))
                body(g, s, 1)
            with g.block("except LookupError:"):
                body(g, s)
            with g.block("except ValueError:"):
                body(g, s)
            if g.p(0.5):
                with g.block("else:"):
                    body(g, s)
    elif c == "with":
        with g.block("with M(%d):" % g.tag()):
            body(g, s)
    elif c == "break":
        with g.block("if %s:" % cond(g, s)):
            g.log("'break'")
            g.w("break")
    elif c == "continue":
        with g.block("if %s:" % cond(g, s)):
            g.log("'continue'")
            g.w("continue")
    elif c == "return":
        if g.p(0.7):
            with g.block("if %s:" % cond(g, s)):
                g.w("return %s" % g.pick("x", "(x, y)", "", "d(9)", "'r'"))
        else:
            g.w("return %s" % g.pick("x", "(x, y)", "", "d(9)"))
    elif c == "assert":
        with g.block("try:"):
            g.w("assert %s%s" % (cond(g, s), g.pick("", ", 'msg'", ", x")))
            g.log("'held'")
        with g.block("except AssertionError:"):
            g.log("'failed'")
    elif c == "del":
        g.w("z = x")
        g.w("del z")
        with g.block("try:"):
            g.w("z")
            g.log("'?'")
        with g.block("except NameError:"):
            g.log("'gone'")
    elif c == "call" and g.funcs:
        g.log("%s(d(3), d(4))" % g.of(g.funcs))
    elif c == "comp":
        g.log("[_c1 for _c1 in range(5) if _c1 %% 2 == %s]" % g.pick("0", "1", "d(2)"))
    elif c == "match":
        match(g, s)
    else:
        g.w("pass")
    s.depth -= 1


def pattern(g, depth=2, names=None):
    c = g.k(0, 9)
    if depth <= 0:
        c = g.k(0, 3)
    if c == 0:
        return g.pick("1", "2", "'a'", "None", "True", "-1", "0", "3")
    if c == 1:
        return "_"
    if c == 2:
        n = "m%d" % g.k(1, 3)
        if n in names:
            return "_"
        names.append(n)
        return n
    if c == 3:
        return g.pick("K.a", "int()", "str()", "None", "2")
    if c in (4, 5):
        parts = [pattern(g, depth - 1, names) for _ in range(g.k(0, 3))]
        if g.p(0.4):
            n = "m%d" % g.k(4, 5)
            if n not in names:
                if g.p(0.3):
                    n = "_"
                else:
                    names.append(n)
                parts.insert(g.k(0, len(parts)), "*" + n)
        return "[%s]" % ", ".join(parts)
    if c == 6:
        parts = ["%s: %s" % (k, pattern(g, depth - 1, names)) for k in g.r.sample(["'k'", "1", "'z'"], g.k(0, 2))]
        if g.p(0.3) and "m6" not in names:
            names.append("m6")
            parts.append("**m6")
        return "{%s}" % ", ".join(parts)
    if c == 7:
        return "P(%s)" % g.pick(pattern(g, depth - 1, names), "px=%s" % pattern(g, depth - 1, names), "",
                                "1, py=2", "1, 2")
    if c == 8:
        if "m8" not in names and g.p(0.5):
            # alternatives with the same names, in different orders
            names.extend(["m8", "m9"])
            return "(%s)" % " | ".join(g.r.sample(["[m8, m9]", "[m9, 1, m8]", "{'k': m8, 1: m9}", "P(m9, m8)", "P(py=m9, px=m8)",
                                                   "[[*m9], m8]", "[m8, [m9, *_]]", "[2 as m9, *m8]"], g.k(1, 4)))
        return "(%s | %s)" % (g.pick("1", "'a'", "[1]"), g.pick("2", "None", "{'k': 1}", "P(3)"))
    n = "m7"
    if n in names:
        return "3"
    names.append(n)
    return "(%s) as m7" % pattern(g, depth - 1, names)


def match(g, s):
    subj = g.pick("d(4)", "[1, d(3)]", "(1, 2, 3)", "{'k': d(3), 1: 2}", "P(d(3), 2)", "'a'", "x", "[[1], (2, 3)]",
                  "None", "[x, y]", "{}", "[]", "[P(1, d(3)), [d(2), 3]]", "P([1, 2], {'k': x})", "Ab(1, d(3))", "range(d(4))", "h", "[h, h]")
    for i in range(1, 10):
        g.w("m%d = 0" % i)
    with g.block("match %s:" % subj):
        for _ in range(g.k(1, 4)):
            names = []
            p = pattern(g, 2, names)
            if p in ("_", "m1", "m2", "m3") or p.startswith("(_)") or p.startswith("(m"):
                p = "[%s]" % ", ".join([p])
            guard = " if %s" % cond(g, s) if g.p(0.3) else ""
            with g.block("case %s%s:" % (p, guard)):
                g.log("(%s)" % "".join(n + ", " for n in sorted(names)))
                body(g, s, 1)
        if g.p(0.5):
            with g.block("case _:"):
                body(g, s, 1)


def make(g):
    g.big = g.p(0.25)
    g.funcs = []
    g.decider()
    if g.since(2, 5):
        with g.block("class M(object):"):
            g.w("def __init__(self, n): self.n = n")
            g.w("def __enter__(self): T('enter', self.n)")
            with g.block("def __exit__(self, t, v, tb):"):
                g.w("T('exit', self.n, t and t.__name__)")
    with g.block("class Odd(object):"):
        g.w("def __init__(self, n): self.n = n")
        g.w("def __eq__(self, o): return T(self.n < 2, 'eq', o)")
        g.w("def __ne__(self, o): return T(self.n > 1, 'ne', o)")
        g.w("__hash__ = None")
        g.w("def __nonzero__(self): return T(self.n % 2 == 0, 'bool')")
        g.w("__bool__ = __nonzero__")
        g.w("def __len__(self): return T(self.n, 'len')")
    if g.since(3, 10):
        with g.block("class P:"):
            g.w("__match_args__ = ('px', 'py')")
            g.w("def __init__(self, px, py): self.px = px; self.py = py")
        with g.block("class K:"):
            g.w("a = 2")
        g.w("import collections.abc")
        with g.block("class Ab(collections.abc.Sequence):"):
            g.w("def __init__(self, *a): self.a = a")
            g.w("def __len__(self): return T(len(self.a), 'len')")
            g.w("def __getitem__(self, i): T('item', i); return self.a[i]")
            g.w("def __repr__(self): return 'Ab'")
        with g.block("class Eq:"):
            g.w("def __eq__(self, o): T('eq', type(o).__name__); return d(2)")
            g.w("def __repr__(self): return 'Eq'")
            g.w("k = 1")
        g.w("h = Eq()")
    for i in range(g.k(1, 4)):
        g.budget = g.k(6, 22)
        with g.block("def f%d(x, y):" % i):
            if g.big and g.p(0.7):
                pad(g)
            s = S()
            s.func = 1
            body(g, s, g.k(2, 5))
            if g.p(0.7):
                g.w("return %s" % g.pick("(x, y)", "x"))
        for _ in range(2):
            with g.block("try:"):
                g.log("f%d(d(4), d(3))" % i)
            g.catch()
        g.funcs.append("f%d" % i)
    g.budget = g.k(4, 12)
    g.w("x, y = d(3), d(4)")
    with g.block("try:"):
        if g.big:
            pad(g)
        body(g, S(), 4)
    g.catch()
