"""Displays, unpacking and starred targets, comprehensions, subscripts and slices (read, written, deleted)."""


def it(g, n=None):
    """An iterable expression."""
    n = g.k(0, 4) if n is None else n
    xs = ["%s" % g.k(0, 9) for _ in range(n)]
    j = ", ".join(xs)
    return g.pick("[%s]" % j, "(%s)" % (j + "," if n == 1 else j), "gen(%d)" % n, "iter([%s])" % j, "'%s'" % "abcdef"[:n],
                  "dict([(x_, 1) for x_ in (%s)])" % (j + "," if n else "") if not g.py2 else "[%s]" % j, "Seq(%d)" % n, "range(%d)" % n,
                  "list('%s')" % "xyzuvw"[:n])


def elt(g, d=1):
    c = g.k(0, 9)
    if d <= 0 or c < 4:
        return g.pick("%d" % g.k(0, 9), "'s%d'" % g.k(0, 5), "f(%d, %d)" % (g.tag(), g.k(0, 9)), "None", "a", "b")
    return display(g, d - 1)


def display(g, d=2):
    c = g.weighted([(2, "list"), (2, "tuple"), (1.5 if g.since(2, 7) else 0, "set"), (2, "dict"), (2 if g.since(3, 5) else 0, "star"),
                    (1 if g.since(3, 5) else 0, "dstar"), (1.5, "comp"), (1, "fromcall"), (0.8 if g.since(3, 6) else 0, "fstr"),
                    (0.6, "concat")])
    n = g.k(0, 4)
    xs = [elt(g, d) for _ in range(n)]
    hs = ["f(%d, %s)" % (g.tag(), g.pick("1", "2", "'k'", "(1, 2)", "'z'", "1.0", "True", "(1.0, 2)")) for _ in range(n)]
    if c == "list":
        return "[%s]" % ", ".join(xs)
    if c == "tuple":
        return "(%s)" % "".join(x + ", " for x in xs)
    if c == "set":
        if g.p(0.3):
            hs = [g.pick("1", "2", "1.0", "True", "a", "0", "False", "'k'") for _ in range(n)]
        return "sorted([repr(e_) for e_ in {%s}])" % ", ".join(hs) if hs else "[]"
    if c == "dict":
        return "{%s}" % ", ".join("%s: %s" % (h, x) for h, x in zip(hs, xs))
    if c == "star":
        xs.insert(g.k(0, len(xs)), "*%s" % it(g))
        if g.p(0.3):
            xs.insert(g.k(0, len(xs)), "*%s" % it(g))
        return g.pick("[%s]", "(%s,)", "sorted({%s}, key=repr)" if "f(" not in "".join(xs) and "[" not in "".join(xs) and "{" not in "".join(xs) else "[%s]") % ", ".join(xs)
    if c == "dstar":
        ps = ["%s: %s" % (h, x) for h, x in zip(hs, xs)]
        ps.insert(g.k(0, len(ps)), "**%s" % g.pick("{1: 'one'}", "{'k': 2, 'z': 3}", "{}", "dict(k=f(%d, 4))" % g.tag()))
        return "{%s}" % ", ".join(ps)
    if c == "comp":
        return comp(g)
    if c == "fromcall":
        return g.pick("list(%s)", "tuple(%s)", "sorted(%s)", "dict(enumerate(%s))") % it(g)
    if c == "fstr":
        return "f'%s{%s}-{%s!r}{{}}'" % (g.pick("", "p"), g.pick("a", "b", "a + 1", "f(1, a)"), g.pick("b", "a"))
    return "[%s] + %s" % (", ".join(xs), "[1]")


def comp(g, depth=1):
    v, u = "_c%d" % g.tag(), "_c%d" % g.tag()
    body = g.pick(v, "(%s, a)" % v, "f(%d, %s)" % (g.tag(), v), "[%s]" % v, "%s if %s else 'no'" % (v, v) if g.since(2, 5) else v)
    clauses = "for %s in %s" % (v, it(g))
    if g.p(0.4):
        clauses += " if %s" % g.pick("%s" % v, "%s != 2" % v, "f(%d, %s)" % (g.tag(), v), "not %s" % v)
    if g.p(0.4):
        clauses += " for %s in %s" % (u, g.pick(it(g), "(%s, 1)" % v, "[%s] * 2" % v))
        body = g.pick("(%s, %s)" % (v, u), u, "(%s, %s)" % (u, body))
        if g.p(0.3):
            clauses += " if %s" % g.pick("%s != %s" % (u, v), u)
    if g.p(0.2):
        w = "_c%d" % g.tag()
        body, clauses = w, "for (%s, %s) in [(1, 2), (3, 4), %s]" % (v, w, g.pick("(5, 6)", "(f(%d, 7), 8)" % g.tag(), "'ab'"))
    if depth and g.p(0.25):
        w = "_c%d" % g.tag()
        body = "[(%s, %s) for %s in (%s, 1)]" % (w, v if g.since(3, 0) or True else w, w, v)
    kind = g.weighted([(4, "list"), (1.5 if g.since(2, 7) else 0, "set"), (1.5 if g.since(2, 7) else 0, "dict"), (2, "gen")])
    if kind == "list":
        return "[%s %s]" % (body, clauses)
    if kind == "set":
        return "sorted({repr(%s) %s})" % (body, clauses)
    if kind == "dict":
        return "{%s: %s %s}" % (g.pick("repr(%s)" % body, "f(%d, repr(%s))" % (g.tag(), v)) if g.since(3, 8) else "repr(%s)" % v,
                                body if g.since(3, 8) else v, clauses)
    return g.pick("list", "tuple", "sorted" if body == v else "list") + "(%s %s)" % (body, clauses)


def target(g, d=2):
    """An assignment target list: (text, number wanted or None when starred, minimum)."""
    n = g.k(1, 4)
    parts = []
    for i in range(n):
        c = g.k(0, 9)
        if c < 5 or d <= 0:
            parts.append(g.of(["a", "b", "c", "e"]))
        elif c < 6:
            parts.append("L[f(%d, %d)]" % (g.tag(), g.k(0, 2)))
        elif c < 7:
            parts.append("f(%d, O).%s" % (g.tag(), g.pick("x", "y")))
        elif c < 8:
            parts.append("D['%s']" % g.pick("k", "j"))
        else:
            t, _ = target(g, d - 1)
            parts.append(g.pick("(%s)", "[%s]") % t)
    if g.v >= (3, 0) and g.p(0.4):
        i = g.k(0, n - 1)
        if not parts[i].startswith(("(", "[")):
            parts[i] = "*" + parts[i]
    return ", ".join(parts) + ("," if n == 1 else ""), n


def value_for(g, n):
    m = max(0, n + g.weighted([(6, 0), (1, 1), (1, -1), (1, 2)]))
    if g.p(0.5):
        return it(g, m)
    return "[%s]" % ", ".join(g.pick(it(g, g.k(1, 3)), "%d" % g.k(0, 9), "[1, 2]", "(3, 4)", "'pq'") for _ in range(m))


def sl(g):
    b = lambda: g.pick("", "", "1", "-1", "2", "0", "f(%d, 1)" % g.tag(), "None", "9", "-9")
    s = "%s:%s" % (b(), b())
    if g.p(0.3):
        s += ":" + g.pick("2", "-1", "", "-2", "1")
    return s


def stmt(g):
    with g.block("try:"):
        c = g.weighted([(4, "display"), (3, "comp"), (5, "unpack"), (2, "sliceread"), (2, "slicewrite"), (1.5, "slicedel"),
                        (1, "multi"), (1, "for"), (1, "substore"), (0.8, "delmany"), (0.6, "ext"), (0.6, "swap"), (0.5, "nest"),
                        (0.5, "augsl")])
        if c == "display":
            g.log(display(g))
        elif c == "comp":
            g.log(comp(g))
        elif c == "unpack":
            t, n = target(g)
            g.w("%s = %s" % (t, value_for(g, n)))
        elif c == "multi":
            t, n = target(g)
            u, _ = target(g)
            g.w("%s = %s = %s" % (t, u, value_for(g, n)))
        elif c == "for":
            t, n = target(g, 1)
            with g.block("for %s in [%s]:" % (t, ", ".join(value_for(g, n) for _ in range(g.k(1, 3))))):
                g.log("a", "b")
        elif c == "sliceread":
            g.log("%s[%s]" % (g.pick("L", "tuple(L)", "'abcdef'", "range(7)" if not g.py2 else "L", "S", "list(range(6))"), sl(g)))
        elif c == "slicewrite":
            g.w("L = %s" % g.pick("list(range(5))", "[1, 2, 3]", "[]"))
            g.w("%s[%s] = %s" % (g.pick("L", "f(%d, L)" % g.tag(), "S"), sl(g), it(g)))
        elif c == "slicedel":
            g.w("L = %s" % g.pick("list(range(5))", "[1, 2, 3]", "[]"))
            g.w("del %s[%s]" % (g.pick("L", "f(%d, L)" % g.tag(), "S"), sl(g)))
        elif c == "augsl":
            g.w("L = [1, 2, 3]")
            g.w("L[%s] += %s" % (sl(g), g.pick("[7]", "(8,)", "[]")))
        elif c == "substore":
            g.w("D[f(%d, '%s')] = L[f(%d, %d)] = f(%d, 5)" % (g.tag(), g.pick("k", "n"), g.tag(), g.k(0, 2), g.tag()))
        elif c == "delmany":
            g.w("D['x'] = O.z = 1")
            g.w("del D['x'], O.z, L[%s]" % g.pick("0", "-1", "9"))
        elif c == "ext":
            g.log("S[%s]" % g.pick("1, 2", "::2, 1", "...", "(1, 2), 3", "f(%d, 1):f(%d, 2), ..." % (g.tag(), g.tag()),
                                   "()", "None", "-1"))
            g.w("S[%s] = 1" % g.pick("1, 2", "...", "1:2, 3"))
        elif c == "swap":
            g.w("a, b, c = %s" % g.pick("c, a, b", "b, c, a", "b, a, c", "a, b, (c, a)"))
        elif c == "nest":
            g.w("a, (b, [c, e]) = %s" % g.pick("1, (2, [3, 4])", "'x', [5, gen(2)]", "1, 2", "[0, 'pq']"))
    g.catch()
    g.log("a", "b", "c", "e", "L", "sorted(D.items(), key=repr)", "O.x", "O.y")


def make(g):
    with g.block("def f(k, v):"):
        g.w("T('f', k)")
        g.w("return v")
    with g.block("def gen(n):"):
        with g.block("for i_ in range(n):"):
            g.w("yield i_ * 10")
        g.w("T('gen end')" if g.since(3, 9) else "pass")
    with g.block("class Seq(object):"):
        g.w("def __init__(self, n): self.n = n")
        g.w("def __repr__(self): return 'Seq(%d)' % self.n")
        with g.block("def __getitem__(self, i):"):
            if g.since(3, 9):
                g.w("T('seq', i)")
            g.w("if i >= self.n: raise IndexError(i)")
            g.w("return 's%d' % i")
    with g.block("class Sub(object):"):
        g.w("def __getitem__(self, i): T('get', repr(i)); return repr(i)")
        g.w("def __setitem__(self, i, v): T('set', repr(i), v is None)")
        g.w("def __delitem__(self, i): T('del', repr(i))")
    with g.block("class Ob(object):"):
        g.w("x = y = 0")
    g.w("S = Sub()")
    g.w("O = Ob()")
    g.w("L = [1, 2, 3]")
    g.w("D = {}")
    g.w("a = b = c = e = 0")
    for _ in range(g.k(4, 8)):
        stmt(g)
    for i in range(g.k(1, 3)):
        with g.block("def fun%d(a, b, c=1, e=2):" % i):
            g.w("L, D = [4, 5, 6], {}")
            if g.p(0.4):
                g.w("def inner(): return (a, b, L)")
            for _ in range(g.k(2, 5)):
                stmt(g)
            g.w("return (a, b, c, e)")
        with g.block("try:"):
            g.log("fun%d(1, [2])" % i)
        g.catch()
