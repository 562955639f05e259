"""Exceptions: raising, matching, propagation through interpreted and native frames, finally, re-raising,
context and cause, the handled exception visible in sys.exc_info()."""

NAMES = ["E1", "E2", "E3", "KeyError", "ValueError", "LookupError", "ZeroDivisionError", "TypeError"]


def exc_expr(g):
    n = g.of(NAMES[:5] + ["E4"])
    return g.pick(n, "%s(%d)" % (n, g.k(1, 9)), "%s('a', %d)" % (n, g.k(1, 9)), "%s()" % n)


def native(g):
    """Statements that make the host raise."""
    return g.pick("1 // 0", "{}['k']", "[][3]", "None + 1", "int('z')", "undefined_name", "None.attr",
                  "(lambda: 0)(1)", "a, b = 1, 2, 3", "iter(3)", "len(4)", "[1, 2][None]", "'a' + 1", "3()",
                  "next(iter(()))", "max([])", "import nonexistent_mod")


def thrower(g):
    c = g.k(0, 9)
    if c < 4:
        g.w("raise %s" % exc_expr(g))
    elif c < 7:
        n = native(g)
        if " " not in n[:7] and "," not in n[:4] and g.p(0.3):
            n = g.pick("T('op', 1, %s)", "x = [1, 2, (3, %s)]", "x = {1: (2, %s)}", "T(d(2) + (%s))", "cur(1, *[2, %s])",
                       "x = 'a' < 'b' < (%s)", "(1, 2)[%s]") % n
        g.w(n)
    elif c < 8 and g.funcs:
        g.w("%s(d(5))" % g.of(g.funcs))
    elif c < 9 and g.funcs:
        f = g.of(g.funcs)
        g.w(g.pick("list(map(%s, [1, 2]))", "sorted([3, 1, 2], key=%s)", "[%s(_c1) for _c1 in range(2)]",
                   "max([1, 2], key=%s)", "dict(a=%s(1))", "T('arg', %s(2))") % f)
    elif g.v >= (3, 0):
        g.w("raise %s from %s" % (exc_expr(g), g.pick("None", exc_expr(g), "KeyError('c')")))
    else:
        g.w("raise %s" % exc_expr(g))


def handler(g, s):
    """The except clauses of a try."""
    if g.pypy and g.v == (3, 8):
        s = dict(s, func=0)       # our front end has no encoding for returns out of handlers there
    n = g.k(1, 3)
    for i in range(n):
        what = g.pick("E1", "E2", "E3", "LookupError", "(E1, KeyError)", "(E2, ValueError, E4)", "ArithmeticError",
                      "TypeError", "Exception", "pick(%d, E1)" % g.tag(), "pick(%d, KeyError)" % g.tag(), "E4", "NameError")
        as_ = g.p(0.5)
        with g.block("except %s%s:" % (what, " as _err" if as_ else "")):
            g.log("'caught'")
            if as_:
                g.log("describe(_err)")
            if g.p(0.4):
                g.log("cur()")
            hbody(g, s)
    if g.p(0.2):
        with g.block("except:"):
            g.log("cur()")
            hbody(g, s)


def hbody(g, s):
    c = g.k(0, 9)
    if c < 2:
        stmts(g, s, 1)
    elif c < 3:
        g.w("raise")
    elif c < 5:
        thrower(g)
    elif c < 6 and s["func"]:
        g.w("return %s" % g.pick("1", "'h'", "cur()"))
    elif c < 7 and s["loop"]:
        g.w(g.pick("break", "continue"))
    elif c < 8:
        s2 = dict(s, depth=s["depth"] + 1)
        trystmt(g, s2)
        if g.p(0.5) and g.v >= (3, 0):
            g.log("cur()")
        if g.p(0.4) and g.v >= (3, 0):
            g.w("raise")
    g.log("'h'")


def trystmt(g, s):
    kind = g.k(0, 5)
    if s["depth"] > g.deep or g.ind > 14:
        g.log("'deep'")
        return
    s = dict(s, depth=s["depth"] + 1)
    if kind == 0:
        with g.block("try:"):
            stmts(g, s, g.k(1, 2))
            if g.p(0.5):
                with g.block("if d(2):"):
                    thrower(g)
        with g.block("finally:"):
            fin(g, s)
        return
    with g.block("try:"):
        if kind == 1:
            with g.block("try:"):
                stmts(g, s, 1)
                with g.block("if d(3):"):
                    thrower(g)
            handler(g, s)
        else:
            stmts(g, s, g.k(0, 1))
            if g.p(0.6):
                with g.block("if d(4):"):
                    thrower(g)
            else:
                thrower(g)
            g.log("'after'")
    handler(g, s)
    if g.p(0.4):
        with g.block("else:"):
            stmts(g, s, 1)
    if g.p(0.4):
        with g.block("finally:"):
            fin(g, s)


def fin(g, s):
    g.log("'fin'", "cur()" if g.p(0.3) and g.v >= (3, 0) else "0")
    c = g.k(0, 9)
    if c < 1 and s["func"]:
        g.w("return 'finret'")
    elif c < 2:
        with g.block("if d(2):"):
            thrower(g)
    elif c < 3 and s["loop"]:
        with g.block("if d(2):"):
            g.w("break")
    elif c < 5:
        trystmt(g, dict(s, depth=s["depth"] + 1, loop=0))


def stmts(g, s, n):
    for _ in range(n):
        if g.budget <= 0:
            break
        g.budget -= 1
        c = g.weighted([(3, "log"), (5, "try"), (1.3, "for"), (1, "if"), (1 if s["func"] else 0, "ret"), (1, "thrower"),
                        (0.7, "call")])
        if c == "log":
            g.log("d(3)")
        elif c == "try":
            trystmt(g, s)
        elif c == "for" and g.deep > 3 and g.ind < 9 and g.p(0.4):
            vs = [g.name("i") for _ in range(g.k(3, 5))]
            for v in vs:
                g.w("for %s in range(2):" % v)
                g.ind += 1
            g.w("if d(3): continue")
            if g.p(0.4):
                stmts(g, dict(s, loop=1, depth=s["depth"] + 1), 1)
            else:
                s2 = dict(s, loop=1, depth=s["depth"] + 1)
                with g.block("try:"):
                    g.w(g.pick("T('op', 1, %s)", "x = [1, 2, (3, %s)]", "T(d(2) + %s)", "%s") %
                        g.pick("1 // d(2)", "undefined_name", "[5][d(3)]", "E1(d(5))", "len(d(5))"))
                    g.log("'no'")
                handler(g, s2)
            g.log(*vs)
            g.ind -= len(vs)
        elif c == "for" and s["depth"] < g.deep + 1:
            v = g.name("i")
            with g.block(g.pick("for %s in range(2):" % v, "for %s in it2():" % v)):
                stmts(g, dict(s, loop=1, depth=s["depth"] + 1), g.k(1, 2))
                g.log(v)
            if g.p(0.3):
                with g.block("else:"):
                    g.log("'else'")
        elif c == "if":
            with g.block("if d(2):"):
                stmts(g, dict(s, depth=s["depth"] + 1), 1)
                g.log("1")
        elif c == "ret":
            with g.block("if d(3) == 0:"):
                g.w("return %s" % g.pick("d(9)", "None", "'ret'"))
        elif c == "thrower":
            with g.block("if d(4) == 0:"):
                thrower(g)
        elif c == "call" and g.funcs:
            g.log("%s(d(4))" % g.of(g.funcs))
        else:
            g.log("'x'")


def make(g):
    g.funcs = []
    g.deep = g.pick(3, 3, 7)
    g.w("import sys")
    g.decider()
    with g.block("class E1(Exception):"):
        g.w("pass")
    with g.block("class E2(E1):"):
        with g.block("def __init__(self, *a):"):
            g.w("T('E2init', a)")
            g.w("E1.__init__(self, *a)")
    with g.block("class E3(KeyError):"):
        g.w("pass")
    with g.block("class E4(E3, ValueError):"):
        g.w("pass")
    with g.block("def pick(k, c):"):
        g.w("T('pick', k)")
        g.w("return c")
    with g.block("def it2():"):
        if g.p(0.5):
            with g.block("try:"):
                g.w("yield 1")
                g.w("yield 2")
            with g.block("finally:"):
                g.w("pass")
        else:
            g.w("yield 1")
            g.w("yield 2")
    g.w("MINE = (E1, E2, E3, E4)")
    with g.block("def describe(e, n=0):"):
        g.w("r = [type(e).__name__]")
        g.w("if isinstance(e, MINE): r.append(e.args)")
        if g.v >= (3, 0):
            with g.block("if n < 4:"):
                g.w("if e.__cause__ is not None: r.append(('cause', describe(e.__cause__, n + 1)))")
                g.w("if e.__context__ is not None: r.append(('context', e.__suppress_context__, describe(e.__context__, n + 1)))"
                    if g.v >= (3, 3) else
                    "if e.__context__ is not None: r.append(('context', describe(e.__context__, n + 1)))")
        g.w("return r")
    with g.block("def cur():"):
        g.w("e = sys.exc_info()")
        g.w("return e[0] and (e[0].__name__, isinstance(e[1], e[0]))")
    for i in range(g.k(2, 4)):
        g.budget = g.k(4, 12) + 2 * (g.deep - 3)
        with g.block("def f%d(x):" % i):
            g.log("'f%d'" % i, "x")
            stmts(g, {"func": 1, "loop": 0, "depth": 0}, g.k(1, 3))
            if g.p(0.5):
                thrower(g)
            g.w("return x")
        g.funcs.append("f%d" % i)
    for _ in range(g.k(3, 6)):
        with g.block("try:"):
            g.log("%s(d(3))" % g.of(g.funcs))
        with g.block("except Exception as _e:"):
            g.log("describe(_e)")
            if g.p(0.3):
                g.log("cur()")
    g.log("cur()" if g.v >= (3, 0) else "0")
    g.budget = 8
    for _ in range(2):
        with g.block("try:"):
            stmts(g, {"func": 0, "loop": 0, "depth": 1}, 2)
        with g.block("except Exception as _e:"):
            g.log("describe(_e)")
    if g.p(0.3):
        thrower(g)
