"""with statements: managers that log, fail, suppress; left in every way there is."""


def mgr(g):
    return "M(%d, %s)" % (g.tag(), g.pick("0", "0", "0", "'enter'", "'exit'", "'suppress'", "'suppress'", "'swap'", "'truthy'",
                                          "'init'", "'falsy'"))


def stmt(g, s):
    c = g.weighted([(4, "with"), (2, "log"), (2, "raise"), (1.2 if s["func"] else 0, "return"),
                    (1.2 if s["loop"] else 0, "break"), (0.9 if s["loop"] and not s["fin"] else 0, "continue"), (1.2, "loop"), (1.5, "try"),
                    (0.8, "if"), (0.7, "call"), (0.6, "native"), (0.5 if s["gen"] else 0, "yield"), (0.6, "finally")])
    if s["depth"] > 5 and c in ("with", "loop", "try", "if", "finally"):
        c = "log"
    s2 = dict(s, depth=s["depth"] + 1)
    if c == "with":
        n = g.weighted([(6, 1), (2 if g.since(2, 7) else 0, 2), (1 if g.since(2, 7) else 0, 3)])
        items = []
        for _ in range(n):
            t = g.pick("", "", " as a", " as (a, b)", " as L[0]", " as O.x", " as [a, b]", " as a")
            items.append(mgr(g) + t)
        with g.block("with %s:" % ", ".join(items)):
            for _ in range(g.k(1, 3)):
                stmt(g, s2)
            g.log("'body'")
        g.log("'after'")
    elif c == "log":
        g.log("d(3)")
    elif c == "raise":
        with g.block("if d(3) == 0:"):
            g.w("raise %s" % g.pick("Boom(1)", "KeyError('k')", "Boom", "SystemExit(3)", "KeyboardInterrupt()"))
    elif c == "native":
        with g.block("if d(2):"):
            g.w(g.pick("1 // 0", "{}[1]", "None()", "undefined_q", "raiser()"))
    elif c == "return":
        with g.block("if d(3) == 0:"):
            g.w("return %s" % g.pick("d(9)", "T(%d, 'ret')" % g.tag(), ""))
    elif c == "break":
        with g.block("if d(2):"):
            g.w("break")
    elif c == "continue":
        with g.block("if d(2):"):
            g.w("continue")
    elif c == "yield":
        g.w("got = yield d(9)")
        g.log("got")
    elif c == "loop":
        v = g.name("i")
        with g.block(g.pick("for %s in range(%d):" % (v, g.k(1, 3)), "for %s in 'ab':" % v)):
            g.log(v)
            for _ in range(g.k(1, 2)):
                stmt(g, dict(s2, loop=1, fin=0))
        if g.p(0.3):
            with g.block("else:"):
                g.log("'else'")
    elif c == "try":
        with g.block("try:"):
            for _ in range(g.k(1, 2)):
                stmt(g, s2)
        with g.block("except %s:" % g.pick("Boom", "KeyError", "Exception", "ArithmeticError", "BaseException")):
            g.log("'caught'", "cur()")
            stmt(g, s2 if not (g.pypy and g.v == (3, 8)) else dict(s2, func=0))
        if g.p(0.3):
            with g.block("else:"):
                g.log("'noexc'")
    elif c == "finally":
        with g.block("try:"):
            stmt(g, s2)
        with g.block("finally:"):
            g.log("'fin'")
            stmt(g, dict(s2, func=0, loop=0, fin=1))
    elif c == "if":
        with g.block("if d(2):"):
            stmt(g, s2)
        with g.block("else:"):
            stmt(g, s2)
    elif c == "call" and g.funcs:
        g.log("%s()" % g.of(g.funcs))
    else:
        g.log("0")


def make(g):
    g.funcs = []
    g.decider()
    g.w("import sys")
    g.w("class Boom(Exception): pass")
    g.w("L = [0]")
    g.w("class O(object): x = 1")
    with g.block("def cur():"):
        g.w("e = sys.exc_info()")
        g.w("return e[0] and e[0].__name__")
    with g.block("def raiser():"):
        with g.block("with M(%d, 0):" % g.tag()):
            g.w("raise Boom('r')")
    with g.block("class M(object):"):
        with g.block("def __init__(self, n, how):"):
            g.w("self.n, self.how = n, how")
            g.w("if how == 'init': raise Boom('init')")
        with g.block("def __enter__(self):"):
            g.w("T('enter', self.n)")
            g.w("if self.how == 'enter': raise Boom('enter')")
            g.w("return (self.n, self.how)")
        with g.block("def __exit__(self, t, v, tb):"):
            g.w("T('exit', self.n, t and t.__name__, v is None, tb is None)")
            if g.p(0.5):
                g.w("T('val', isinstance(v, Boom) and v.args, t is not None and isinstance(v, t))")
            if g.p(0.4):
                g.w("T(cur())" if not g.py2 else "T(0)")
            g.w("if self.how == 'exit': raise KeyError('exit')")
            g.w("if self.how == 'swap' and t: raise ValueError('swap')")
            g.w("if self.how == 'suppress': return True")
            g.w("if self.how == 'truthy': return [0]")
            g.w("if self.how == 'falsy': return %s" % g.pick("0", "''", "[]"))
    for i in range(g.k(2, 4)):
        gen = g.p(0.2)
        n = "f%d" % i
        s = {"func": not gen, "loop": 0, "fin": 0, "gen": gen, "depth": 0}
        with g.block("def %s():" % n):
            g.w("a = b = 0")
            for _ in range(g.k(2, 4)):
                stmt(g, s)
            g.w("yield 1" if gen else "return (a, b)")
        if gen:
            g.w("_keep%d = %s()" % (i, n))
        for _ in range(3):
            with g.block("try:"):
                if gen:
                    g.log(g.pick("next(_keep%d)", "_keep%d.send(4)" if g.p(0.5) else "next(_keep%d)", "_keep%d.throw(Boom(2))",
                                 "_keep%d.close()", "next(_keep%d)") % i)
                else:
                    g.log("%s()" % n)
            with g.block("except BaseException as _e:"):
                g.log("type(_e).__name__", "isinstance(_e, Boom) and _e.args")
        if not gen:
            g.funcs.append(n)
    with g.block("try:"):
        g.w("a = b = 0")
        for _ in range(2):
            stmt(g, {"func": 0, "loop": 0, "fin": 0, "gen": 0, "depth": 1})
    g.catch("BaseException")
    g.log("L", "O.x")
