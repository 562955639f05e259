"""Generators: random bodies (yields in loops, try/except/finally, with, delegation) driven by random histories of
next/send/throw/close, interleaved over several generators."""


def vexpr(g):
    return g.pick("%d" % g.k(1, 99), "x", "(x, %d)" % g.k(1, 9), "'y%d'" % g.k(1, 9), "None", "x")


def yexpr(g):
    y = "(yield %s)" % vexpr(g) if g.p(0.85) else "(yield)"
    return y


def body(g, s, n):
    for _ in range(n):
        if g.budget <= 0:
            break
        g.budget -= 1
        c = g.weighted([
            (5, "yield"), (2, "recv"), (2, "try"), (1.5, "finally"), (1.5, "loop"), (1, "while"), (1, "if"), (1, "log"),
            (0.7, "return"), (0.5, "raise"), (1.3 if g.since(3, 3) and g.subs else 0, "from"), (0.8 if g.subs else 0, "forsub"),
            (0.8 if g.since(2, 6) else 0, "with"), (0.8, "expr"), (0.5, "inexc"), (0.4, "comp"), (0.4, "call"), (1.2, "absorb")])
        if not g.since(2, 5) and c in ("recv", "expr", "call", "finally", "inexc", "if", "with", "try", "absorb"):
            c = "yield"
        if s["depth"] > 3 and c in ("try", "finally", "loop", "while", "if", "with"):
            c = "yield"
        s2 = dict(s, depth=s["depth"] + 1)
        if c == "yield":
            g.w("yield %s" % vexpr(g))
        elif c == "recv":
            g.w("x = %s" % yexpr(g))
            g.log("'got'", "x")
        elif c == "expr":
            g.w("x = (%s, %s)" % (yexpr(g), yexpr(g)))
            g.log("x")
        elif c == "call":
            g.log("ident(%s, %s)" % (yexpr(g), "x"))
        elif c == "comp":
            g.w("yield [_c1 for _c1 in (1, x)]")
        elif c == "log":
            g.log("'run'", "x")
        elif c == "if":
            with g.block("if %s:" % g.pick("x", "d(2)", "not x", "%s" % yexpr(g))):
                body(g, s2, g.k(1, 2))
            if g.p(0.4):
                with g.block("else:"):
                    body(g, s2, 1)
        elif c == "loop":
            v = g.name("i")
            with g.block("for %s in %s:" % (v, g.pick("range(2)", "range(3)", "'ab'", "(x, 1)"))):
                g.w("yield %s" % g.pick(v, "(%s, x)" % v))
                body(g, dict(s2, loop=1), g.k(0, 2))
                if g.p(0.25):
                    with g.block("if d(2):"):
                        g.w(g.pick("break", "continue"))
            if g.p(0.3):
                with g.block("else:"):
                    g.log("'else'")
        elif c == "while":
            v = g.name("n")
            g.w("%s = %d" % (v, g.k(1, 3)))
            with g.block("while %s:" % v):
                g.w("%s -= 1" % v)
                body(g, dict(s2, loop=1), g.k(1, 2))
        elif c == "try":
            with g.block("try:"):
                body(g, s2, g.k(1, 2))
                if g.p(0.3):
                    g.w("raise KeyError(x)")
            for _ in range(g.k(1, 2)):
                with g.block("except %s:" % g.pick("KeyError", "ValueError", "Boom", "(KeyError, Boom)", "LookupError",
                                                   "Exception")):
                    g.log("'caught'")
                    body(g, s2, g.k(0, 2))
                    if g.p(0.15):
                        g.w("raise")
            if g.p(0.3):
                with g.block("else:"):
                    body(g, s2, 1)
            if g.p(0.3):
                with g.block("finally:"):
                    g.log("'fin'")
                    if g.p(0.3):
                        g.w("yield 'fin'")
        elif c == "finally":
            with g.block("try:"):
                body(g, s2, g.k(1, 3))
            with g.block("finally:"):
                g.log("'fin'", "x")
                if g.p(0.15):
                    g.w("yield 'infin'")
        elif c == "inexc":
            with g.block("try:"):
                g.w("yield %s" % vexpr(g))
            with g.block("except GeneratorExit:"):
                g.log("'closing'")
                if g.p(0.6):
                    g.w("raise")
                elif g.p(0.3):
                    g.w("yield 'refuse'")
        elif c == "absorb":
            # ends when something is thrown in
            with g.block("try:"):
                g.w("x = %s" % yexpr(g))
            with g.block("except %s:" % g.pick("Exception", "(KeyError, Boom)", "(ValueError, GeneratorExit)", "Boom")):
                g.w("return%s" % (" " + vexpr(g) if g.since(3, 3) and g.p(0.8) else ""))
        elif c == "with":
            with g.block("with M(%d) as m:" % g.tag()):
                body(g, s2, g.k(1, 2))
        elif c == "return":
            with g.block("if d(3) == 0:"):
                g.w("return%s" % (" " + vexpr(g) if g.since(3, 3) and g.p(0.6) else ""))
        elif c == "raise":
            with g.block("if d(4) == 0:"):
                g.w("raise %s" % g.pick("Boom(x)", "KeyError('k')", "StopIteration(3)" if g.v >= (3, 7) else "Boom"))
        elif c == "from":
            g.w("x = yield from %s" % g.pick("K(%s(x))" % g.of(g.subs), "K(%s(%d))" % (g.of(g.subs), g.k(1, 9)), "[1, 2]", "range(2)",
                                             "It()", "K(_c1 for _c1 in (x, 2))"))
            g.log("'from'", "x")
        elif c == "forsub":
            v = g.name("s")
            with g.block("for %s in K(%s(x)):" % (v, g.of(g.subs))):
                if g.p(0.6):
                    g.w("yield (%s, 'sub')" % v)
                g.log(v)
                if g.p(0.3):
                    g.w("break")


def falsy_results(g):
    """Generators that end with all sorts of values, some of them false, and who delegates to them."""
    with g.block("def ends(k, v):"):
        with g.block("for i in range(k):"):
            g.w("yield i")
        g.w("return v")
    n = g.k(2, 4)
    with g.block("def asks():"):
        for i in range(n):
            v = g.pick("0", "''", "()", "[]", "False", "None", "0.0", "Falsy()", "1", "'v'")
            how = g.pick("(yield from ends(%d, %s))" % (g.k(0, 2), v), "(yield from EndIter(%d, %s))" % (g.k(0, 2), v))
            g.log("'result'", "show(%s)" % how)
        g.w("return %s" % g.pick("0", "''", "None", "False", "7"))
    with g.block("def show(v):"):
        g.w("return type(v).__name__ if type(v).__name__ == 'Falsy' else v")
    with g.block("class Falsy(object):"):
        g.w("def __bool__(self): return False")
        g.w("def __len__(self): return 0")
    with g.block("class EndIter(object):"):
        g.w("def __init__(self, k, v): self.k, self.v = k, v")
        g.w("def __iter__(self): return self")
        with g.block("def __next__(self):"):
            g.w("self.k -= 1")
            with g.block("if self.k < 0:"):
                g.w("raise StopIteration(self.v)")
            g.w("return self.k")
    with g.block("def outer():"):
        g.log("'outer'", "(yield from asks())")
    g.log("list(outer())")


def drive(g):
    gens = []
    for i in range(g.k(1, 3)):
        n = "g%d" % i
        g.w("%s = K(%s(%d))" % (n, g.of(g.subs), g.k(1, 9)))
        gens.append(n)
    for _ in range(g.k(6, 16)):
        n = g.of(gens)
        with g.block("try:"):
            c = g.weighted([(6, "next"), (3, "send"), (2, "throw"), (1, "close"), (0.5, "for"), (0.4, "list"), (0.3, "next2"),
                            (0.4, "iter"), (0.3, "sendfirst"), (0.2, "unpack"), (0.2, "in"), (0.2, "zip")])
            if not g.since(2, 5) and c in ("send", "throw", "close", "sendfirst"):
                c = "next"
            if c == "next":
                g.log("next(%s)" % n)
            elif c == "next2":
                g.log("next(%s, 'default')" % n)
            elif c == "send":
                g.log("%s.send(%s)" % (n, g.pick("%d" % g.k(1, 9), "None", "'s'", "[1]")))
            elif c == "sendfirst":
                g.w("%s = K(%s(4))" % (n, g.of(g.subs)))
                g.log("%s.send(%s)" % (n, g.pick("None", "3")))
            elif c == "throw":
                g.log("%s.throw(%s)" % (n, g.pick("KeyError('t')", "Boom(1)", "ValueError", "Boom", "GeneratorExit",
                                                  "LookupError('l')", "GeneratorExit()")))
            elif c == "close":
                g.log("%s.close()" % n)
            elif c == "for":
                with g.block("for v in %s:" % n):
                    g.log("v")
                    if g.p(0.5):
                        g.w("break")
            elif c == "list":
                g.log("list(%s)" % n)
            elif c == "iter":
                g.log("iter(%s) is %s" % (n, n))
            elif c == "unpack":
                g.w("p, q = %s" % n)
                g.log("p", "q")
            elif c == "in":
                g.log("%d in %s" % (g.k(1, 9), n))
            elif c == "zip":
                g.log("list(zip(%s, range(2)))" % n)
        with g.block("except StopIteration as _e:"):
            g.log("'stop'", "_e.value" if g.since(3, 3) else "0")
        with g.block("except (Exception, GeneratorExit) as _e:"):
            g.log("'exc'", "type(_e).__name__", "isinstance(_e, Boom) and _e.args")
    if g.p(0.7) and g.since(2, 5):
        for n in gens:
            with g.block("try:"):
                g.w("%s.close()" % n)
                g.log("'closed'", "list(%s)" % n)
            with g.block("except (Exception, GeneratorExit) as _e:"):
                g.log("'exc'", "type(_e).__name__")
    else:
        g.log("'left'")


def make(g):
    g.decider()
    g.w("class Boom(Exception): pass")
    # when an abandoned generator is finalized is up to the implementation: keep them all
    g.w("_keep = []")
    g.w("def K(gen): _keep.append(gen); return gen")
    g.w("def ident(*a): return a")
    with g.block("class M(object):"):
        g.w("def __init__(self, n): self.n = n")
        g.w("def __enter__(self): T('enter', self.n); return self.n")
        with g.block("def __exit__(self, t, v, tb):"):
            g.w("T('exit', self.n, t and t.__name__)")
            g.w("return %s" % g.pick("False", "t is Boom", "None"))
    with g.block("class It(object):"):
        g.w("def __init__(self): self.n = 0")
        g.w("def __iter__(self): return self")
        with g.block("def __next__(self):"):
            g.w("self.n += 1")
            g.w("if self.n > 2: raise StopIteration('itval')")
            g.w("return ('it', self.n)")
        if g.p(0.5):
            with g.block("def send(self, v):"):
                g.w("T('it.send', v)")
                g.w("return self.__next__()")
        if g.p(0.5):
            with g.block("def throw(self, *a):"):
                g.w("T('it.throw', len(a) > 0)")
                g.w(g.pick("return 'thrown'", "raise Boom('it')", "raise StopIteration('over')"))
        if g.p(0.4):
            g.w("def close(self): T('it.close')")
    g.subs = []
    for i in range(g.k(2, 4)):
        g.budget = g.k(3, 11)
        n = "gen%d" % i
        meth = g.p(0.15)
        if meth:
            with g.block("class H%d(object):" % i):
                with g.block("def m(self, x):"):
                    g.log("'start'", "x")
                    body(g, {"depth": 1, "loop": 0}, g.k(2, 5))
                    g.w("yield x")
            g.w("%s = lambda x: H%d().m(x)" % (n, i))
        else:
            with g.block("def %s(x):" % n):
                g.log("'start'", "x")
                body(g, {"depth": 0, "loop": 0}, g.k(2, 5))
                g.w("yield 'last'")
                if g.since(3, 3) and g.p(0.5):
                    g.w("return ('ret', x)")
        g.subs.append(n)
    for _ in range(g.k(2, 3)):
        drive(g)
    # generator expressions
    for _ in range(g.k(1, 3)):
        with g.block("try:"):
            g.w("y = %d" % g.k(1, 5))
            g.w("ge = K(%s for a in %s%s)" % (
                g.pick("a", "(a, y)", "T(%d, a)" % g.tag()), g.pick("range(4)", "T(%d, [1, 2, 3])" % g.tag(), "K(%s(2))" % g.of(g.subs)),
                g.pick("", " if a != 2", " for b in (1, 2)", " if a for b in (a, y) if b != a")))
            g.w("y = 50")
            g.log("next(ge)")
            g.log(g.pick("list(ge)", "next(ge)", "sum(1 for _ in ge)", "ge.close()" if g.since(2, 5) else "0"))
            g.log("list(ge)")
        g.catch()
    if g.since(3, 3) and g.p(0.4):
        falsy_results(g)
