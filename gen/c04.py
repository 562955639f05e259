"""Calls: random signatures against random call shapes; what each parameter is bound to, or the TypeError."""

NAMES = ["a", "b", "c", "d_", "e", "f_", "g", "h"]


def signature(g):
    """(text, names) of a random parameter list."""
    names = NAMES[:]
    g.r.shuffle(names)
    n = g.k(0, 4)
    pos = [names.pop() for _ in range(n)]
    nd = g.k(0, n)
    parts, logged = [], list(pos)
    cut = g.k(0, n) if g.since(3, 8) and g.p(0.4) else 0
    for i, p in enumerate(pos):
        ann = ": %s" % g.pick("int", "T(%d, 1)" % g.tag(), "'ann'") if not g.py2 and g.p(0.12) and not g.lam else ""
        if i >= n - nd:
            parts.append("%s%s=%s" % (p, ann, g.pick("%d" % g.k(10, 20), "'d%s'" % p, "T(%d, 'default')" % g.tag(), "[]", "None")))
        else:
            parts.append(p + ann)
        if cut and i == cut - 1:
            parts.append("/")
    star = g.k(0, 3)
    if star == 0:
        parts.append("*rest")
        logged.append("rest")
    if not g.py2 and g.p(0.45) and names:
        kws = [names.pop() for _ in range(g.k(1, min(3, len(names))))]
        if star != 0:
            parts.append("*")
        for k in kws:
            parts.append(k + (g.pick("=%d" % g.k(30, 40), "=T(%d, 'kwd')" % g.tag() if g.since(3, 4) else "=3", "")))
            logged.append(k)
    if g.p(0.35):
        parts.append("**kw")
        logged.append("kw")
    return ", ".join(parts), logged


def val(g):
    return g.pick("%d" % g.k(1, 9), "'s%d'" % g.k(1, 5), "t(%d)" % g.tag(), "x", "(1, 2)", "None", "t(%d)" % g.tag())


def arglist(g, names):
    """A random call shape, often near a match."""
    parts = [val(g) for _ in range(g.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (1, 4), (0.4, 6)]))]
    multi = g.since(3, 5)
    cand = [n for n in names if n not in ("rest", "kw")] + [g.of(NAMES), "zz"]
    g.r.shuffle(cand)
    kws = []
    for n in cand[:g.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])]:
        if n not in [k for k, _ in kws]:
            kws.append((n, val(g)))
    if g.p(0.25):
        s = "*%s" % g.pick("[1, 2]", "(t(%d),)" % g.tag() if g.since(3, 5) else "(6,)", "()", "'xy'", "gen(%d)" % g.k(0, 3), "{3: 4}")
        if multi and g.p(0.5):
            parts.insert(g.k(0, len(parts)), s)
            if g.p(0.3):
                parts.insert(g.k(0, len(parts)), "*gen(1)")
        else:
            parts.append(s)
    parts += ["%s=%s" % kv for kv in kws]
    if g.p(0.25):
        n = g.of(cand)
        s = "**%s" % g.pick("{'%s': 5}" % n, "dict(%s=%s)" % (n, "t(%d)" % g.tag() if g.since(3, 5) else "9"), "{}", "{'q': 1, '%s': 2}" % g.of(NAMES),
                            "{1: 2}" if g.p(0.2) else "{}", "Map()")
        if multi and g.p(0.4):
            parts.append(s)
            parts.append(g.pick("**{'q2': 3}", "%s=7" % g.pick("zq", "zr")))
        else:
            parts.append(s)
    return ", ".join(parts)


def make(g):
    g.lam = False
    g.w("x = 'X'")
    g.w("WORDS = ('positional argument', 'positional-only', 'required keyword', 'unexpected keyword')")
    with g.block("def t(k):"):
        g.w("T('arg', k)")
        g.w("return k * 10")
    with g.block("def gen(n):"):
        with g.block("for i in range(n):"):
            # when the elements are taken depends on the release before 3.9
            if g.since(3, 9):
                g.w("T('gen', i)")
            g.w("yield 'g%d' % i")
    with g.block("class Map(object):"):
        lg = g.since(3, 9)
        g.w("def keys(self): %sreturn ['%s', 'm']" % ("T('keys'); " if lg else "", g.of(NAMES)))
        g.w("def __getitem__(self, k): %sreturn k * 2" % ("T('item', k); " if lg else ""))
    funcs = []
    for i in range(g.k(3, 6)):
        kind = g.weighted([(5, "def"), (2, "lambda"), (2, "method"), (1, "static"), (1, "classm"), (1.5, "init"),
                           (1, "nested"), (1, "callobj"), (1, "deco"), (1, "gen")])
        n = "f%d" % i
        g.lam = kind == "lambda"
        sig, logged = signature(g)
        body = "T('%s', %s)" % (n, ", ".join("(%r, %s)" % (l, l if l != "kw" else "sorted(kw.items(), key=repr)")
                                            for l in logged) or "0")
        if g.py2:
            body = body
        if kind in ("def", "nested", "deco", "gen"):
            if kind == "nested":
                with g.block("def outer%d(cv):" % i):
                    with g.block("def %s(%s):" % (n, sig)):
                        g.w(body)
                        g.w("return cv")
                    g.w("return %s" % n)
                g.w("%s = outer%d(3)" % (n, i))
            else:
                if kind == "deco":
                    with g.block("def deco%d(fn):" % i):
                        with g.block("def wrap(*a, **k):"):
                            g.w("T('wrap', a, sorted(k))")
                            g.w("return fn(*a, **k)")
                        g.w("return wrap")
                    g.w("@deco%d" % i)
                with g.block("def %s(%s):" % (n, sig)):
                    g.w(body)
                    if kind == "gen":
                        g.w("yield 4")
                    elif logged and g.p(0.4):
                        v = g.of(logged)
                        g.w("def inner(): return %s" % v)
                        g.w("return inner()")
                    elif g.p(0.3):
                        g.w("return len(locals())")
            funcs.append((n, logged, kind))
        elif kind == "lambda":
            g.w("%s = lambda %s: %s" % (n, sig, body))
            funcs.append((n, logged, kind))
        else:
            # the method's own parameters after self
            selfp = {"static": "", "classm": "cls"}.get(kind, "self")
            s2 = ", ".join(x for x in (selfp, sig) if x)
            if "/" in s2 and s2.index("/") >= 0 and sig.startswith("/"):
                s2 = sig
            with g.block("class C%d(object):" % i):
                mname = {"init": "__init__", "callobj": "__call__"}.get(kind, "m")
                if kind == "static":
                    g.w("@staticmethod")
                if kind == "classm":
                    g.w("@classmethod")
                with g.block("def %s(%s):" % (mname, s2)):
                    g.w(body)
                    if kind != "init":
                        g.w("return %s" % g.pick("5", "'r'"))
            ref = {"init": "C%d" % i, "callobj": "C%d()" % i, "method": "C%d().m" % i, "static": g.pick("C%d.m", "C%d().m") % i,
                   "classm": g.pick("C%d.m", "C%d().m") % i}[kind]
            if kind == "method" and g.p(0.3) and not g.py2:
                g.w("bm%d = C%d().m" % (i, i))
                ref = "bm%d" % i
            funcs.append((ref, logged, kind))
    for _ in range(g.k(10, 18)):
        n, logged, kind = g.of(funcs)
        call = "%s(%s)" % (n, arglist(g, logged))
        with g.block("try:"):
            if kind == "init":
                g.log("type(%s).__name__" % call)
            elif kind == "gen":
                g.log("list(%s)" % call)
            else:
                g.log(call)
        if g.since(3, 10) or g.since(3, 3) and kind in ("def", "lambda", "gen"):
            # the texts are the same since then
            with g.block("except TypeError as _e:"):
                g.log("'type error'", "[_w in str(_e) and str(_e) for _w in WORDS]")
        g.catch()
    # built-ins and classes called with every shape, too
    for _ in range(3):
        with g.block("try:"):
            g.log(g.pick("dict(%s)" % "a=1, b=t(2)", "sorted([3, t(1), 2], reverse=True)", "max(1, 2, key=lambda v: -v)",
                         "int('ff', base=16)", "dict([(1, 2)], **{'q': t(3)})", "print", "'{}-{k}'.format(1, k=t(2))",
                         "list(zip(*[(1, 2), (3, 4)]))", "sum(gen(0), 5)", "list(enumerate('ab', 1))",
                         "isinstance(*(1, int))", "getattr(x, 'zzz', *[t(1)])"))
        g.catch()
