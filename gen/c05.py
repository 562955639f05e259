"""Names: closures, nonlocal/global declarations, class scopes, deletion, comprehension scopes, locals(), exec."""

N = ["a", "b", "c", "id"]      # one has the name of a builtin


class F(object):
    """A function scope being generated."""

    def __init__(self, kind, parent):
        self.kind, self.parent = kind, parent
        self.decl = {}        # name -> 'global' | 'nonlocal'
        self.local = set()    # names bound here
        self.depth = 0 if parent is None else parent.depth + 1


def visible(f, name):
    """Is there an enclosing function scope that binds name (for nonlocal)?"""
    p = f.parent
    while p is not None and p.kind != "module":
        if p.kind == "def" and p.decl.get(name) == "global":
            return False
        if p.kind == "def" and name in p.local:
            return True
        p = p.parent
    return False


def probe(g, f, n=None):
    n = n or g.of(N)
    with g.block("try:"):
        g.log("'%s'" % n, n)
    with g.block("except NameError as _e:"):
        g.log("type(_e).__name__")


def bind(g, f, n):
    if f.decl.get(n) is None:
        f.local.add(n)


def free_names(g):
    return g.r.sample(N, g.k(1, 3))


def stmt(g, f):
    c = g.weighted([(4, "set"), (4, "probe"), (2.5 if f.depth < 4 else 0, "def"), (1.2 if f.depth < 4 else 0, "class"),
                    (1.5 if g.since(3, 2) or f.kind == "module" else 0, "del"), (1.5, "lambda"), (1.5 if not g.py2 else 0, "comp"), (1, "genexpr"), (1, "aug"),
                    (1, "for"), (0.8, "locals"), (1, "loopclosure"), (0.8, "exec" if not g.py2 else "probe"),
                    (0.6, "globals"), (0.6 if g.since(3, 2) else 0, "exceptas"), (0.4, "import"), (0.5 if g.since(3, 8) else 0, "walrus"),
                    (0.4, "builtin"), (0.5, "cond"), (0.7, "equal")])
    n = g.of(N)
    if f.decl.get(n) is None and c in ("set", "del", "aug", "for", "cond", "loopclosure", "walrus", "import", "equal"):
        f.local.add(n)
    if c == "set":
        g.w("%s = %s" % (n, g.pick("%d" % g.k(1, 99), "None", g.pick("0", "''", "False", "[]"), "'%s%d'" % (n, g.k(1, 9)), "[%d]" % g.k(1, 9))))
    elif c == "equal":
        # bound to another object, equal to what it was
        v = g.pick("[%d]", "{'k': %d}", "[[%d]]") % g.k(1, 9)
        g.w("%s = %s" % (n, v))
        g.w("_o = %s" % n)
        g.w("%s = %s" % (n, v))
        g.w("_o.clear()" if v[0] == "{" else "_o.append(0)")
        probe(g, f, n)
    elif c == "probe":
        probe(g, f)
    elif c == "aug":
        with g.block("try:"):
            g.w("%s += %s" % (n, g.pick("1", "'x'", "[3]")))
            g.log(n)
        g.catch()
    elif c == "cond":
        with g.block("if %s:" % g.pick("0", "1", "d(2)")):
            g.w("%s = 'cond'" % n)
        probe(g, f, n)
    elif c == "walrus":
        g.log("(%s := d(9))" % n if f.kind != "class" else "1")
    elif c == "import":
        g.w("import %s as %s" % (g.pick("operator", "types"), n))
        g.w("%s = %s.__name__" % (n, n))
    elif c == "del":
        with g.block("try:"):
            g.w("del %s" % n)
            g.log("'deleted'")
        g.catch("NameError")
        probe(g, f, n)
    elif c == "for":
        with g.block("for %s in (%d, 'z'):" % (n, g.k(1, 9))):
            probe(g, f)
        probe(g, f, n)
    elif c == "exceptas" and not g.py2:
        if f.decl.get(n) is None:
            f.local.add(n)
        with g.block("try:"):
            g.w("raise KeyError(%d)" % g.k(1, 9))
        with g.block("except KeyError as %s:" % n):
            g.log("%s.args" % n)
        probe(g, f, n)
    elif c == "lambda":
        g.w("_l = lambda %s: (%s)" % (g.pick("", "%s=7" % n, "q=1", "*a"), "%s, %s" % (g.of(N), g.of(N))))
        g.w("_fs.append(_l)")
        with g.block("try:"):
            g.log("_l()")
        g.catch("NameError")
    elif c == "loopclosure":
        g.w("_fs2 = []")
        with g.block("for %s in range(3):" % n):
            g.w("_fs2.append(lambda: %s)" % (n if f.kind != "class" else "1"))
            if g.p(0.5):
                g.w("_fs2.append(lambda q=%s: q)" % n)
        with g.block("try:"):
            g.log("[_f() for _f in list(_fs2)]" if not g.py2 else "list(map(lambda f_: f_(), _fs2))")
        g.catch("NameError")
    elif c == "comp":
        m = g.of(N)
        with g.block("try:"):
            it = g.pick("[1, 2]", "range(2)", "(3, d(4))")
            cls = f.kind == "class"
            lam = g.p(0.25)
            if lam:
                m = "_c1"       # 3.12's own inlining of cells is wrong for shared names
            body = m if cls else g.pick(m, "(%s, %s)" % (m, g.of(N)), "[%s for _c2 in (%s, 5)]" % (g.pick(g.of(N), "_c2"), m))
            g.log(("[_g() for _g in [lambda: %s for %s in %s]]" if lam else g.pick("[%s for %s in %s]", "sorted({str(%s) for %s in %s})" if g.since(2, 7) else "[%s for %s in %s]",
                         "list(%s for %s in %s)"))
                  % (body, m, it))
        # inlined comprehensions say UnboundLocalError
        with g.block("except NameError:"):
            g.log("'NameError'")
        probe(g, f, m)
    elif c == "genexpr":
        m = g.of(N)
        with g.block("try:"):
            g.log("list(%s for %s in (1, 2) if %s)" % (m, m, m))
        g.catch("NameError")
    elif c == "locals":
        # names of ours only; what else is there is the implementation's business
        if f.kind != "module":
            g.log("sorted(_k for _k in sorted(locals()) if _k in ('a', 'b', 'c', 'id'))" if f.kind != "class" and not g.py2
                  else "sorted(set(locals()) & set(['a', 'b', 'c', 'id']))")
    elif c == "globals":
        m = g.of(N)
        g.w(g.pick("globals()['%s'] = %d" % (m, g.k(100, 200)), "globals().pop('%s', None)" % m))
        g.log("globals().get('%s', 'unset')" % m)
    elif c == "exec":
        g.w("_ns = {'a': %d}" % g.k(300, 400))
        g.w("exec(%r, _ns)" % g.pick("b = a + 1", "def e(): return a\nc = e()", "a = a * 2; del a"))
        g.log("sorted(_k for _k in _ns if _k[0] != '_')" if f.kind != 'class' else "0")
        with g.block("try:"):
            g.log("eval('a', {'a': 1})", "eval('a + b', {'b': 5}, {'a': 2})")
        g.catch()
    elif c == "builtin":
        g.w("_n = len")
        g.log("len('abc')", "_n is len")
    elif c == "class":
        cls_scope(g, f)
    elif c == "def":
        def_scope(g, f)
    else:
        g.w("pass")


def cls_scope(g, f):
    name = g.name("K")
    s = F("class", f)
    with g.block("class %s(object):" % name):
        for n in free_names(g):
            if g.p(0.15):
                g.w("global %s" % n)
                s.decl[n] = "global"
            elif not g.py2 and g.p(0.2) and visible(s, n):
                g.w("nonlocal %s" % n)
                s.decl[n] = "nonlocal"
        for _ in range(g.k(1, 4)):
            stmt(g, s)
        with g.block("def m(self):"):
            probe(g, s)
            with g.block("try:"):
                g.log("self.%s" % g.of(N))
            g.catch("AttributeError")
    with g.block("try:"):
        g.w("%s().m()" % name)
    g.catch()
    g.log("sorted(_k for _k in vars(%s) if _k[0] != '_')" % name if f.kind != "class" else "0")


def def_scope(g, f):
    name = g.name("fn")
    s = F("def", f)
    params = g.r.sample(N, g.k(0, 2))
    s.local.update(params)
    gen = g.p(0.15)
    with g.block("def %s(%s):" % (name, ", ".join(params))):
        for n in free_names(g):
            if n in params:
                continue
            if g.p(0.2):
                g.w("global %s" % n)
                s.decl[n] = "global"
            elif not g.py2 and g.p(0.5) and visible(s, n):
                g.w("nonlocal %s" % n)
                s.decl[n] = "nonlocal"
        for _ in range(g.k(2, 6)):
            stmt(g, s)
            if gen and g.p(0.4):
                g.w("yield %d" % g.k(1, 9))
        if gen:
            g.w("yield 0")
        else:
            g.w("return lambda: (%s)" % g.of(N) if g.p(0.3) else "return %d" % g.k(1, 9))
    for _ in range(g.k(1, 2)):
        with g.block("try:"):
            args = ", ".join("'%s%d'" % (p, g.k(1, 9)) for p in params)
            if gen:
                g.log("list(%s(%s))" % (name, args))
            else:
                g.w("_r = %s(%s)" % (name, args))
                g.log("callable(_r) and _r()")
        g.catch()


def make(g):
    g.decider()
    g.w("_fs = []")
    for n in N[:3]:
        if g.p(0.7):
            g.w("%s = 'G%s'" % (n, n))
    m = F("module", None)
    for _ in range(g.k(3, 6)):
        def_scope(g, m)
        for _ in range(g.k(0, 2)):
            stmt(g, m)
    with g.block("for _f in _fs:"):
        with g.block("try:"):
            g.log("_f()")
        g.catch("Exception")
