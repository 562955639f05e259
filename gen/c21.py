"""Interpreted functions, generators, classes and bound methods handed to native code: called back by built-ins and
the standard library, subclassing built-ins, taking part in protocols, copied, compared, sorted, formatted."""


def fn(g, n=1):
    """An interpreted callable of n arguments."""
    ps = ["p", "q", "r"][:n]
    body = g.pick("T(%d, %s)" % (g.tag(), ps[0]), ps[-1], "(%s,)" % ", ".join(ps), "%s %% 2" % ps[0] if n == 1 else "p + q" if n == 2 else ps[0])
    return g.pick("lambda %s: %s" % (", ".join(ps), body), "fun%d" % n, "Obj(%d).meth%d" % (g.k(1, 5), n), "Call%d()" % n,
                  "Obj.stat%d" % n, "Obj.cm%d" % n, "closure%d(%d)" % (n, g.k(1, 9)))


def nums(g):
    return g.pick("[3, 1, 2]", "(5, 4)", "range(4)", "gen(3)", "Seq(3)", "It(3)", "[]", "set([2])", "iter([1, 2])", "dict(a=1).values()")


def expr(g):
    c = g.k(0, 29)
    n = nums(g)
    if c == 0:
        return "list(map(%s, %s))" % (fn(g), n)
    if c == 1:
        return "list(map(%s, %s, [10, 20, 30]))" % (fn(g, 2), n)
    if c == 2:
        return "list(filter(%s, %s))" % (fn(g), n)
    if c == 3:
        return "sorted([3, 1, 2], key=%s)" % fn(g)
    if c == 4:
        return "reduce(%s, %s, 0)" % (fn(g, 2), n)
    if c == 5:
        return "%s(%s)" % (g.pick("list", "tuple", "sum", "sorted", "max", "min", "any", "all", "len"), g.pick(n, "gen(2)", "Seq(2)"))
    if c == 6:
        return "partial(%s, 1)(2)" % fn(g, 2)
    if c == 7:
        return "list(iter(%s, 3))" % g.pick("counter()", "Stepper()")
    if c == 8:
        return "re.sub('[0-9]', %s, 'a1b2')" % g.pick("lambda m: '<%s>' % m.group(0)", "resub")
    if c == 9:
        return "list(zip(%s, %s))" % (n, nums(g))
    if c == 10:
        return "list(enumerate(%s))" % n
    if c == 11:
        return "sorted(D(%s).items())" % g.pick("a=1", "[('k', 2)]", "")
    if c == 12:
        return "D(a=1)[%s]" % g.pick("'a'", "'missing'")
    if c == 13:
        return "Lst([1, 2]) + [3]" if g.p(0.5) else "Lst(%s).total()" % n
    if c == 14:
        return "sorted([Key(3), Key(1), Key(2)])[0].k" if g.since(2, 4) else "0"
    if c == 15:
        return "Key(1) == Key(1)" if g.p(0.5) else "Key(2) in [Key(1), Key(2)]"
    if c == 16:
        return "len(set([Key(1), Key(1), Key(2)]))" if g.p(0.5) else "dict([(Key(1), 'x')])[Key(1)]"
    if c == 17:
        return g.pick("'%s %r' % (Key(1), Key(2))", "'{0} {1!r}'.format(Key(1), Key(2))", "str(Key(3)) + repr(Key(4))",
                      "format(Key(5), '>6')")
    if c == 18:
        return g.pick("getattr(Obj(1), 'meth1')(5)", "getattr(Obj(1), 'nope', 'dflt')", "hasattr(Obj(1), 'n')", "callable(fun1)",
                      "callable(Obj(1))", "isinstance(Obj(2), Obj)", "issubclass(Lst, list)", "isinstance(Lst(), list)",
                      "callable(Call1())", "isinstance(True, Obj)")
    if c == 19:
        return "copy.%s(Obj(%d)).n" % (g.pick("copy", "deepcopy"), g.k(1, 5))
    if c == 20:
        return "json.dumps(%s, default=lambda o: %s)" % (g.pick("[Obj(1)]", "{'k': Obj(2)}"), g.pick("o.n", "str(o.n)"))
    if c == 21:
        return "list(itertools.%s)" % g.pick("takewhile(lambda v: v < 2, gen(4))", "dropwhile(%s, [0, 1, 2])" % fn(g),
                                              "starmap(%s, [(1, 2), (3, 4)])" % fn(g, 2), "chain(gen(2), It(1))",
                                              "islice(gen(9), 3)")
    if c == 22:
        return g.pick("sum((Num(1), Num(2)), Num(0)).v", "abs(Num(-3)).v", "round(2.5)", "divmod(7, 2)", "int(Num(4))", "float(Num(2))",
                      "[10, 20, 30][Num(1)]" if g.since(2, 5) else "1", "Num(2) < Num(3)", "max(Num(1), Num(5)).v", "list(range(3))[Num(0):Num(2)]" if g.since(2, 5) else "2",
                      "bool(Num(0))" if not g.py2 else "1", "-Num(2) is not None")
    if c == 23:
        return g.pick("next(gen(2))", "next(It(1))", "next(iter(Seq(2)))", "next(gen(0), 'd')")
    if c == 24:
        return "''.join(%s for p in 'ab')" % g.pick("p.upper()", "T(%d, p)" % g.tag())
    if c == 25:
        return "type('Dyn', (Obj,), {'meth1': %s, 'z': 3})(4).meth1(%s)" % (g.pick("lambda self, p: ('dyn', self.n, p)", "fun2"), g.k(1, 9))
    if c == 26:
        return "[list(x) for x in [gen(2), Seq(1)]]"
    if c == 27:
        return "max([Obj(3), Obj(1)], key=lambda o: o.n).n"
    if c == 28:
        return "cmp_sorted([3, 1, 2], lambda a, b: b - a)"
    return "(lambda *a, **k: (a, sorted(k.items())))(*gen(2), **D(a=1))"


def make(g):
    g.w("import re, copy, json, itertools, functools")
    g.w("from functools import reduce, partial")
    with g.block("def cmp_sorted(l, f):"):
        g.w("return sorted(l, key=functools.cmp_to_key(f))")
    for n in (1, 2, 3):
        ps = ", ".join(["p", "q", "r"][:n])
        with g.block("def fun%d(%s):" % (n, ps)):
            g.w("T('fun%d', %s)" % (n, ps))
            if g.p(0.3):
                g.w("if p == 2: raise %s" % g.pick("ValueError('fun')", "KeyError(p)", "StopIteration"))
            g.w("return %s" % g.pick("p", "(p,)" if n == 1 else "p", "0"))
        with g.block("def closure%d(c):" % n):
            g.w("def inner(%s): return (c, %s)" % (ps, ps) if g.p(0.5) else "def inner(%s): return c" % ps)
            g.w("return inner")
    with g.block("def resub(m):"):
        g.w("T('resub', m.group(0))")
        g.w("return '#'")
    with g.block("def gen(n):"):
        with g.block("for i in range(n):"):
            g.w("T('gen', i)")
            g.w("yield i")
        if g.p(0.3):
            g.w("raise KeyError('gen')")
    with g.block("def counter():"):
        g.w("state = [0]")
        with g.block("def step():"):
            g.w("state[0] += 1")
            g.w("return state[0]")
        g.w("return step")
    with g.block("class Stepper(object):"):
        g.w("n = 0")
        g.w("def __call__(self): self.n += 1; return self.n")
    for n in (1, 2, 3):
        ps = ", ".join(["p", "q", "r"][:n])
        with g.block("class Call%d(object):" % n):
            g.w("def __call__(self, %s): T('call', p); return p" % ps)
    with g.block("class Obj(object):"):
        g.w("def __init__(self, n): self.n = n")
        if g.p(0.4):
            g.w("def %s(self): return %s" % (g.pick("__len__", "__nonzero__" if g.py2 else "__bool__"), g.pick("False", "self.n > 2")))
        for n in (1, 2, 3):
            ps = ", ".join(["p", "q", "r"][:n])
            g.w("def meth%d(self, %s): T('meth', self.n, p); return (self.n, p)" % (n, ps))
            g.w("@staticmethod")
            g.w("def stat%d(%s): return ('stat', p)" % (n, ps))
            g.w("@classmethod")
            g.w("def cm%d(cls, %s): return (cls.__name__, p)" % (n, ps))
    with g.block("class It(object):"):
        g.w("def __init__(self, n): self.n = n")
        g.w("def __iter__(self): return self")
        with g.block("def __next__(self):"):
            g.w("if self.n <= 0: raise StopIteration")
            g.w("self.n -= 1")
            g.w("return self.n")
    with g.block("class Seq(object):"):
        g.w("def __init__(self, n): self.n = n")
        g.w("def __len__(self): T('len'); return self.n")
        with g.block("def __getitem__(self, i):"):
            g.w("if i >= self.n: raise IndexError")
            g.w("return i * 2")
    with g.block("class D(dict):"):
        g.w("def __missing__(self, k): T('missing', k); return 'M'")
    with g.block("class Lst(list):"):
        g.w("def total(self): return sum(self)")
        if g.p(0.5):
            with g.block("def append(self, v):"):
                g.w("T('append', v)")
                g.w("list.append(self, v)")
    with g.block("class Key(object):"):
        g.w("def __init__(self, k): self.k = k")
        g.w("def __eq__(self, o): T('eq', self.k, o.k); return self.k == o.k")
        g.w("def __lt__(self, o): return self.k < o.k")
        g.w("def __hash__(self): return hash(self.k)")
        g.w("def __repr__(self): return 'Key<%d>' % self.k")
        g.w("def __str__(self): return 'key%d' % self.k")
        g.w("def __format__(self, spec): return 'fmt(%s)' % spec")
    with g.block("class Num(object):"):
        g.w("def __init__(self, v): self.v = v")
        g.w("def __add__(self, o): return Num(self.v + o.v)")
        g.w("def __abs__(self): return Num(abs(self.v))")
        g.w("def __neg__(self): return Num(-self.v)")
        g.w("def __int__(self): return int(self.v)")
        g.w("def __float__(self): return self.v * 1.0")
        g.w("def __index__(self): T('index'); return self.v")
        g.w("def __lt__(self, o): return self.v < o.v")
        g.w("def __gt__(self, o): return self.v > o.v")
        if not g.py2:
            g.w("def __bool__(self): T('bool'); return self.v != 0")
    for _ in range(g.k(6, 12)):
        with g.block("try:"):
            g.log(expr(g))
        g.catch()
    with g.block("def local(a, b):"):
        for _ in range(g.k(2, 4)):
            with g.block("try:"):
                g.log(expr(g))
            g.catch()
        with g.block("try:"):
            g.log("list(map(lambda v: (v, a), gen(2)))", "sorted([a, b], key=lambda v: -v)")
        g.catch()
        g.w("return a")
    with g.block("try:"):
        g.log("local(4, 7)")
    g.catch()
