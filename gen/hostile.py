"""Objects whose special methods raise or answer oddly, used by every construct that calls them, in every kind of
surrounding: the exception (or odd answer) must come out exactly as in Python."""

EXCS = ["StopIteration()", "GeneratorExit()", "IndexError('x')", "KeyError('x')", "AttributeError('x')", "TypeError('x')",
        "ValueError('x')", "NameError('x')", "UnboundLocalError('x')", "ImportError('x')", "RuntimeError('x')",
        "KeyboardInterrupt()", "SystemExit(3)", "OverflowError()", "AssertionError('x')", "LookupError()",
        "ZeroDivisionError()", "MemoryError()", "E('x')", "BE('x')", "OSError(1, 'x')", "NotImplementedError()",
        "UnicodeError()", "ArithmeticError()", "EOFError()"]

METHODS = ["__iter__", "__next__", "__getitem__", "__setitem__", "__delitem__", "__getattr__", "__setattr__", "__delattr__",
           "__call__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__bool__", "__hash__", "__contains__",
           "__len__", "__index__", "__add__", "__radd__", "__iadd__", "__sub__", "__mul__", "__mod__", "__and__", "__or__",
           "__xor__", "__lshift__", "__rshift__", "__floordiv__", "__pow__", "__neg__", "__pos__", "__invert__",
           "__enter__", "__exit__", "__str__", "__repr__", "__format__", "keys", "__get__", "__set__", "__missing__", "__del__"]


def prelude(g):
    g.w("class E(Exception): pass")
    g.w("class BE(BaseException): pass")
    with g.block("class H(object):"):
        g.w("_m = None")
        with g.block("def __init__(self, m, e, n=0, v=2):"):
            g.w("self.__dict__.update(_m=m, _e=e, _n=n, _v=v, _i=0)")
        with g.block("def _hit(self, m):"):
            g.w("T('H', m)")
            with g.block("if self._m == m:"):
                g.w("d = self.__dict__")
                with g.block("if d['_n'] == 0:"):
                    g.w("raise self._e")
                g.w("d['_n'] -= 1")
        g.w("def __iter__(self): self._hit('iter'); return self")
        with g.block("def __next__(self):"):
            g.w("self._hit('next')")
            g.w("self.__dict__['_i'] += 1")
            g.w("if self._i > 3: raise StopIteration")
            g.w("return (self._i, 'v')")
        if g.py2:
            g.w("next = __next__")
        g.w("def __getitem__(self, i): self._hit('getitem'); return ('item', i)")
        g.w("def __setitem__(self, i, v): self._hit('setitem')")
        g.w("def __delitem__(self, i): self._hit('delitem')")
        with g.block("def __getattr__(self, a):"):
            g.w("if a[:1] == '_' or a in ('keys', 'n', 'clear', 'decode'): raise AttributeError(a)")
            g.w("self._hit('getattr')")
            g.w("return ('attr', a)")
        g.w("def __setattr__(self, a, v): self._hit('setattr')")
        g.w("def __delattr__(self, a): self._hit('delattr')")
        g.w("def __call__(self, *a, **k): self._hit('call'); return (a, sorted(k))")
        for m in "eq ne lt le gt ge".split():
            g.w("def __%s__(self, o): self._hit('%s'); return self._v" % (m, m))
        g.w("def __bool__(self): self._hit('bool'); return self._v > 1")
        if g.py2:
            g.w("__nonzero__ = __bool__")
        g.w("def __hash__(self): self._hit('hash'); return 7")
        g.w("def __contains__(self, x): self._hit('contains'); return self._v")
        g.w("def __index__(self): self._hit('index'); return 1")
        for m in "add radd iadd sub mul mod and or xor lshift rshift floordiv pow".split():
            g.w("def __%s__(self, o): self._hit('%s'); return '%s'" % (m, m, m))
        for m in "neg pos invert".split():
            g.w("def __%s__(self): self._hit('%s'); return '%s'" % (m, m, m))
        g.w("def __enter__(self): self._hit('enter'); return 'entered'")
        g.w("def __exit__(self, *a): self._hit('exit'); return self._v > 2")
        g.w("def __str__(self): self._hit('str'); return 'str'")
        g.w("def __repr__(self): self._hit('repr'); return 'repr'")
        g.w("def __format__(self, s): self._hit('format'); return 'format' + s")
    with g.block("class K(H):"):
        g.w("def keys(self): self._hit('keys'); return ['a', 'b']")
    with g.block("class D(object):"):
        g.w("def __init__(self, h): self.h = h")
        g.w("def __get__(self, o, t): self.h._hit('get'); return 'got'")
        g.w("def __set__(self, o, v): self.h._hit('set')")
        g.w("def __delete__(self, o): self.h._hit('delete')")
    with g.block("class L(object):"):
        g.w("def __init__(self, h): self.h = h")
        g.w("def __len__(self): self.h._hit('len'); return self.h._v - 2")
    with g.block("class MD(dict):"):
        g.w("def __missing__(self, k): self.h._hit('missing'); return ('missing', k)")
    with g.block("class Q(object):"):
        g.w("def __eq__(self, o): return False")
        g.w("def __ne__(self, o): return True")
        g.w("__hash__ = None")
    g.w("def fn(*a, **k): T('fn', a, sorted(k)); return a")


def op(g):
    """(method hit, statements); h is the hostile object."""
    py2 = g.py2
    c = [("iter", "for x in h: T('x', x)"), ("next", "for x in h: T('x', x)"), ("next", "for x, y in h: T('x', x)"),
         ("next", "T(list(x for x, y in h))"), ("iter", "T(list(x for x in h))"), ("next", "T(list((x, z) for z in (1, 2) for x in h))"),
         ("next", "a, b, c = h; T(a, c)"), ("iter", "a, b, c = h; T(a)"), ("next", "a, b = h; T(a)"),
         ("next", "fn(1, *h)"), ("iter", "fn(*h)"), ("next", "T(list(h))"), ("next", "T(tuple(h), sorted(h))"),
         ("next", "T(list(map(fn, h)))"), ("next", "T(dict(h))"), ("next", "T((5, 'v') in list(h))"),
         ("getitem", "T(h[1])"), ("getitem", "T(h['k'])"), ("getitem", "T(h[1:2])"), ("getitem", "T(h[1, 2])"),
         ("getitem", "h[0] += (1,)"), ("setitem", "h[0] += (1,)"), ("setitem", "h[1] = 2; T('set')"),
         ("setitem", "h[1:2] = 2; T('set')"), ("delitem", "del h[1]; T('del')"), ("delitem", "del h[1:]; T('del')"),
         ("getattr", "T(h.foo)"), ("getattr", "T(h.foo[1])"), ("getattr", "h.foo(1)"), ("setattr", "h.foo = 1; T('set')"),
         ("delattr", "del h.foo; T('del')"), ("setattr", "h.foo += (1,)"), ("getattr", "T(getattr(h, 'foo', 'default'))"),
         ("call", "T(h())"), ("call", "T(h(1, *[2], k=3))"), ("call", "T(h(**{'a': 1}))"), ("call", "T(sorted([2, 1], key=h))"),
         ("eq", "T(h == 1)"), ("ne", "T(h != 1)"), ("lt", "T(h < 1)"), ("gt", "T(1 < h)"), ("le", "T(h <= 1 < 2)"),
         ("ge", "T(1 <= h)"), ("eq", "T(h in [1, 2])"), ("eq", "T([h] == [1])"), ("eq", "T(1 not in (2, h))"),
         ("lt", "T(0 < 1 < h < 3)"), ("bool", "T(1 if h else 2)" if g.since(2, 5) else "T(not h)"), ("bool", "if h: T('yes')\nelse: T('no')"),
         ("bool", "while h:\n    T('loop')\n    break\nelse: T('welse')"), ("bool", "T((h and 1) is h)"), ("bool", "T((h or 1) is h)"),
         ("bool", "T(not h)"), ("bool", "T(list(x for x in (1, 2) if h))"), ("bool", "assert h\nT('asserted')"),
         ("hash", "T(len({h: 1}))"), ("hash", "T(len(set([h])))"), ("hash", "T({1: 2}.get(h))"), ("hash", "d = {}; d[h] = 1; T(len(d))"),
         ("contains", "T(1 in h)"), ("contains", "T(1 not in h)"), ("index", "T([1, 2, 3][h])"), ("index", "T('abc'[h:])"),
         ("index", "l = [1, 2, 3]; l[h:] = [4]; T(l)"), ("index", "l = [1, 2]; del l[h]; T(l)"), ("index", "T(list(range(h)))"),
         ("add", "T(h + 1)"), ("radd", "T(1 + h)"), ("iadd", "x = h; x += 1; T(x)"), ("sub", "T(h - 1)"), ("mul", "T(h * 2)"),
         ("mod", "T(h % 2)"), ("and", "T(h & 2)"), ("or", "x = h; x |= 2; T(x)"), ("xor", "T(h ^ 2)"), ("lshift", "T(h << 2)"),
         ("rshift", "x = h; x >>= 2; T(x)"), ("floordiv", "T(h // 2)"), ("pow", "T(h ** 2)"), ("neg", "T(-h)"), ("pos", "T(+h)"),
         ("invert", "T(~h)"), ("str", "T('%s' % (h,))"), ("repr", "T('%r' % (h,))"), ("str", "T(str(h))"), ("repr", "T(repr([h]))"),
         ("get", "D.__get__(D(h), None, None)"), ("get", "class C(object):\n    d = D(h)\nT(C().d)\nT(C.d)"),
         ("set", "class C(object):\n    d = D(h)\nc = C()\nc.d = 1\nT('set')"),
         ("delete", "class C(object):\n    d = D(h)\nc = C()\ndel c.d\nT('deleted')"), ("len", "T(not L(h))"),
         ("len", "if L(h): T('yes')\nelse: T('no')"), ("missing", "m = MD(); m.h = h; T(m['k'], m.get('k'))"),
         ("missing", "m = MD(); m.h = h; m['k'] += (1,)"), ("keys", "fn(**K('keys', h._e, h._n))"),
         ("getitem", "fn(**K('getitem', h._e, h._n))"), ("call", "@h\ndef f(): pass\nT(f is None)"),
         ("call", "T(list(map(h, [1, 2])))"), ("eq", "T([1, h].index(5))"), ("none", "q = Q()\nT(q in [q], q not in (q,), q == q, [q] == [q])"),
         ("none", "n = float('nan')\nT(n in [n], n not in [n], n == n, n != n, [n] == [n], n in (1, n), n < n)"),
         ("none", "raise h"), ("none", "h[0][0][5]"), ("none", "del h._nope"), ("none", "a, b = 5"),
         ("none", "for x in 5: T(x)"), ("none", "fn(*5)"), ("none", "fn(**5)"), ("none", "T(None[0])"),
         ]
    if g.since(2, 5):
        c += [("enter", "with h as x: T(x)"), ("exit", "with h as x: T(x)"), ("exit", "with h: raise E('body')"),
              ("exit", "for i in (1, 2):\n    with h:\n        T('w', i)\n        continue\n    T('no')"),
              ("exit", "for i in (1, 2):\n    with h:\n        break\nT('after')"),
              ("exit", "def f():\n    with h:\n        return T('ret', 1)\n    return 'after'\nT(f())"),
              ("enter", "with h as x:\n    with H('exit', E('inner')): T(x)")]
    if not py2:
        c += [("next", "a, *b = h; T(a, b)"), ("next", "*a, b, c = h; T(a)"), ("iter", "*a, b = h; T(a)"),
              ("next", "a, *b, c, d, e = h; T(a)"), ("hash", "T(len({h}))"), ("hash", "T(len({x for x in (h, h)}))"),
              ("hash", "T(len({x: 1 for x in (1, h)}))"), ("call", "class C(metaclass=h): pass\nT(C is None)\nC = None")]
    if g.since(3, 5):
        c += [("next", "T([1, *h, 2])"), ("iter", "T((*h, 1))"), ("next", "fn(*(1,), *h)"),
              ("keys", "T(sorted({**K('keys', h._e, h._n)}))"), ("getitem", "T(sorted({'z': 1, **K('getitem', h._e, h._n)}))"),
              ("none", "T({**5})"), ("none", "T([*5])")]
    if g.since(3, 3):
        c += [("next", "def gen():\n    r = yield from h\n    T('r', r)\nT(list(gen()))"), ("iter", "def gen():\n    yield from h\nT(list(gen()))")]
    if g.since(3, 6):
        c += [("format", "T(f'{h}')"), ("format", "T(f'{h:>3}a{1}')"), ("str", "T(f'{h!s:4}')"), ("repr", "T(f'{h!r}')")]
    if g.since(3, 10):
        c += [("eq", "match h:\n    case 1: T('one')\n    case _: T('other')"), ("getattr", "match h:\n    case H(foo=x): T(x)\n    case _: T('other')")]
    if g.pypy and g.v == (3, 5):
        c = [x for x in c if "assert" not in x[1]]     # a recorded finding of C02
    return g.of(c)


def emit(g, s):
    for line in s.split("\n"):
        g.w(line)


def nest(g, body, depth, st):
    """body() wrapped in a random surrounding."""
    if depth == 0:
        body()
        return
    c = g.k(0, 9)
    if c == 0:
        with g.block("for _i%d in (1, 2):" % depth):
            nest(g, body, depth - 1, st)
            g.w("T('in', _i%d)" % depth)
    elif c == 1:
        with g.block("try:"):
            nest(g, body, depth - 1, st)
        with g.block("finally:"):
            g.w("T('fin', %d)" % depth)
    elif c == 2:
        with g.block("try:"):
            nest(g, body, depth - 1, st)
        with g.block("except %s as _e:" % g.pick("KeyError", "(IndexError, E)", "LookupError", "AttributeError", "StopIteration", "TypeError")):
            g.w("T('mid', type(_e).__name__)")
            if g.p(0.4):
                g.w("raise")
        if g.p(0.3):
            with g.block("else:"):
                g.w("T('else')")
    elif c == 3 and g.since(2, 5):
        with g.block("with H(None, None, 0, %d):" % g.k(2, 3)):
            nest(g, body, depth - 1, st)
    elif c == 4:
        f = g.name("f")
        with g.block("def %s():" % f):
            g.w("h = %s" % st)
            nest(g, body, depth - 1, st)
            g.w("return 'ret'")
        g.w("T(%s())" % f)
    elif c == 5:
        with g.block("while 1:"):
            nest(g, body, depth - 1, st)
            g.w("break")
    elif c == 6:
        with g.block("if h is not None:"):
            nest(g, body, depth - 1, st)
    elif c == 7 and g.safe:
        f = g.name("g")
        with g.block("def %s():" % f):
            g.w("h = %s" % st)
            if g.since(2, 5):
                with g.block("try:"):
                    g.w("yield 1")
                    nest(g, body, depth - 1, st)
                    g.w("yield 2")
                with g.block("finally:"):
                    g.w("T('genfin')")
            else:
                nest(g, body, depth - 1, st)
                g.w("yield 2")
        with g.block("for _x in %s():" % f):
            g.w("T('from gen', _x)")
    elif c == 8:
        with g.block("class %s(object):" % g.name("C")):
            g.w("h = %s" % st)
            nest(g, body, depth - 1, st)
    else:
        f = g.name("f")
        with g.block("def %s(x):" % f):
            g.w("h = %s" % st)
            nest(g, body, depth - 1, st)
            g.w("return x")
        g.w(g.pick("T(list(map(%s, [1, 2])))", "T(sorted([2, 1], key=%s))", "T(list(%s(x) for x in (1, 2)))", "T(%s(1), %s(2))" % ("%s", f)) % f)


def make(g):
    prelude(g)
    for _ in range(g.k(5, 9)):
        m, s = op(g)
        exc = g.of(EXCS)
        if "K('" in s and exc[:4] in ("Attr", "KeyE"):
            exc = "LookupError()"       # CPython turns some of these into a TypeError
        st = "H(%r, %s, %d, %d)" % (g.weighted([(6, m), (1, None)]), exc, g.weighted([(3, 0), (1, 1), (1, 2)]), g.k(1, 3))
        if exc.startswith("Stop") and not g.since(3, 7):
            exc = "E('stop')"
            st = st.replace("StopIteration()", exc)
        # what a generator does with a StopIteration differs between releases
        g.safe = not exc.startswith("Stop") and "yield" not in s
        with g.block("try:"):
            g.w("h = %s" % st)
            nest(g, lambda: emit(g, s), g.weighted([(4, 0), (3, 1), (3, 2), (2, 4), (1, 7)]), st)
            g.w("T('end')")
        with g.block("except BaseException as _e:" if g.since(2, 6) else "except BaseException as _e:"):
            g.w("T('exc', type(_e).__name__, isinstance(_e, (E, BE)) and _e.args)")
            if not g.py2:
                g.w("_c = _e.__context__")
                g.w("T('ctx', _c and type(_c).__name__)")
        g.w("h = None")
