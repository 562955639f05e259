"""Match statements in the bytecode of Python 3.10: what its compiler's compiler_match() and compiler_pattern*() emit."""
import ast


def wildcard(p):
    return isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None


class Match(object):
    """Compiles one match statement; `u` is the unit of compiler.py it is in."""

    def __init__(self, u, Label, Unsupported):
        self.u, self.Label, self.Unsupported = u, Label, Unsupported
        self.emit = u.emit
        self.begin()

    def begin(self):
        self.stores, self.fail_pop, self.on_top = [], [], 0

    # ---- leaving a pattern that does not match
    def ensure(self, n):
        while len(self.fail_pop) <= n:
            self.fail_pop.append(self.Label())

    def fail(self, op):
        pops = self.on_top + len(self.stores)
        self.ensure(pops)
        self.emit(op, self.fail_pop[pops])

    def failed(self):
        for L in self.fail_pop[:0:-1]:
            self.u.mark(L)
            self.emit("POP_TOP")
        if self.fail_pop:
            self.u.mark(self.fail_pop[0])
        self.fail_pop = []

    def compare(self, op):
        self.u.cmpop(op)
        self.fail("POP_JUMP_IF_FALSE")

    # ---- the statement
    def statement(self, s):
        u, end = self.u, self.Label()
        u.expr(s.subject)
        cases = s.cases
        default = wildcard(cases[-1].pattern) and len(cases) > 1
        last = len(cases) - default - 1
        for i, c in enumerate(cases[:last + 1]):
            u.line = c.pattern.lineno
            if i != last:
                self.emit("DUP_TOP")
            self.begin()
            self.pattern(c.pattern)
            for n in self.stores:
                u.nameop(n, "STORE")
            if c.guard:
                self.ensure(0)
                u.jump_if(c.guard, self.fail_pop[0], False)
            if i != last:
                self.emit("POP_TOP")
            keep = self.fail_pop
            u.stmts(c.body)
            self.emit("JUMP_FORWARD", end)
            u.line = c.pattern.lineno
            self.fail_pop = keep
            self.failed()
        if default:
            c = cases[-1]
            u.line = c.pattern.lineno
            self.emit("NOP")
            if c.guard:
                u.jump_if(c.guard, end, False)
            u.stmts(c.body)
        u.mark(end)

    # ---- patterns: the subject is on top of the stack and is consumed
    def pattern(self, p):
        getattr(self, type(p).__name__)(p)

    def store(self, name):
        if name is None:
            self.emit("POP_TOP")
            return
        self.emit("ROT_N", self.on_top + len(self.stores) + 1)
        self.stores.append(name)

    def item(self, i, p):
        """Item i of the tuple on top against p."""
        if not wildcard(p):
            self.emit("DUP_TOP")
            self.u.load_const(i)
            self.emit("BINARY_SUBSCR")
            self.pattern(p)

    def MatchValue(self, p):
        self.u.expr(p.value)
        self.compare(ast.Eq())

    def MatchSingleton(self, p):
        self.u.load_const(p.value)
        self.compare(ast.Is())

    def MatchStar(self, p):
        self.store(p.name)

    def MatchAs(self, p):
        if p.pattern is None:
            return self.store(p.name)
        self.on_top += 1
        self.emit("DUP_TOP")
        self.pattern(p.pattern)
        self.on_top -= 1
        self.store(p.name)

    def MatchSequence(self, p):
        pats = p.patterns
        n = len(pats)
        star = next((i for i, q in enumerate(pats) if isinstance(q, ast.MatchStar)), -1)
        star_wild = star >= 0 and pats[star].name is None
        only_wild = all(q.name is None if isinstance(q, ast.MatchStar) else wildcard(q) for q in pats)
        self.on_top += 1
        self.emit("MATCH_SEQUENCE")
        self.fail("POP_JUMP_IF_FALSE")
        if star < 0 or n > 1:
            self.emit("GET_LEN")
            self.u.load_const(n if star < 0 else n - 1)
            self.compare(ast.Eq() if star < 0 else ast.GtE())
        self.on_top -= 1
        if only_wild:
            self.emit("POP_TOP")
        elif star_wild:
            self.on_top += 1
            for i, q in enumerate(pats):
                if i == star or wildcard(q):
                    continue
                self.emit("DUP_TOP")
                if i < star:
                    self.u.load_const(i)
                else:
                    self.emit("GET_LEN")
                    self.u.load_const(n - i)
                    self.emit("BINARY_SUBTRACT")
                self.emit("BINARY_SUBSCR")
                self.pattern(q)
            self.on_top -= 1
            self.emit("POP_TOP")
        else:
            if star >= 0:
                self.emit("UNPACK_EX", star + ((n - star - 1) << 8))
            else:
                self.emit("UNPACK_SEQUENCE", n)
            self.on_top += n
            for q in pats:
                self.on_top -= 1
                self.pattern(q)

    def MatchMapping(self, p):
        n = len(p.keys)
        self.on_top += 1
        self.emit("MATCH_MAPPING")
        self.fail("POP_JUMP_IF_FALSE")
        if not n and p.rest is None:
            self.on_top -= 1
            self.emit("POP_TOP")
            return
        if n:
            self.emit("GET_LEN")
            self.u.load_const(n)
            self.compare(ast.GtE())
        for k in p.keys:
            self.u.expr(k)
        self.emit("BUILD_TUPLE", n)
        self.emit("MATCH_KEYS")
        self.on_top += 2
        self.fail("POP_JUMP_IF_FALSE")
        for i, q in enumerate(p.patterns):
            self.item(i, q)
        self.on_top -= 2
        self.emit("POP_TOP")
        if p.rest is not None:
            self.emit("COPY_DICT_WITHOUT_KEYS")
            self.store(p.rest)
        else:
            self.emit("POP_TOP")
        self.on_top -= 1
        self.emit("POP_TOP")

    def MatchClass(self, p):
        self.u.expr(p.cls)
        self.u.load_const(tuple(p.kwd_attrs))
        self.emit("MATCH_CLASS", len(p.patterns))
        self.on_top += 1
        self.fail("POP_JUMP_IF_FALSE")
        for i, q in enumerate(p.patterns + p.kwd_patterns):
            self.item(i, q)
        self.on_top -= 1
        self.emit("POP_TOP")

    def MatchOr(self, p):
        end = self.Label()
        old = self.stores, self.fail_pop, self.on_top
        control = None
        for q in p.patterns:
            self.begin()
            self.emit("DUP_TOP")
            self.pattern(q)
            if control is None:
                control = list(self.stores)
            for c in range(len(control) - 1, -1, -1):
                i = self.stores.index(control[c])
                if i != c:
                    rotated = self.stores[:i + 1]
                    del self.stores[:i + 1]
                    self.stores[c - i:c - i] = rotated
                    for _ in rotated:
                        self.emit("ROT_N", c + 1)
            self.emit("JUMP_FORWARD", end)
            self.failed()
        self.stores, self.fail_pop, self.on_top = old
        self.emit("POP_TOP")
        self.fail("JUMP_FORWARD")
        self.u.mark(end)
        rots = len(control) + 1 + self.on_top + len(self.stores)
        for n in control:
            self.emit("ROT_N", rots)
            self.stores.append(n)
        self.emit("POP_TOP")
