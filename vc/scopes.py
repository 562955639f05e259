"""Symbol tables for the cross-version compiler.

Own implementation (instead of the `symtable` module) because Python 2 list
comprehensions share the enclosing scope and 3.12 inlines comprehensions.
"""
import ast

FUNC = "function"
CLASS = "class"
MODULE = "module"


def mangle(name, cls):
    if cls is None or not name.startswith("__") or name.endswith("__") or "." in name:
        return name
    cls = cls.lstrip("_")
    return "_" + cls + name if cls else name


class Scope:
    def __init__(self, kind, node, parent, name, cls):
        self.kind = kind
        self.node = node
        self.parent = parent
        self.name = name
        self.cls = cls  # name of enclosing class for mangling
        self.children = []
        self.by_node = {}
        self.params = []
        self.bound = set()
        self.used = set()
        self.globals = set()
        self.nonlocals = set()
        self.order = []
        self.cell = set()
        self.free = set()
        self.res = {}
        self.is_gen = False
        self.is_comp = False
        self.needs_class_cell = False
        self.unoptimized = False
        if parent is not None:
            parent.children.append(self)
            parent.by_node[id(node)] = self

    def bind(self, name):
        name = mangle(name, self.cls)
        self.bound.add(name)
        if name not in self.order:
            self.order.append(name)

    def use(self, name):
        self.used.add(mangle(name, self.cls))


class Builder(ast.NodeVisitor):
    def __init__(self, version):
        self.v = version
        self.cur = None

    def build(self, tree):
        self.cur = top = Scope(MODULE, tree, None, "<module>", None)
        top.by_node[id(tree)] = top
        for s in tree.body:
            self.visit(s)
        self.resolve(top, set())
        return top

    # -- scopes
    def enter(self, kind, node, name, cls=None):
        self.cur = Scope(kind, node, self.cur, name, cls if cls is not None else self.cur.cls)
        return self.cur

    def leave(self):
        self.cur = self.cur.parent

    def function(self, node, args, body, name):
        for d in args.defaults + [k for k in args.kw_defaults if k is not None]:
            self.visit(d)
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            if a.annotation is not None:
                self.visit(a.annotation)
        sc = self.enter(FUNC, node, name)
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            sc.params.append(mangle(a.arg, sc.cls))
            sc.bind(a.arg)
        if args.vararg:
            sc.params.append(mangle(args.vararg.arg, sc.cls))
            sc.bind(args.vararg.arg)
        if args.kwarg:
            sc.params.append(mangle(args.kwarg.arg, sc.cls))
            sc.bind(args.kwarg.arg)
        for b in body:
            self.visit(b)
        self.leave()

    def visit_FunctionDef(self, node):
        self.cur.bind(node.name)
        for d in node.decorator_list:
            self.visit(d)
        if node.returns is not None:
            self.visit(node.returns)
        self.function(node, node.args, node.body, node.name)

    def visit_Lambda(self, node):
        self.function(node, node.args, [node.body], "<lambda>")

    def visit_ClassDef(self, node):
        self.cur.bind(node.name)
        for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
            self.visit(d)
        self.enter(CLASS, node, node.name, node.name)
        for b in node.body:
            self.visit(b)
        self.leave()

    def comp(self, node, elts, name):
        gens = node.generators
        self.visit(gens[0].iter)
        inline = isinstance(node, ast.ListComp) and self.v < (3, 0)
        if not inline:
            sc = self.enter(FUNC, node, name)
            sc.is_comp = True
            sc.params.append(".0")
            sc.bound.add(".0")
            if isinstance(node, ast.GeneratorExp):
                sc.is_gen = True
        else:
            if self.v < (2, 7):
                self.cur.bind("_[%d]" % 1)
        for i, g in enumerate(gens):
            if i:
                self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs:
                self.visit(c)
        for e in elts:
            self.visit(e)
        if not inline:
            self.leave()

    def visit_ListComp(self, n):
        self.comp(n, [n.elt], "<listcomp>")

    def visit_SetComp(self, n):
        self.comp(n, [n.elt], "<setcomp>")

    def visit_GeneratorExp(self, n):
        self.comp(n, [n.elt], "<genexpr>" if self.v >= (2, 5) else "<generator expression>")

    def visit_DictComp(self, n):
        # evaluation order does not matter for scoping
        self.comp(n, [n.key, n.value], "<dictcomp>")

    # -- names
    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.cur.bind(node.id)
        else:
            self.cur.use(node.id)
            if node.id == "super" and self.v >= (3, 0):
                self._class_ref()
            if node.id == "__class__" and self.v >= (3, 0):
                self._class_ref()

    def _class_ref(self):
        if self.cur.kind == FUNC:
            self.cur.used.add("__class__")

    def visit_NamedExpr(self, node):
        self.visit(node.value)
        sc = self.cur
        name = node.target.id
        if sc.is_comp:
            s = sc
            while s.is_comp:
                s = s.parent
            if s.kind == FUNC:
                s.bind(name)
                t = sc
                while t is not s:
                    t.used.add(mangle(name, t.cls))
                    t.nonlocals.add(mangle(name, t.cls))
                    t = t.parent
            else:
                s.bind(name)
                t = sc
                while t is not s:
                    t.globals.add(name)
                    t = t.parent
        else:
            sc.bind(name)

    def visit_Global(self, node):
        for n in node.names:
            self.cur.globals.add(mangle(n, self.cur.cls))

    def visit_Nonlocal(self, node):
        for n in node.names:
            self.cur.nonlocals.add(mangle(n, self.cur.cls))

    def visit_Import(self, node):
        for a in node.names:
            self.cur.bind(a.asname or a.name.split(".")[0])

    def visit_ImportFrom(self, node):
        for a in node.names:
            if a.name != "*":
                self.cur.bind(a.asname or a.name)
            else:
                self.cur.unoptimized = True

    def visit_ExceptHandler(self, node):
        if node.type:
            self.visit(node.type)
        if node.name:
            self.cur.bind(node.name)
        for b in node.body:
            self.visit(b)

    def visit_MatchAs(self, node):
        self.generic_visit(node)
        if node.name:
            self.cur.bind(node.name)

    def visit_MatchStar(self, node):
        self.visit_MatchAs(node)

    def visit_MatchMapping(self, node):
        self.generic_visit(node)
        if node.rest:
            self.cur.bind(node.rest)

    def visit_Yield(self, node):
        self.cur.is_gen = True
        self.generic_visit(node)

    def visit_YieldFrom(self, node):
        self.cur.is_gen = True
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.visit(node.target)
        if isinstance(node.target, ast.Name):
            self.cur.use(node.target.id)
        self.visit(node.value)

    def visit_AnnAssign(self, node):
        self.visit(node.annotation)
        self.visit(node.target)
        if node.value:
            self.visit(node.value)

    def visit_Expr(self, node):
        if is_py2_stmt(node):
            c = node.value
            if c.func.id == "__EXEC__" and len(c.args) == 1:
                self.cur.unoptimized = True
            for a in c.args:
                self.visit(a)
            return
        self.generic_visit(node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in PY2_EXPR and self.v < (3, 0):
            for a in node.args:
                self.visit(a)
            return
        self.generic_visit(node)

    def visit_With(self, node):
        self.generic_visit(node)

    # -- resolution
    def resolve(self, sc, visible):
        """visible: names bound in enclosing function scopes."""
        for n in list(sc.bound):
            if n in sc.globals:
                sc.res[n] = "gexp"
            elif n in sc.nonlocals:
                sc.res[n] = "free"
                sc.free.add(n)
            else:
                sc.res[n] = "local"
        for n in sc.used | sc.nonlocals | sc.globals:
            if n in sc.res:
                continue
            if n in sc.globals:
                sc.res[n] = "gexp"
            elif n in sc.nonlocals or (n in visible and n not in sc.globals):
                sc.res[n] = "free"
                sc.free.add(n)
            else:
                sc.res[n] = "gimp"
        vis = set(visible)
        if sc.kind == FUNC:
            vis |= {n for n, r in sc.res.items() if r == "local"}
            vis -= {n for n, r in sc.res.items() if r == "gexp"}
        elif sc.kind == CLASS:
            pass
        else:
            vis = set()
        for ch in sc.children:
            v2 = set(vis)
            if sc.kind == CLASS and self.v >= (3, 0):
                v2.add("__class__")
            self.resolve(ch, v2)
            for f in ch.free:
                if f == "__class__" and sc.kind == CLASS:
                    sc.needs_class_cell = True
                    continue
                if sc.kind == FUNC and sc.res.get(f) == "local":
                    sc.cell.add(f)
                    sc.res[f] = "cell"
                elif sc.kind == FUNC and sc.res.get(f) == "cell":
                    pass
                else:
                    # pass-through
                    sc.free.add(f)
                    if sc.kind == FUNC:
                        sc.res[f] = "free"
                    elif f not in sc.res:
                        pass


PY2_STMT = ("__PRINT__", "__EXEC__", "__RAISE__")
PY2_EXPR = ("__REPR__",)


def is_py2_stmt(node):
    return (
        isinstance(node, ast.Expr)
        and isinstance(node.value, ast.Call)
        and isinstance(node.value.func, ast.Name)
        and node.value.func.id in PY2_STMT
    )
