"""Cross-version Python bytecode compiler (AST -> xdis code objects).

Targets CPython 2.4-2.7, 3.1-3.10 and PyPy 3.5-3.9.  The code generator follows
the idioms of each release's own compiler (block set-up, jump flavour, call
convention, finally/with protocol ...).  It is checked against the .pyc files
shipped in the repository by /verif/vc/validate.py.
"""
import ast
import random

from xdis.codetype import to_portable
from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation

from . import match310
from .scopes import Builder, mangle, is_py2_stmt, PY2_EXPR, FUNC, CLASS, MODULE

CO_OPTIMIZED, CO_NEWLOCALS, CO_VARARGS, CO_VARKW = 1, 2, 4, 8
CO_NESTED, CO_GENERATOR, CO_NOFREE = 16, 32, 64

CMP = {
    ast.Lt: 0, ast.LtE: 1, ast.Eq: 2, ast.NotEq: 3, ast.Gt: 4, ast.GtE: 5,
    ast.In: 6, ast.NotIn: 7, ast.Is: 8, ast.IsNot: 9,
}
BINOP = {
    ast.Add: "ADD", ast.Sub: "SUBTRACT", ast.Mult: "MULTIPLY", ast.Mod: "MODULO",
    ast.Pow: "POWER", ast.LShift: "LSHIFT", ast.RShift: "RSHIFT", ast.BitOr: "OR",
    ast.BitXor: "XOR", ast.BitAnd: "AND", ast.FloorDiv: "FLOOR_DIVIDE",
    ast.MatMult: "MATRIX_MULTIPLY",
}
UNOP = {ast.UAdd: "POSITIVE", ast.USub: "NEGATIVE", ast.Invert: "INVERT", ast.Not: "NOT"}


class Unsupported(Exception):
    """The feature does not exist in the target version."""


class Label:
    __slots__ = ("pos",)

    def __init__(self):
        self.pos = None


class Ins:
    __slots__ = ("op", "arg", "line", "offset", "size")

    def __init__(self, op, arg, line):
        self.op, self.arg, self.line = op, arg, line


class FBlock:
    def __init__(self, kind, start=None, end=None, datum=None):
        self.kind, self.start, self.end, self.datum = kind, start, end, datum
        self.left = False


def const_key(v):
    if isinstance(v, tuple):
        return (tuple, tuple(const_key(x) for x in v))
    if isinstance(v, float):
        return (float, repr(v))
    if isinstance(v, complex):
        return (complex, repr(v))
    if isinstance(v, frozenset):
        return (frozenset, frozenset(const_key(x) for x in v))
    if v is None or v is Ellipsis or isinstance(v, (int, str, bytes, bool)):
        return (type(v), v)
    return (id(v),)


class Options:
    """Harmless code generation variants, chosen per program."""

    def __init__(self, rng=None, pad_consts=0, pad_names=0, fold=None, line_cols=True,
                 while_dup=None, nop=0.0, direct_jumps=None):
        r = rng
        self.rng = rng or random.Random(0)
        self.pad_consts = pad_consts
        self.pad_names = pad_names
        self.fold = (r.random() < 0.5 if r else True) if fold is None else fold
        self.direct_jumps = (r.random() < 0.7 if r else True) if direct_jumps is None else direct_jumps
        self.nop = nop
        self.dead_code = (r.random() < 0.8) if r else True
        self.list_to_tuple = r.random() < 0.5 if r else False


class Unit:
    def __init__(self, comp, scope, name, qualname, firstlineno):
        self.c = comp
        self.v = comp.v
        self.pypy = comp.pypy
        self.scope = scope
        self.name = name
        self.qualname = qualname
        self.ins = []
        self.consts = []
        self.constmap = {}
        self.names = []
        self.varnames = []
        self.line = firstlineno
        self.firstlineno = firstlineno
        self.fblocks = []
        self.tmp = 0
        self.cellvars = [p for p in scope.params if p in scope.cell]
        self.cellvars += sorted(n for n in scope.cell if n not in self.cellvars)
        if scope.kind == CLASS and scope.needs_class_cell:
            self.cellvars = self.cellvars + ["__class__"]
        self.freevars = sorted(scope.free)

    # ------------------------------------------------------------------ emit
    def emit(self, op, arg=None):
        i = Ins(op, arg, self.line)
        self.ins.append(i)
        return i

    def mark(self, label):
        self.ins.append(label)

    def const(self, v):
        k = const_key(v)
        if k not in self.constmap:
            self.constmap[k] = len(self.consts)
            self.consts.append(v)
        return self.constmap[k]

    def load_const(self, v):
        self.emit("LOAD_CONST", self.const(v))

    def name_i(self, n):
        if n not in self.names:
            self.names.append(n)
        return self.names.index(n)

    def var_i(self, n):
        if n not in self.varnames:
            self.varnames.append(n)
        return self.varnames.index(n)

    def deref_i(self, n):
        if n in self.cellvars:
            return self.cellvars.index(n)
        return len(self.cellvars) + self.freevars.index(n)

    # ------------------------------------------------------------------ names
    def nameop(self, name, ctx):
        """ctx in LOAD STORE DELETE"""
        name = mangle(name, self.scope.cls)
        r = self.scope.res.get(name)
        sc = self.scope
        if sc.kind == FUNC:
            if r in ("cell", "free"):
                if ctx == "DELETE" and self.v < (3, 2):
                    raise Unsupported("del deref")
                self.emit(ctx + "_DEREF", self.deref_i(name))
            elif r == "local":
                self.emit(ctx + "_FAST", self.var_i(name))
            elif r == "gexp":
                self.emit(ctx + "_GLOBAL", self.name_i(name))
            else:
                if sc.unoptimized and ctx == "LOAD":
                    self.emit("LOAD_NAME", self.name_i(name))
                else:
                    self.emit(ctx + "_GLOBAL", self.name_i(name))
        elif sc.kind == CLASS:
            if r == "free":
                if ctx == "LOAD" and self.v >= (3, 4):
                    self.emit("LOAD_CLASSDEREF", self.deref_i(name))
                else:
                    self.emit(ctx + "_DEREF", self.deref_i(name))
            elif r == "gexp":
                self.emit(ctx + "_GLOBAL", self.name_i(name))
            else:
                self.emit(ctx + "_NAME", self.name_i(name))
        else:
            if r == "gexp" and ctx != "LOAD":
                self.emit(ctx + "_GLOBAL", self.name_i(name))
            else:
                self.emit(ctx + "_NAME", self.name_i(name))

    def tmpname(self):
        self.tmp += 1
        return "_[%d]" % self.tmp

    def tmpop(self, name, ctx):
        if self.scope.kind == FUNC and not self.scope.unoptimized:
            self.emit(ctx + "_FAST", self.var_i(name))
        else:
            self.emit(ctx + "_NAME", self.name_i(name))

    # ------------------------------------------------------------------ old/new conditional jumps
    @property
    def oldjump(self):
        return self.v < (2, 7) or self.v == (3, 0)

    def jump_false(self, test):
        """Evaluate test; jump to returned label when false.  Land with land()."""
        L = Label()
        if self.oldjump:
            self.expr(test)
            self.emit("JUMP_IF_FALSE", L)
            self.emit("POP_TOP")
        else:
            self.jump_if(test, L, False)
        return L

    def land(self, L):
        self.mark(L)
        if self.oldjump:
            self.emit("POP_TOP")

    def jump_if(self, test, L, cond):
        """New style: jump to L if bool(test) == cond, else fall through; pops."""
        if self.c.opt.direct_jumps:
            if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                return self.jump_if(test.operand, L, not cond)
            if isinstance(test, ast.BoolOp):
                is_or = isinstance(test.op, ast.Or)
                if is_or == cond:
                    for e in test.values:
                        self.jump_if(e, L, cond)
                else:
                    skip = Label()
                    for e in test.values[:-1]:
                        self.jump_if(e, skip, not cond)
                    self.jump_if(test.values[-1], L, cond)
                    self.mark(skip)
                return
        self.expr(test)
        self.emit("POP_JUMP_IF_TRUE" if cond else "POP_JUMP_IF_FALSE", L)

    # ------------------------------------------------------------------ statements
    def stmts(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.line = s.lineno
        if self.c.opt.nop and self.c.opt.rng.random() < self.c.opt.nop:
            self.emit("NOP")
        method = getattr(self, "s_" + type(s).__name__, None)
        if method is None:
            raise Unsupported(type(s).__name__)
        method(s)

    def s_Pass(self, s):
        if self.v >= (3, 8):
            self.emit("NOP")

    def s_Expr(self, s):
        if is_py2_stmt(s):
            if self.v >= (3, 0):
                raise Unsupported("py2 statement")
            return getattr(self, "py2_" + s.value.func.id.strip("_").lower())(s.value)
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value)
        self.emit("POP_TOP")

    def py2_print(self, c):
        dest = c.args[0]
        nl = c.args[1].value
        items = c.args[2:]
        has_dest = not (isinstance(dest, ast.Constant) and dest.value is None)
        if has_dest:
            self.expr(dest)
        for i in items:
            if has_dest:
                self.emit("DUP_TOP")
                self.expr(i)
                self.emit("ROT_TWO")
                self.emit("PRINT_ITEM_TO")
            else:
                self.expr(i)
                self.emit("PRINT_ITEM")
        if nl:
            self.emit("PRINT_NEWLINE_TO" if has_dest else "PRINT_NEWLINE")
        elif has_dest:
            self.emit("POP_TOP")

    def py2_exec(self, c):
        a = c.args
        self.expr(a[0])
        if len(a) > 1:
            self.expr(a[1])
            if len(a) > 2:
                self.expr(a[2])
            else:
                self.emit("DUP_TOP")
        else:
            self.load_const(None)
            self.emit("DUP_TOP")
        self.emit("EXEC_STMT")

    def py2_raise(self, c):
        for a in c.args:
            self.expr(a)
        self.emit("RAISE_VARARGS", len(c.args))

    def s_Assign(self, s):
        self.expr(s.value)
        for i, t in enumerate(s.targets):
            if i < len(s.targets) - 1:
                self.emit("DUP_TOP")
            self.store(t)

    def s_AnnAssign(self, s):
        if self.v < (3, 6):
            raise Unsupported("annassign")
        if s.value is not None:
            self.expr(s.value)
            self.store(s.target)
        if isinstance(s.target, ast.Name) and self.scope.kind != FUNC and s.simple:
            self.expr(s.annotation)
            if self.v == (3, 6) :
                self.emit("STORE_ANNOTATION", self.name_i(mangle(s.target.id, self.scope.cls)))
            else:
                self.emit("LOAD_NAME", self.name_i("__annotations__"))
                self.load_const(mangle(s.target.id, self.scope.cls))
                self.emit("STORE_SUBSCR")

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            self.nameop(t.id, "LOAD")
            self.expr(s.value)
            self.inplace(s.op)
            self.nameop(t.id, "STORE")
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit("DUP_TOP")
            self.emit("LOAD_ATTR", self.name_i(mangle(t.attr, self.scope.cls)))
            self.expr(s.value)
            self.inplace(s.op)
            self.emit("ROT_TWO")
            self.emit("STORE_ATTR", self.name_i(mangle(t.attr, self.scope.cls)))
        elif isinstance(t, ast.Subscript):
            sl = t.slice
            if self.v < (3, 0) and self.simple_slice(sl):
                n = self.py2_slice_operands(t)
                cnt = 1 + (sl.lower is not None) + (sl.upper is not None)
                if cnt == 1:
                    self.emit("DUP_TOP")
                else:
                    self.emit("DUP_TOPX", cnt)
                self.emit("SLICE_%d" % n)
                self.expr(s.value)
                self.inplace(s.op)
                self.emit({1: "ROT_TWO", 2: "ROT_THREE", 3: "ROT_FOUR"}[cnt])
                self.emit("STORE_SLICE_%d" % n)
                return
            self.expr(t.value)
            self.slice_expr(sl)
            if self.v < (3, 2):
                self.emit("DUP_TOPX", 2)
            else:
                self.emit("DUP_TOP_TWO")
            self.emit("BINARY_SUBSCR")
            self.expr(s.value)
            self.inplace(s.op)
            self.emit("ROT_THREE")
            self.emit("STORE_SUBSCR")

    def inplace(self, op):
        if isinstance(op, ast.Div):
            n = "DIVIDE" if self.v < (3, 0) and not self.c.future_division else "TRUE_DIVIDE"
        else:
            n = BINOP[type(op)]
        if n == "MATRIX_MULTIPLY" and self.v < (3, 5):
            raise Unsupported("@")
        self.emit("INPLACE_" + n)

    def binary(self, op):
        if isinstance(op, ast.Div):
            n = "DIVIDE" if self.v < (3, 0) and not self.c.future_division else "TRUE_DIVIDE"
        else:
            n = BINOP[type(op)]
        if n == "MATRIX_MULTIPLY" and self.v < (3, 5):
            raise Unsupported("@")
        self.emit("BINARY_" + n)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.nameop(t.id, "DELETE")
            elif isinstance(t, ast.Attribute):
                self.expr(t.value)
                self.emit("DELETE_ATTR", self.name_i(mangle(t.attr, self.scope.cls)))
            elif isinstance(t, ast.Subscript):
                if self.v < (3, 0) and self.simple_slice(t.slice):
                    n = self.py2_slice_operands(t)
                    self.emit("DELETE_SLICE_%d" % n)
                else:
                    self.expr(t.value)
                    self.slice_expr(t.slice)
                    self.emit("DELETE_SUBSCR")
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_Delete(ast.Delete(targets=t.elts))

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        if self.v < (3, 0):
            raise Unsupported("nonlocal")

    def s_Assert(self, s):
        debug = self.pypy and self.v < (3, 6)
        if debug:
            end0 = Label()
            self.emit("JUMP_IF_NOT_DEBUG", end0)
        end = Label()
        if self.oldjump:
            self.expr(s.test)
            self.emit("JUMP_IF_TRUE", end)
            self.emit("POP_TOP")
        else:
            self.jump_if(s.test, end, True)
        if self.v >= (3, 9):
            self.emit("LOAD_ASSERTION_ERROR")
        else:
            self.emit("LOAD_GLOBAL", self.name_i("AssertionError"))
        if s.msg is not None:
            self.expr(s.msg)
            if self.v < (2, 7):
                self.emit("RAISE_VARARGS", 2)
                self.mark(end)
                self.emit("POP_TOP")
                return
            self.emit("CALL_FUNCTION", 1)
        self.emit("RAISE_VARARGS", 1)
        self.mark(end)
        if self.oldjump:
            self.emit("POP_TOP")
        if debug:
            self.mark(end0)

    def s_If(self, s):
        L = self.jump_false(s.test)
        end = Label()
        self.stmts(s.body)
        if s.orelse or self.oldjump:
            self.emit("JUMP_FORWARD", end)
            self.land(L)
            self.stmts(s.orelse)
            self.mark(end)
        else:
            if self.v < (3, 8):
                self.emit("JUMP_FORWARD", end)
            self.mark(end)
            self.mark(L)

    def s_Match(self, s):
        if self.v < (3, 10):
            raise Unsupported("match")
        match310.Match(self, Label, Unsupported).statement(s)

    # ---- loops
    @property
    def blocks(self):
        "SETUP_LOOP / BREAK_LOOP style"
        return self.v < (3, 8)

    def s_While(self, s):
        start, end = Label(), Label()
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        if self.blocks:
            self.emit("SETUP_LOOP", end)
        self.mark(start)
        self.fblocks.append(FBlock("while", start, end))
        L = None
        if not const_true:
            L = self.jump_false(s.test)
        self.stmts(s.body)
        self.emit("JUMP_ABSOLUTE", start)
        self.fblocks.pop()
        if L is not None:
            self.land(L)
        if self.blocks:
            self.emit("POP_BLOCK")
        self.stmts(s.orelse)
        self.mark(end)

    def s_For(self, s):
        start, cleanup, end = Label(), Label(), Label()
        if self.blocks:
            self.emit("SETUP_LOOP", end)
        self.expr(s.iter)
        self.emit("GET_ITER")
        self.mark(start)
        self.fblocks.append(FBlock("for", start, end))
        self.emit("FOR_ITER", cleanup)
        self.store(s.target)
        self.stmts(s.body)
        self.line = s.lineno if self.v >= (3, 10) else self.line
        self.emit("JUMP_ABSOLUTE", start)
        self.fblocks.pop()
        self.mark(cleanup)
        if self.blocks:
            self.emit("POP_BLOCK")
        self.stmts(s.orelse)
        self.mark(end)

    def s_Break(self, s):
        if self.blocks:
            self.emit("BREAK_LOOP")
            return
        self.unwind_to_loop(False, pop_iter=True)

    def s_Continue(self, s):
        if self.blocks:
            top = self.fblocks[-1]
            if top.kind in ("while", "for"):
                self.emit("JUMP_ABSOLUTE", top.start)
            else:
                for b in reversed(self.fblocks):
                    if b.kind == "finally_end":
                        raise Unsupported("continue in finally")
                    if b.kind in ("while", "for"):
                        self.emit("CONTINUE_LOOP", b.start)
                        return
            return
        self.unwind_to_loop(False, pop_iter=False)

    def unwind_to_loop(self, preserve, pop_iter):
        saved = list(self.fblocks)
        while True:
            b = self.fblocks[-1]
            if b.kind in ("while", "for"):
                if pop_iter:
                    if b.kind == "for":
                        self.emit("POP_TOP")
                    tgt = b.end
                else:
                    tgt = b.start
                self.emit("JUMP_ABSOLUTE", tgt)
                break
            self.fblocks.pop()
            self.unwind(b, preserve)
        self.fblocks = saved

    def unwind(self, b, preserve):
        """3.8+: leave one fblock (already popped from self.fblocks)."""
        k = b.kind
        v38 = self.v == (3, 8)
        if k == "while":
            return
        if k == "for":
            if preserve:
                self.emit("ROT_TWO")
            self.emit("POP_TOP")
        elif k == "except":
            self.emit("POP_BLOCK")
        elif k == "pop_value":
            if preserve:
                self.emit("ROT_TWO")
            self.emit("POP_TOP")
        elif k == "finally_try":
            self.emit("POP_BLOCK")
            if v38 and b.datum == "placeholder":
                if preserve:
                    self.emit("ROT_TWO")
                    self.emit("POP_TOP")
                self.emit("CALL_FINALLY", b.end)
                if not preserve:
                    self.emit("POP_TOP")
            elif v38:
                self.emit("CALL_FINALLY", b.end)
            else:
                if preserve:
                    self.fblocks.append(FBlock("pop_value"))
                self.stmts(b.datum)
                if preserve:
                    self.fblocks.pop()
        elif k == "finally_end":
            if v38:
                self.emit("POP_FINALLY", 1 if preserve else 0)
                b.left = True
                if preserve:
                    self.emit("ROT_TWO")
                self.emit("POP_TOP")
            else:
                if preserve:
                    self.emit("ROT_FOUR")
                self.emit("POP_TOP")
                self.emit("POP_TOP")
                self.emit("POP_TOP")
                if preserve:
                    self.emit("ROT_FOUR")
                self.emit("POP_EXCEPT")
        elif k == "with":
            self.emit("POP_BLOCK")
            if preserve:
                self.emit("ROT_TWO")
            if v38:
                self.emit("BEGIN_FINALLY")
                self.emit("WITH_CLEANUP_START")
                self.emit("WITH_CLEANUP_FINISH")
                self.emit("POP_FINALLY", 0)
            else:
                self.exit_with_nones()
                self.emit("POP_TOP")
        elif k == "handler":
            if v38:
                if preserve:
                    self.emit("ROT_FOUR")
                if b.end is not None:
                    self.emit("POP_BLOCK")
                    self.emit("POP_EXCEPT")
                    self.emit("CALL_FINALLY", b.end)
                else:
                    self.emit("POP_EXCEPT")
            else:
                if b.datum:
                    self.emit("POP_BLOCK")
                if preserve:
                    self.emit("ROT_FOUR")
                self.emit("POP_EXCEPT")
                if b.datum:
                    self.load_const(None)
                    self.nameop(b.datum, "STORE")
                    self.nameop(b.datum, "DELETE")
        else:
            raise AssertionError(k)

    def s_Return(self, s):
        if s.value is not None and self.scope.is_gen and self.v < (3, 3):
            raise Unsupported("return value in generator")
        if self.blocks:
            if s.value is None:
                self.load_const(None)
            else:
                self.expr(s.value)
            self.emit("RETURN_VALUE")
            return
        preserve = s.value is not None and not isinstance(s.value, ast.Constant)
        if preserve:
            self.expr(s.value)
        saved = list(self.fblocks)
        while self.fblocks:
            b = self.fblocks.pop()
            self.unwind(b, preserve)
        self.fblocks = saved
        if not preserve:
            self.load_const(None if s.value is None else s.value.value)
        self.emit("RETURN_VALUE")

    def s_Raise(self, s):
        n = 0
        if s.exc is not None:
            n = 1
            self.expr(s.exc)
            if s.cause is not None:
                if self.v < (3, 0):
                    raise Unsupported("raise from")
                n = 2
                self.expr(s.cause)
        self.emit("RAISE_VARARGS", n)

    # ---- try
    def s_Try(self, s):
        if s.finalbody:
            if s.handlers and self.v < (2, 5):
                # nested form
                inner = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[],
                                lineno=s.lineno)
                self.try_finally([inner], s.finalbody)
            elif s.handlers:
                self.try_finally(s, s.finalbody)
            else:
                self.try_finally(s.body, s.finalbody)
        else:
            self.try_except(s)

    def try_finally(self, body, final):
        end = Label()
        placeholder = False
        if self.v == (3, 8):
            # Like 3.8, find out first whether "return", "break" or "continue" leaves the finally block.
            ins, line = list(self.ins), self.line
            b = FBlock("finally_end", None, end)
            self.fblocks.append(b)
            self.stmts(final)
            self.fblocks.pop()
            self.ins[:], self.line = ins, line
            placeholder = b.left
        if placeholder:
            self.load_const(None)
        self.emit("SETUP_FINALLY", end)
        self.fblocks.append(FBlock("finally_try", None, end, "placeholder" if placeholder else final))
        if isinstance(body, ast.Try):
            self.try_except(body)
        else:
            self.stmts(body)
        if self.v < (3, 9):
            self.emit("POP_BLOCK")
            if self.v >= (3, 8):
                self.emit("BEGIN_FINALLY")
            else:
                self.load_const(None)
            self.fblocks.pop()
            self.mark(end)
            self.fblocks.append(FBlock("finally_end", None, end))
            self.stmts(final)
            self.emit("END_FINALLY")
            if placeholder:
                self.emit("POP_TOP")
            self.fblocks.pop()
        else:
            exit_ = Label()
            self.emit("POP_BLOCK")
            self.fblocks.pop()
            self.stmts(final)
            self.emit("JUMP_FORWARD", exit_)
            self.mark(end)
            self.fblocks.append(FBlock("finally_end", None, end))
            self.stmts(final)
            self.fblocks.pop()
            self.reraise(0)
            self.mark(exit_)

    def reraise(self, n):
        self.emit("RERAISE", n if self.v >= (3, 10) else None)

    def try_except(self, s):
        v = self.v
        orelse, end = Label(), Label()
        h = Label()
        self.emit("SETUP_EXCEPT" if v < (3, 8) else "SETUP_FINALLY", h)
        self.fblocks.append(FBlock("except", None, h))
        self.stmts(s.body)
        self.emit("POP_BLOCK")
        self.fblocks.pop()
        self.emit("JUMP_FORWARD", orelse)
        nxt = h
        old = False
        for hd in s.handlers:
            self.line = hd.lineno
            self.mark(nxt)
            if old and self.oldjump:
                self.emit("POP_TOP")
            old = False
            nxt = Label()
            if hd.type is not None:
                self.emit("DUP_TOP")
                self.expr(hd.type)
                if v >= (3, 9):
                    self.emit("JUMP_IF_NOT_EXC_MATCH", nxt)
                else:
                    self.emit("COMPARE_OP", 10)
                    if self.oldjump:
                        self.emit("JUMP_IF_FALSE", nxt)
                        self.emit("POP_TOP")
                        old = True
                    else:
                        self.emit("POP_JUMP_IF_FALSE", nxt)
            self.emit("POP_TOP")
            if v < (3, 0):
                if hd.name:
                    self.nameop(hd.name, "STORE")
                else:
                    self.emit("POP_TOP")
                self.emit("POP_TOP")
                self.stmts(hd.body)
                self.emit("JUMP_FORWARD", end)
                continue
            if hd.name:
                self.nameop(hd.name, "STORE")
                self.emit("POP_TOP")
                cl = Label()
                self.emit("SETUP_FINALLY", cl)
                self.fblocks.append(FBlock("handler" if v >= (3, 8) else "finally_try", None, cl, hd.name))
                self.stmts(hd.body)
                self.fblocks.pop()
                if v < (3, 7) and not self.pypy:
                    self.emit("POP_BLOCK")
                    self.emit("POP_EXCEPT")
                    self.load_const(None)
                    self.mark(cl)
                    self.clear_name(hd.name)
                    self.emit("END_FINALLY")
                    self.emit("JUMP_FORWARD", end)
                elif v == (3, 7) or (self.pypy and v < (3, 9)):
                    self.emit("POP_BLOCK")
                    self.load_const(None)
                    self.mark(cl)
                    self.clear_name(hd.name)
                    self.emit("END_FINALLY")
                    self.emit("POP_EXCEPT")
                    self.emit("JUMP_FORWARD", end)
                elif v == (3, 8):
                    self.emit("POP_BLOCK")
                    self.emit("BEGIN_FINALLY")
                    self.mark(cl)
                    self.clear_name(hd.name)
                    self.emit("END_FINALLY")
                    self.emit("POP_EXCEPT")
                    self.emit("JUMP_FORWARD", end)
                else:
                    self.emit("POP_BLOCK")
                    self.emit("POP_EXCEPT")
                    self.clear_name(hd.name)
                    self.emit("JUMP_FORWARD", end)
                    self.mark(cl)
                    self.clear_name(hd.name)
                    self.reraise(1)
            else:
                self.emit("POP_TOP")
                self.emit("POP_TOP")
                self.fblocks.append(FBlock("handler" if v >= (3, 8) else "finally_try"))
                self.stmts(hd.body)
                self.fblocks.pop()
                self.emit("POP_EXCEPT")
                self.emit("JUMP_FORWARD", end)
        self.mark(nxt)
        if old and self.oldjump:
            self.emit("POP_TOP")
        if v < (3, 9):
            self.emit("END_FINALLY")
        else:
            self.reraise(0)
        self.mark(orelse)
        self.stmts(s.orelse)
        self.mark(end)

    def clear_name(self, n):
        self.load_const(None)
        self.nameop(n, "STORE")
        self.nameop(n, "DELETE")

    # ---- with
    def s_With(self, s):
        if self.v < (2, 5):
            raise Unsupported("with")
        self.with_items(s, 0)

    def with_items(self, s, i):
        v = self.v
        if i == len(s.items):
            self.stmts(s.body)
            return
        it = s.items[i]
        end = Label()
        if v < (2, 7) or v == (3, 1):
            self.expr(it.context_expr)
            self.emit("DUP_TOP")
            self.emit("LOAD_ATTR", self.name_i("__exit__"))
            if v < (2, 6):
                tmpexit = self.tmpname()
                self.tmpop(tmpexit, "STORE")
            else:
                self.emit("ROT_TWO")
            self.emit("LOAD_ATTR", self.name_i("__enter__"))
            self.emit("CALL_FUNCTION", 0)
            if it.optional_vars is not None:
                tv = self.tmpname()
                self.tmpop(tv, "STORE")
            else:
                self.emit("POP_TOP")
            self.emit("SETUP_FINALLY", end)
            self.fblocks.append(FBlock("finally_try", None, end))
            if it.optional_vars is not None:
                self.tmpop(tv, "LOAD")
                self.tmpop(tv, "DELETE")
                self.store(it.optional_vars)
            self.with_items(s, i + 1)
            self.emit("POP_BLOCK")
            self.fblocks.pop()
            self.load_const(None)
            self.mark(end)
            self.fblocks.append(FBlock("finally_end"))
            if v < (2, 6):
                self.tmpop(tmpexit, "LOAD")
                self.tmpop(tmpexit, "DELETE")
            self.emit("WITH_CLEANUP")
            self.emit("END_FINALLY")
            self.fblocks.pop()
            return
        self.expr(it.context_expr)
        self.emit("SETUP_WITH", end)
        self.fblocks.append(FBlock("with" if v >= (3, 8) else "finally_try", None, end))
        if it.optional_vars is not None:
            self.store(it.optional_vars)
        else:
            self.emit("POP_TOP")
        self.with_items(s, i + 1)
        self.emit("POP_BLOCK")
        self.fblocks.pop()
        if v >= (3, 9):
            self.exit_with_nones()
            self.emit("POP_TOP")
            exit_ = Label()
            self.emit("JUMP_FORWARD", exit_)
            self.mark(end)
            self.emit("WITH_EXCEPT_START")
            ok = Label()
            self.emit("POP_JUMP_IF_TRUE", ok)
            self.reraise(1)
            self.mark(ok)
            for _ in range(3):
                self.emit("POP_TOP")
            self.emit("POP_EXCEPT")
            self.emit("POP_TOP")
            self.mark(exit_)
            return
        if v >= (3, 8):
            self.emit("BEGIN_FINALLY")
        else:
            self.load_const(None)
        self.mark(end)
        self.fblocks.append(FBlock("finally_end"))
        if v >= (3, 5):
            self.emit("WITH_CLEANUP_START")
            self.emit("WITH_CLEANUP_FINISH")
        else:
            self.emit("WITH_CLEANUP")
        self.emit("END_FINALLY")
        self.fblocks.pop()

    def exit_with_nones(self):
        self.load_const(None)
        self.emit("DUP_TOP")
        self.emit("DUP_TOP")
        self.emit("CALL_FUNCTION", 3)

    # ---- imports
    def imp(self, name, fromlist, level):
        if self.v >= (2, 5):
            self.load_const(level if (level or self.v >= (3, 0)) else -1)
        self.load_const(fromlist)
        self.emit("IMPORT_NAME", self.name_i(name))

    def s_Import(self, s):
        for a in s.names:
            self.imp(a.name, None, 0)
            if a.asname:
                parts = a.name.split(".")[1:]
                if self.v >= (3, 7):
                    for i, p in enumerate(parts):
                        self.emit("IMPORT_FROM", self.name_i(p))
                        self.emit("ROT_TWO")
                        self.emit("POP_TOP")
                else:
                    for p in parts:
                        self.emit("LOAD_ATTR", self.name_i(p))
                self.nameop(a.asname, "STORE")
            else:
                self.nameop(a.name.split(".")[0], "STORE")

    def s_ImportFrom(self, s):
        self.imp(s.module or "", tuple(a.name for a in s.names), s.level)
        if s.names[0].name == "*":
            self.emit("IMPORT_STAR")
            return
        for a in s.names:
            self.emit("IMPORT_FROM", self.name_i(a.name))
            self.nameop(a.asname or a.name, "STORE")
        self.emit("POP_TOP")

    # ---- functions & classes
    def qual(self, name):
        if self.scope.kind == MODULE:
            return name
        if self.scope.res.get(name) == "gexp":
            return name
        return self.qualname + (".<locals>." if self.scope.kind == FUNC else ".") + name

    def closure_needed(self, child):
        return [n for n in child.freevars]

    def make_function(self, u, args=None, returns=None):
        v = self.v
        code = u.assemble()
        free = u.freevars
        qual = u.qualname
        npos = nkw = 0
        flags = 0
        kwpairs = []
        if args is not None:
            npos = len(args.defaults)
            kwpairs = [(mangle(a.arg, self.scope.cls), d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]
            nkw = len(kwpairs)
        ann = []
        if args is not None and v >= (3, 0):
            for a in args.args + args.posonlyargs + [x for x in [args.vararg] if x] + args.kwonlyargs + [x for x in [args.kwarg] if x]:
                if a.annotation is not None:
                    ann.append((mangle(a.arg, self.scope.cls), a.annotation))
            if returns is not None:
                ann.append(("return", returns))
        if v >= (3, 6):
            if npos:
                for d in args.defaults:
                    self.expr(d)
                self.emit("BUILD_TUPLE", npos)
                flags |= 1
            if nkw:
                for _, d in kwpairs:
                    self.expr(d)
                self.load_const(tuple(k for k, _ in kwpairs))
                self.emit("BUILD_CONST_KEY_MAP", nkw)
                flags |= 2
            if ann:
                if v >= (3, 10):
                    for k, e in ann:
                        self.load_const(k)
                        self.expr(e)
                    self.emit("BUILD_TUPLE", 2 * len(ann))
                else:
                    for k, e in ann:
                        self.expr(e)
                    self.load_const(tuple(k for k, _ in ann))
                    self.emit("BUILD_CONST_KEY_MAP", len(ann))
                flags |= 4
            if free:
                self.closure_tuple(free)
                flags |= 8
            self.load_const(code)
            self.load_const(qual)
            self.emit("MAKE_FUNCTION", flags)
            return

        def kws():
            for k, d in kwpairs:
                self.load_const(k)
                self.expr(d)
        if args is not None:
            if v < (3, 4):
                kws()
            for d in args.defaults:
                self.expr(d)
            if v >= (3, 4):
                kws()
            if ann:
                for k, e in ann:
                    self.expr(e)
                self.load_const(tuple(k for k, _ in ann))
        argc = npos | (nkw << 8) | (((len(ann) + 1) << 16) if ann else 0)
        if free:
            if v < (2, 5):
                for n in free:
                    self.load_closure(n)
            else:
                self.closure_tuple(free)
        self.load_const(code)
        if v >= (3, 3):
            self.load_const(qual)
        self.emit("MAKE_CLOSURE" if free else "MAKE_FUNCTION", argc)

    def load_closure(self, n):
        self.emit("LOAD_CLOSURE", self.deref_i(n))

    def closure_tuple(self, free):
        for n in free:
            self.load_closure(n)
        self.emit("BUILD_TUPLE", len(free))

    def function_unit(self, node, name, body_fn, args=None, docstring=None, lineno=None):
        sc = self.scope.by_node[id(node)]
        u = Unit(self.c, sc, name, self.qual(name), lineno or node.lineno)
        u.flags = CO_OPTIMIZED | CO_NEWLOCALS
        if sc.unoptimized:
            u.flags = CO_NEWLOCALS
        if args is not None:
            u.argcount = len(args.posonlyargs) + len(args.args)
            u.posonly = len(args.posonlyargs)
            u.kwonly = len(args.kwonlyargs)
            if u.posonly and self.v < (3, 8):
                raise Unsupported("posonly")
            if u.kwonly and self.v < (3, 0):
                raise Unsupported("kwonly")
            if args.vararg:
                u.flags |= CO_VARARGS
            if args.kwarg:
                u.flags |= CO_VARKW
        else:
            u.argcount, u.posonly, u.kwonly = 1, 0, 0
        for p in sc.params:
            u.var_i(p)
        if sc.parent.kind == FUNC or sc.free:
            u.flags |= CO_NESTED
        if sc.is_gen:
            u.flags |= CO_GENERATOR
        if not u.freevars and not u.cellvars:
            u.flags |= CO_NOFREE
        if not sc.is_comp:
            u.const(docstring)
        if sc.is_gen and self.v >= (3, 10):
            u.emit("GEN_START", 0)
        body_fn(u)
        return u

    def s_FunctionDef(self, s):
        if s.decorator_list and self.v < (2, 4):
            raise Unsupported("decorator")
        for d in s.decorator_list:
            self.expr(d)
        doc = ast.get_docstring(s, clean=False)

        def body(u):
            u.stmts(s.body[1:] if doc is not None else s.body)
            u.end_function()

        u = self.function_unit(s, s.name, body, s.args, doc)
        if s.returns is not None and self.v < (3, 0):
            raise Unsupported("annotations")
        self.make_function(u, s.args, s.returns)
        for d in s.decorator_list:
            self.emit("CALL_FUNCTION", 1)
        self.nameop(s.name, "STORE")

    def end_function(self):
        self.load_const(None)
        self.emit("RETURN_VALUE")

    def e_Lambda(self, e):
        def body(u):
            u.expr(e.body)
            if u.scope.is_gen:
                u.emit("POP_TOP")
                u.load_const(None)
            u.emit("RETURN_VALUE")

        u = self.function_unit(e, "<lambda>", body, e.args)
        self.make_function(u, e.args)

    def s_ClassDef(self, s):
        v = self.v
        if s.decorator_list and v < (2, 6):
            raise Unsupported("class decorator")
        if s.keywords and v < (3, 0):
            raise Unsupported("class keywords")
        for d in s.decorator_list:
            self.expr(d)
        sc = self.scope.by_node[id(s)]
        u = Unit(self.c, sc, s.name, self.qual(s.name), s.lineno)
        u.argcount = u.posonly = u.kwonly = 0
        u.flags = CO_NEWLOCALS if v < (3, 4) else 0
        if not u.freevars and not u.cellvars:
            u.flags |= CO_NOFREE
        if v >= (3, 0) and v < (3, 4):
            u.argcount = 1
            u.var_i("__locals__")
            u.emit("LOAD_FAST", 0)
            u.emit("STORE_LOCALS")
        u.emit("LOAD_NAME", u.name_i("__name__"))
        u.emit("STORE_NAME", u.name_i("__module__"))
        if v >= (3, 3):
            u.load_const(u.qualname)
            u.emit("STORE_NAME", u.name_i("__qualname__"))
        body = s.body
        doc = ast.get_docstring(s, clean=False)
        if any(isinstance(b, ast.AnnAssign) for b in body) and v >= (3, 6):
            u.emit("SETUP_ANNOTATIONS")
        if doc is not None:
            u.load_const(doc)
            u.emit("STORE_NAME", u.name_i("__doc__"))
            body = body[1:]
        u.stmts(body)
        if v < (3, 0):
            u.emit("LOAD_LOCALS")
        elif sc.needs_class_cell:
            u.emit("LOAD_CLOSURE", u.cellvars.index("__class__"))
            if v >= (3, 6):
                u.emit("DUP_TOP")
                u.emit("STORE_NAME", u.name_i("__classcell__"))
        else:
            u.load_const(None)
        u.emit("RETURN_VALUE")
        if v < (3, 0):
            self.load_const(s.name)
            for b in s.bases:
                self.expr(b)
            self.emit("BUILD_TUPLE", len(s.bases))
            self.make_function(u)
            self.emit("CALL_FUNCTION", 0)
            self.emit("BUILD_CLASS")
        else:
            self.emit("LOAD_BUILD_CLASS")
            self.make_function(u)
            self.load_const(s.name)
            self.call_rest(s.bases, s.keywords, 2)
        for d in s.decorator_list:
            self.emit("CALL_FUNCTION", 1)
        self.nameop(s.name, "STORE")

    # ------------------------------------------------------------------ stores
    def store(self, t):
        if isinstance(t, ast.Name):
            self.nameop(t.id, "STORE")
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit("STORE_ATTR", self.name_i(mangle(t.attr, self.scope.cls)))
        elif isinstance(t, ast.Subscript):
            if self.v < (3, 0) and self.simple_slice(t.slice):
                n = self.py2_slice_operands(t)
                self.emit("STORE_SLICE_%d" % n)
            else:
                self.expr(t.value)
                self.slice_expr(t.slice)
                self.emit("STORE_SUBSCR")
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                if self.v < (3, 0):
                    raise Unsupported("extended unpacking")
                i = star[0]
                self.emit("UNPACK_EX", i | ((len(t.elts) - i - 1) << 8))
            else:
                self.emit("UNPACK_SEQUENCE", len(t.elts))
            for e in t.elts:
                self.store(e.value if isinstance(e, ast.Starred) else e)
        else:
            raise AssertionError(ast.dump(t))

    def simple_slice(self, sl):
        return isinstance(sl, ast.Slice) and sl.step is None

    def py2_slice_operands(self, t):
        sl = t.slice
        self.expr(t.value)
        n = 0
        if sl.lower is not None:
            n |= 1
            self.expr(sl.lower)
        if sl.upper is not None:
            n |= 2
            self.expr(sl.upper)
        return n

    def slice_expr(self, sl):
        if isinstance(sl, ast.Slice):
            for e in (sl.lower, sl.upper):
                if e is None:
                    self.load_const(None)
                else:
                    self.expr(e)
            if sl.step is not None:
                self.expr(sl.step)
                self.emit("BUILD_SLICE", 3)
            else:
                self.emit("BUILD_SLICE", 2)
        elif isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
            for x in sl.elts:
                self.slice_expr(x)
            self.emit("BUILD_TUPLE", len(sl.elts))
        else:
            self.expr(sl)

    # ------------------------------------------------------------------ expressions
    def expr(self, e):
        method = getattr(self, "e_" + type(e).__name__, None)
        if method is None:
            raise Unsupported(type(e).__name__)
        method(e)

    def e_Constant(self, e):
        if isinstance(e.value, bytes) and self.v < (3, 0):
            raise Unsupported("bytes")
        if self.v < (3, 0) and isinstance(e.value, bool):
            return self.nameop(str(e.value), "LOAD")
        self.load_const(e.value)

    def e_Name(self, e):
        self.nameop(e.id, "LOAD")

    def e_UnaryOp(self, e):
        if (isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant)
                and type(e.operand.value) in (int, float) and self.c.opt.fold):
            return self.load_const(-e.operand.value)
        self.expr(e.operand)
        self.emit("UNARY_" + UNOP[type(e.op)])

    def e_BinOp(self, e):
        self.expr(e.left)
        self.expr(e.right)
        self.binary(e.op)

    def e_BoolOp(self, e):
        is_or = isinstance(e.op, ast.Or)
        end = Label()
        for x in e.values[:-1]:
            self.expr(x)
            if self.oldjump:
                self.emit("JUMP_IF_TRUE" if is_or else "JUMP_IF_FALSE", end)
                self.emit("POP_TOP")
            else:
                self.emit("JUMP_IF_TRUE_OR_POP" if is_or else "JUMP_IF_FALSE_OR_POP", end)
        self.expr(e.values[-1])
        self.mark(end)

    def e_IfExp(self, e):
        if self.v < (2, 5):
            raise Unsupported("ifexp")
        L = self.jump_false(e.test)
        end = Label()
        self.expr(e.body)
        self.emit("JUMP_FORWARD", end)
        self.land(L)
        self.expr(e.orelse)
        self.mark(end)

    def cmpop(self, op):
        k = CMP[type(op)]
        if self.v >= (3, 9):
            if k in (6, 7):
                return self.emit("CONTAINS_OP", k - 6)
            if k in (8, 9):
                return self.emit("IS_OP", k - 8)
        self.emit("COMPARE_OP", k)

    def e_Compare(self, e):
        self.expr(e.left)
        n = len(e.ops)
        cleanup = Label()
        for i in range(n):
            self.expr(e.comparators[i])
            if i < n - 1:
                self.emit("DUP_TOP")
                self.emit("ROT_THREE")
                self.cmpop(e.ops[i])
                if self.oldjump:
                    self.emit("JUMP_IF_FALSE", cleanup)
                    self.emit("POP_TOP")
                else:
                    self.emit("JUMP_IF_FALSE_OR_POP", cleanup)
            else:
                self.cmpop(e.ops[i])
        if n > 1:
            end = Label()
            self.emit("JUMP_FORWARD", end)
            self.mark(cleanup)
            self.emit("ROT_TWO")
            self.emit("POP_TOP")
            self.mark(end)

    def e_Attribute(self, e):
        self.expr(e.value)
        self.emit("LOAD_ATTR", self.name_i(mangle(e.attr, self.scope.cls)))

    def e_Subscript(self, e):
        if self.v < (3, 0) and self.simple_slice(e.slice):
            n = self.py2_slice_operands(e)
            self.emit("SLICE_%d" % n)
            return
        self.expr(e.value)
        self.slice_expr(e.slice)
        self.emit("BINARY_SUBSCR")

    def const_tuple(self, e):
        if not self.c.opt.fold or not e.elts:
            return None
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Constant):
                if isinstance(x.value, (bytes, bool)) and self.v < (3, 0):
                    return None
                vals.append(x.value)
            elif isinstance(x, ast.Tuple):
                t = self.const_tuple(x)
                if t is None:
                    return None
                vals.append(t)
            else:
                return None
        return tuple(vals)

    def e_Tuple(self, e):
        t = self.const_tuple(e)
        if t is not None and self.v >= (2, 5):
            return self.load_const(t)
        self.seq(e.elts, "TUPLE")

    def e_List(self, e):
        if self.v >= (3, 9) and len(e.elts) >= 3 and self.c.opt.fold:
            t = self.const_tuple(e)
            if t is not None:
                self.emit("BUILD_LIST", 0)
                self.load_const(t)
                self.emit("LIST_EXTEND", 1)
                return
        self.seq(e.elts, "LIST")

    def e_Set(self, e):
        if self.v < (2, 7):
            raise Unsupported("set display")
        if self.v >= (3, 9) and len(e.elts) >= 3 and self.c.opt.fold:
            t = self.const_tuple(e)
            if t is not None:
                self.emit("BUILD_SET", 0)
                self.load_const(frozenset(t))
                self.emit("SET_UPDATE", 1)
                return
        self.seq(e.elts, "SET")

    def seq(self, elts, kind):
        if not any(isinstance(x, ast.Starred) for x in elts):
            for x in elts:
                self.expr(x)
            self.emit("BUILD_" + kind, len(elts))
            return
        if self.v < (3, 5):
            raise Unsupported("unpack in display")
        self.star_seq(elts, kind)

    def star_seq(self, elts, kind, with_call=False):
        v = self.v
        if v >= (3, 9):
            base = "SET" if kind == "SET" else "LIST"
            add = "SET_ADD" if kind == "SET" else "LIST_APPEND"
            ext = "SET_UPDATE" if kind == "SET" else "LIST_EXTEND"
            lead = 0
            while lead < len(elts) and not isinstance(elts[lead], ast.Starred):
                self.expr(elts[lead])
                lead += 1
            self.emit("BUILD_" + base, lead)
            for x in elts[lead:]:
                if isinstance(x, ast.Starred):
                    self.expr(x.value)
                    self.emit(ext, 1)
                else:
                    self.expr(x)
                    self.emit(add, 1)
            if kind == "TUPLE":
                self.emit("LIST_TO_TUPLE")
            return
        n = run = 0
        for x in elts:
            if isinstance(x, ast.Starred):
                if run:
                    self.emit("BUILD_" + ("SET" if kind == "SET" else "TUPLE"), run)
                    n += 1
                    run = 0
                self.expr(x.value)
                n += 1
            else:
                self.expr(x)
                run += 1
        if run:
            self.emit("BUILD_" + ("SET" if kind == "SET" else "TUPLE"), run)
            n += 1
        if kind == "CALLTUPLE":
            if n > 1:
                self.emit("BUILD_LIST_UNPACK" if v < (3, 6) else "BUILD_TUPLE_UNPACK" if self.pypy else "BUILD_TUPLE_UNPACK_WITH_CALL", n)
            return
        self.emit("BUILD_%s_UNPACK" % kind, n)

    def e_Dict(self, e):
        v = self.v
        keys, vals = e.keys, e.values
        if any(k is None for k in keys):
            if v < (3, 5):
                raise Unsupported("dict unpack")
            if v >= (3, 9):
                i = 0
                self_started = False
                while i < len(keys):
                    if keys[i] is None:
                        if not self_started:
                            self.emit("BUILD_MAP", 0)
                            self_started = True
                        self.expr(vals[i])
                        self.emit("DICT_UPDATE", 1)
                        i += 1
                    else:
                        j = i
                        while j < len(keys) and keys[j] is not None:
                            j += 1
                        self.plain_map(keys[i:j], vals[i:j])
                        if self_started:
                            self.emit("DICT_UPDATE", 1)
                        self_started = True
                        i = j
                return
            n = 0
            i = 0
            while i < len(keys):
                if keys[i] is None:
                    self.expr(vals[i])
                    i += 1
                else:
                    j = i
                    while j < len(keys) and keys[j] is not None:
                        j += 1
                    self.plain_map(keys[i:j], vals[i:j])
                    i = j
                n += 1
            self.emit("BUILD_MAP_UNPACK", n)
            return
        self.plain_map(keys, vals)

    def plain_map(self, keys, vals):
        v = self.v
        n = len(keys)
        if v < (2, 6):
            self.emit("BUILD_MAP", 0)
            for k, x in zip(keys, vals):
                self.emit("DUP_TOP")
                if v < (2, 5):
                    # 2.4: key, value order is value-last
                    self.expr(x)
                    self.emit("ROT_TWO")
                    self.expr(k)
                else:
                    self.expr(x)
                    self.emit("ROT_TWO")
                    self.expr(k)
                self.emit("STORE_SUBSCR")
        elif v < (3, 5):
            self.emit("BUILD_MAP", n)
            for k, x in zip(keys, vals):
                self.expr(x)
                self.expr(k)
                self.emit("STORE_MAP")
        else:
            if v >= (3, 6) and n > 1 and all(isinstance(k, ast.Constant) for k in keys):
                for x in vals:
                    self.expr(x)
                self.load_const(tuple(k.value for k in keys))
                self.emit("BUILD_CONST_KEY_MAP", n)
                return
            for k, x in zip(keys, vals):
                self.expr(k)
                self.expr(x)
            self.emit("BUILD_MAP", n)

    # ---- comprehensions
    def e_ListComp(self, e):
        if self.v >= (3, 0):
            return self.comp(e, "<listcomp>")
        self.emit("BUILD_LIST", 0)
        if self.v < (2, 7):
            tmp = self.tmpname()
            self.emit("DUP_TOP")
            self.tmpop(tmp, "STORE")

            def add(u, depth):
                u.tmpop(tmp, "LOAD")
                u.expr(e.elt)
                u.emit("LIST_APPEND")
        else:
            def add(u, depth):
                u.expr(e.elt)
                u.emit("LIST_APPEND", depth + 1)
        self.comp_loops(e.generators, 0, add, True)
        if self.v < (2, 7):
            self.tmpop(tmp, "DELETE")
            self.tmp -= 1

    def e_SetComp(self, e):
        if self.v < (2, 7):
            raise Unsupported("setcomp")
        self.comp(e, "<setcomp>")

    def e_DictComp(self, e):
        if self.v < (2, 7):
            raise Unsupported("dictcomp")
        self.comp(e, "<dictcomp>")

    def e_GeneratorExp(self, e):
        self.comp(e, "<genexpr>")

    def comp(self, e, name):
        v = self.v

        def add(u, depth):
            if isinstance(e, ast.GeneratorExp):
                u.expr(e.elt)
                u.emit("YIELD_VALUE")
                if u.v >= (2, 5):
                    u.emit("POP_TOP")
            elif isinstance(e, ast.ListComp):
                u.expr(e.elt)
                u.emit("LIST_APPEND", depth + 1)
            elif isinstance(e, ast.SetComp):
                u.expr(e.elt)
                u.emit("SET_ADD", depth + 1)
            else:
                if v < (3, 8):
                    u.expr(e.value)
                    u.expr(e.key)
                else:
                    u.expr(e.key)
                    u.expr(e.value)
                u.emit("MAP_ADD", depth + 1)

        def body(u):
            if not isinstance(e, ast.GeneratorExp):
                u.pre_iter = {ast.ListComp: "LIST", ast.SetComp: "SET", ast.DictComp: "MAP"}[type(e)]
                if self.pypy and isinstance(e, ast.ListComp) and "BUILD_LIST_FROM_ARG" in self.c.opc.opmap:
                    u.emit("LOAD_FAST", 0)
                    u.emit("BUILD_LIST_FROM_ARG", 0)
                    u.comp_loops(e.generators, 0, add, False, loaded=True)
                    u.emit("RETURN_VALUE")
                    return
                u.emit("BUILD_" + u.pre_iter, 0)
            u.comp_loops(e.generators, 0, add, False)
            if isinstance(e, ast.GeneratorExp):
                u.load_const(None)
            u.emit("RETURN_VALUE")

        u = self.function_unit(e, name, body, None, lineno=self.line)
        self.make_function(u)
        self.expr(e.generators[0].iter)
        self.emit("GET_ITER")
        self.emit("CALL_FUNCTION", 1)

    def comp_loops(self, gens, i, add, inline, loaded=False):
        """emit nested loops; add(unit, depth) emits the element code."""
        g = gens[i]
        start, cleanup, end = Label(), Label(), Label()
        use_block = (self.v < (2, 7) or self.v == (3, 0)) and not inline and self.scope.is_gen
        if use_block:
            self.emit("SETUP_LOOP", end)
        if i == 0 and not inline:
            if not loaded:
                self.emit("LOAD_FAST", 0)
        else:
            self.expr(g.iter)
            self.emit("GET_ITER")
        self.mark(start)
        self.emit("FOR_ITER", cleanup)
        self.store(g.target)
        skips = []
        for c in g.ifs:
            if self.oldjump:
                L = Label()
                self.expr(c)
                self.emit("JUMP_IF_FALSE", L)
                self.emit("POP_TOP")
                skips.append(L)
            else:
                self.jump_if(c, start, False)
        if i + 1 < len(gens):
            self.comp_loops(gens, i + 1, add, inline)
        else:
            add(self, len(gens))
        self.emit("JUMP_ABSOLUTE", start)
        for L in reversed(skips):
            self.mark(L)
            self.emit("POP_TOP")
            self.emit("JUMP_ABSOLUTE", start)
        self.mark(cleanup)
        if use_block:
            self.emit("POP_BLOCK")
        self.mark(end)

    # ---- yield
    def e_Yield(self, e):
        if e.value is None:
            self.load_const(None)
        else:
            self.expr(e.value)
        self.emit("YIELD_VALUE")
        if self.v < (2, 5):
            # YIELD_VALUE leaves nothing in 2.4; callers pop a value
            self.load_const(None)

    def e_YieldFrom(self, e):
        if self.v < (3, 3):
            raise Unsupported("yield from")
        self.expr(e.value)
        self.emit("GET_ITER" if self.v < (3, 5) else "GET_YIELD_FROM_ITER")
        self.load_const(None)
        self.emit("YIELD_FROM")

    def e_NamedExpr(self, e):
        if self.v < (3, 8):
            raise Unsupported("walrus")
        self.expr(e.value)
        self.emit("DUP_TOP")
        name = mangle(e.target.id, self.scope.cls)
        self.nameop(name, "STORE")

    # ---- f-strings
    def e_JoinedStr(self, e):
        if self.v < (3, 6):
            raise Unsupported("fstring")
        for x in e.values:
            self.expr(x)
        if len(e.values) != 1:
            self.emit("BUILD_STRING", len(e.values))

    def e_FormattedValue(self, e):
        self.expr(e.value)
        fl = {-1: 0, 115: 1, 114: 2, 97: 3}[e.conversion]
        if e.format_spec is not None:
            self.expr(e.format_spec)
            fl |= 4
        self.emit("FORMAT_VALUE", fl)

    # ---- calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id in PY2_EXPR:
            if self.v >= (3, 0):
                raise Unsupported("py2 expr")
            self.expr(e.args[0])
            self.emit("UNARY_CONVERT")
            return
        plain = not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args)
        if (self.pypy and isinstance(f, ast.Attribute) and e.keywords
                and not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords)):
            self.expr(f.value)
            self.emit("LOOKUP_METHOD" if "LOOKUP_METHOD" in self.c.opc.opmap else "LOAD_METHOD", self.name_i(mangle(f.attr, self.scope.cls)))
            for a in e.args:
                self.expr(a)
            if self.v < (3, 7):
                for k in e.keywords:
                    self.load_const(k.arg)
                    self.expr(k.value)
                self.emit("CALL_METHOD", len(e.args) | (len(e.keywords) << 8))
            else:
                for k in e.keywords:
                    self.expr(k.value)
                self.load_const(tuple(k.arg for k in e.keywords))
                self.emit("CALL_METHOD_KW", len(e.args) + len(e.keywords))
            return
        if isinstance(f, ast.Attribute) and plain:
            nm = mangle(f.attr, self.scope.cls)
            if self.pypy:
                self.expr(f.value)
                self.emit("LOOKUP_METHOD" if "LOOKUP_METHOD" in self.c.opc.opmap else "LOAD_METHOD", self.name_i(nm))
                for a in e.args:
                    self.expr(a)
                self.emit("CALL_METHOD", len(e.args))
                return
            if self.v >= (3, 7):
                self.expr(f.value)
                self.emit("LOAD_METHOD", self.name_i(nm))
                for a in e.args:
                    self.expr(a)
                self.emit("CALL_METHOD", len(e.args))
                return
        if isinstance(f, ast.Name) and f.id == "super" and self.v >= (3, 0) and not e.args:
            pass
        self.expr(f)
        self.call_rest(e.args, e.keywords, 0)

    def call_rest(self, args, keywords, npre):
        """callable and npre positional operands are already on the stack."""
        v = self.v
        stars = [a for a in args if isinstance(a, ast.Starred)]
        dstars = [k for k in keywords if k.arg is None]
        kws = [k for k in keywords if k.arg is not None]
        if not stars and not dstars:
            for a in args:
                self.expr(a)
            if v < (3, 6) or (self.pypy and v < (3, 7)):
                for k in kws:
                    self.load_const(k.arg)
                    self.expr(k.value)
                self.emit("CALL_FUNCTION", (len(args) + npre) | (len(kws) << 8))
            elif kws:
                for k in kws:
                    self.expr(k.value)
                self.load_const(tuple(k.arg for k in kws))
                self.emit("CALL_FUNCTION_KW", len(args) + npre + len(kws))
            else:
                self.emit("CALL_FUNCTION", len(args) + npre)
            return
        if v < (3, 5):
            if len(stars) > 1 or len(dstars) > 1 or (stars and args[-1] is not stars[0]):
                raise Unsupported("call unpack generalization")
            pos = [a for a in args if not isinstance(a, ast.Starred)]
            for a in pos:
                self.expr(a)
            for k in kws:
                self.load_const(k.arg)
                self.expr(k.value)
            if stars:
                self.expr(stars[0].value)
            if dstars:
                self.expr(dstars[0].value)
            self.emit("CALL_FUNCTION" + ("_VAR" if stars else "") + ("_KW" if dstars else ""),
                      (len(pos) + npre) | (len(kws) << 8))
            return
        if v == (3, 5) or (self.pypy and v == (3, 6)):
            lead = 0
            while lead < len(args) and not isinstance(args[lead], ast.Starred):
                self.expr(args[lead])
                lead += 1
            if stars:
                rest = args[lead:]
                if len(rest) == 1:
                    self.expr(rest[0].value)
                else:
                    self.star_seq(rest, "CALLTUPLE")
            if not dstars:
                for k in kws:
                    self.load_const(k.arg)
                    self.expr(k.value)
                nk = len(kws)
            else:
                # 3.5: keywords before the first ** are plain pairs
                nk = 0
                i = 0
                while i < len(keywords) and keywords[i].arg is not None:
                    self.load_const(keywords[i].arg)
                    self.expr(keywords[i].value)
                    nk += 1
                    i += 1
                n = 0
                rest = keywords[i:]
                j = 0
                while j < len(rest):
                    if rest[j].arg is None:
                        self.expr(rest[j].value)
                        j += 1
                    else:
                        m = j
                        while m < len(rest) and rest[m].arg is not None:
                            self.load_const(rest[m].arg)
                            self.expr(rest[m].value)
                            m += 1
                        self.emit("BUILD_MAP", m - j)
                        j = m
                    n += 1
                if n > 1:
                    nfun = 1  # position of the callable relative to the maps
                    depth = n + 2 * nk + (1 if stars else 0) + lead + npre
                    # oparg>>8 is the 1-based position of the callable (3.5)
                    self.emit("BUILD_MAP_UNPACK_WITH_CALL", n | ((2 * nk + (1 if stars else 0) + lead + npre + 1) << 8))
            self.emit("CALL_FUNCTION" + ("_VAR" if stars else "") + ("_KW" if dstars else ""),
                      (lead + npre) | (nk << 8))
            return
        # 3.6+: CALL_FUNCTION_EX
        if npre:
            # class statement with *bases: pre operands become part of the tuple
            if v < (3, 9):
                self.emit("BUILD_TUPLE", npre)
                n, run = 1, 0
                for a in args:
                    if isinstance(a, ast.Starred):
                        if run:
                            self.emit("BUILD_TUPLE", run)
                            n += 1
                            run = 0
                        self.expr(a.value)
                        n += 1
                    else:
                        self.expr(a)
                        run += 1
                if run:
                    self.emit("BUILD_TUPLE", run)
                    n += 1
                if n > 1:
                    self.emit("BUILD_TUPLE_UNPACK_WITH_CALL" if not self.pypy else "BUILD_TUPLE_UNPACK", n)
            else:
                self.emit("BUILD_LIST", npre)
                for a in args:
                    if isinstance(a, ast.Starred):
                        self.expr(a.value)
                        self.emit("LIST_EXTEND", 1)
                    else:
                        self.expr(a)
                        self.emit("LIST_APPEND", 1)
                self.emit("LIST_TO_TUPLE")
        elif not stars:
            t = self.const_tuple(ast.Tuple(elts=args)) if args else ()
            if t is not None:
                self.load_const(t)
            else:
                for a in args:
                    self.expr(a)
                self.emit("BUILD_TUPLE", len(args))
        elif len(args) == 1:
            self.expr(args[0].value)
        elif v >= (3, 9):
            self.star_seq(args, "TUPLE")
        else:
            self.star_seq(args, "CALLTUPLE")
        flags = 0
        if keywords:
            flags = 1
            if v < (3, 9):
                n = 0
                j = 0
                while j < len(keywords):
                    if keywords[j].arg is None:
                        self.expr(keywords[j].value)
                        j += 1
                    else:
                        m = j
                        while m < len(keywords) and keywords[m].arg is not None:
                            m += 1
                        self.kwmap(keywords[j:m])
                        j = m
                    n += 1
                if n > 1:
                    self.emit("BUILD_MAP_UNPACK_WITH_CALL", n)
            else:
                started = False
                j = 0
                while j < len(keywords):
                    if keywords[j].arg is None:
                        if not started:
                            self.emit("BUILD_MAP", 0)
                            started = True
                        self.expr(keywords[j].value)
                        self.emit("DICT_MERGE", 1)
                        j += 1
                    else:
                        m = j
                        while m < len(keywords) and keywords[m].arg is not None:
                            m += 1
                        self.kwmap(keywords[j:m])
                        if started:
                            self.emit("DICT_MERGE", 1)
                        started = True
                        j = m
        self.emit("CALL_FUNCTION_EX", flags)

    def kwmap(self, kws):
        if len(kws) > 1:
            for k in kws:
                self.expr(k.value)
            self.load_const(tuple(k.arg for k in kws))
            self.emit("BUILD_CONST_KEY_MAP", len(kws))
        else:
            for k in kws:
                self.load_const(k.arg)
                self.expr(k.value)
            self.emit("BUILD_MAP", len(kws))

    def e_Starred(self, e):
        raise AssertionError("starred")

    # ------------------------------------------------------------------ assembly
    def assemble(self):
        opc = self.c.opc
        v = self.v
        o = self.c.opt
        if self.scope.kind == FUNC and o.pad_names and False:
            pass
        items = self.ins
        # drop unreachable code the way the release's own optimizer does
        stop = {"RETURN_VALUE"} if v < (3, 10) else {"RETURN_VALUE", "JUMP_ABSOLUTE", "JUMP_FORWARD", "RAISE_VARARGS", "RERAISE"}
        if o.dead_code:
            refs = {id(i.arg) for i in items if isinstance(i, Ins) and isinstance(i.arg, Label)}
            while True:
                kept, dead = [], False
                for it in items:
                    if isinstance(it, Label):
                        if id(it) in refs:
                            dead = False
                        kept.append(it)
                    elif not dead:
                        kept.append(it)
                        dead = it.op in stop
                refs2 = {id(i.arg) for i in kept if isinstance(i, Ins) and isinstance(i.arg, Label)}
                items = self.ins = kept
                if refs2 == refs:
                    break
                refs = refs2
        self.real = [i for i in items if isinstance(i, Ins)]
        jrel = set(opc.hasjrel)
        jabs = set(opc.hasjabs)
        wordcode = v >= (3, 6)
        have_arg = opc.HAVE_ARGUMENT
        opmap = opc.opmap
        ext = opmap.get("EXTENDED_ARG")
        for i in self.real:
            if i.op not in opmap:
                raise Unsupported("opcode %s not in %s" % (i.op, v))
            i.size = 2 if wordcode else (3 if opmap[i.op] >= have_arg else 1)
        while True:
            off = 0
            for it in items:
                if isinstance(it, Label):
                    it.pos = off
                else:
                    it.offset = off
                    off += it.size
            changed = False
            for i in self.real:
                a = self.argval(i, opmap, jrel)
                if wordcode:
                    need = 2 if a < 0x100 else 4 if a < 0x10000 else 6 if a < 0x1000000 else 8
                else:
                    need = 1 if opmap[i.op] < have_arg else 3 if a < 0x10000 else 6
                if need > i.size:
                    i.size = need
                    changed = True
            if not changed:
                break
        out = bytearray()
        lines = []
        for i in self.real:
            a = self.argval(i, opmap, jrel)
            code = opmap[i.op]
            lines.append((len(out), i.line))
            if wordcode:
                n = i.size // 2 - 1
                for k in range(n, 0, -1):
                    out += bytes([ext, (a >> (8 * k)) & 0xFF])
                out += bytes([code, a & 0xFF])
            elif code < have_arg:
                out.append(code)
            else:
                if i.size == 6:
                    out += bytes([ext, (a >> 16) & 0xFF, (a >> 24) & 0xFF])
                out += bytes([code, a & 0xFF, (a >> 8) & 0xFF])
        self.lines = lines
        lnotab = self.linetable(lines, len(out)) if v >= (3, 10) else self.lnotab(lines)
        varnames = tuple(self.varnames)
        kw = dict(
            co_argcount=self.argcount,
            co_posonlyargcount=self.posonly,
            co_kwonlyargcount=self.kwonly,
            co_nlocals=len(varnames),
            co_stacksize=max(20, sum(1 for i in self.real)) if len(self.real) < 200 else 200,
            co_flags=self.flags,
            co_code=bytes(out),
            co_consts=tuple(self.consts),
            co_names=tuple(self.names),
            co_varnames=varnames,
            co_filename=self.c.filename,
            co_name=self.name if not (v < (2, 5) and self.scope.kind == MODULE) else "?",
            co_qualname=self.qualname,
            co_firstlineno=self.firstlineno,
            co_lnotab=lnotab,
            co_freevars=tuple(self.freevars),
            co_cellvars=tuple(self.cellvars),
            co_exceptiontable=b"",
            version_triple=self.c.vt,
        )
        co = to_portable(**kw)
        return co

    def argval(self, i, opmap, jrel):
        a = i.arg
        if a is None:
            return 0
        if isinstance(a, Label):
            if opmap[i.op] in jrel:
                d = a.pos - (i.offset + i.size)
                if self.v < (3, 10) and d < 0:
                    raise Unsupported("backward relative jump")
            else:
                d = a.pos
            return d // 2 if self.v >= (3, 10) else d
        return a

    def lnotab(self, lines):
        out = bytearray()
        last_off, last_line = 0, self.firstlineno
        signed = self.v >= (3, 6)
        for off, line in lines:
            if line == last_line:
                continue
            dl = line - last_line
            if dl < 0 and not signed:
                continue
            do = off - last_off
            while do > 255:
                out += bytes([255, 0])
                do -= 255
            lo, hi = (-128, 127) if signed else (0, 255)
            if dl > hi:
                out += bytes([do, hi])
                dl -= hi
                do = 0
                while dl > hi:
                    out += bytes([0, hi])
                    dl -= hi
                out += bytes([0, dl])
            elif dl < lo:
                out += bytes([do, lo & 0xFF])
                dl -= lo
                do = 0
                while dl < lo:
                    out += bytes([0, lo & 0xFF])
                    dl -= lo
                out += bytes([0, dl & 0xFF])
            else:
                out += bytes([do, dl & 0xFF])
            last_off, last_line = off, line
        return bytes(out)

    def linetable(self, lines, total):
        """3.10 co_linetable: (start delta, line delta) pairs per range."""
        out = bytearray()
        ranges = []
        for off, line in lines:
            if ranges and ranges[-1][1] == line:
                continue
            ranges.append([off, line])
        last = self.firstlineno
        for k, (off, line) in enumerate(ranges):
            end = ranges[k + 1][0] if k + 1 < len(ranges) else total
            size = end - off
            dl = line - last
            while dl > 127:
                out += bytes([0, 127])
                dl -= 127
            while dl < -127:
                out += bytes([0, (-127) & 0xFF])
                dl += 127
            while size > 254:
                out += bytes([254, dl & 0xFF])
                dl = 0
                size -= 254
            out += bytes([size, dl & 0xFF])
            last = line
        return bytes(out)


class Compiler:
    def __init__(self, version, pypy=False, filename="prog.py", opt=None):
        self.v = tuple(version[:2])
        self.vt = tuple(version[:2]) if len(version) == 2 else tuple(version)
        self.pypy = pypy
        self.filename = filename
        self.opt = opt or Options()
        self.impl = PythonImplementation.PyPy if pypy else PythonImplementation.CPython
        self.opc = get_opcode_module(self.v, self.impl)
        self.future_division = False

    def compile(self, source, mode="exec"):
        tree = ast.parse(source, self.filename, mode="exec") if isinstance(source, str) else source
        body = tree.body
        if any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and s.names[0].name == "division" for s in body):
            self.future_division = True
        top = Builder(self.v).build(tree)
        u = Unit(self, top, "<module>", "<module>", 1)
        u.argcount = u.posonly = u.kwonly = 0
        u.flags = CO_NOFREE
        for i in range(self.opt.pad_consts):
            u.const("pad-const-%d" % i)
        for i in range(self.opt.pad_names):
            u.name_i("pad_name_%d" % i)
        doc = ast.get_docstring(tree, clean=False)
        if any(isinstance(b, ast.AnnAssign) for b in body) and self.v >= (3, 6):
            u.emit("SETUP_ANNOTATIONS")
        if doc is not None:
            u.load_const(doc)
            u.emit("STORE_NAME", u.name_i("__doc__"))
            body = body[1:]
        if mode == "eval":
            u.expr(tree.body[0].value)
            u.emit("RETURN_VALUE")
        else:
            u.stmts(body)
            u.load_const(None)
            u.emit("RETURN_VALUE")
        self.top = u
        return u.assemble()


def compile_source(source, version, pypy=False, filename="prog.py", opt=None, mode="exec"):
    return Compiler(version, pypy, filename, opt).compile(source, mode)
