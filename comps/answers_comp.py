"""Component 'answers': what the callback answers changes the run as promised.  "skip" must have the effect of the
program without the skipped instruction, "return" that of a return statement there; both asked for at line and
instruction events (arg "events"), or at breakpoints (arg "breakpoints")."""
import ast
import random
import warnings

from comps.debug_comp import run_vm, same, traced
from comps.gen_comp import FACTOR, generate
from lib import harness as H
from lib import py2ref
from lib import stream as S
from lib.disasm import Disasm, line_starts
from lib.runner import digest
from lib.shrink import shrink

MODS = ["c01", "c05", "c02", "c01", "c08", "c05", "c09", "c04"]
UNARY = {ast.USub: "UNARY_NEGATIVE", ast.UAdd: "UNARY_POSITIVE", ast.Invert: "UNARY_INVERT"}
DELETES = {"DELETE_NAME", "DELETE_FAST", "DELETE_GLOBAL", "DELETE_DEREF"}
VALUE = "returned by the debugger"


def constant(node):
    return not any(isinstance(n, (ast.Name, ast.Call, ast.Attribute, ast.Subscript, ast.List, ast.Dict, ast.Set,
                                  ast.ListComp, ast.Lambda, ast.JoinedStr, ast.Compare, ast.BoolOp, ast.IfExp))
                   for n in ast.walk(node))


class Without(ast.NodeTransformer):
    """The program in which the skipped instructions have no effect."""

    def __init__(self, ops, dels):
        self.ops, self.dels, self.n = ops, dels, 0

    def visit_UnaryOp(self, n):
        if constant(n.operand):
            # folded or not, by release
            if not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and
                    type(n.operand.value) in (int, float)):
                raise H.Unsupported("constant operand")
            return n
        self.generic_visit(n)
        if UNARY.get(type(n.op)) in self.ops:
            self.n += 1
            return n.operand
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        if self.dels and all(isinstance(t, ast.Name) for t in n.targets):
            self.n += 1
            # keep the name local if it was
            names = ", ".join(t.id for t in n.targets)
            return ast.parse("if 0:\n del " + names).body[0]
        return n


def places(tree):
    """Functions with the simple statements, not inside try or with, at which they might return: {(name, line)}."""
    out = []

    def visit(body, fn):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))
                if fn is not None:
                    out.append((fn, s.lineno, "def"))
                visit(s.body, s.name if not gen else None)
            elif isinstance(s, ast.ClassDef):
                visit(s.body, None)
            elif isinstance(s, (ast.If, ast.While, ast.For)):
                visit(s.body, fn)
                visit(s.orelse, fn)
            elif isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return)) and fn is not None:
                if s.end_lineno == s.lineno and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                                                                       ast.SetComp, ast.DictComp)) for x in ast.walk(s)):
                    out.append((fn, s.lineno, "stmt"))
    visit(tree.body, None)
    return [(f, n) for f, n, k in out if k == "stmt"]


class Returning(ast.NodeTransformer):
    def __init__(self, lines):
        self.lines, self.fn = lines, None

    def visit_FunctionDef(self, n):
        outer, self.fn = self.fn, n.name
        self.generic_visit(n)
        self.fn = outer
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                out = []
                for s in b:
                    if (self.fn, s.lineno) in self.lines and isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return)):
                        # unreachable: what follows keeps telling which names are local
                        out.append(ast.Return(ast.Constant(VALUE)))
                    out.append(s)
                setattr(n, f, out)
        return n


def answer_skip(ops, dels, lines):
    def wanted(vm, name, int_arg):
        if name == "CALL_INTRINSIC_1" and int_arg == 5:
            name = "UNARY_POSITIVE"
        if name in ops:
            return True
        return dels and name in DELETES and lines[vm.frame.f_lineno - 1].strip().startswith("del ")
    return wanted


class Skipper(object):
    def __init__(self, wanted, target, by_breakpoint):
        self.wanted, self.target, self.brk, self.n = wanted, target, by_breakpoint, 0
        self.seen = {}

    def __call__(self, event, offset, name, op, line, int_arg, arg, vm):
        fr = vm.frame
        if not self.brk:
            if event in ("line", "instruction") and self.wanted(vm, name, int_arg):
                self.n += 1
                return "skip"
        elif event in ("call", "yield"):
            if id(fr) not in self.seen:
                self.seen[id(fr)] = fr
                for x in Disasm(fr.f_code, self.target).ins:
                    if x.name in UNARY.values() or x.name in DELETES or x.name == "CALL_INTRINSIC_1":
                        vm.add_breakpoint(fr, x.first if offset % 3 else x.offset)
        elif event == "breakpoint":
            if name == "CALL_INTRINSIC_1":
                int_arg = fr.f_code.co_code[offset + 1]
            if self.wanted(vm, name, int_arg):
                self.n += 1
                return "skip"
        return self


class Returner(object):
    def __init__(self, lines, target, by_breakpoint):
        self.lines, self.target, self.brk, self.n, self.seen = lines, target, by_breakpoint, 0, {}

    def __call__(self, event, offset, name, op, line, int_arg, arg, vm):
        fr = vm.frame
        if not self.brk:
            if event == "line" and (fr.f_code.co_name, line) in self.lines:
                vm.return_value = VALUE
                self.n += 1
                return "return"
        elif event in ("call", "yield"):
            if id(fr) not in self.seen:
                self.seen[id(fr)] = fr
                for o, ln in line_starts(fr.f_code, H.TARGETS[self.target][0]).items():
                    if (fr.f_code.co_name, ln) in self.lines:
                        vm.add_breakpoint(fr, o)
        elif event == "breakpoint":
            vm.return_value = VALUE
            self.n += 1
            return "return"
        return self


def judge(src, target, seed, by_breakpoint, count=None):
    from xpython.vmtrace import PyVMTraced

    rng = random.Random(seed)
    try:
        tree = ast.parse(src)
        code = H.compile_for(src, target)
        if rng.random() < .5:
            what = "skip"
            ops = {o for o in UNARY.values() if rng.random() < .7}
            dels = rng.random() < .6
            w = Without(ops, dels)
            other = ast.unparse(ast.fix_missing_locations(w.visit(tree)))
            cb = Skipper(answer_skip(ops, dels, src.split("\n")), target, by_breakpoint)
        else:
            what = "return"
            cand = sorted(set(places(tree)))
            if not cand:
                return "unsupported", "no place", 0
            lines = set(rng.sample(cand, min(len(cand), rng.randint(1, 4))))
            other = ast.unparse(ast.fix_missing_locations(Returning(lines).visit(tree)))
            cb = Returner(lines, target, by_breakpoint)
        ref = H.run_ref(other, target, ref_extra=py2ref.make(), timeout=10)
    except (H.Unsupported, SyntaxError) as e:
        return "unsupported", str(e), 0
    if ref.timeout:
        return "unsupported", "time out", 0
    x = run_vm(code, target, traced(PyVMTraced, cb, target, S.ALL))
    if x is None:
        return "unsupported", "time out", 0
    if count:
        count("answered " + what, cb.n)
    d = same(ref, x)
    if d:
        return "fail", what + ": " + d, cb.n
    return "ok", "", cb.n


def run(c):
    warnings.simplefilter("ignore")
    for i in range(72 * FACTOR[c.tier]):
        if i % c.shards != c.shard or c.full:
            continue
        mod = MODS[i % len(MODS)]
        item = "%s:%s:%d:%d" % (c.comp, mod, c.seed, i)
        if c.only and c.only != item:
            continue
        c.at(item)
        src = generate(mod, "%s/%d/a%d" % (mod, c.seed, i), c.target)
        args = c.target, c.seed * 1000 + i, c.arg == "breakpoints"
        st, detail, n = judge(src, *args, count=c.count)
        if st == "unsupported":
            c.skip(detail[:60])
            continue
        c.observed((src, i) if n else None, n, sample=src[:600])
        if st == "fail":
            def fails(s):
                st, d, _ = judge(s, *args)
                return st == "fail" and d.split()[0] == detail.split()[0]
            small = shrink(src, fails)
            c.fail("answers:%s@%s" % (digest(src), c.target), detail, {"prog.py": src, "small.py": small}, {"only": item})
