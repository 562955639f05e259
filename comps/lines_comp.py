"""Component 'lines': which frames are active, and the line each one is at, whenever the program logs an event;
the frames and lines of the traceback of the exception being handled, and of the one the program ends with."""
import ast
import random
import sys
import warnings

from comps.gen_comp import FACTOR, generate
from lib import harness as H
from lib import py2ref
from lib.layout import spread
from lib.runner import digest
from lib.shrink import shrink
from xpython.vmtrace import PyVMTraced

MODS = ("c03", "c06", "c07", "c05", "c04", "c08", "hostile", "c01", "c09", "c21")
NUMBER = 110
COMPS = ("<listcomp>", "<setcomp>", "<dictcomp>")


class Fresh(ast.NodeTransformer):
    """Have "raise X" tell whether X is an exception that was raised before: from then on CPython 3 adds to the
    traceback the object has, where x-python, like CPython 2, begins a new one."""

    def visit_Raise(self, node):
        self.generic_visit(node)
        if node.exc is not None:
            node.exc = ast.Call(ast.Name("__fresh__", ast.Load()), [node.exc], [])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "throw":
            node.args = [ast.Call(ast.Name("__fresh__", ast.Load()), [a], []) for a in node.args]
        return node


def entry(code, line):
    return ("<module>" if code.co_name == "?" else code.co_name, line)


def chain(tb):
    return [("<module>" if n == "?" else n, l) for n, l in H.lines_of(tb)]


def reference(src, target, timeout=10):
    again = {}
    py2 = H.TARGETS[target][0] < (3, 0)     # sys.exc_info() outlives the except clause, and is not set in "finally"

    def fresh(e):
        if isinstance(e, BaseException) and e.__traceback__ is not None:
            again[id(e)] = e
        return e

    def sink():
        f = sys._getframe(2)
        stack = []
        while f is not None:
            if f.f_code.co_filename == "prog.py" and f.f_code.co_name not in COMPS:
                stack.append(entry(f.f_code, f.f_lineno))
            f = f.f_back
        e = sys.exc_info()[1]
        return stack[::-1], ANY if id(e) in again or py2 else chain(e and e.__traceback__)

    more = py2ref.make()
    more["__fresh__"] = fresh
    ref = H.run_ref(src, target, {"__describe__": sink}, timeout, more, Fresh())
    if id(ref.val) in again:
        ref.tb = None
    return ref


ANY = None                  # a traceback that is not judged


def observe(code, target, timeout=10, traced=False):
    if traced:
        vm = PyVMTraced(lambda event, *a: True, *H.TARGETS[target])
    else:
        vm = H.PyVM(*H.TARGETS[target])

    def sink():
        stack = [entry(f.f_code, f.line_number()) for f in vm.frames if f.f_code.co_name not in COMPS]
        also = [entry(f.f_code, f.f_lineno) for f in vm.frames if f.f_code.co_name not in COMPS]
        if stack != also:
            return ("line_number()", stack, "f_lineno", also), []
        back, f = [], vm.frame
        while f is not None:
            back.append(f)
            f = f.f_back
        if back[::-1] != vm.frames:
            return ("f_back", [f.f_code.co_name for f in back[::-1]], "frames", [f.f_code.co_name for f in vm.frames]), []
        return stack, chain(vm.handled_exception[2])

    x = H.run_x(code, target, {"__describe__": sink}, timeout, vm)
    return x, chain(vm.last_traceback) if x.exc and not x.crash else None


def folding(src, target):
    """{line: line} for lines which releases choose differently between: from the first decorator to the "def"."""
    fold = {"native": H.TARGETS[target][0] >= (3, 11)}
    if not fold["native"]:
        for n in ast.walk(ast.parse(src)):
            if getattr(n, "decorator_list", None):
                for line in range(n.decorator_list[0].lineno, n.lineno):
                    fold[line] = n.lineno
    return fold


def same(entries, fold):
    """Before 3.10 __exit__ is called at the last line of the body."""
    if isinstance(entries, tuple):
        return entries
    return [(n, fold.get(l, l) if i + 1 == len(entries) or entries[i + 1][0] != "__exit__" or fold.get("native") else 0)
            for i, (n, l) in enumerate(entries)]


def judge(src, target, timeout=10, traced=False):
    """(status, detail, number of line facts compared)"""
    try:
        code = H.compile_for(src, target)
    except H.Unsupported as e:
        return "unsupported", str(e), 0
    except SyntaxError as e:
        return "unsupported", str(e.msg), 0
    ref = reference(src, target, timeout)
    if ref.timeout:
        return "unsupported", "reference time out", 0
    x, last = observe(code, target, timeout, traced)
    if x.timeout:
        x, last = observe(code, target, timeout * 4, traced)
    if x.refusals:
        return "fail", "refused: " + x.refusals[0][:150].replace("\n", " "), 0
    facts = sum(len(e[0]) + len(e[1] or ()) for e in ref.log)
    fold = folding(src, target)
    for o in (ref, x):
        o.log = [(same(stack, fold), tb if tb is ANY else same(tb, fold)) for stack, tb in o.log]
    for i in range(min(len(ref.log), len(x.log))):
        if ref.log[i][1] is ANY:
            x.log[i] = (x.log[i][0], ANY)
    d = H.diff(ref, x, check_globals=False)
    if d:
        return "fail", d, facts
    if last is not None and ref.tb is not None:
        facts += len(ref.tb)
        a, b = same([("<module>" if n == "?" else n, l) for n, l in ref.tb], fold), same(last, fold)
        if a != b:
            return "fail", "traceback: expected %r, observed %r" % (a, b), facts
    return "ok", "", facts


def run(c):
    warnings.simplefilter("ignore")
    mods = (c.arg or "+".join(MODS)).split("+")
    for i in range(NUMBER * FACTOR[c.tier]):
        if i % c.shards != c.shard or c.full:
            continue
        mod = mods[i % len(mods)]
        item = "lines:%s:%d:%d" % (mod, c.seed, i)
        if c.only and c.only != item:
            continue
        c.at(item)
        src = generate(mod, "%s/%d/l%d" % (mod, c.seed, i), c.target)
        rng = random.Random(item)
        src = spread(src, rng, .12 if c.target == H.NATIVE else 0)
        st, detail, facts = judge(src, c.target, 10, i % 3 == 1)
        if st == "unsupported":
            c.skip(detail[:60])
            continue
        c.observed((src, facts) if facts else None, facts, sample=src[:600])
        if st == "fail":
            def same(s):
                st, d, _ = judge(s, c.target, 5, i % 3 == 1)
                return st == "fail" and d.split()[0] == detail.split()[0]
            small = shrink(src, same)
            c.fail("lines:%s@%s" % (digest(src), c.target), detail, {"prog.py": src, "small.py": small}, {"only": item})
