"""Which components decide which property."""
import importlib

from lib import targets as T

ASSUMPTIONS = [
    "CPython 3.12 running the same source (with the older release's documented differences written out) "
    "is the reference for what a program does",
    "our AST-to-bytecode compiler (vc/) emits for each release what that release's compiler would; its output "
    "is validated against xdis' opcode tables and the shipped .pyc files",
    "3.12 bytecode is the running interpreter's own; 3.11 bytecode is translated from it",
]

COMPONENTS = {
    "probes": "comps.probes_comp",
    "gen": "comps.gen_comp",
    "imports": "comps.imports_comp",
    "trace": "comps.trace_comp",
    "transparent": "comps.debug_comp",
    "breakpoints": "comps.debug_comp",
    "answers": "comps.answers_comp",
    "cli": "comps.cli_comp",
    "shipped": "comps.shipped_comp",
    "lines": "comps.lines_comp",
    "isolation": "comps.isolation_comp",
}


def component(name):
    return importlib.import_module(COMPONENTS[name]).run


def comp(name, targets=T.ALL, shards=None, arg=None):
    return {"name": name, "targets": targets if callable(targets) else (lambda tier: targets),
            "shards": shards or {}, "arg": arg}


RULE = ("An evaluation is one program executed by the VM and judged against the reference; programs are the "
        "hand-written probes (one feature each) and generated ones. It is non-trivial when it ran to its end and "
        "logged at least one event; distinct counts different (release, program) pairs with different event logs.")

PROPS = {}


def prop(pid, *components, **kw):
    PROPS[pid] = dict(components=list(components), rule=kw.pop("rule", RULE), **kw)


for _p, _more in (("C01", "+hostile/60"), ("C02", "+c03/40"), ("C03", "+hostile/80"), ("C04", "/300"), ("C05", ""), ("C06", ""),
                  ("C07", "+hostile/50"), ("C08", ""), ("C09", "+hostile/60")):
    prop(_p, comp("probes"), comp("gen", arg=_p.lower() + _more))
prop("C10", comp("probes", T.CPYTHON2), comp("gen", T.CPYTHON2, {"quick": 2, "thorough": 4}, "c10/500"))
prop("C11", comp("probes"), comp("imports"))
prop("C19", comp("probes"), comp("lines"), rule=(
    "An evaluation is one program whose active frames, their lines and the tracebacks are compared with CPython's at "
    "each event it logs; a fact is one (function, line) pair."))
prop("C16", comp("probes"), comp("gen", arg="c16/250"))
prop("C21", comp("probes"), comp("gen", arg="c21/250"))
prop("C17", comp("isolation"), rule=(
    "An evaluation is one run of several machines, or of one program with several threads, under one schedule, judged "
    "against each program alone or against CPython's threads; it is distinct when programs or schedule differ."))
prop("C12", comp("trace", shards={"quick": 1, "thorough": 2}), comp("shipped", T.ALL), rule=(
    "An evaluation is one generated program run under PyVMTraced with every event checked; it is distinct when "
    "program or set of executed steps differ."))
prop("C13", comp("transparent"), comp("answers", arg="events"), rule=(
    "An evaluation is one generated program run under eight or nine behaviours of callback, event flags and logging."))
prop("C14", comp("breakpoints"), comp("answers", arg="breakpoints"), rule=(
    "An evaluation is one generated program run with breakpoints in every activation of its functions."))
prop("C15", comp("cli"), rule=(
    "An evaluation is one program run by the xpython command, or by a function of xpython.execfile, or one scenario of "
    "the command line; it is distinct when program or way to run it differ."))
