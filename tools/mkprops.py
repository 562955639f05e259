"""Writes properties.jsonl, and MANIFEST.json from it (python3 tools/mkprops.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, level_note, technique, observe=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe or ["values a program logs, its final globals, output and uncaught exception"],
                            "hook_needed": None}), level_note, technique))


VM = "xpython/vm.py"
BO = "xpython/byteop/"
ALLV = "every accepted bytecode release (CPython 2.4-2.7, 3.1-3.12; PyPy 3.5-3.9)"
DIFF = "differential runtime monitor: event log of generated and hand-written programs run by the VM vs CPython"
NOTE = ("Sampled: every feature by a hand-written probe on every release, and random programs of the property's grammar; "
        "trusts CPython 3.12 as reference and our compiler for the other releases.")

prop("C01", "Expressions evaluate to what Python defines",
     "Every unary, binary, in-place, comparison, boolean, conditional, subscript, attribute, call and string-formatting expression gives the value, or raises the exception, that Python defines, including reflected and in-place special methods and NotImplemented. Operands are evaluated once each, left to right, and short-circuit operators and chained comparisons evaluate no more than Python does. This is so for bytecode of " + ALLV + ".",
     ["programs", "inputs", "configurations"], "all expressions, operand types (user-defined special methods included) and bytecode releases",
     "The tests evaluate a few dozen fixed expressions, nearly all on 3.x bytecode with built-in operands, and compare printed output; order of evaluation, reflected/in-place protocols and the releases' different opcode encodings combine without end.",
     [VM, BO + "byteop.py", BO + "byteop24.py", BO + "byteop36.py", BO + "byteop311.py", BO + "byteop312.py"],
     [("BINARY_OPERATORS / INPLACE_OPERATORS tables", BO + "byteop.py"), ("COMPARE_OP", BO + "byteop24.py"), ("BINARY_OP, nb_ops", VM)],
     NOTE, DIFF)
prop("C02", "Control flow takes the path Python takes",
     "if/elif/else, while and for loops with break, continue and else clauses, conditional and boolean jumps, assert, match statements (3.10+) and returns out of nested blocks visit exactly the statements Python visits, in order. It holds however long the code is, also where jump targets or operands need EXTENDED_ARG prefixes or are scaled to instruction units. It holds for bytecode of " + ALLV + ".",
     ["programs", "inputs", "configurations"], "all nestings of control-flow statements, all decisions, all code sizes and releases",
     "The tests have short functions with one or two nested blocks; jump encodings differ per release (absolute, relative, backward, scaled, EXTENDED_ARG) and only certain nestings and sizes reach the bad ones.",
     [VM, BO + "byteop24.py", BO + "byteop27.py", BO + "byteop38.py", BO + "byteop311.py", BO + "byteop312.py"],
     [("jump opcodes and operand scaling", BO), ("block stack and unwinding", VM), ("FOR_ITER / SETUP_LOOP / BREAK_LOOP", BO + "byteop24.py")],
     NOTE, DIFF)
prop("C03", "Exceptions are raised, matched, unwound and chained as in Python",
     "An exception raised anywhere - by a raise statement, an operation, or native code calling back into interpreted functions - reaches exactly the handler Python would choose, runs every finally clause on the way, and otherwise leaves the program with that exception. Inside handlers the exception visible to the program, bare re-raise, `raise ... from`, __context__, __cause__ and exception-group matching are Python's, and after a handler the previous state is restored. The values, variables and remaining loops of every frame are intact afterwards. Finalizers (__del__) that run while blocks and frames are left, even ones which raise and handle exceptions, do not change what is under way.",
     ["programs", "fault_sequences", "configurations"], "all placements of raises, handlers, finally clauses and frames between them, on every release",
     "Tests raise in a few fixed spots; which handler and how much of the stack is unwound depends on the nesting, the frames in between and four different encodings (block stack, SETUP_FINALLY/END_FINALLY variants, 3.9 RERAISE, 3.11+ exception tables).",
     [VM, "xpython/pyobj.py", BO + "byteop24.py", BO + "byteop38.py", BO + "byteop39.py", BO + "byteop311.py"],
     [("manage_block_stack / unwind_block / exception table lookup", VM), ("RAISE_VARARGS, END_FINALLY, POP_EXCEPT, RERAISE, CHECK_EXC_MATCH", BO)],
     NOTE, DIFF)
prop("C04", "Calls bind arguments as Python does",
     "Calling an interpreted function, method, class or generator with any mix of positional, keyword, *iterable and **mapping arguments binds each parameter - positional-only, defaulted, *args, keyword-only, **kwargs - to what Python would, evaluating argument and default expressions in order, or raises TypeError exactly when Python does. Defaults are evaluated once, at definition. It holds for every call encoding of the accepted bytecode releases.",
     ["programs", "inputs", "configurations"], "all signatures, all call shapes, all releases",
     "The tests call a handful of signatures in matching shapes; the product of signature and call shape, and the error cases, is what goes wrong per release's calling convention.",
     ["xpython/pyobj.py", BO + "byteop24.py", BO + "byteop36.py", BO + "byteop311.py", BO + "byteop312.py"],
     [("Function.__call__ / argument binding", "xpython/pyobj.py"), ("CALL_FUNCTION*, CALL, KW_NAMES, CALL_FUNCTION_EX", BO), ("MAKE_FUNCTION", BO)],
     NOTE, DIFF)
prop("C05", "Names resolve to the variable Python's scoping gives them",
     "Every load, store and delete of a name acts on the local, enclosing-function, class, global or built-in variable that Python's scoping rules select, closures share variables (not copies) with the scopes they come from, and every call of a function gets fresh locals. Unbound and deleted names raise NameError or UnboundLocalError as in Python. locals(), globals(), exec and eval see and change the same variables.",
     ["programs", "histories", "configurations"], "all nestings of functions, classes and comprehensions with global/nonlocal declarations, rebindings and deletions",
     "Tests check single closures and a few global statements; sharing of cells between sibling closures, class scopes, deletions and re-entry only show in particular nestings and orders.",
     ["xpython/pyobj.py", VM, BO + "byteop24.py", BO + "byteop311.py", BO + "byteop312.py"],
     [("Frame cells and namespaces", "xpython/pyobj.py"), ("LOAD_/STORE_/DELETE_ NAME, GLOBAL, FAST, DEREF, CLASSDEREF, MAKE_CELL, COPY_FREE_VARS", BO)],
     NOTE, DIFF)
prop("C06", "Generators obey the iterator and generator protocol",
     "For any body and any history of next(), send(), throw() and close() calls, an interpreted generator yields the values, receives the sent values, runs the handlers and finally clauses, returns or raises exactly as a Python generator does, including yield from delegation (3.3+) and generator expressions. A finished generator stays finished, one whose last reference is dropped by a loop, name or container is closed at once (2.5+), and several generators advanced in any interleaving do not disturb each other or their callers.",
     ["programs", "histories", "schedules", "configurations"], "all generator bodies, all call histories, all interleavings of live generators",
     "Tests drive generators to exhaustion once; throw/close/send at each possible suspension point, delegation and interleaving are histories no fixed test enumerates.",
     ["xpython/pyobj.py", VM, BO + "byteop24.py", BO + "byteop33.py", BO + "byteop311.py"],
     [("Generator class: resume, throw, close", "xpython/pyobj.py"), ("YIELD_VALUE, YIELD_FROM, SEND, RETURN_GENERATOR", BO)],
     NOTE + " Coroutines (async/await) on 3.12 are a recorded finding.", DIFF)
prop("C07", "with statements enter and exit exactly once on every way out",
     "Every with statement calls __enter__ once and, when that succeeded, __exit__ exactly once, with (None, None, None) or the exception in flight, however the block is left: falling off the end, exception, return, break, continue, or generator suspension and closing. A true result suppresses the exception and execution resumes after the statement; an exception from __exit__ replaces the one in flight. Nested managers exit in reverse order.",
     ["programs", "fault_sequences", "configurations"], "all nestings of with/loops/try, all exits, all managers that raise or suppress, every release from 2.5 on",
     "Tests cover a manager with normal and exceptional exit; exits through return/break/continue inside nested managers and finally use different opcode sequences in almost every release.",
     [VM, BO + "byteop25.py", BO + "byteop26.py", BO + "byteop27.py", BO + "byteop32.py", BO + "byteop38.py", BO + "byteop39.py", BO + "byteop311.py"],
     [("SETUP_WITH, WITH_CLEANUP*, WITH_EXCEPT_START, BEFORE_WITH", BO), ("block unwinding", VM)],
     NOTE, DIFF)
prop("C08", "Classes, inheritance, super() and metaclasses behave as in Python",
     "Executing a class statement runs its body in its own namespace, determines bases and metaclass, and creates the class Python would create, with decorators applied in order. Attribute lookup through the MRO, descriptors, properties, static and class methods, bound methods, super() in both forms, __class__, name mangling and special methods then behave as in Python, for bytecode of " + ALLV + ".",
     ["programs", "configurations"], "all class hierarchies, bodies, metaclasses and uses",
     "Tests define a few small classes; combinations of inheritance, metaclass keywords, super() and closures in class bodies are unbounded and their bytecode differs per release.",
     ["xpython/pyobj.py", VM, BO + "byteop24.py", BO + "byteop30.py", BO + "byteop311.py", BO + "byteop312.py"],
     [("BUILD_CLASS / LOAD_BUILD_CLASS and build_class", BO), ("Function as descriptor", "xpython/pyobj.py"), ("LOAD_SUPER_ATTR, super()", BO)],
     NOTE, DIFF)
prop("C09", "Displays, unpacking, comprehensions and slices build what Python builds",
     "List, tuple, set and dict displays (starred ones too), comprehensions and generator expressions build the containers Python builds, evaluating parts in Python's order. Assignment to target lists, with nesting, a starred target, attributes and subscripts, takes any iterable and binds the same values, or raises the same error when counts differ. Subscripts and slices are read, written and deleted with the same index objects.",
     ["programs", "inputs", "configurations"], "all displays, target lists, comprehension shapes and slice forms, every release",
     "Tests have some fixed displays and unpackings; opcode choice depends on sizes, stars and nesting and differs per release.",
     [BO + "byteop24.py", BO + "byteop27.py", BO + "byteop30.py", BO + "byteop35.py", BO + "byteop36.py", BO + "byteop39.py", BO + "byteop312.py", VM],
     [("BUILD_*, LIST_EXTEND/SET_UPDATE/DICT_MERGE, UNPACK_SEQUENCE/UNPACK_EX, LIST_APPEND/MAP_ADD", BO), ("SLICE+n, BINARY_SLICE", VM)],
     NOTE, DIFF)
prop("C10", "Python 2 bytecode keeps Python 2 meaning",
     "Running bytecode of Python 2.4 to 2.7, print statements write what Python 2 writes (separators, soft space, redirection), `/` on integers floors, exec statements act on the namespaces given or on the current ones, the two- and three-argument raise forms build the exception Python 2 builds, backquotes give repr(), two-index slices act on the right range, and list-comprehension and exception variables stay bound. __metaclass__, in a class body or as a global, makes the class as in Python 2, and the built-in functions that later releases lack (apply, cmp, coerce, execfile, reduce, intern, unichr, xrange) do what they did.",
     ["programs", "inputs"], "all Python 2 programs using these statements, with every operand type",
     "The 2.x tests replay a few shipped .pyc files; they print little and use each Python 2 statement in one form.",
     [BO + "byteop24.py", BO + "byteop25.py", BO + "byteop26.py", BO + "byteop27.py", BO + "byteop.py", "xpython/stdlib/builtins.py"],
     [("make_compatible_builtins and its functions", "xpython/stdlib/builtins.py"), ("BUILD_CLASS", BO + "byteop24.py"), ("PRINT_ITEM/PRINT_NEWLINE(_TO)", BO + "byteop24.py"), ("BINARY_DIVIDE, EXEC_STMT, RAISE_VARARGS, SLICE+n", BO)],
     NOTE + " Integers and strings are those of the host; int/long and str/unicode differences are not modelled.", DIFF)
prop("C11", "Imports bind what Python binds, and sys shows the simulated release",
     "import, import-as, from-import, relative and star imports bind the module, submodule or attribute Python binds, execute each module at most once, honour __all__ and leading underscores, and raise ImportError (or the module's own exception) when Python does. A program that imports sys sees the version of the bytecode being run (version_info, hexversion, version) and otherwise the real sys module.",
     ["programs", "configurations"], "all import forms over all package trees, from module, function and class scope, every release",
     "Tests import a few standard modules; submodule binding, fromlist fallbacks, star imports and relative levels depend on package layout.",
     [BO + "byteop24.py", BO + "byteop25.py", "xpython/pyobj.py", VM],
     [("IMPORT_NAME, IMPORT_FROM, IMPORT_STAR", BO), ("sys stand-in", BO)],
     NOTE, DIFF)
prop("C21", "Interpreted objects work when native code uses them",
     "Interpreted functions, lambdas, closures, generators, bound methods and instances of interpreted classes can be passed to built-in functions and the standard library - as keys, callbacks, predicates, iterators, mapping hooks, subclasses of built-in types, operands of native protocols - and are called back, iterated, compared, hashed, formatted and copied with the same results and exceptions as under CPython. The interpreted caller continues correctly after the native call returns or raises.",
     ["programs", "histories", "configurations"], "all combinations of native callers and interpreted callees",
     "Tests use map/sorted-like callbacks in a few places; re-entry of the interpreter from native code must hold for each kind of callee and for exceptions crossing back.",
     ["xpython/pyobj.py", VM, BO + "byteop.py"],
     [("Function.__call__/__get__, native function creation", "xpython/pyobj.py"), ("call_function, convert_method_native_func", BO), ("eval_frame re-entry, frame stack", VM)],
     NOTE, DIFF)


exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None

P.sort(key=lambda t: t[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
NA = []
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q lib comps gen vc >/dev/null; /opt/venv/bin/python -c 'import xdis'",
    "checks": [
        {"property": d["id"],
         "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % d["id"],
         "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % d["id"],
         "evidence_file": "evidence/%s.json" % d["id"],
         "technique": tech, "level": "exploration", "level_note": note}
        for d, note, tech in P],
    "not_applicable": NA,
    "notes": "No hooks: the monitors use the VM's public interface (PyVM, PyVMTraced callbacks, the xpython command). Known findings: known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
