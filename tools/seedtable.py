"""Rewrites the table of planted bugs and the number of repairs in DESIGN.md."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "set-keeps-last": "elements that are equal but distinguishable (1, True, 1.0) in displays",
    "falsy-self": "bound methods of false objects, kept and called later",
    "foriter-312-default": "`iter(callable, sentinel)` and other non-generator iterators in every for",
    "jump-if-or-pop": "NotImplemented and hostile `__bool__` as operands of and/or",
    "global-none-builtin": "globals and locals that hide built-ins, bound to None, 0, '' as well",
    "package-file": "scripts that get their own name, or option-like words, as arguments",
    "yieldfrom-falsy-value": "falsy return values of delegated-to generators",
    "call-event-offset": "the offset of call events, checked against the caller's position",
    "yield-event-offset": "the offset of yield events, checked against the generator's position",
    "exec-globals-locals": "exec without namespaces, or with None for them, in functions, of code with global names",
    "cell-set-equal": "variables of all scopes rebound to equal but different objects",
    "callable-answer": "callbacks that answer with another callable, True or 1",
    "sys-submodule": "submodules with the names of modules the machine knows (sys, inspect)",
    "compile-positional": "compile() with each number of arguments by position and by name",
}
rows = ["| planted bug | property (check that catches it) | manifests with | first missed? |", "|---|---|---|---|"]
if os.path.exists(os.path.join(HERE, "tools", "missed.json")):
    MISSED.update(json.load(open(os.path.join(HERE, "tools", "missed.json"))))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    miss = "missed at first; added: " + MISSED[n] if n in MISSED else ""
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "\\|"), miss))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
i = s.index("<!-- seeds -->")
s = s[:i] + "<!-- seeds -->\nAll of the following are caught by the quick check of their property, with seed 1.\n\n" + "\n".join(rows) + "\n"
nf = sum(1 for l in open(os.path.join(HERE, "known_findings.txt")) if l.startswith("fixed:"))
s = re.sub(r"\((?:NFIX|\d+) commits", "(%d commits" % nf, s)
open(p, "w").write(s)
