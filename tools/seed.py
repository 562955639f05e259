"""Makes and confirms planted bugs:  python3 tools/seed.py BUGS.py [id ...]

BUGS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], needs, what, and either
target + prog (a program; the demonstration runs its bytecode for that release) or demo (a Python program that
exits non-zero when the behaviour is broken)."""
import base64
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
BASE = "41cfa6b"

RUNNER = r'''"""Runs prog.json's bytecode on the x-python VM and compares what it logs with what Python logs."""
import base64, contextlib, io, json, os, re, sys, signal
sys.path.insert(0, os.getcwd())
here = os.path.dirname(os.path.abspath(__file__))
from xdis.codetype import to_portable
from xdis.version_info import PythonImplementation
from xpython.vm import PyVM, PyVMUncaughtException
import builtins
d = json.load(open(os.path.join(here, "prog.json")))


def dec(v):
    k, x = v
    if k == "code":
        kw = {n: dec(y) for n, y in x.items()}
        kw["version_triple"] = tuple(kw["version_triple"])
        return to_portable(**kw)
    if k == "bytes":
        return base64.b64decode(x)
    if k == "tuple":
        return tuple(dec(y) for y in x)
    if k == "frozenset":
        return frozenset(dec(y) for y in x)
    if k == "dict":
        return {dec(a): dec(b) for a, b in x}
    if k == "complex":
        return complex(x)
    if k == "float":
        return float(x)
    if k == "ellipsis":
        return Ellipsis
    return x


code = compile(d["source"], "prog.py", "exec", dont_inherit=True) if d["code"] is None else dec(d["code"])
log = []


def T(*a):
    if len(log) > 5000:
        raise KeyboardInterrupt
    log.append(re.sub(" at 0x[0-9a-f]+", "", " ".join(map(repr, a))))
    return a[-1] if a else None


signal.alarm(100)
vm = PyVM(tuple(d["version"]), getattr(PythonImplementation, d["impl"]))
env = {"__name__": "__main__", "__builtins__": builtins, "__doc__": None, "T": T}
out = io.StringIO()
exc = None
try:
    with contextlib.redirect_stdout(out):
        vm.eval_frame(vm.make_frame(code, f_globals=env))
except PyVMUncaughtException:
    exc = vm.last_exception[0].__name__
except BaseException as e:
    exc = type(e).__name__
got = {"log": log, "exc": exc, "stdout": out.getvalue()}
if got != d["expect"]:
    print("expected", d["expect"])
    print("observed", got)
    os._exit(1)
print("as expected")
sys.stdout.flush()
os._exit(0)
'''
DEMO = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def enc(v):
    import types
    if v is None or isinstance(v, (bool, int, str)):
        return ["v", v]
    if isinstance(v, float):
        return ["float", repr(v)]
    if isinstance(v, complex):
        return ["complex", repr(v)]
    if v is Ellipsis:
        return ["ellipsis", 0]
    if isinstance(v, bytes):
        return ["bytes", base64.b64encode(v).decode()]
    if isinstance(v, (tuple, list)):
        return ["tuple", [enc(x) for x in v]]
    if isinstance(v, frozenset):
        return ["frozenset", [enc(x) for x in v]]
    if isinstance(v, dict):
        return ["dict", [[enc(a), enc(b)] for a, b in v.items()]]
    import inspect
    from xdis.codetype import to_portable
    names = inspect.signature(to_portable).parameters
    kw = {}
    for n in names:
        if isinstance(getattr(v, n, None), set):
            pass
        elif n == "co_lnotab" and v.version_triple >= (3, 10):
            kw[n] = v.co_linetable
        elif hasattr(v, n):
            kw[n] = getattr(v, n)
        elif n == "version_triple":
            kw[n] = v.version_triple
    return ["code", {n: enc(x) for n, x in kw.items()}]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def make_prog(d, src, target):
    script = r'''
import sys, json
sys.path.insert(0, %r)
from tools import seed
from lib import harness as H, py2ref
import io, contextlib, re
src = sys.stdin.read(); target = %r
version, impl = H.TARGETS[target]
code = None if target == H.NATIVE else H.compile_for(src, target)
log = []
def T(*a):
    log.append(re.sub(" at 0x[0-9a-f]+", "", " ".join(map(repr, a))))
    return a[-1] if a else None
o = H.run_ref(src, target, extra={"T": T}, ref_extra=py2ref.make())
json.dump({"source": src, "version": version, "impl": impl.name, "code": None if code is None else seed.enc(code),
  "expect": {"log": log, "exc": o.exc and o.exc[0], "stdout": o.stdout}}, open(%r, "w"), indent=0)
''' % (HERE, target, os.path.join(d, "prog.json"))
    r = sh([PY, "-c", script], input=src)
    if r.returncode:
        return r.stderr.strip().splitlines()[-1][:200]


def stable_lost():
    sh("bash /opt/vp/build.sh")
    sh("bash /opt/vp/test.sh /tmp/w/seedout.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open("/tmp/w/seedout.json"))
    st = b.get("stable") or b.get("passed") or b
    p = set(o.get("passed", []) if isinstance(o.get("passed"), list) else [k for k, v in o.items() if v in ("pass", "passed", True)])
    return sorted(set(st) - p)


def demo(d):
    try:
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-300:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(b, checks):
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -- .", cwd="/repo")
    if "prog" in b:
        e = make_prog(d, b["prog"], b["target"])
        if e:
            return "PROG " + e
        open(os.path.join(d, "demo.py"), "w").write(RUNNER)
    else:
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    rc, out = demo(d)
    if rc != 0:
        return "demo fails unpatched: %s %s" % (rc, out)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join("/repo/xpython", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit: %d matches in %s of %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", cwd="/repo").stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        # removed lines must be the original repository's
        cur, n, orig, mine = None, 0, 0, []
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                blame = [x.split()[0] for x in sh(["git", "blame", "-s", "HEAD", "--", cur], cwd="/repo").stdout.splitlines()]
            elif line.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", line).group(1))
            elif cur and line.startswith("-") and not line.startswith("---"):
                if blame[n - 1].lstrip("^").startswith(BASE[:6]):
                    orig += 1
                else:
                    mine.append(line)
                n += 1
            elif cur and line.startswith(" "):
                n += 1
        if mine or not orig:
            return "removed lines: %d original, not original: %r" % (orig, mine)
        rc, out = demo(d)
        if rc == 0:
            return "demo passes with the patch"
        lost = stable_lost()
        if lost:
            return "tests lost: %d %s" % (len(lost), lost[:4])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if checks:
            r = sh([PY, "check.py", b["property"]], cwd=HERE)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            return "OK demo rc %d; check rc %d, %d violations: %s" % (
                rc, r.returncode, len(v), r.stdout[-150:].replace("\n", " | ") if r.returncode != 1 else
                "".join(l.strip()[:110] for l in r.stdout.splitlines() if l.startswith("   "))[:110])
        return "OK"
    finally:
        sh("git checkout -- .", cwd="/repo")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        res = one(b, True)
        if not res.startswith("OK"):
            sh(["rm", "-rf", os.path.join(HERE, "seeded", b["id"])])
        print(b["id"], b["property"], res, flush=True)


if __name__ == "__main__":
    main()
