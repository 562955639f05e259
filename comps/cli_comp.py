"""Component 'cli': programs run by the xpython command and by the functions of xpython.execfile, from source and
from bytecode files, in scratch directories: output, exit code, report of an uncaught exception, sys.argv, imports of
neighbouring modules, state restored, against CPython."""
import contextlib
import inspect
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import warnings

from comps.gen_comp import FACTOR, generate
from lib import harness as H
from lib import py2ref
from lib.pycfile import pyc
from lib.runner import digest

MODS = ("c03", "c05", "c01", "c07", "c08", "c09", "c04", "c02")
NUMBER = {"cli": 26, "api": 3}
XPYTHON = os.path.join(os.path.dirname(sys.executable), "xpython")
HELPER = '''import re, types, atexit
%s
%s
ADDRESS = re.compile(" at 0x[0-9a-fA-F]+")
_run = [True]
atexit.register(_run.clear)
def T(*a):
    if _run:
        print(repr(tuple(canon(x) for x in a)))
    return a[-1] if a else None
''' % (inspect.getsource(H.canon), inspect.getsource(H.canon_args))

ENDINGS = ["pass", "pass", "sys.exit()", "sys.exit(0)", "sys.exit(%d)", "sys.exit('message')", "sys.exit((1, 2))",
           "sys.exit(None)", "raise SystemExit", "raise SystemExit(%d)", "raise KeyError('k%d')", "[][%d]",
           "raise EndError(%d)", "1 // 0", "undefined_name_%d", "int('x%d')", "raise StopIteration", "exit_later(%d)"]


def program(mod, seed, target, rng):
    """A generated program with an ending of its own; the first line is left for the import of T."""
    for k in range(9):
        src = generate(mod, seed + "/%d" % k if k else seed, target)
        # When a generator which is suspended at the end of the program is closed is not judged.
        if not ("yield" in src and any(w in src for w in ("finally:", "except", "with "))):
            break
    else:
        src = "pass\n"
    src = "import sys\n" + src.replace("from __future__", "# from __future__")
    end = rng.choice(ENDINGS)
    if "%d" in end:
        end %= rng.choice((1, 2, 3, 7, 77, 255))
    lines = ["T('argv', sys.argv[1:], __name__)",
             "class EndError(Exception): pass",
             "def exit_later(n):",
             "    try:",
             "        raise EndError(n)",
             "    except EndError:",
             "        sys.exit(n)"]
    wrap = rng.randrange(5)
    if wrap == 0:
        lines += [end]
    elif wrap == 1:
        lines += ["def last(n):", "    if n:", "        last(n - 1)", "    else:", "        " + end, "last(%d)" % rng.randrange(5)]
    elif wrap == 2:
        lines += ["try:", "    T('in')", "    " + end, "finally:", "    T('finally')"]
    elif wrap == 3:
        lines += ["class Last(object):", "    T('body')", "    def m(self):", "        " + end, "Last().m()"]
    else:
        lines += ["def last():", "    try:", "        " + end, "    except (EndError, IndexError):", "        T('caught')",
                  "        " + rng.choice(("raise", "pass", "sys.exit(9)")), "list(map(lambda x: last(), [1]))"]
    return "\n" + src + "\n".join(lines) + "\n" + ("T('end')\n" if rng.random() < .7 else "T('end') ")


IMPORT = "from t_helper import T"


def expected(src, target, args):
    """Outcome of the reference, with T's output in its stdout."""
    out = []

    def describe():
        return None

    def T(*a):
        print(repr(tuple(H.canon(x) for x in a)))
        return a[-1] if a else None

    old = sys.argv
    sys.argv = ["prog"] + list(args)
    try:
        return H.run_ref(src, target, {"T": T}, 20, py2ref.make())
    finally:
        sys.argv = old


def exit_code(ref):
    if ref.exc is None:
        return 0
    if ref.exc[0] == "SystemExit":
        code = ref.val.code
        return 0 if code is None else code & 0xFF if isinstance(code, int) else 1
    return 1


ENTRY = re.compile(r'^  File "([^"]*)", line (\d+), in (\S+)$', re.M)


WARNINGS = re.compile("^WARNING:xpython.*\\n", re.M)


def lossy(code, version):
    """Does xdis lose part of the line table?  It takes the strings of a 2.x file for UTF-8."""
    return version < (3, 0) and (max(code.co_lnotab, default=0) > 127 or
                                 any(lossy(k, version) for k in code.co_consts if hasattr(k, "co_lnotab")))


def report(ref, err, names_only=False):
    """Complaint about the report of an uncaught exception on stderr, or None."""
    err = WARNINGS.sub("", err)
    if ref.exc is None:
        return "stderr: expected nothing, observed %r" % err[-300:] if err.strip() else None
    if ref.exc[0] == "SystemExit":
        code = ref.val.code
        want = "" if code is None or isinstance(code, int) else str(code)
        return None if err.strip() == want else "stderr: expected %r, observed %r" % (want, err[-300:])
    if not issubclass(type(ref.val), Exception):
        return None
    got = [("<module>" if n == "?" else n, int(l)) for _, l, n in ENTRY.findall(err) if n not in ("<listcomp>", "<dictcomp>", "<setcomp>")]
    if "Traceback (most recent call last):" not in err:
        return "stderr: no traceback in %r" % err[-300:]
    if [e[0] for e in got] != [e[0] for e in ref.tb] or got != ref.tb and not names_only:
        return "traceback: expected %r, observed %r" % (ref.tb, got)
    last = err.rstrip("\n").split("\n")[-1]
    if last.split(":")[0].split(".")[-1] != ref.exc[0]:
        return "stderr: expected a %s, observed %r" % (ref.exc[0], last[:200])
    if ref.exc[0] in ("EndError", "KeyError") and last.split(": ", 1)[1:] != [str(ref.val)] and str(ref.val):
        return "stderr: expected %s: %s, observed %r" % (ref.exc[0], ref.val, last[:200])
    return None


def start(cmd, cwd, stdin="", timeout=60, path=()):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF"))}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONIOENCODING="utf8")
    path = [*path, *([H.REPO] if H.REPO != "/repo" else [])]
    if path:
        env["PYTHONPATH"] = ":".join(path)
    try:
        p = subprocess.run(cmd, cwd=cwd, input=stdin.encode(), capture_output=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="xpy-cli-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(d, path, data):
    path = os.path.join(d, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return path


def lay_out(d, src, code, target, rng):
    """Put the program somewhere below d; the command's arguments, and its kind."""
    version = H.TARGETS[target][0]
    if target == H.NATIVE:
        text = IMPORT + src
        kind = rng.choice(("file", "file", "sub", "abs", "command", "module", "package", "submodule", "pyc", "other", "link", "path"))
    else:
        kind = rng.choice(("pyc", "pyc", "subpyc", "abspyc", "modpyc", "linkpyc"))
    where = "sub dir/" if kind in ("sub", "subpyc", "link", "linkpyc") else ""
    put(d, where + "t_helper.py", HELPER)
    if kind in ("file", "sub", "abs"):
        path = put(d, where + "prog.py", text)
        return kind, [path if kind == "abs" else rng.choice(("", "./")) + where + "prog.py"]
    if kind == "link":                   # modules are beside the file linked to
        put(d, where + "prog.py", text)
        os.symlink(where + "prog.py", os.path.join(d, "linked.py"))
        return kind, ["linked.py"]
    if kind == "path":                   # the module is found on sys.path, what it imports in the current directory
        put(d, "lib/prog.py", text)
        return kind, ["-m", "prog"]
    if kind == "other":                  # the file may have any name
        put(d, "prog", text)
        return kind, ["prog"]
    if kind == "command":
        return kind, ["-c", text]
    if kind == "module":
        put(d, "prog.py", text)
        return kind, ["-m", "prog"]
    if kind == "package":
        put(d, "pk/__init__.py", "V = 3\n")
        put(d, "pk/__main__.py", IMPORT + "; from . import V; assert V == 3 and __package__ == 'pk'" + src)
        return kind, ["-m", "pk"]
    if kind == "submodule":
        put(d, "pk/__init__.py", "V = 3\n")
        put(d, "pk/prog.py", IMPORT + "; from . import V; assert V == 3 and __package__ == 'pk'" + src)
        return kind, ["-m", "pk.prog"]
    if target == H.NATIVE:
        import importlib._bootstrap_external as b
        data = bytes(b._code_to_timestamp_pyc(compile(text, "prog.py", "exec", dont_inherit=True), 1, 1))
    else:
        data = pyc(code, target, version)
    path = put(d, where + "prog.pyc", data)
    if kind == "linkpyc":
        os.symlink(where + "prog.pyc", os.path.join(d, "linked.pyc"))
        return kind, ["linked.pyc"]
    return kind, [path if kind == "abspyc" else where + "prog.pyc"]


def compiled(src, target):
    return None if target == H.NATIVE else H.compile_for(IMPORT + src, target)


def run_cli(c, i, item):
    rng = random.Random(item)
    mod = MODS[i % len(MODS)]
    src = program(mod, "%s/%d/cli%d" % (mod, c.seed, i), c.target, rng)
    try:
        code = compiled(src, c.target)
        pyc(code, c.target, H.TARGETS[c.target][0]) if code else None
    except (H.Unsupported, SyntaxError, ValueError) as e:
        return c.skip(str(e)[:60])
    args = [rng.choice(("a", "b c", "", "x=1", "\u00e9\u20ac", "*", "3", "'", "prog.py", "prog.pyc", "-v", "-c", "-m", "--help", "-", "a")) for _ in range(rng.randrange(4))]
    ref = None
    with scratch() as d:
        kind, cmd = lay_out(d, src, code, c.target, rng)
        if kind == "command":
            args = []
        ref = expected(src, c.target, args)
        if ref.timeout:
            return c.skip("reference time out")
        verbose = rng.choice(([], [], [], [], [], ["-v"])) if len(ref.stdout) < 5000 else []
        got = start([XPYTHON] + verbose + cmd + args, d, timeout=150 if verbose else 60,
                    path=[os.path.join(d, "lib")] if kind == "path" else ())
    if got is None:
        return c.fail("cli:%s@%s" % (digest(src), c.target), "no answer within 60 s", {"prog.py": IMPORT + src}, {"only": item})
    rc, out, err = got
    d = None
    if out != ref.stdout:
        k = next((k for k, (a, b) in enumerate(zip(out.split("\n"), ref.stdout.split("\n"))) if a != b), -1)
        d = "stdout line %d: expected %r, observed %r; stderr %r" % (
            k, ref.stdout.split("\n")[k][:300], out.split("\n")[k][:300], err[-200:])
    elif rc != exit_code(ref):
        d = "exit code: expected %r, observed %r; stderr %r" % (exit_code(ref), rc, err[-300:])
    elif not verbose:
        d = report(ref, err, code is not None and lossy(code, H.TARGETS[c.target][0]))
    c.observed((src, kind), out.count("\n") + 1, sample="%s %s %r -> exit %d" % (verbose, kind, args, rc))
    c.count(kind)
    if d:
        c.fail("cli:%s@%s" % (digest(src), c.target), "%s %s%r: %s" % (kind, verbose, args, d), {"prog.py": IMPORT + src}, {"only": item})


# ------------------------------------------------------------ several programs in one process
DRIVER = '''
import builtins, contextlib, io, json, sys
sys.path.insert(0, %r)
from xpython import execfile
import t_helper
jobs = json.load(open("jobs.json"))
names = sorted(vars(builtins))
result = []
for how, what, args in jobs:
    argv, path0, main, modules = sys.argv, sys.path[0], sys.modules["__main__"], len(sys.path)
    out, err = io.StringIO(), io.StringIO()
    events = []
    def callback(event, *a):
        if event == "fatal":
            tb, chain = a[5][2], []
            while tb:
                chain.append((tb.tb_frame.f_code.co_name, tb.tb_lineno))
                tb = tb.tb_next
            events.append((a[5][0].__name__, chain))
        else:
            events.append(1)
        return True
    code = message = "none"
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            if how == "file":
                execfile.run_python_file(what, args)
            elif how == "traced":
                execfile.run_python_file(what, args, callback=callback)
            elif how == "string":
                execfile.run_python_string(open(what).read(), args)
            else:
                execfile.run_python_module(what, args)
        except SystemExit as e:
            code = e.code
            if not (code is None or isinstance(code, (int, str))):
                code = str(code)
        except BaseException as e:
            code = "raised"
            message = type(e).__name__
    same = [sys.argv is argv, sys.path[0] is path0, sys.modules["__main__"] is main, len(sys.path) == modules,
            sorted(set(vars(builtins)) - {"_"}) == names]
    fatal = [e for e in events if e != 1]
    result.append((code, message, out.getvalue(), err.getvalue(), same, fatal, len(events)))
json.dump(result, open("result.json", "w"))
'''


def run_api(c, i, item):
    """Several programs, of c.target and other releases, one after another in one process."""
    rng = random.Random(item)
    jobs, refs, sources = [], [], []
    with scratch() as d:
        put(d, "t_helper.py", HELPER)
        for k in range(8):
            target = c.target if k % 2 else rng.choice(list(H.TARGETS))
            mod = MODS[rng.randrange(len(MODS))]
            src = program(mod, "%s/%d/api%d.%d" % (mod, c.seed, i, k), target, rng)
            try:
                code = compiled(src, target)
                data = pyc(code, target, H.TARGETS[target][0]) if code else None
            except (H.Unsupported, SyntaxError, ValueError) as e:
                c.skip(str(e)[:60])
                continue
            args = [rng.choice(("a", "b c", "", "-x", "--", "prog%d.py" % k, "prog%d.pyc" % k, "a")) for _ in range(rng.randrange(3))]
            ref = expected(src, target, args)
            if ref.timeout:
                c.skip("reference time out")
                continue
            if data is None:
                how = rng.choice(("file", "traced", "string", "module"))
                put(d, "prog%d.py" % k, IMPORT + src)
                what = "prog%d" % k if how == "module" else "prog%d.py" % k
            else:
                how = rng.choice(("file", "traced"))
                what = "prog%d.pyc" % k
                put(d, what, data)
            jobs.append((how, what, args))
            refs.append(ref)
            sources.append((target, IMPORT + src, code is not None and lossy(code, H.TARGETS[target][0])))
        put(d, "jobs.json", json.dumps(jobs))
        put(d, "driver.py", DRIVER % d)
        got = start([sys.executable, "driver.py"], d, timeout=300)
        if got is None:
            return c.fail("api:%s" % item, "no answer within 300 s", {}, {"only": item})
        try:
            with open(os.path.join(d, "result.json")) as f:
                results = json.load(f)
        except OSError:
            return c.fail("api:%s" % item, "driver: exit %r, stderr %r" % (got[0], got[2][-500:]), {}, {"only": item})
    for n, (job, ref, (code, message, out, err, restored, fatal, events)) in enumerate(zip(jobs, refs, results)):
        diff = None
        want = ref.val.code if ref.exc and ref.exc[0] == "SystemExit" else None if ref.exc is None else 1
        if not (want is None or isinstance(want, (int, str))):
            want = str(want)
        if out != ref.stdout:
            lines = list(zip(out.split("\n"), ref.stdout.split("\n")))
            k = next((k for k, (a, b) in enumerate(lines) if a != b), -1)
            diff = "stdout line %d: expected %r, observed %r; %s; stderr %r" % (k, lines[k][1][:300], lines[k][0][:300], message, err[-300:])
        elif (want or 0) != (code or 0):
            diff = "SystemExit: expected code %r, observed %r %s; stderr %r" % (want, code, message, err[-300:])
        elif restored != [True] * 5:
            diff = "not restored: sys.argv, sys.path[0], sys.modules['__main__'], len(sys.path), names of builtins: %r" % restored
        elif job[0] == "traced" and not events:
            diff = "callback: no events"
        elif job[0] == "traced" and ref.exc and isinstance(ref.val, Exception):
            got = [(("<module>" if f == "?" else f), l) for f, l in (fatal[0][1] if fatal else []) if f not in ("<listcomp>", "<dictcomp>", "<setcomp>")]
            if len(fatal) != 1 or fatal[0][0] != ref.exc[0] or [e[0] for e in got] != [e[0] for e in ref.tb] or (
                    got != ref.tb and not sources[n][2]):
                diff = "fatal event: expected one of %s %r, observed %r" % (ref.exc[0], ref.tb, fatal)
        elif fatal:
            diff = "fatal event without uncaught exception: %r" % fatal
        target, src, _ = sources[n]
        c.observed((src, job[0]), out.count("\n") + 1)
        c.count("api " + job[0])
        if diff:
            files = {"prog%d_%s.py" % (k, t): s for k, (t, s, _) in enumerate(sources[:n + 1])}
            c.fail("api:%s:%s@%s" % (digest(src), n, target), "program %d of %d, %s of %s: %s" % (n, len(jobs), job[0], target, diff),
                   files, {"only": item})
            return


# ------------------------------------------------------------ the command line's own contract
def bad_pyc(magic):
    return magic + b"\0" * 12 + b"garbage"


SCENARIOS = [
    # name, files, arguments, stdin, (exit code, None: as CPython), compare stdout with CPython
    ("crlf", {"p.py": b'x = """q\r\nr"""\r\nprint(repr(x))\r\nprint(1)\r\n'}, ["p.py"], "", None),
    ("cr", {"p.py": b'print(1)\rprint(2)\r'}, ["p.py"], "", None),
    ("bom", {"p.py": b'\xef\xbb\xbfprint(ascii("\xc3\xa9"))\n'}, ["p.py"], "", None),
    ("latin1", {"p.py": b'# -*- coding: latin-1 -*-\nprint(ascii("\xe9"))\n'}, ["p.py"], "", None),
    ("utf8", {"p.py": b'print("\xe2\x82\xac")\nimport sys\nsys.stdout.buffer.write(b"x")'}, ["p.py"], "", None),
    ("empty", {"p.py": b""}, ["p.py"], "", None),
    ("comment", {"p.py": b"# nothing"}, ["p.py"], "", None),
    ("no newline", {"p.py": b"if 1:\n  print(1)"}, ["p.py"], "", None),
    ("blank end", {"p.py": b"if 1:\n  print(1)\n  "}, ["p.py"], "", None),
    ("syntax error", {"p.py": b"print(1)\nif 1:\n  print(1"}, ["p.py"], "", None),
    ("return outside", {"p.py": b"print(1)\nreturn 3"}, ["p.py"], "", None),
    ("bad encoding", {"p.py": b'print("\xe9")\n'}, ["p.py"], "", None),
    ("stdin", {"p.py": b"import sys\nx = input()\nprint(x * 2, sys.stdin.read())"}, ["p.py"], "ab\ncd\nef", None),
    ("main module", {"p.py": b"import pickle, sys\nclass A(object): pass\nprint(type(pickle.loads(pickle.dumps(A()))) is A)\n"
                             b"import __main__\nprint(__main__.A is A, __main__.__dict__ is globals(), sys.modules['__main__'] is __main__)"},
     ["p.py"], "", None),
    ("names", {"p.py": b"import os, sys\nprint(__name__, os.path.abspath(__file__), __doc__, __package__, sys.argv, os.path.abspath(sys.path[0]))"},
     ["p.py", "1", "2"], "", None),
    ("docstring", {"p.py": b"'''about'''\nprint(__doc__)"}, ["p.py"], "", None),
    ("annotations", {"p.py": b"from __future__ import annotations\ndef f(x: y): pass\nprint(f.__annotations__)\nz: int = 3\nprint(__annotations__)"},
     ["p.py"], "", None),
    ("neighbour", {"q.py": b"import r.s\nX = r.s.Y + 1", "r/__init__.py": b"", "r/s.py": b"Y = 5", "p.py": b"import q\nprint(q.X, q.__file__ != '')"},
     ["p.py"], "", None),
    ("neighbour of a file below", {"a/q.py": b"X = 1", "q.py": b"X = 2", "a/p.py": b"import q\nprint(q.X)"}, ["a/p.py"], "", None),
    ("os._exit", {"p.py": b"import os\nprint(1, flush=True)\ntry:\n  os._exit(7)\nfinally:\n  print(2)"}, ["p.py"], "", None),
    ("atexit", {"p.py": b"import atexit\natexit.register(print, 'bye')\nprint(1)"}, ["p.py"], "", None),
    ("exit builtin", {"p.py": b"print(1)\nexit(5)\nprint(2)"}, ["p.py"], "", None),
    ("base exception", {"p.py": b"class B(BaseException): pass\nprint(1)\ndef f():\n  raise B(3)\nf()"}, ["p.py"], "", None),
    ("dunder main", {"p.py": b"def main():\n  return 3\nif __name__ == '__main__':\n  import sys\n  print('main')\n  sys.exit(main())"}, ["p.py"], "", None),
    ("module", {"m.py": b"print(__name__)\nfrom n import k\nprint(k)", "n.py": b"k = 4"}, ["-m", "m"], "", None),
    ("package", {"k/__init__.py": b"print('init', __name__)", "k/__main__.py": b"from . import z\nprint(__name__, __package__, z.V)", "k/z.py": b"V = 1"},
     ["-m", "k"], "", None),
    ("module of package", {"k/__init__.py": b"print('init', __name__)", "k/y.py": b"from . import z\nprint(__name__, __package__, z.V)", "k/z.py": b"V = 1"},
     ["-m", "k.y"], "", None),
    ("module of the library", {}, ["-m", "calendar", "2024", "2"], "", None),
    ("command", {"m.py": b"V = 1"}, ["-c", "import m\nprint(m.V, __name__)\nfor i in range(2): print(i)"], "", None),
    ("command without newline", {}, ["-c", "if 1:\n  print(1)"], "", None),
    ("command fails", {}, ["-c", "print(1)\n1 // 0"], "", None),
    ("command exits", {}, ["-c", "import sys; print(1); sys.exit(12)"], "", None),
    ("no such file", {}, ["missing.py"], "", 2),
    ("no such pyc", {}, ["missing.pyc"], "", 2),
    ("directory", {"d/x.py": b""}, ["d"], "", 2),
    ("no such module", {}, ["-m", "missing_module"], "", 2),
    ("no such submodule", {"k/__init__.py": b""}, ["-m", "k.missing"], "", 2),
    ("package without main", {"k/__init__.py": b""}, ["-m", "k"], "", 2),
    ("built-in module", {}, ["-m", "sys"], "", 2),
    ("empty pyc", {"p.pyc": b""}, ["p.pyc"], "", 2),
    ("no pyc", {"p.pyc": b"print(1)"}, ["p.pyc"], "", 2),
    ("nothing to run", {}, [], "", 4),
    ("file and command", {"p.py": b"print(1)"}, ["-c", "print(2)", "p.py"], "", 4),
]


def run_scenarios(c):
    for name, files, args, stdin, code in SCENARIOS:
        item = "cli:scenario " + name
        if c.only and c.only != item:
            continue
        c.at(item)
        with scratch() as d, scratch() as e:
            for path, data in files.items():
                put(d, path, data)
            x = start([XPYTHON] + args, d, stdin)
            ref = None
            if code is None:
                shutil.copytree(d, e, dirs_exist_ok=True)
                shutil.rmtree(os.path.join(e, "__pycache__"), ignore_errors=True)
                ref = start([sys.executable] + args, d, stdin)
        diff = None
        if x is None:
            diff = "no answer within 60 s"
        elif ref is not None:
            if x[1] != ref[1]:
                diff = "stdout: expected %r, observed %r; stderr %r" % (ref[1][-300:], x[1][-300:], x[2][-300:])
            elif x[0] != ref[0]:
                diff = "exit code: expected %r, observed %r; stderr %r" % (ref[0], x[0], x[2][-300:])
            elif ref[0] == 0 and x[2] != ref[2]:
                diff = "stderr: expected %r, observed %r" % (ref[2][-300:], x[2][-300:])
            elif ref[2] and not x[2]:
                diff = "stderr: expected %r, observed nothing" % ref[2][-300:]
        elif x[0] != code:
            diff = "exit code: expected %r, observed %r; stderr %r" % (code, x[0], x[2][-300:])
        elif not (x[1] + x[2]).strip() or "Traceback" in x[1] + x[2]:
            diff = "message: observed %r" % (x[1] + x[2])[-300:]
        c.observed((name, x and x[:2]), 1 + (x[1].count("\n") if x else 0))
        c.count("scenarios")
        if diff:
            c.fail(item, diff, {k.replace("/", "_"): v.decode("latin1") for k, v in files.items()}, {"only": item})


def run(c):
    warnings.simplefilter("ignore")
    if c.target == H.NATIVE and c.shard == 0:
        run_scenarios(c)
    work = [("cli", i) for i in range(NUMBER["cli"] * (3 if c.target == H.NATIVE else 1) * FACTOR[c.tier])]
    work += [("api", i) for i in range(NUMBER["api"] * FACTOR[c.tier])]
    for j, (what, i) in enumerate(work):
        if j % c.shards != c.shard or c.full:
            continue
        item = "%s:%d:%d@%s" % (what, c.seed, i, c.target)
        if c.only and c.only != item:
            continue
        c.at(item)
        (run_cli if what == "cli" else run_api)(c, i, item)
