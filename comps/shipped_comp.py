"""Component 'shipped': the bytecode files that come with x-python, made by the compilers of the releases themselves,
run untraced, and traced with every event checked.  What fails untraced is not this component's concern."""
import glob
import os
import shutil
import tempfile
import warnings

from lib import harness as H
from lib.tracemon import Monitor

DIRS = {"pypy3.5": "pypy35", "pypy3.6": "pypy36", "pypy3.7": "pypy37"}


def files(target):
    d = os.path.join(H.REPO, "test", "bytecode-" + DIRS.get(target, target))
    return sorted(glob.glob(os.path.join(d, "**", "*.pyc"), recursive=True))


def load(path, target):
    from xdis.load import load_module
    from xpython import execfile

    r = load_module(path)
    if tuple(r[0][:2]) != tuple(H.TARGETS[target][0]):
        return None
    execfile.restore_closure_variables(r[3])
    if hasattr(execfile, "restore_integers") and target != H.NATIVE and r[0] >= (3, 0):
        execfile.restore_integers(r[3])
    return r[3]


def judge(path, target):
    from xpython.vmtrace import PyVMTraced

    try:
        code = load(path, target)
    except Exception as e:
        return "unsupported", "xdis cannot read it: %s" % type(e).__name__, 0
    if code is None:
        return "unsupported", "other release", 0
    plain = H.run_x(code, target, timeout=20)
    if plain.timeout:
        return "unsupported", "time out untraced", 0
    m = Monitor(target)
    x = H.run_x(load(path, target), target, vm=PyVMTraced(m, *H.TARGETS[target]), timeout=100)
    if x.timeout:
        return "unsupported", "time out traced", 0
    if x.exc is None:
        m.finish()
    if m.bad:
        return "fail", "stream: " + m.bad[0], m.events
    for what, a, b in (("exception", plain.exc, x.exc), ("output", plain.stdout, x.stdout), ("refusals", plain.refusals, x.refusals)):
        if H.ADDRESS.sub("", repr(a)) != H.ADDRESS.sub("", repr(b)):
            return "fail", "%s: untraced %r, traced %r" % (what, a, b), m.events
    if plain.exc and target == "3.11":
        return "fail", "exception: expected none, observed %r" % (plain.exc,), m.events
    return "ok", "", m.events


def run(c):
    warnings.simplefilter("ignore")
    for k, path in enumerate(files(c.target)):
        name = os.path.relpath(path, os.path.join(H.REPO, "test"))
        item = "shipped:" + name
        if k % c.shards != c.shard or c.full or c.only and c.only != item:
            continue
        c.at(item)
        cwd, d = os.getcwd(), tempfile.mkdtemp(prefix="xpy-ship-")
        os.chdir(d)
        try:
            st, detail, events = judge(path, c.target)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        if st == "unsupported":
            c.skip(detail[:60])
            continue
        c.observed(name, events, sample=name)
        if st == "fail":
            c.fail(item, detail, {}, {"only": item})
