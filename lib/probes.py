"""Small programs, one language feature each: probes/<property>.txt"""
import os
import re

from . import harness as H

DIR = os.path.join(H.HERE, "probes")


def _ver(s):
    return tuple(int(x) for x in s.split(".")) if s else None


class Probe(object):
    def __init__(self, prop, name, lo, hi, text):
        self.prop, self.name, self.lo, self.hi = prop, name, lo, hi
        self.text = text

    def applies(self, target):
        v = H.TARGETS[target][0]
        return (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)

    def source(self, target=None):
        out = []
        lines = self.text.split("\n")
        i = 0
        while i < len(lines):
            m = re.match(r"@@REPEAT (\d+)", lines[i])
            if m:
                i += 1
                for k in range(int(m.group(1))):
                    out.append(lines[i].replace("@N@", str(k)))
            else:
                out.append(lines[i])
            i += 1
        v = H.TARGETS[target][0] if target else (3, 12)
        return "\n".join(out).replace("__VER__", repr(v)) + "\n"


def load(prop):
    res = []
    path = os.path.join(DIR, prop + ".txt")
    if not os.path.exists(path):
        return res
    for chunk in re.split(r"^### ", open(path).read(), flags=re.M)[1:]:
        head, _, body = chunk.partition("\n")
        parts = head.split()
        lo = hi = None
        if len(parts) > 1:
            m = re.match(r"^([\d.]*)-([\d.]*)$", parts[1])
            lo, hi = _ver(m.group(1)), _ver(m.group(2))
        res.append(Probe(prop, parts[0], lo, hi, body.rstrip("\n")))
    return res


def run_probe(p, target, timeout=10):
    return run_probe_ex(p, target, timeout)[:2]


def judge(src, refsrc, target, timeout=10, check_globals=True, filename="prog.py", opt=None, runner=None):
    """(status, detail, events): compile src for the target, run it on the VM, compare with CPython running
    refsrc.  status is ok, fail, or unsupported (our front end cannot build it for that release)."""
    from . import py2ref

    try:
        code = H.compile_for(src, target, opt, filename)
    except H.Unsupported as e:
        return "unsupported", str(e), 0
    except SyntaxError as e:            # the generators do not mind CPython's limits
        return "unsupported", str(e.msg), 0
    ref = H.run_ref(refsrc, target, ref_extra=py2ref.make(), timeout=timeout)
    if ref.timeout:
        return "unsupported", "reference time out", 0
    x = H.run_x(code, target, timeout=timeout, runner=runner)
    if x.timeout and not x.crash:
        x = H.run_x(code, target, timeout=timeout * 4, runner=runner)   # a busy machine is not a verdict
    n = len(x.log) + len(x.stdout.splitlines()) + len(x.globals or ())
    if x.refusals:
        return "fail", "refused: " + x.refusals[0][:150].replace("\n", " "), n
    d = H.diff(ref, x, check_globals=check_globals)
    if d:
        return "fail", d, n
    if x.exc is None and x.left:
        return "fail", "%d frames left" % x.left, n
    return "ok", "", n


def run_probe_ex(p, target, timeout=10):
    return judge(p.source(target), p.source(None), target, timeout,
                 check_globals=not p.name.startswith("import"))
