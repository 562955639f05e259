"""Component 'trace': generated programs run under PyVMTraced; the event stream is checked online against the
event grammar and the code, and afterwards against what CPython's own monitoring reports."""
import gc
import random
import warnings

from comps.gen_comp import FACTOR, generate
from lib import harness as H
from lib import py2ref
from lib.layout import spread
from lib.runner import digest
from lib.shrink import shrink
from lib.tracemon import Monitor, Reference, compare_calls, compare_instructions

MODS = ("c03", "c01", "c06", "hostile", "c05", "c04", "c07", "c08", "c09", "c02", "c21")
NUMBER = 110


def trace(src, target, timeout=20):
    """(status, detail, monitor)"""
    from xpython.vmtrace import PyVMTraced

    try:
        code = H.compile_for(src, target)
    except H.Unsupported as e:
        return "unsupported", str(e), None
    except SyntaxError as e:
        return "unsupported", str(e.msg), None
    native = target == H.NATIVE
    with Reference(ins=native) as r:
        ref = H.run_ref(src, target, ref_extra=py2ref.make(), timeout=timeout)
    if ref.timeout:
        return "unsupported", "reference time out", None
    for limit in (timeout, timeout * 4):
        m = Monitor(target, record_ins=native)
        gc.disable()
        try:
            x = H.run_x(code, target, vm=PyVMTraced(m, *H.TARGETS[target]), timeout=limit)
        finally:
            gc.enable()
        if not x.timeout or x.crash:
            break
    if x.refusals:
        return "fail", "refused: " + x.refusals[0][:150].replace("\n", " "), m
    if x.exc is None and not x.timeout:
        m.finish()
    if m.bad:
        return "fail", "stream: " + m.bad[0], m
    d = H.diff(ref, x)
    if d:
        return "fail", d, m
    if not m.events:
        return "fail", "stream: no events", m
    return "ok", (r, m, x), m


def judge(src, mod, target):
    st, d, m = trace(src, target)
    if st != "ok":
        return st, d, m
    r, m, x = d
    # below 3.9 the order in which * and ** operands are taken differs from today's; print is a statement in 2.x
    if mod not in ("c04", "c09", "c10") or H.TARGETS[target][0] >= (3, 9):
        mine = m.calls
        if H.TARGETS[target][0] < (2, 5):
            mine = [(c[0], "<module>") + c[2:] if c[1] == "?" else c for c in mine]
        d = compare_calls(r.calls, mine)
        if d:
            return "fail", d, m
    if target == H.NATIVE:
        n, d = compare_instructions(r.acts, m.acts, m)
        m.compared = n
        if d:
            return "fail", d, m
    return "ok", "", m


def run(c):
    warnings.simplefilter("ignore")
    mods = (c.arg or "+".join(MODS)).split("+")
    for i in range(NUMBER * FACTOR[c.tier]):
        if i % c.shards != c.shard or c.full:
            continue
        mod = mods[i % len(mods)]
        item = "trace:%s:%d:%d" % (mod, c.seed, i)
        if c.only and c.only != item:
            continue
        c.at(item)
        src = generate(mod, "%s/%d/t%d" % (mod, c.seed, i), c.target)
        if i % 3 == 0:
            src = spread(src, random.Random(i))
        st, detail, m = judge(src, mod, c.target)
        if st == "unsupported":
            c.skip(detail[:60])
            continue
        c.observed((src, len(m.seen)), m.events, sample=src[:600])
        for k, n in m.counts.items():
            c.count("events: " + k, n)
        c.count("distinct steps (code, from, to)", len(m.seen))
        c.count("calls and returns compared with CPython", len(m.calls))
        c.count("instructions compared with CPython", getattr(m, "compared", 0))
        if st == "fail":
            kind = detail.split()[0]

            def fails(s):
                st, d, _ = judge(s, mod, c.target)
                return st == "fail" and d.split()[0] == kind
            small = shrink(src, fails)
            c.fail("trace:%s@%s" % (digest(src), c.target), detail, {"prog.py": src, "small.py": small},
                   {"only": item})
