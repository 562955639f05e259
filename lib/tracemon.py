"""Monitors over the event stream of PyVMTraced, and the reference stream from sys.monitoring."""
import bisect
import gc
import sys

from . import harness as H
from .disasm import Disasm, RETURNS, UNWINDERS, YIELDS, line_ranges, line_starts

EVENTS = {"call", "yield", "line", "instruction", "return", "exception", "breakpoint", "fatal"}
INLINED = {"<listcomp>", "<setcomp>", "<dictcomp>"}


def simple(v, depth=0):
    """A value both interpreters would show alike, else None's stand-in 'obj'."""
    t = type(v)
    if v is None or t in (int, str, bool, bytes, complex):
        return (t.__name__, v)
    if t is float:
        return ("float", repr(v))
    if t is tuple and depth < 3:
        return ("tuple", tuple(simple(x, depth + 1) for x in v))
    return "obj"


FRESH, RESUMED = "fresh", "resumed"


def code_key(code):
    return (code.co_name, code.co_firstlineno, code.co_code)


class Lines(object):
    def __init__(self, code, version):
        self.starts = line_starts(code, version)
        ranges = line_ranges(code, version)
        # before 3.10 a statement that begins on the line of the one before has an entry, too
        self.again = {r[0] for r in ranges} if version < (3, 10) else ()
        self.begins = [r[0] for r in ranges]
        self.lines = [r[2] for r in ranges]

    def at(self, offset):
        k = bisect.bisect_right(self.begins, offset) - 1
        return self.lines[k] if k >= 0 else None


class Monitor(object):
    """Online checker of the event grammar: every instruction reported, in an order the code allows, frames
    properly nested, operands and lines as in the code."""

    def __init__(self, target, record_calls=True, record_ins=False):
        self.target = target
        self.bad = []
        self.stack = []           # [frame, Disasm, last Ins or None, fresh]
        self.suspended = {}       # id(frame) -> (frame, last Ins)
        self.counts = {}
        self.seen = set()         # distinct (code, from, to) steps
        self.calls = []           # ("enter", name) ("exit", name, value) ("raise", name, exc)
        self.record_ins = record_ins
        self.acts = []            # [code key, [offsets], how it ended]
        self.actstack = []
        self.dis = {}
        self.events = 0

    def fail(self, msg):
        if len(self.bad) < 6:
            self.bad.append(msg)

    def code(self, code):
        k = id(code)
        if k not in self.dis:
            version = H.TARGETS[self.target][0]
            self.dis[k] = (code, Disasm(code, self.target), Lines(code, version))
        return self.dis[k]

    def __call__(self, event, offset, name, op, line, int_arg, arg, vm):
        self.events += 1
        self.counts[event] = self.counts.get(event, 0) + 1
        if event not in EVENTS:
            self.fail("unknown event %r" % (event,))
            return self
        st = self.stack
        fr = vm.frame
        if event in ("call", "yield"):
            if fr is None:
                self.fail("%s without a frame" % event)
                return self
            if any(s[0] is fr for s in st):
                self.fail("%s of a frame that is running" % event)
            _, d, _ = self.code(fr.f_code)
            last = None
            if event == "call":
                at = st[-1][2] if st else None
                if st and at is None:
                    pass
                elif offset != (at.offset if at else -1):
                    self.fail("call of %s at %r, the caller is at %r" % (fr.f_code.co_name, offset, at))
            else:
                if offset != fr.f_lasti:
                    self.fail("yield of %s at %r, the generator was left at %r" % (fr.f_code.co_name, offset, fr.f_lasti))
                if self.code(fr.f_code)[1].at.get(offset) is None and offset != -1:
                    self.fail("yield of %s at %r, where no instruction is" % (fr.f_code.co_name, offset))
            if id(fr) in self.suspended:
                last = self.suspended.pop(id(fr))[1]
                if event == "call":
                    self.fail("call event for a generator being resumed")
            st.append([fr, d, last, FRESH if last is None else RESUMED])
            if fr.f_code.co_filename == "prog.py":
                self.calls.append(("enter", fr.f_code.co_name))
                act = [code_key(fr.f_code), [], None]
                self.acts.append(act)
                self.actstack.append(act)
            return self
        if event in ("line", "instruction"):
            if not st or st[-1][0] is not fr:
                self.fail("%s event at %s of a frame that was not entered last" % (event, offset))
                return self
            top = st[-1]
            code, d, starts = self.code(fr.f_code)
            x = d.at.get(offset)
            if name == "CACHE":
                return self
            if x is None:
                self.fail("%s: no instruction starts at %r in %s" % (event, offset, code.co_name))
                return self
            if (x.name, x.op) != (name, op):
                self.fail("%s at %d is %s (%d), reported as %s (%s)" % (code.co_name, offset, x.name, x.op, name, op))
            if (event == "line") != (line is not None):
                self.fail("%s event at %d with line %r" % (event, offset, line))
            if line != starts.starts.get(x.first) and not (line is not None and x.first in starts.again
                                                           and line == starts.at(x.first)):
                self.fail("%s at %d: line %r reported, code says %r" % (code.co_name, offset, line, starts.starts.get(x.first)))
            real = starts.at(x.first)
            if real is not None and fr.f_lineno != real:
                self.fail("%s at %d: f_lineno is %r, code says %r" % (code.co_name, offset, fr.f_lineno, real))
            if (int_arg is None) != (x.raw is None):
                self.fail("%s at %d: operand %r reported, code has %r" % (x.name, offset, int_arg, x.raw))
            want = d.operands(x, code)
            if x.target is None and not (isinstance(arg, list) and len(arg) == len(want) and
                                         all(a is w or (type(a) is type(w) and a == w) or
                                             (type(w).__name__ == "UnicodeForPython3" and str(w) == a)
                                             for a, w in zip(arg, want))):
                self.fail("%s(%r) at %d stands for %r, reported as %r" % (x.name, x.raw, offset, want, arg))
            if x.target is None and x.raw is not None and int_arg != x.raw:
                self.fail("%s(%r) at %d: operand %r reported" % (x.name, x.raw, offset, int_arg))
            if x.target is not None and not (isinstance(arg, list) and arg[:1] == [x.target]):
                # 3.12's FOR_ITER and SEND: the VM goes to the instruction after END_FOR
                y = d.at.get(d.real.get(x.target, x.target))
                if not (y is not None and x.name in ("FOR_ITER", "SEND") and isinstance(arg, list) and arg
                        and arg[0] in (x.target, y.next)):
                    self.fail("%s at %d goes to %r, reported as %r" % (x.name, offset, x.target, arg))
            last, resumed = top[2], top[3] is RESUMED
            if last is None:
                if top[3] is FRESH:
                    if offset != d.real.get(0, 0):
                        self.fail("%s starts at %d" % (code.co_name, offset))
            elif resumed and offset == last.offset:
                # an exception is thrown in: that is what happens at the yield
                self.seen.add((code.co_name, len(code.co_code), -2, offset))
                top[2], top[3] = x, None
                return self
            elif offset not in d.successors(last):
                self.fail("%s: %r then %r" % (code.co_name, last, x))
            self.seen.add((code.co_name, len(code.co_code), last.offset if last else -1, offset))
            top[2], top[3] = x, None
            if self.record_ins and fr.f_code.co_filename == "prog.py" and self.actstack:
                self.actstack[-1][1].append(offset)
            return self
        if event == "breakpoint" or event == "fatal":
            return self
        # leaving a frame: "exception" comes before it is left, "return" after
        if not st:
            self.fail("%s without a frame" % event)
            return self
        fr0, d, last, _ = st.pop()
        if event == "exception":
            if fr is not fr0:
                self.fail("exception event while another frame is current")
            tp = arg[0] if isinstance(arg, tuple) and len(arg) == 3 else None
            if tp is None or not isinstance(tp, type) or not issubclass(tp, BaseException):
                self.fail("exception event with %r" % (arg,))
            if fr0.f_code.co_filename == "prog.py":
                self.calls.append(("raise", fr0.f_code.co_name, getattr(tp, "__name__", "?")))
                self.actstack and self.actstack.pop().__setitem__(2, getattr(tp, "__name__", "?"))
        else:
            if fr is fr0:
                self.fail("return event while the frame is still current")
            if st and fr is not st[-1][0]:
                self.fail("return event, but the frame below is not current")
            if last is not None and last.name in YIELDS:
                self.suspended[id(fr0)] = (fr0, last)
            elif last is not None and last.name not in RETURNS and last.name not in UNWINDERS:
                self.fail("%s returned after %r" % (fr0.f_code.co_name, last))
            if last is not None and last.name not in UNWINDERS and (name, op) != (last.name, last.op):
                self.fail("return event names %s, last instruction was %s" % (name, last.name))
            if fr0.f_code.co_filename == "prog.py":
                self.calls.append(("exit", fr0.f_code.co_name, simple(arg)))
                self.actstack and self.actstack.pop().__setitem__(2, "exit")
        return self

    def finish(self):
        if self.stack:
            self.fail("%d frames entered and never left, the last %s" % (len(self.stack), self.stack[-1][0].f_code.co_name))


def compare_calls(ref, mine):
    """The calls, returned values and exceptions of both streams must be the same, in the same order.  Left out:
    comprehensions (inlined in 3.12) and generators closed when they are freed, which happens at other times."""
    a, b = clean(ref), clean(mine)
    for i, (p, q) in enumerate(zip(a, b)):
        if p[0] == q[0] == "raise" and p[1] == q[1] and (p[2], q[2]) == ("RuntimeError", "StopIteration"):
            # before 3.12 the conversion of PEP 479 happens when the generator's frame has been left
            continue
        if p != q and not (p[0] == q[0] == "exit" and p[1] == q[1] and "obj" in (p[2], q[2])):
            return "call stream at %d: CPython %r, VM %r" % (i, a[max(0, i - 1):i + 2], b[max(0, i - 1):i + 2])
    if len(a) != len(b):
        k = min(len(a), len(b))
        return "call stream: CPython %d, VM %d events: %r %r" % (len(a), len(b), a[k:k + 2], b[k:k + 2])
    return None


QUIET = {"RESUME", "END_FOR", "CACHE", "NOP", "RETURN_GENERATOR"}


def compare_instructions(ref, mine, monitor):
    """3.12: the very instructions CPython executed, activation by activation.  Left out: RESUME and the others
    which do nothing, what comes before RESUME (in a generator CPython runs that at another time), and generators
    closed when freed."""
    dis = {code_key(c): d for c, d, _ in monitor.dis.values()}

    def tidy(acts):
        out = []
        for key, offs, end in acts:
            d = dis.get(key)
            if d is None or end == "GeneratorExit" or end is None:
                continue
            start = next((i.offset for i in d.ins if i.name == "RESUME"), -1)
            offs = [o for o in offs if o > start and o in d.at and d.at[o].name not in QUIET]
            if offs:
                out.append((key[0], end, offs, d))
        return out

    a, b = tidy(ref), tidy(mine)
    n = 0
    for (an, ae, ao, d), (bn, be, bo, _) in zip(a, b):
        n += len(bo)
        if an != bn or ao != bo:
            k = next((i for i, (p, q) in enumerate(zip(ao, bo)) if p != q), min(len(ao), len(bo)))
            return n, "instructions of %s/%s: CPython %r, VM %r" % (
                an, bn, [d.at.get(o) for o in ao[max(0, k - 1):k + 3]], [d.at.get(o) for o in bo[max(0, k - 1):k + 3]])
    if len(a) != len(b):
        return n, "%d activations in CPython, %d in the VM" % (len(a), len(b))
    return n, None


def clean(calls):
    out = []
    for c in calls:
        if c[1] in INLINED:
            continue
        if c[0] == "raise" and out and out[-1] == ("enter", c[1]):
            # thrown into a generator that does nothing about it (or has not started: then it is not run at all)
            out.pop()
            continue
        out.append(c)
    return out


# ---------------------------------------------------------------- the reference stream
TOOL = 3


class Reference(object):
    """Context manager: what CPython's own monitoring reports for code compiled as prog.py."""

    def __init__(self, ins=False):
        self.calls, self.acts, self.actstack, self.want_ins = [], [], [], ins

    def __enter__(self):
        gc.collect()
        gc.disable()            # generators of earlier runs are not to be closed now
        m = sys.monitoring
        E = m.events
        m.use_tool_id(TOOL, "verif")

        def mine(code):
            return code.co_filename == "prog.py" and code.co_name not in INLINED

        def enter(code, off, *a):
            if mine(code):
                self.calls.append(("enter", code.co_name))
                act = [code_key(code), [], None]
                self.acts.append(act)
                self.actstack.append(act)

        def leave(code, off, val):
            if mine(code):
                self.calls.append(("exit", code.co_name, simple(val)))
                self.actstack and self.actstack.pop().__setitem__(2, "exit")

        def unwind(code, off, exc):
            if mine(code):
                self.calls.append(("raise", code.co_name, type(exc).__name__))
                self.actstack and self.actstack.pop().__setitem__(2, type(exc).__name__)

        def ins(code, off):
            if mine(code) and self.actstack:
                self.actstack[-1][1].append(off)

        cbs = {E.PY_START: enter, E.PY_RESUME: enter, E.PY_THROW: enter, E.PY_RETURN: leave, E.PY_YIELD: leave,
               E.PY_UNWIND: unwind}
        if self.want_ins:
            cbs[E.INSTRUCTION] = ins
        s = 0
        for e, f in cbs.items():
            m.register_callback(TOOL, e, f)
            s |= e
        m.set_events(TOOL, s)
        self.cbs = cbs
        return self

    def __exit__(self, *a):
        gc.enable()
        m = sys.monitoring
        m.set_events(TOOL, 0)
        for e in self.cbs:
            m.register_callback(TOOL, e, None)
        m.free_tool_id(TOOL)
