"""Recording of trace streams with chosen behaviour of the callback, and what the stream of one behaviour says
about the stream of another."""
import zlib

from xpython import vmtrace as V

BITS = {"instruction": V.PyVMEVENT_INSTRUCTION, "line": V.PyVMEVENT_LINE, "call": V.PyVMEVENT_CALL,
        "return": V.PyVMEVENT_RETURN, "exception": V.PyVMEVENT_EXCEPTION, "yield": V.PyVMEVENT_YIELD}
ALL, STEP_OVER, NONE = V.PyVMEVENT_ALL, V.PyVMEVENT_STEP_OVER, V.PyVMEVENT_NONE
LINEBITS = V.PyVMEVENT_LINE | V.PyVMEVENT_INSTRUCTION


def chance(seed, *what):
    """A number from 0 to 999 which depends on what happens only."""
    return zlib.crc32(repr((seed,) + what).encode()) % 1000


class Recorder(object):
    """Callback which records events and answers as `policy(event, code name, offset)` says."""

    def __init__(self, policy=None, inspect=False):
        self.ev = []
        self.policy = policy
        self.inspect = inspect
        self.n = 0

    def other(self, *args):
        """Given as an answer; must not take the callback's place."""
        self.ev.append(("called", "another callable", args[0]))
        return self

    def go(self):
        """An answer that changes nothing."""
        self.n += 1
        return (self, True, self.other, self, 1)[self.n % 5]

    def __call__(self, event, offset, name, op, line, int_arg, arg, vm):
        fr = vm.frame
        code = fr.f_code.co_name if fr is not None else None
        if event == "return":
            self.ev.append((event, "", code))
        elif event == "exception":
            self.ev.append((event, getattr(arg[0], "__name__", "?"), code))
        elif event in ("call", "yield"):
            self.ev.append((event, code, -1))
        else:
            self.ev.append((event, code, offset))
        if self.inspect and fr is not None:
            look(fr, vm)
        if self.policy is None:
            return self.go() if self.inspect else self
        a = self.policy(event, code, offset)
        if a == "over":
            fr.event_flags |= STEP_OVER
            return self
        if a == "into":
            fr.event_flags &= ~STEP_OVER
            return self
        return self.go() if a == "go" else a


def look(fr, vm):
    """What a debugger's user might have a look at."""
    fr.f_lineno
    fr.f_code.co_filename
    for k in list(fr.f_locals):
        type(k)
    fr.stack and type(fr.stack[-1])
    b = fr.f_back
    while b is not None:
        b.f_lineno
        b = b.f_back
    repr(fr.block_stack)


def expected(full, flags, policy=None):
    """The events a callback answering by `policy`, under `flags`, gets of a run whose full stream is `full`."""
    out = []
    st = []      # [flags, traced, over in effect]

    def answer(f, event, code, offset):
        if policy is None:
            return
        a = policy(event, code, offset)
        if a == "over":
            f[0] |= STEP_OVER
        elif a == "into":
            f[0] &= ~STEP_OVER
        elif a is None and event in ("line", "instruction"):
            f[0] = 0
        elif a == "finish":
            f[1] = False
            f[0] = BITS["return"] | BITS["yield"]

    for e in full:
        k = e[0]
        if k in ("call", "yield"):
            f = list(st[-1]) if st else [flags, True]
            if f[0] & STEP_OVER:
                f[0] = NONE
            st.append(f)
            if f[1] and f[0] & BITS[k]:
                out.append(e)
                answer(f, k, e[1], None)
        elif k in ("line", "instruction"):
            f = st[-1]
            if f[1] and f[0] & (LINEBITS if k == "line" else BITS[k]):
                out.append(e)
                answer(f, k, e[1], e[2])
        elif k == "return":
            f = st.pop()
            if f[0] & BITS[k]:
                out.append(e)
        elif k == "exception":
            f = st.pop()
            if f[0] & BITS[k]:
                out.append(e)
            elif f[0] & BITS["return"]:
                # A frame left by an exception returns, for who did not ask for exceptions.
                out.append(("return", "", e[2]))
    return out


def difference(want, got):
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return "stream: event %d should be %r after %r, is %r" % (i, a, want[max(0, i - 2):i], b)
    if len(want) != len(got):
        k = min(len(want), len(got))
        return "stream: %d events expected, %d seen; %r" % (len(want), len(got), (want + got)[-2:] if 0 else (want[k:k + 1] or got[k:k + 1]))
    return None
