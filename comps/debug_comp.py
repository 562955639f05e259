"""Components 'transparent' and 'breakpoints': the same generated program under many behaviours of the tracing
callback, logging and breakpoints.  The program must do the same always, and the events delivered must be the ones
the behaviour selects from the full stream."""
import gc
import logging
import random
import warnings

from comps.gen_comp import FACTOR, generate
from comps.trace_comp import MODS
from lib import harness as H
from lib import py2ref
from lib import stream as S
from lib.disasm import Disasm
from lib.runner import digest
from lib.shrink import shrink


class Sink(logging.Handler):
    n = 0

    def emit(self, record):
        record.getMessage()
        Sink.n += 1


def traced(vmclass, cb, target, flags):
    return vmclass(cb, *H.TARGETS[target], event_flags=flags)


def run_vm(code, target, vm):
    gc.disable()
    H.FINALIZED[0] = 0
    try:
        x = H.run_x(code, target, vm=vm, timeout=20)
        if x.timeout and not x.crash:
            return None
        return x
    finally:
        gc.enable()


def same(ref, x):
    if x is None:
        return None
    if x.refusals:
        return "refused: " + x.refusals[0][:150].replace("\n", " ")
    return H.diff(ref, x)


class Slow(Exception):
    pass


def full_run(src, target):
    from xpython.vmtrace import PyVMTraced

    code = H.compile_for(src, target)
    ref = H.run_ref(src, target, ref_extra=py2ref.make(), timeout=10)
    if ref.timeout:
        raise Slow()
    rec = S.Recorder()
    x = run_vm(code, target, traced(PyVMTraced, rec, target, S.ALL))
    if x is None:
        raise Slow()
    return code, ref, x, list(rec.ev), H.FINALIZED[0]


def policies(rng):
    """(name, policy): answers depend on the place only"""
    s = rng.random()

    def none(event, code, offset):
        return None if event in ("line", "instruction") and S.chance(s, code, offset) < 60 else "go"

    def finish(event, code, offset):
        return "finish" if event in ("line", "instruction") and S.chance(s, code, offset) < 40 else "go"

    def over(event, code, offset):
        if event not in ("line", "instruction"):
            return "go"
        c = S.chance(s, code, offset)
        return "over" if c < 150 else "into" if c < 300 else "go"

    def mixed(event, code, offset):
        if event not in ("line", "instruction"):
            return "go"
        c = S.chance(s, code, offset)
        return "over" if c < 80 else "into" if c < 160 else None if c < 185 else "go"

    return [("None", none), ("step over", over), ("mixed", mixed), ("finish", finish)]


def judge_transparent(src, target, seed, count=None):
    from xpython.vm import PyVM
    from xpython.vmtrace import PyVMTraced

    try:
        code, ref, x, full, finalized = full_run(src, target)
    except (H.Unsupported, SyntaxError) as e:
        return "unsupported", str(e), 0
    except Slow:
        return "unsupported", "time out", 0
    n = len(full)
    d = same(ref, x)
    if d:
        return "fail", "all events: " + d, n
    rng = random.Random(seed)
    xpl = logging.getLogger("xpython")
    root = logging.getLogger()
    runs = [("flags", f, None, None) for f in
            [sum(b for b in S.BITS.values() if rng.random() < .5) for _ in range(2)] + [S.BITS["line"], 0]]
    runs += [("answers " + nm, S.ALL, p, None) for nm, p in rng.sample(policies(rng), 2)]
    runs += [("log", None, None, logging.DEBUG if rng.random() < .5 else logging.INFO), ("inspect", S.ALL, None, None)]
    if rng.random() < .3:
        runs.append(("log", S.ALL, None, logging.DEBUG))
    for what, flags, policy, level in runs:
        h = None
        if level is not None:
            h = Sink()
            root.addHandler(h)
            saved = root.level
            root.setLevel(level)
        try:
            if flags is None:
                rec = None
                x = run_vm(code, target, PyVM(*H.TARGETS[target]))
            else:
                rec = S.Recorder(policy, what == "inspect")
                x = run_vm(code, target, traced(PyVMTraced, rec, target, flags))
        finally:
            if h is not None:
                root.setLevel(saved)
                root.removeHandler(h)
        if x is None:
            continue
        label = "%s %r: " % (what, flags)
        d = same(ref, x)
        if d:
            return "fail", label + d, n
        if rec is not None:
            n += len(rec.ev)
            if count:
                count("runs: " + what)
                count("events delivered: " + what, len(rec.ev))
            if what == "answers finish":
                # what returns from frames called by a finishing one is reported is left open
                want = [e for e in S.expected(full, flags, policy) if e[0] != "return"]
                got = [e for e in rec.ev if e[0] != "return"]
            else:
                want, got = S.expected(full, flags, policy), rec.ev
            if finalized or H.FINALIZED[0]:
                if count:
                    count("streams with generators that are dropped")
                continue
            d = S.difference(want, got)
            if d:
                return "fail", label + d, n
        elif count:
            count("runs: " + what)
    return "ok", "", n


def plan(code, seed, target, cache):
    """The instruction offsets that get a breakpoint in activations of this code object."""
    k = id(code)
    if k not in cache:
        d = Disasm(code, target)
        dense = S.chance(seed, code.co_name, code.co_firstlineno) % 4
        offs, real = [], {}
        for x in d.ins:
            if x.name not in ("CACHE", "YIELD_FROM") and S.chance(seed, code.co_name, x.first) < (30, 120, 400, 1000)[dense]:
                # at the instruction or at EXTENDED_ARG before it
                o = x.first if S.chance(seed, "first", x.first) < 500 else x.offset
                offs.append(o)
                real[o] = x.offset
        cache[k] = (code, offs, real)
    return cache[k]


class Breaker(object):
    def __init__(self, seed, target):
        self.seed, self.target = seed, target
        self.hits, self.cache, self.seen = [], {}, {}
        self.set = 0
        self.bad = None

    def __call__(self, event, offset, name, op, line, int_arg, arg, vm):
        fr = vm.frame
        if event in ("call", "yield"):
            if id(fr) not in self.seen:
                code, offs, _ = plan(fr.f_code, self.seed, self.target, self.cache)
                self.seen[id(fr)] = fr, code, {}
                for o in offs:
                    vm.add_breakpoint(fr, o)
                    self.set += 1
                    if S.chance(self.seed, "twice", o) < 200:
                        vm.add_breakpoint(fr, o)
        elif event == "breakpoint":
            if id(fr) not in self.seen:
                self.bad = "breakpoint in a frame that has none"
                return self
            _, code, hits = self.seen[id(fr)]
            self.hits.append((code.co_name, offset))
            hits[offset] = hits.get(offset, 0) + 1
            if hits[offset] == limit(self.seed, code.co_name, offset):
                vm.remove_breakpoint(fr, offset)
        return self


def limit(seed, name, offset):
    c = S.chance(seed, "remove", name, offset)
    return 1 + c % 3 if c < 300 else -1


class Places(object):
    """Full stream with the activation of every instruction."""

    def __init__(self, seed, target):
        self.seed, self.target, self.cache = seed, target, {}
        self.seen, self.hits, self.n = {}, [], 0
        self.resumed, self.last = None, {}

    def __call__(self, event, offset, name, op, line, int_arg, arg, vm):
        self.n += 1
        if event == "yield":
            self.resumed = id(vm.frame)
        if event in ("line", "instruction") and name != "CACHE":
            fr = vm.frame
            again, self.resumed = self.resumed == id(fr), None
            if again and self.last.get(id(fr)) == offset:
                # throw() into a suspended generator shows where it is suspended, which is not executed again.
                return self
            self.last[id(fr)] = offset
            code, offs, real = plan(fr.f_code, self.seed, self.target, self.cache)
            if id(fr) not in self.seen:
                self.seen[id(fr)] = fr, {}, {real[o]: o for o in offs}
            _, hits, places = self.seen[id(fr)]
            o = places.get(offset)
            if o is not None:
                lim = limit(self.seed, code.co_name, o)
                if lim < 0 or hits.get(o, 0) < lim:
                    hits[o] = hits.get(o, 0) + 1
                    self.hits.append((code.co_name, o))
        return self


def judge_breakpoints(src, target, seed, count=None):
    from xpython.vmtrace import PyVMTraced

    try:
        code = H.compile_for(src, target)
        ref = H.run_ref(src, target, ref_extra=py2ref.make(), timeout=10)
        if ref.timeout:
            raise Slow()
        pl = Places(seed, target)
        x = run_vm(code, target, traced(PyVMTraced, pl, target, S.ALL))
        if x is None:
            raise Slow()
    except (H.Unsupported, SyntaxError) as e:
        return "unsupported", str(e), 0
    except Slow:
        return "unsupported", "time out", 0
    d = same(ref, x)
    if d:
        return "fail", "without breakpoints: " + d, pl.n
    br = Breaker(seed, target)
    x = run_vm(code, target, traced(PyVMTraced, br, target, S.BITS["call"] | S.BITS["yield"]))
    if x is None:
        return "unsupported", "time out", 0
    d = same(ref, x)
    if d:
        return "fail", "with breakpoints: " + d, pl.n
    if br.bad:
        return "fail", br.bad, pl.n
    if count:
        count("breakpoints set", br.set)
        count("breakpoints hit", len(br.hits))
    for i, (a, b) in enumerate(zip(pl.hits, br.hits)):
        if a != b:
            return "fail", "hits: hit %d should be at %r, was at %r" % (i, a, b), pl.n
    if len(pl.hits) != len(br.hits):
        return "fail", "hits: %d expected, %d seen" % (len(pl.hits), len(br.hits)), pl.n
    return "ok", "", pl.n + len(br.hits)


JUDGES = {"transparent": (judge_transparent, 55), "breakpoints": (judge_breakpoints, 88)}


def run(c):
    warnings.simplefilter("ignore")
    H.watch_finalizers()
    judge, number = JUDGES[c.comp]
    for i in range(number * FACTOR[c.tier]):
        if i % c.shards != c.shard or c.full:
            continue
        mod = MODS[i % len(MODS)]
        item = "%s:%s:%d:%d" % (c.comp, mod, c.seed, i)
        if c.only and c.only != item:
            continue
        c.at(item)
        src = generate(mod, "%s/%d/d%d" % (mod, c.seed, i), c.target)
        st, detail, n = judge(src, c.target, c.seed * 1000 + i, c.count)
        if st == "unsupported":
            c.skip(detail[:60])
            continue
        c.observed((src, i), n, sample=src[:600])
        if st == "fail":
            kind = detail.split()[0]

            def fails(s):
                st, d, _ = judge(s, c.target, c.seed * 1000 + i)
                return st == "fail" and d.split()[0] == kind
            small = shrink(src, fails)
            c.fail("%s:%s@%s" % (c.comp, digest(src), c.target), detail, {"prog.py": src, "small.py": small},
                   {"only": item})
