"""Component 'isolation': several machines, or several threads of one program, running at once.

  vms      programs of any releases, each in a machine of its own, interleaved; every one must do what it does alone
  threads  one program whose threads each run a generated program; every thread must log what CPython's thread logs
  shared   hand-written programs whose threads share generators, queues, locks, closures and modules

How they are interleaved: 'events' and 'steps' pass a baton from thread to thread, at random but repeatably, at each event
the programs log, or at each instruction (a PyVMTraced callback); 'free' lets the threads preempt each other every few
microseconds; 'nested' runs the second program to its end within an event of the first."""
import gc
import io
import random
import sys
import textwrap
import threading
import time
import warnings

from comps import gen_comp
from lib import harness as H
from lib import probes
from lib import py2ref
from lib.runner import digest
from xpython.vmtrace import PyVMEVENT_INSTRUCTION, PyVMEVENT_LINE, PyVMTraced

MODS = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c16"]
COUNT = {"quick": 14, "thorough": 250}
DEADLINE = 60


class Stdout(io.TextIOBase):
    """sys.stdout while programs run at once: each thread has its own."""

    def __init__(self):
        self.local = threading.local()

    def write(self, s):
        buf = getattr(self.local, "buf", None)
        if buf is not None:
            buf.append(s)
        return len(s)

    def __setattr__(self, k, v):          # softspace of Python 2
        object.__setattr__(self, k, v)


class Scheduler(object):
    """Runs tasks in threads.  With a baton, only its holder runs."""

    def __init__(self, seed, mode):
        self.r = random.Random(seed)
        self.baton = mode in ("events", "steps")
        self.p = {"events": 0.7, "steps": 0.12}.get(mode, 0)
        self.free = mode == "free"
        self.tasks = []
        self.local = threading.local()
        self.trail = []
        self.over = threading.Event()
        self.started = threading.Event()
        self.lock = threading.Lock()
        self.dead = False
        self.switches = 0

    def spawn(self, name, fn):
        t = {"name": name, "fn": fn, "sem": threading.Semaphore(0), "live": True, "log": []}
        t["thread"] = threading.Thread(target=self.body, args=(t,), name=name, daemon=True)
        with self.lock:
            self.tasks.append(t)
        t["thread"].start()
        return t

    def body(self, t):
        self.local.task = t
        sys.stdout.local.buf = t["out"] = []
        self.started.wait()
        if self.baton:
            t["sem"].acquire()
        try:
            if not self.dead:
                t["fn"]()
        except BaseException as e:     # the machine's own errors
            t["crash"] = "%s: %s" % (type(e).__name__, e)
        with self.lock:
            t["live"] = False
            live = [x for x in self.tasks if x["live"]]
            if not live:
                self.over.set()
        if self.baton and live:
            self.r.choice(live)["sem"].release()

    def run(self):
        self.started.set()
        if self.baton:
            self.tasks[0]["sem"].release()
        ok = self.over.wait(DEADLINE)
        self.dead = True
        return ok

    def task(self):
        return getattr(self.local, "task", None)

    def switch(self, p=None):
        t = self.task()
        if t is None or not self.baton or self.dead:
            return
        if self.r.random() >= (self.p if p is None else p):
            return
        live = [x for x in self.tasks if x["live"]]
        n = self.r.choice(live)
        if n is t:
            return
        self.switches += 1
        if len(self.trail) < 4000:
            self.trail.append(n["name"])
        n["sem"].release()
        t["sem"].acquire()

    def join(self):
        """In a program's main thread: until the others are finished."""
        me = self.task()
        while any(x["live"] for x in self.tasks if x is not me) and not self.dead:
            if self.baton:
                self.switch(1)
            else:
                time.sleep(0.001)


def machine(target, sched, mode):
    version, impl = H.TARGETS[target]
    if mode != "steps":
        return H.PyVM(version, impl)

    def callback(event, offset, name, code, line, arg, event_arg, vm):
        sched.switch()

    return PyVMTraced(callback, version, impl, event_flags=PyVMEVENT_INSTRUCTION | PyVMEVENT_LINE)


def execute(vm, code, env, o):
    """H.run_x() without what only the main thread can do."""
    try:
        vm.eval_frame(vm.make_frame(code, f_globals=env))
    except H.PyVMUncaughtException:
        o.exc = H.exc_desc(vm.last_exception[0], vm.last_exception[1], None)
    except SystemExit as e:
        o.exc = ["SystemExit", H.canon_args(e)]
    except H.LogFull:
        o.timeout = True
    except RecursionError:
        o.exc = ["RecursionError", None]
    except BaseException as e:
        o.exc = H.exc_desc(type(e), e, None)
        o.crash = "raised through: %r" % (e,)
    o.left = len(vm.frames)


def result(o, env, skip):
    return {"log": list(o.log), "exc": o.exc, "out": "".join(o.stdout), "globals": H.canon_globals(env, skip), "left": o.left}


def first_difference(want, got):
    for k in ("log", "exc", "out", "globals", "left"):
        if want[k] != got[k]:
            if k == "log":
                for i, (a, b) in enumerate(zip(want[k], got[k])):
                    if a != b:
                        return "event %d: alone %r, together %r" % (i, a, b)
                return "event count: alone %d, together %d" % (len(want[k]), len(got[k]))
            if k == "globals":
                d = [n for n in sorted(set(want[k]) | set(got[k])) if want[k].get(n) != got[k].get(n)]
                return "global %s: alone %r, together %r" % (d[0], want[k].get(d[0]), got[k].get(d[0]))
            return "%s: alone %r, together %r" % (k, want[k], got[k])
    return None


def run_vms(programs, mode, seed, nested_at=None):
    """[result] of programs [(target, code)] run at once, each in its own machine."""
    sched = Scheduler(seed, mode)
    old, sys.stdout = sys.stdout, Stdout()
    interval = sys.getswitchinterval()
    if mode == "free":
        sys.setswitchinterval(2e-6)
    outs = []
    try:
        def task(target, code, inner=None):
            version, impl = H.TARGETS[target]
            o = H.Outcome()
            raw = H.make_tracer(o.log)

            def T(*a):
                v = raw(*a)
                if inner is not None and len(o.log) == nested_at:
                    inner()
                sched.switch()
                return v

            env = H.base_env([], {"T": T}, builtins=H.builtins_for_vm(version))
            skip = set(env)
            vm = machine(target, sched, mode)
            holder = [o, env, skip]

            def body():
                keep = sys.stdout.local.buf if hasattr(sys.stdout.local, "buf") else None
                sys.stdout.local.buf = o.stdout = []
                execute(vm, code, env, o)
                sys.stdout.local.buf = keep
            return holder, body

        if mode == "nested":
            h2, b2 = task(*programs[1])
            h1, b1 = task(*programs[0], inner=b2)
            outs = [h1, h2]
            sched.spawn("p0", b1)
        else:
            for i, (target, code) in enumerate(programs):
                h, b = task(target, code)
                outs.append(h)
                sched.spawn("p%d" % i, b)
        ok = sched.run()
    finally:
        sys.stdout = old
        sys.setswitchinterval(interval)
    return ok, [result(*h) for h in outs], sched


def run_threads(target, code, native_code, mode, seed, is_ref):
    """{thread name: log} and the main thread's outcome of a program that starts threads."""
    version, impl = H.TARGETS[target]
    sched = Scheduler(seed, mode)
    old, sys.stdout = sys.stdout, Stdout()
    interval = sys.getswitchinterval()
    if mode == "free":
        sys.setswitchinterval(2e-6)
    o = H.Outcome()
    ends = {}
    try:
        def T(*a):
            t = sched.task()
            log = t["log"] if t else o.log
            if len(log) >= H.MAX_LOG:
                raise H.LogFull()
            if not (t and t.get("over")):
                log.append(tuple(H.canon(x) for x in a))
            sched.switch()
            if sched.free and not is_ref and len(log) % 5 == 0:
                time.sleep(0)
            return a[-1] if a else None

        def spawn(fn, *args):
            name = "t%d" % len(sched.tasks)

            def body():
                try:
                    v = fn(*args)
                    ends[name] = ("value", H.canon(v))
                except H.LogFull:
                    raise
                except BaseException as e:
                    ends[name] = ("exc", H.exc_desc(type(e), e, None)[0])
            sched.spawn(name, body)
            sched.switch()

        def over():
            sched.task()["over"] = True

        def join():
            sched.task()["over"] = False
            sched.join()

        extra = {"T": T, "OVER": over, "SPAWN": spawn, "JOIN": join, "threading": threading}
        if is_ref:
            env = H.ref_env([], version, extra, py2ref.make())
        else:
            env = H.base_env([], extra, builtins=H.builtins_for_vm(version))
            vm = machine(target, sched, mode)

        def main():
            if is_ref:
                try:
                    exec(native_code, env)
                except H.LogFull:
                    o.timeout = True
                except BaseException as e:
                    o.exc = H.exc_desc(type(e), e, None)
            else:
                execute(vm, code, env, o)
        sched.spawn("main", main)
        ok = sched.run()
    finally:
        sys.stdout = old
        sys.setswitchinterval(interval)
    logs = {t["name"]: t["log"] for t in sched.tasks}
    outs = {t["name"]: "".join(t.get("out", ())) for t in sched.tasks}
    crash = [t["name"] + " " + t["crash"] for t in sched.tasks if "crash" in t]
    full = o.timeout or any("LogFull" in c for c in crash)
    return ok, {"logs": logs, "ends": ends, "outs": outs, "main": o.exc and o.exc[0], "crash": crash, "left": o.left}, sched, full


def threads_difference(want, got):
    if got["crash"] != want["crash"]:
        return "crash: expected %r, observed %r" % (want["crash"], got["crash"])
    for n in sorted(set(want["logs"]) | set(got["logs"])):
        a, b = want["logs"].get(n), got["logs"].get(n)
        if a is None or b is None:
            return "threads: expected %r, observed %r" % (sorted(want["logs"]), sorted(got["logs"]))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "thread %s event %d: expected %r, observed %r" % (n, i, x, y)
        if len(a) != len(b):
            return "thread %s event count: expected %d, observed %d" % (n, len(a), len(b))
    for k in ("ends", "outs", "main", "left"):
        if want[k] != got[k]:
            return "%s: expected %r, observed %r" % (k, want[k], got[k])
    return None


def mentions(src, *words):
    return any(w in src for w in words)


def usable(src):
    return not mentions(src, "__del__", "globals()", "locals()", "vars()", "_getframe", "RecursionError")


def compose(r, seed, target, n):
    """A program that runs n generated ones in threads."""
    parts, names = [], []
    for i in range(n):
        for attempt in range(4):
            src = gen_comp.generate(r.choice(MODS), "%s/%d/%d" % (seed, i, attempt), target)
            # (when a generator that was dropped runs its finally blocks is not judged)
            if mentions(src, "yield") and mentions(src, "finally:", "except", "with "):
                continue
            if usable(src) and not mentions(src, "global ", "import *", "__future__", "__EXEC__", "exec(", "eval("):
                break
        else:
            continue
        # what finalizers log when the function is left is not judged
        parts.append("def work%d():\n    try:\n%s\n    finally: OVER()\n" % (i, textwrap.indent(src.rstrip("\n"), " " * 8)))
        names.append("work%d" % i)
    parts.append("".join("SPAWN(%s)\n" % x for x in names))
    if names and r.random() < 0.6:
        parts.append("try: %s()\nexcept Exception as _e: T(type(_e))\n" % names[0])
    parts.append("JOIN()\nT('joined')\n")
    return "".join(parts)


def run(c):
    warnings.simplefilter("ignore")
    threading.stack_size(256 << 20)
    threading.excepthook = lambda *a: None
    gc.disable()
    n = COUNT[c.tier]
    for i in range(n):
        for kind in ("vms", "threads"):
            item = "isolation:%s:%d:%d" % (kind, c.seed, i)
            if i % c.shards != c.shard or c.full or (c.only and c.only != item):
                continue
            c.at(item)
            gc.collect()
            (one_vms if kind == "vms" else one_threads)(c, item, i)
    rounds = 2 if c.quick else 25
    for p in probes.load("C17"):
        if not p.applies(c.target):
            continue
        for k in range(rounds):
            if k % c.shards != c.shard or c.full:
                continue
            for mode in ("free", "events", "steps"):
                item = "isolation:%s:%d:%d:%s" % (p.name, c.seed, k, mode)
                if c.only and c.only != item:
                    continue
                if "# blocking" in p.text and mode != "free":
                    continue
                c.at(item)
                gc.collect(1)
                judge_threads(c, item, p.source(c.target), p.source(None), mode, item)


def one_vms(c, item, i):
    r = random.Random("%s@%s" % (item, c.target))
    mode = ("events", "steps", "free", "nested")[i % 4]
    programs, sources = [], []
    for j in range(2 if mode == "nested" else r.choice((2, 3))):
        target = c.target if j == 0 else r.choice((c.target, r.choice(sorted(H.TARGETS))))
        src = gen_comp.generate(r.choice(MODS), "iso/%d/%d/%d" % (c.seed, i, j), target)
        if not usable(src):
            continue
        try:
            programs.append((target, H.compile_for(src, target)))
            sources.append("# release %s\n%s" % (target, src))
        except (H.Unsupported, SyntaxError) as e:
            c.skip(str(e)[:40])
    if len(programs) < 2:
        return c.skip("too few programs")
    alone = []
    for p in programs:
        two = [run_vms([p], "steps" if mode == "steps" else "alone", 0) for _ in range(2)]
        if not two[0][0] or two[0][1] != two[1][1] or not two[0][1][0]["log"]:
            return c.skip("not the same twice alone")
        alone.append(two[0][1][0])
    ok, got, sched = run_vms(programs, mode, item, nested_at=max(1, len(alone[0]["log"]) // 2))
    detail = None
    if not ok:
        detail = "no termination"
    else:
        for k, (a, b) in enumerate(zip(alone, got)):
            d = first_difference(a, b)
            if d:
                detail = "program %d of release %s, %s: %s" % (k, programs[k][0], mode, d)
                break
    n = sum(len(a["log"]) for a in alone)
    c.observed((mode, [s for s in sources], tuple(sched.trail)), n, sample="\n".join(sources)[:600])
    c.count("runs " + mode)
    c.count("switches", sched.switches)
    if detail:
        c.fail("%s@%s" % (item, c.target), detail, {"p%d.py" % k: s for k, s in enumerate(sources)}, {"only": item})


def one_threads(c, item, i):
    r = random.Random("%s@%s" % (item, c.target))
    mode = ("events", "steps", "free")[i % 3]
    src = compose(r, "isot/%d/%d" % (c.seed, i), c.target, r.choice((2, 2, 3)))
    judge_threads(c, item, src, src, mode, item)


def judge_threads(c, item, src, refsrc, mode, seed):
    try:
        code = H.compile_for(src, c.target)
        native = H.ref_compile(refsrc, H.TARGETS[c.target][0])
    except (H.Unsupported, SyntaxError) as e:
        return c.skip(str(e)[:40])
    refs = [run_threads(c.target, None, native, m, seed, True) for m in ("free" if "# blocking" in src else "events", "free")]
    if not all(x[0] for x in refs) or refs[0][3] or refs[0][1] != refs[1][1]:
        return c.skip("reference depends on the schedule")
    if mentions(repr(refs[0][1]), "RecursionError"):
        return c.skip("recursion limit")
    ok, got, sched, full = run_threads(c.target, code, None, mode, seed, False)
    detail = "no termination" if not ok else threads_difference(refs[0][1], got)
    n = sum(len(l) for l in got["logs"].values())
    c.observed((mode, src, tuple(sched.trail)), n, sample=src[:600])
    c.count("thread runs " + mode)
    c.count("switches", sched.switches)
    if detail:
        c.fail("%s@%s" % (item, c.target), mode + ": " + detail, {"prog.py": src}, {"only": item})
