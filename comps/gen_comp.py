"""Component 'gen': randomly generated programs of a property's grammar, judged like the probes."""
import importlib
import random
import warnings

from gen.base import G
from lib import harness as H
from lib import probes
from lib.runner import digest
from lib.shrink import shrink

FACTOR = {"quick": 1, "thorough": 25}


def generate(mod, seed, target, native=None):
    version, impl = H.TARGETS[target]
    g = G(seed, version, impl is H.PYPY, version >= (3, 11))
    importlib.import_module("gen." + mod).make(g)
    return g.source()


def kind(detail):
    return detail[:40] if detail.startswith("refused") else detail.split()[0]


def same_failure(detail, target):
    def fails(s):
        st, d, _ = probes.judge(s, s, target, timeout=5)
        return st == "fail" and kind(d) == kind(detail)
    return fails


def run(c):
    warnings.simplefilter("ignore")
    # "c03+hostile/80": programs of gen/c03.py (the usual number) and 80 of gen/hostile.py
    work = []
    for m in (c.arg or c.prop.lower()).split("+"):
        mod, _, n = m.partition("/")
        work += [(i, mod) for i in range(int(n or 120) * FACTOR[c.tier])]
    work.sort()
    for j, (i, mod) in enumerate(work):
        if j % c.shards != c.shard or c.full:
            continue
        item = "gen:%s:%d:%d" % (mod, c.seed, i)
        if c.only and c.only != item:
            continue
        c.at(item)
        # the same program text for every release that has the same features, so failures compare
        src = generate(mod, "%s/%d/%d" % (mod, c.seed, i), c.target)
        st, detail, events = probes.judge(src, src, c.target)
        if st == "unsupported":
            c.skip(detail[:60])
            continue
        c.observed((src, events) if events else None, events, sample=src[:600])
        if st == "fail":
            small = shrink(src, same_failure(detail, c.target))
            c.fail("gen:%s@%s" % (digest(src), c.target), detail, {"prog.py": src, "small.py": small}, {"only": item})
