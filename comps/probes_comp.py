"""Component 'probes': hand-written single-feature programs, executed on the VM with bytecode of every
release, event log and final state compared with CPython's."""
from lib import harness as H
from lib import probes


def run(c):
    for p in probes.load(c.arg or c.prop):
        if not p.applies(c.target) or c.full:
            continue
        name = p.prop + "/" + p.name
        if c.only and c.only != name:
            continue
        key = "probe:%s@%s" % (name, c.target)
        c.at(name)
        st, detail, n = probes.run_probe_ex(p, c.target)
        if st == "unsupported":
            c.skip("probe")
            continue
        c.observed(name, n, sample=p.source(c.target)[:400])
        if st == "fail":
            c.fail(key, detail, {"prog.py": p.source(c.target)}, {"only": name})
