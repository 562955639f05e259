"""python -m lib.matrix [-p C01,C02] [targets...]: which probe passes on which target."""
import collections
import subprocess
import sys
import json
from concurrent.futures import ThreadPoolExecutor

from . import harness as H
from . import probes

ALL = [p for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C19 C21".split()]


def one(target, props):
    out = {}
    for c in props:
        for p in probes.load(c):
            if p.applies(target):
                try:
                    out[c + "/" + p.name] = probes.run_probe(p, target)
                except BaseException as e:
                    out[c + "/" + p.name] = ("harness", repr(e)[:300])
    return out


def main():
    args = sys.argv[1:]
    props = ALL
    if args[:1] == ["-p"]:
        props = args[1].split(",")
        args = args[2:]
    if args[:1] == ["-1"]:
        res = one(args[1], props)
        json.dump(res, sys.__stdout__)
        return
    targets = args or list(H.TARGETS)

    def job(t):
        r = subprocess.run([sys.executable, "-m", "lib.matrix", "-p", ",".join(props), "-1", t],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            return t, json.loads(r.stdout)
        except Exception:
            return t, {"CRASH": ("harness", r.stderr[-500:])}

    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(job, targets))
    fails = collections.OrderedDict()
    for t in targets:
        c = collections.Counter(s for s, _ in res[t].values())
        print("%-8s %s" % (t, dict(c)))
        for k, (s, d) in res[t].items():
            if s not in ("ok", "unsupported"):
                fails.setdefault(k, []).append((t, d))
    json.dump(res, open("/tmp/w/matrix.json", "w"), indent=1)
    for k in sorted(fails):
        ts = [t for t, _ in fails[k]]
        print("%-32s %-3d %s" % (k, len(ts), " ".join(ts)))


if __name__ == "__main__":
    main()
