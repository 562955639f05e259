"""check.py's engine: fans the components of a property out over worker processes, collects what the
monitors saw, writes the evidence, and reports violations."""
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
WORKER_LIMIT = {"quick": 420, "thorough": 3000}
MAX_FAIL = 4          # per task; the first ones are enough to report


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p.encode("utf8", "surrogatepass") if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()[:12]


class Ctx(object):
    """What a component gets, and where it puts what it observed."""

    def __init__(self, prop, comp, target, seed, tier, shard=0, shards=1, only=None, arg=None):
        self.prop, self.comp, self.target = prop, comp, target
        self.seed, self.tier = seed, tier
        self.shard, self.shards = shard, shards
        self.only = only
        self.arg = arg
        self.evaluations = 0
        self.events = 0
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.skipped = {}
        self.progress = None
        self.t0 = time.time()

    @property
    def quick(self):
        return self.tier != "thorough"

    def at(self, item):
        if self.progress:
            with open(self.progress, "w") as f:
                f.write(item)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def observed(self, signature, events=1, sample=None):
        """One execution judged.  signature: what makes it distinct, or None if it was trivial."""
        self.evaluations += 1
        self.events += events
        if signature is not None:
            self.distinct.add(digest(repr(signature)))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample[:700] if isinstance(sample, str) else sample)

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def fail(self, key, detail, files=None, info=None):
        self.failures.append({"key": key, "detail": detail[:1500], "files": files or {}, "info": info or {}})

    @property
    def full(self):
        return len(self.failures) >= MAX_FAIL or time.time() - self.t0 > self.budget

    budget = 1e9

    def dump(self):
        return {"evaluations": self.evaluations, "events": self.events, "counts": self.counts,
                "distinct": sorted(self.distinct), "samples": self.samples, "failures": self.failures,
                "skipped": self.skipped, "wall": time.time() - self.t0}


def worker(argv):
    """Runs one task in this process."""
    task = json.loads(argv[0])
    out_path = argv[1]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    sys.path.insert(0, HERE)
    from lib import props

    c = Ctx(task["prop"], task["comp"], task["target"], task["seed"], task["tier"],
            task.get("shard", 0), task.get("shards", 1), task.get("only"), task.get("arg"))
    c.progress = out_path + ".at"
    c.budget = WORKER_LIMIT[task["tier"]] * 0.6
    fn = props.component(task["comp"])
    err = None
    try:
        fn(c)
    except Exception:
        err = traceback.format_exc()
    d = c.dump()
    d["error"] = err
    with open(out_path + ".tmp", "w") as f:
        json.dump(d, f)
    os.rename(out_path + ".tmp", out_path)


def known():
    """(findings, fixed) of known_findings.txt"""
    finds, fixed = {}, []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                fixed.append(line)
            elif line.startswith("finding:"):
                parts = line[len("finding:"):].split(None, 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                finds[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return finds, fixed


def run_task(task, tmp, env):
    out = os.path.join(tmp, digest(json.dumps(task, sort_keys=True)) + ".json")
    work = tempfile.mkdtemp(dir=tmp, prefix="w")
    limit = WORKER_LIMIT[task["tier"]]
    p = subprocess.Popen([PY, "-m", "lib.runner", json.dumps(task), out], cwd=HERE,
                         env=dict(env, TMPDIR=work), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        so, se = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        so, se = p.communicate()
        rc = "no end after %d s" % limit
    shutil.rmtree(work, ignore_errors=True)
    try:
        d = json.load(open(out))
        return d
    except Exception:
        item = ""
        try:
            item = open(out + ".at").read()
        except Exception:
            pass
        return {"dead": rc, "at": item, "stderr": se[-1500:].decode("utf8", "replace")}


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--targets")
    ap.add_argument("--comps")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="xpv-")
    env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), PYTHONHASHSEED="0",
               PYTHONPATH="", PYTHONUTF8="1", VERIF_TIER=tier)
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    try:
        return _main(a, tier, t0, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(a, tier, t0, tmp, env):
    from lib import props

    spec = props.PROPS[a.prop]
    tasks = []
    if a.replay:
        info = json.load(open(os.path.join(a.replay, "info.json")))
        tasks.append(dict(info["task"], only=info["only"]))
    else:
        for comp in spec["components"]:
            name, targets, shards = comp["name"], comp["targets"](tier), comp.get("shards", {}).get(tier, 1)
            if a.comps and name not in a.comps.split(","):
                continue
            for t in targets:
                if a.targets and t not in a.targets.split(","):
                    continue
                for s in range(shards):
                    tasks.append({"prop": a.prop, "comp": name, "target": t, "seed": a.seed, "tier": tier,
                                  "shard": s, "shards": shards, "arg": comp.get("arg")})
    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda t: run_task(t, tmp, env), tasks))

    evaluations = events = 0
    distinct, samples, counts, skipped = set(), [], {}, {}
    failures, errors, per = [], [], {}
    for task, r in zip(tasks, results):
        where = "%s@%s" % (task["comp"], task["target"])
        if "dead" in r:
            if r["at"]:
                failures.append((task, {"key": "died:%s@%s" % (r["at"], task["target"]),
                                        "detail": "the process running x-python died (%s) at %s: %s"
                                        % (r["dead"], r["at"], r["stderr"][-600:]),
                                        "files": {}, "info": {"only": r["at"]}}))
            else:
                errors.append("%s: worker died (%s): %s" % (where, r["dead"], r["stderr"]))
            continue
        if r["error"]:
            errors.append("%s: %s" % (where, r["error"]))
        evaluations += r["evaluations"]
        events += r["events"]
        distinct.update(task["target"] + d for d in r["distinct"])
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        for k, n in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + n
        p = per.setdefault(where, [0, 0, 0])
        p[0] += r["evaluations"]
        p[1] += r["events"]
        p[2] += len(r["distinct"])
        if a.v:
            print("%-28s shard %d eval %5d events %7d distinct %5d fail %d  %.1fs %s" % (
                where, task["shard"], r["evaluations"], r["events"], len(r["distinct"]), len(r["failures"]),
                r["wall"], r["skipped"] or ""))
        samples += [{"where": where, "case": s} for s in r["samples"][:1]]
        failures += [(task, f) for f in r["failures"]]

    finds, _ = known()
    hit, bad = {}, []
    for task, f in failures:
        k = (a.prop, f["key"])
        if k in finds:
            hit[k] = finds[k]
        else:
            bad.append((task, f))
    # findings are identified by input; say each once
    for (prop, key), text in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, key, text))
    replays = os.path.join(HERE, "replays")
    shown = set()
    for task, f in bad:
        rid = "%s-%s" % (a.prop, digest(f["key"], f["detail"]))
        if rid in shown:
            continue
        shown.add(rid)
        d = os.path.join(replays, rid)
        os.makedirs(d, exist_ok=True)
        for n, text in f["files"].items():
            with open(os.path.join(d, n), "w") as out:
                out.write(text)
        only = f["info"].get("only", f["key"])
        with open(os.path.join(d, "info.json"), "w") as out:
            json.dump({"task": task, "only": only, "key": f["key"], "detail": f["detail"], "info": f["info"]},
                      out, indent=1)
        if len(shown) <= 12:
            print("VIOLATION property=%s replay=%s" % (a.prop, d))
            print("   %s: %s" % (f["key"], f["detail"][:400].replace("\n", " | ")))
    if a.replay:
        print("replayed: %d violation(s)" % len(bad))
        return 1 if bad else 0
    step = max(1, len(samples) // 6)
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
            "samples": samples[::step][:6] or ["none"],
            "events_observed": events, "monitor_counts": counts,
            "per_component_target": {k: {"evaluations": v[0], "events": v[1], "distinct": v[2]}
                                     for k, v in sorted(per.items())},
            "not_built_for_target": skipped, "known_findings_seen": [k[1] for k in hit],
        },
        "assumptions": spec.get("assumptions", props.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    partial = a.comps or a.targets
    with open(os.path.join(HERE, "evidence", a.prop + (".partial" if partial else "") + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed %d: %d executions judged, %d events, %d distinct non-trivial, %d violation(s), %.1f s" % (
        a.prop, tier, a.seed, evaluations, events, len(distinct), len(bad), time.time() - t0))
    if bad:
        return 1
    if errors:
        for e in errors[:5]:
            print("CHECK ERROR", e)
        return 2
    if evaluations == 0 or len(distinct) < spec.get("floor", 2):
        print("CHECK ERROR: the workload observed too little (%d distinct)" % len(distinct))
        return 2
    return 0


if __name__ == "__main__":
    worker(sys.argv[1:])
