"""Component 'imports': import statements over a generated package tree, on disk in a scratch directory."""
import os
import re
import shutil
import sys
import tempfile
import types
import warnings

from gen import c11
from gen.base import G
from lib import harness as H
from lib import probes, py2ref
from lib.runner import digest
from lib.shrink import shrink

COUNT = {"quick": 110, "thorough": 800}


def purge():
    for m in list(sys.modules):
        if m.split(".")[0] in ("zpkg", "ztop", "zlog"):
            del sys.modules[m]


def judge(g, src, target, root):
    code = H.compile_for(src, target)
    if H.TARGETS[target][0] < (3, 7) and re.search(r"import zpkg\.\S+ as|, zpkg\.\S+ as", src) and \
            any("\nraise " in f for f in g.files.values()):
        # a package that fails is executed again, without attributes for the submodules that are loaded already:
        # "import a.b as c" falls back on sys.modules since 3.7 only, and the reference always does
        return "unsupported", "import a.b as c of a package that may fail", 0
    name = g.name_ = ("zpkg.sub.main" if g.rel else "__main__")
    outs = []
    for side in ("ref", "x"):
        purge()
        log = []
        zlog = types.ModuleType("zlog")
        zlog.T = H.make_tracer(log)
        sys.modules["zlog"] = zlog
        extra = {"T": zlog.T, "__name__": name, "__package__": "zpkg.sub" if g.rel else None, "__file__": "main.py"}
        if g.rel:
            try:
                __import__("zpkg.sub")
            except Exception:
                purge()
                return "unsupported", "package fails to import", 0
        if side == "ref":
            o = H.run_ref(src, target, extra=extra, ref_extra=py2ref.make())
        else:
            o = H.run_x(code, target, extra=extra)
        o.log = log
        # modules the two sides left loaded
        o.loaded = sorted(m for m in sys.modules if m.split(".")[0] in ("zpkg", "ztop"))
        outs.append(o)
    purge()
    ref, x = outs
    n = len(x.log)
    if x.refusals:
        return "fail", "refused: " + x.refusals[0][:150].replace("\n", " "), n
    d = H.diff(ref, x, check_globals=False)
    if d:
        return "fail", d, n
    if ref.loaded != x.loaded:
        return "fail", "loaded modules: expected %r, observed %r" % (ref.loaded, x.loaded), n
    return "ok", "", n


def run(c):
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    n = COUNT[c.tier]
    for i in range(n):
        if i % c.shards != c.shard or c.full:
            continue
        item = "imports:%d:%d" % (c.seed, i)
        if c.only and c.only != item:
            continue
        c.at(item)
        version, impl = H.TARGETS[c.target]
        g = G("imports/%d/%d" % (c.seed, i), version, impl is H.PYPY, version >= (3, 11))
        c11.make(g)
        src = g.source()
        root = tempfile.mkdtemp()
        try:
            for p, text in g.files.items():
                full = os.path.join(root, p)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w") as f:
                    f.write(text)
            sys.path.insert(0, root)
            import importlib
            importlib.invalidate_caches()
            try:
                st, detail, ev = judge(g, src, c.target, root)
            except H.Unsupported as e:
                st, detail, ev = "unsupported", str(e), 0
            if st == "unsupported":
                c.skip(detail[:60])
                continue
            c.observed((src, ev), ev, sample=src[:600])
            if st == "fail":
                kind = detail.split()[0]

                def same(s):
                    r = judge(g, s, c.target, root)
                    return r[0] == "fail" and r[1].split()[0] == kind
                small = shrink(src, same, 10)
                files = {"prog.py": src, "small.py": small}
                files.update({p.replace("/", "__"): t for p, t in g.files.items()})
                c.fail("imports:%s@%s" % (digest(src), c.target), detail, files, {"only": item})
        finally:
            sys.path[:] = [p for p in sys.path if p != root]
            shutil.rmtree(root, ignore_errors=True)
