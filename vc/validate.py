"""Compare opcode sequences produced by vc with the repository's shipped .pyc files."""
import glob, os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xdis.load import load_module
from xdis.op_imports import get_opcode_module
from xdis.bytecode import get_instructions_bytes, Bytecode
from vc.compiler import compile_source, Unsupported, Options
from vc.t311 import compile311

def ops(co, opc, out, depth=0):
    seq = [(i.opname, i.arg if i.opcode not in opc.hasjabs and i.opcode not in opc.hasjrel else None) for i in Bytecode(co, opc) if i.opname != "EXTENDED_ARG"]
    out.append((co.co_name, [s[0] for s in seq]))
    for c in co.co_consts:
        if hasattr(c, "co_code"):
            ops(c, opc, out, depth + 1)

def main(dirs):
    srcs = {}
    for p in glob.glob("/repo/test/examples/**/*.py", recursive=True):
        b = os.path.basename(p)[:-3]
        srcs.setdefault(b, []).append(p)
    for d in dirs:
        n = same = 0
        diffs = collections.Counter()
        for pyc in sorted(glob.glob("/repo/test/%s/*.pyc" % d)):
            b = os.path.basename(pyc).split(".")[0]
            if b not in srcs: continue
            try:
                r = load_module(pyc)
            except Exception as e:
                continue
            v, co, impl = r[0], r[3], r[4]
            opc = get_opcode_module(v, impl)
            want = []; ops(co, opc, want)
            wantd = {}
            for k, s in want: wantd.setdefault(k, []).append(s)
            try:
                source = open(srcs[b][0]).read()
                mine = (compile311(source, b) if v[:2] == (3, 11) else
                        compile_source(source, v[:2], "pypy" in d, opt=Options()))
            except (Unsupported, SyntaxError) as e:
                diffs["unsupported %s" % e] += 1
                continue
            got = []; ops(mine, opc, got)
            gotd = {}
            for k, s in got: gotd.setdefault(k, []).append(s)
            for k in wantd:
                for i, s in enumerate(wantd[k]):
                    n += 1
                    g = gotd.get(k, [])
                    g = g[i] if i < len(g) else []
                    a = [x for x in s if x not in ("NOP",)]
                    h = [x for x in g if x not in ("NOP",)]
                    if a == h: same += 1
                    else:
                        j = 0
                        while j < min(len(a), len(h)) and a[j] == h[j]: j += 1
                        diffs[("%s want %s got %s" % (k if k.startswith("<") else "fn", a[max(0,j-1):j+2], h[max(0,j-1):j+2]))] += 1
        print(d, "units", n, "same", same)
        for k, c in diffs.most_common(int(os.environ.get("N", "6"))): print("    ", c, k)

main(sys.argv[1:] or [os.path.basename(x) for x in sorted(glob.glob("/repo/test/bytecode-*"))])
